""" Helpers shared by harnesses; only the public interface of lulua is used """

KEYBOARD = 'ibmpc105'


def names (comb):
    """ hashable description of a button combination """
    return (frozenset (b.name for b in comb.modifier), frozenset (b.name for b in comb.buttons))


# per path/native run, see reset
_cache = {}


def reset ():
    _cache.clear ()


def keyboard ():
    from lulua.keyboard import defaultKeyboards
    if 'kb' not in _cache:
        _cache['kb'] = defaultKeyboards[KEYBOARD]
    return _cache['kb']


def load (layout):
    """ shipped layout on the shipped keyboard """
    from lulua.layout import defaultLayouts
    kb = keyboard ()
    return defaultLayouts[layout].specialize (kb)


def layoutNames ():
    import os, lulua.layout
    d = os.path.join (os.path.dirname (lulua.layout.__file__), 'data', 'layouts')
    return sorted (x[:-5] for x in os.listdir (d) if x.endswith ('.yaml'))


def small (layers, name='small'):
    """ layers: list of (list of modifier name tuples, {button name: text}) """
    from lulua.layout import GenericLayout
    data = {'name': name, 'layout': [{'modifier': [list (x) for x in m], 'layer': l} for m, l in layers]}
    return GenericLayout.deserialize (data).specialize (keyboard ())


def mapping (layout):
    """ [(text, modifier set, button)] of all layers, in order """
    r = []
    for l in layout.layers:
        for btn, text in l.layout.items ():
            for m in l.modifier:
                r.append ((text, m, btn))
    return r


def hand (name):
    """ hand of a key by the naming convention of the keyboard description """
    if name[:2] == 'CD':
        return 'R'
    return 'L' if name[1] == 'l' else 'R'


def events (ctx, p, pattern, combs):
    """ stream of typing events; pattern: one character per event
    p(ress of any of combs), s(kip of any character), ?(either) """
    from lulua.writer import SkipEvent
    r = []
    for i, k in enumerate (pattern):
        if k == '?':
            k = ctx.fork (f'{p}kind{i}', ['p', 's'])
        if k == 's':
            r.append (SkipEvent (ctx.char (f'{p}skip{i}')))
        else:
            r.append (ctx.pick (f'{p}comb{i}', combs))
    return r


def isskip (e):
    return type (e).__name__ == 'SkipEvent'


def press (kb, key, mods=()):
    from lulua.layout import ButtonCombination
    return ButtonCombination (frozenset (kb[m] for m in mods), frozenset ([kb[key]]))


def total (l):
    """ number of true conditions """
    n = 0
    for x in l:
        n = n + (1 if x else 0)
    return n


class patched:
    """ replace names of a module (whether it has them or not) within a block,
    however it calls them """
    def __init__ (self, mod, **names):
        self.mod, self.names = mod, names

    def __enter__ (self):
        from symx.aliases import plan
        self.old = []
        todo = [(self.mod, k, v) for k, v in self.names.items ()]
        for m, g, k, a in plan (self.mod, tuple (self.names)):
            v = self.names[k]
            if a is None:
                todo.append ((m, g, v))
            elif hasattr (v, a):
                todo.append ((m, g, getattr (v, a)))
        for m, k, v in todo:
            self.old.append ((m, k, k in vars (m), vars (m).get (k)))
            setattr (m, k, v)

    def __exit__ (self, *a):
        for m, k, had, v in self.old:
            if had:
                setattr (m, k, v)
            else:
                delattr (m, k)
        return False


class Quiet:
    """ no logging """
    INFO = DEBUG = WARNING = ERROR = 0

    def __getattr__ (self, k):
        return lambda *a, **k: None


class Bar:
    """ no progress bar """
    def __init__ (self, *a, **k):
        pass

    def __call__ (self, *a, **k):
        return self

    def __iter__ (self):
        return iter (())

    def __enter__ (self):
        return self

    def __exit__ (self, *a):
        return False

    def __getattr__ (self, k):
        return self

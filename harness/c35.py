""" Command line: what was asked for is done, with the options given """
import sys, types
from .common import patched, Quiet, keyboard, press

PRELOAD = ['argparse', 'lulua.stats', 'lulua.plot', 'lulua.render', 'lulua.layout', 'lulua.optimize', 'lulua.text', 'lulua.keyboard', 'lulua.carpalx']
# parses symbolic arguments
INSTRUMENT = ['argparse']
FUNCTIONS = ['lulua.stats.main', 'lulua.render.render', 'lulua.render.yamlload', 'lulua.layout.importFrom', 'lulua.optimize.optimize', 'lulua.optimize.parsePin', 'lulua.text.write', 'argparse.ArgumentParser.parse_args']
BOUNDS = {
    'quick': 'lulua-analyze, lulua-render and lulua-import with every command, lulua-optimize (2197 triads) and lulua-write (9 chains of filters); options present or not, short and long, in both orders; names of layouts, keyboards and files of 1-2 symbolic characters (not starting with a dash), numbers of 1-2 symbolic digits, fractions of 2 symbolic digits; unknown commands and orders of 3 symbolic characters',
    'thorough': 'names of 1-3 symbolic characters, numbers of up to 4 digits, unknown words of 2-6 characters'}
OUTSIDE = 'abbreviated options, running without any command; what the commands do (other properties); pins of single keys and exchanges (C16), options of lulua-report and lulua-extract-mediawiki (C33, C34); commands implemented by functions of other names or called with anything but the parsed arguments (not decided)'

ANALYZE = {'pretty': 'pretty', 'combine': 'combine', 'letterfreq': 'letterfreq', 'triadfreq': 'triadfreq', 'triadeffortdata': 'triadEffortData', 'triadeffortplot': 'triadEffortPlot',
    'keyheatmap': 'keyHeatmap', 'layoutstats': 'layoutstats', 'latinime': 'latinImeDict', 'corpusstats': 'corpusStats'}
RENDER = {'svg': 'renderSvg', 'xmodmap': 'renderXmodmap', 'keyman': 'renderKeyman', 'ask': 'renderAsk', 'winkbd': 'renderWinKbd', 'keylayout': 'renderKeylayout', 'klavaro': 'renderKlavaro'}
IMPORT = {'klc': 'importKlc'}


class Bypass (Exception):
    """ a real command was run """


class Stdin:
    @property
    def buffer (self):
        raise Bypass ()

    def read (self, *a):
        raise Bypass ()

    __iter__ = read


class Null:
    buffer = None

    def write (self, s):
        pass

    def flush (self):
        pass


OPENED = []


class File:
    def __init__ (self, name, mode):
        self.name, self.mode = name, mode
        self.content = b'key: loaded\n' if 'b' in mode else 'key: loaded\n'

    def read (self, *a):
        r = self.content
        self.content = r[:0]
        return r

    def __enter__ (self):
        return self

    def __exit__ (self, *a):
        return False

    def close (self):
        pass


class Yaml:
    def safe_load (self, fd):
        return {'key': 'loaded'}


def run (ctx, module, entry, commands, argv, missing=None):
    """ returns ([(command, arguments)], returned, status of exit) """
    import importlib, argparse
    import lulua.plot as plot
    m = importlib.import_module ('lulua.'+module)
    calls = []
    ret = ctx.int ('status', 0, 255)

    def recorder (n):
        def f (*a, **k):
            if len (a) != 1 or k:
                ctx.undecided ('commands called with something else')
            calls.append ((n, a[0]))
            return ret
        return f

    def fakeopen (name, mode='r', *a, **k):
        if missing is not None and name == missing:
            raise FileNotFoundError (name)
        if 'b' not in mode:
            OPENED.append (name)
        return File (name, mode)
    rec = {f: recorder (c) for c, f in commands.items ()}
    for f in rec:
        if not callable (getattr (m, f, None)):
            ctx.undecided ('commands have other names')
    names = dict (rec, logging=Quiet (), open=fakeopen)
    OPENED.clear ()
    if module == 'render':
        names['yaml'] = Yaml ()
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    sys.argv, sys.stdin, sys.stdout, sys.stderr = ['lulua'] + argv, Stdin (), Null (), Null ()
    r, status = None, None
    # other references to the same functions
    swapped = []
    for n, f in rec.items ():
        o = getattr (m, n)
        if isinstance (o, types.FunctionType) and not o.__closure__:
            swapped.append ((n, o, o.__code__, o.__defaults__, o.__kwdefaults__))
            o.__globals__['c35_'+n] = f
            g = {}
            exec (f'def f (*a, **k): return c35_{n} (*a, **k)', g)
            o.__code__ = g['f'].__code__
            o.__defaults__ = o.__kwdefaults__ = None
    try:
        with patched (m, **names), patched (plot, **{k: v for k, v in rec.items () if hasattr (plot, k)}), patched (argparse, open=fakeopen):
            r = getattr (m, entry) ()
    except SystemExit as e:
        status = e.code
    except Bypass:
        ctx.undecided ('commands are found in another way')
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
        for n, o, c, d, kd in swapped:
            o.__code__, o.__defaults__, o.__kwdefaults__ = c, d, kd
            del o.__globals__['c35_'+n]
    return calls, r, status, ret


def word (ctx, name, n):
    s = ctx.str (name, n)
    for c in s:
        ctx.assume ((ord (c) < 0xd800) | (ord (c) > 0xdfff))
    ctx.assume (s[0] != '-')
    return s


def option (ctx, name, short, long, value):
    """ any way to write it, or None """
    w = ctx.fork (name+'?', ['none', 'short', 'long', 'equals'])
    if w == 'none':
        return []
    if w == 'short':
        return [short, value]
    return [long, value] if w == 'long' else [long+'='+value]


def common (ctx, n):
    """ layout and keyboard; returns (arguments, layout, keyboard) """
    l, k = word (ctx, 'layout', n), word (ctx, 'keyboard', n)
    a = option (ctx, 'l', '-l', '--layout', l)
    # not all combinations
    b = option (ctx, 'k', '-k', '--keyboard', k) if len (a) == 2 else []
    argv = a+b
    if a and b and ctx.fork ('swap', [False, True]):
        argv = b+a
    return argv, l if a else None, k if b else 'ibmpc105'


def single (ctx, cmd, calls, r, ret, status):
    ctx.check (status is None, 'valid arguments are accepted')
    ctx.check (len (calls) == 1 and calls[0][0] == cmd, 'the command is run, and nothing else')
    ctx.check (r == ret, 'exit status is the one of the command')
    return calls[0][1]


def analyze (ctx, cmd, n):
    argv, layout, kb = common (ctx, n)
    argv = argv+[cmd]
    if cmd == 'corpusstats':
        f = word (ctx, 'file', n)
        argv = argv+[f]
    calls, r, status, ret = run (ctx, 'stats', 'main', ANALYZE, argv)
    a = single (ctx, cmd, calls, r, ret, status)
    ctx.check (a.layout == layout and a.keyboard == kb, 'layout and keyboard')
    if cmd == 'corpusstats':
        m = a.metadata
        ctx.check ((m.name if isinstance (m, File) else m) == f, 'metadata file')
        ctx.check (not isinstance (m, File) or m.mode in ('r', 'rb', 'rt'), 'metadata file is read')
    if cmd == 'triadfreq':
        ctx.check (a.limit == 0 and a.cutoff == 0.5 and a.sort == 'weight' and not a.reverse, 'defaults')
    ctx.observe (cmd, kb)


def triadfreq (ctx, n, digits):
    """ options of this command """
    limit = ctx.str ('limit', digits, '0123456789')
    c = ctx.str ('cutoff', 2, '0123456789')
    sort = ctx.fork ('sort', ['weight', 'effort', 'combined'])
    n = option (ctx, 'n', '-n', '--limit', limit)
    c_ = option (ctx, 'c', '-c', '--cutoff', '0.'+c) if len (n) in (0, 2) else []
    s = option (ctx, 's', '-s', '--sort', sort) if len (n) in (0, 1) else []
    rev = ctx.fork ('r', [[], ['-r'], ['--reverse']])
    what = [n, c_, s, rev]
    if ctx.fork ('order', [False, True]):
        what = what[::-1]
    argv = ['-l', 'x', 'triadfreq']
    for x in what:
        argv = argv+x
    calls, r, status, ret = run (ctx, 'stats', 'main', ANALYZE, argv)
    a = single (ctx, 'triadfreq', calls, r, ret, status)
    ctx.check (a.limit == (int (limit) if n else 0), 'limit')
    ctx.close (a.cutoff, int (c)/100 if c_ else 0.5, 'cutoff')
    ctx.check (a.sort == (sort if s else 'weight'), 'order')
    ctx.check (a.reverse == (len (rev) == 1), 'reversed')
    ctx.observe (len (argv))


def render (ctx, cmd, n):
    argv, layout, kb = common (ctx, n)
    out = word (ctx, 'output', n)
    style = heat = None
    argv = argv+[cmd]
    if cmd == 'svg':
        f = word (ctx, 'style', 1)
        h = word (ctx, 'heatmap', 1)
        a = option (ctx, 's', '-s', '--style', f)
        style = f if a else None
        b = ['--heatmap', h] if len (a) == 2 and ctx.fork ('h', [True, False]) else []
        heat = h if b else None
        argv = argv+a+b
    argv = argv+[out]
    calls, r, status, ret = run (ctx, 'render', 'render', RENDER, argv)
    a = single (ctx, cmd, calls, r, ret, status)
    ctx.check (a.layout == layout and a.keyboard == kb, 'layout and keyboard')
    ctx.check (a.output == out, 'output file')
    if cmd == 'svg':
        if style is None:
            ctx.check (b'{' in a.style.read (), 'default style')
        else:
            ctx.check (a.style.name == style and a.style.mode == 'rb', 'style')
        if heat is None:
            ctx.check (not a.heatmap, 'no heat map')
        else:
            ctx.check (a.heatmap == {'key': 'loaded'} and len (OPENED) == 1 and OPENED[0] == heat, 'heat map')
    ctx.observe (cmd, kb)


def imports (ctx, n):
    f = word (ctx, 'file', n)
    calls, r, status, ret = run (ctx, 'layout', 'importFrom', IMPORT, [f, 'klc'])
    a = single (ctx, 'klc', calls, r, ret, status)
    ctx.check (a.input == f, 'file')
    ctx.observe (1)


def invalid (ctx, n, kind):
    w = ctx.str ('word', n, 'abcdefghijklmnopqrstuvwxyz')
    mod, entry, commands, argv = 'stats', 'main', ANALYZE, None
    if kind == 'command':
        ctx.assume (all ([w != x for x in commands]))
        argv = [w]
    elif kind == 'format':
        mod, entry, commands = 'render', 'render', RENDER
        ctx.assume (all ([w != x for x in commands]))
        argv = [w, 'out']
    elif kind == 'sort':
        ctx.assume (all ([w != x for x in ('weight', 'effort', 'combined')]))
        argv = ['triadfreq', '-s', w]
    elif kind == 'limit':
        argv = ['triadfreq', '-n', w]
    elif kind == 'heatmap':
        mod, entry, commands = 'render', 'render', RENDER
        argv = ['svg', '--heatmap', w, 'out']
    elif kind == 'output':
        mod, entry, commands = 'render', 'render', RENDER
        argv = ['-l', w, 'ask']
    calls, r, status, ret = run (ctx, mod, entry, commands, argv, missing=w)
    ctx.check (status not in (None, 0) and not calls, 'invalid arguments are rejected')
    ctx.observe (kind)


class Names:
    """ in place of the shipped layouts or keyboards, records what was asked for """
    def __init__ (self, value):
        self.value, self.asked = value, []

    def __getitem__ (self, k):
        self.asked.append (k)
        return self.value


class Empty:
    """ standard input """
    buffer = None

    def __iter__ (self):
        return iter ([])


class Loaded:
    def __init__ (self, data):
        self.data = data
        self.used = False

    def load (self, fd, *a, **k):
        self.used = True
        return self.data


def execute (entry, argv):
    """ run entry, returns exit status """
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    sys.argv, sys.stdin, sys.stdout, sys.stderr = ['lulua'] + argv, Empty (), Null (), Null ()
    try:
        entry ()
    except SystemExit as e:
        return e.code
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
    return None


def optimize (ctx, n, digits, bad=None):
    """ what lulua-optimize hands to the optimizer """
    import inspect
    import lulua.optimize as o
    from lulua.layout import GenericLayout
    from lulua.carpalx import models
    kb = keyboard ()
    buttons = [b for b in kb.keys () if b.name in ('Dl1', 'Dl2', 'Dl3', 'Dl4', 'Dr3', 'Dr4', 'Dr5', 'Dr6', 'Cl1', 'Cl2', 'Cl3', 'Cr6', 'Cr7')]
    generic = GenericLayout.deserialize ({'name': 'x', 'layout': [{'modifier': [[]], 'layer': {b.name: 'x' for b in buttons}}, {'modifier': [['El_shift']], 'layer': {'Dl1': 'y'}}]})
    combs = [press (kb, b.name) for b in buttons]
    triads = {}
    for a in combs:
        for b in combs:
            for c in combs:
                # no two equal, not sorted
                triads[(a, b, c)] = 1+(len (triads)*7) % 2203
    boards, layouts, stats = Names (kb), Names (generic), Loaded ({'triads': Triads (triads)})
    real = inspect.signature (o.LayoutOptimizer.__init__)
    made, ran, mutated = [], [], []

    class Optimizer:
        def __init__ (self, *a, **k):
            made.append (real.bind (self, *a, **k).arguments)

        def mutate (self, *a, **k):
            mutated.append ((a, k))

        def run (self, steps=10000):
            ran.append (steps)
            raise KeyboardInterrupt ()
    argv = []
    number = ctx.str ('number', digits, '0123456789')
    what = ctx.fork ('what', ['none', 'limit', 'steps', 'random', 'model', 'pin', 'keyboard']) if bad is None else bad
    layout, board = word (ctx, 'layout', n), word (ctx, 'keyboard', n) if what == 'keyboard' else 'ibmpc105'
    argv = ctx.fork ('l', [['-l', layout], ['--layout', layout], ['--layout='+layout]])
    limit, steps, model, pins = 0, 10000, 'mod01', []
    if what == 'limit':
        argv = argv+['--triad-limit', number]
        limit = int (number)
    elif what == 'steps':
        argv = ctx.fork ('s', [['-n', number], ['--steps', number]])+argv
        steps = int (number)
    elif what == 'random':
        argv = argv+ctx.fork ('r', [['-r'], ['--randomize']])
    elif what == 'model':
        model = ctx.fork ('m', sorted (models))
        argv = argv+ctx.fork ('mm', [['-m', model], ['--model='+model]])
    elif what == 'pin':
        layer = ctx.fork ('layer', [0, 1])
        argv = argv+ctx.fork ('pp', [['-p', str (layer)], ['--pin', str (layer)]])
        pins = [(layer, None)]
    elif what == 'keyboard':
        argv = argv+ctx.fork ('kk', [['-k', board], ['--keyboard='+board]])
    elif what.startswith ('bad'):
        w = ctx.str ('word', 3, 'abcdefghijklmnopqrstuvwxyz')
        argv = argv+[what[3:], w]
    with patched (o, LayoutOptimizer=Optimizer, defaultKeyboards=boards, defaultLayouts=layouts, pickle=stats, logging=Quiet ()):
        status = execute (o.optimize, argv)
    if bad is not None:
        ctx.check (status not in (None, 0) and not made and not ran, 'invalid arguments are rejected')
        ctx.observe (bad)
        return
    if not stats.used or status is None and not (made and ran):
        ctx.undecided ('optimizer is run in another way')
    ctx.check (status is None, 'valid arguments are accepted')
    ctx.check (len (made) == 1 and len (ran) == 1, 'the optimizer is run')
    ctx.check (all ([x == layout for x in layouts.asked]) and len (layouts.asked) > 0, 'layout')
    ctx.check (all ([x == board for x in boards.asked]) and len (boards.asked) > 0, 'keyboard')
    ctx.check (ran[0] == steps, 'number of steps')
    a = made[0]
    ctx.check ((len (mutated) > 0) == (what == 'random'), 'randomized if asked for')
    ctx.check (a['model'] is models[model], 'model')
    ctx.check (sorted (a['pins']) == pins, 'pins')
    ctx.check (all ([k == v for k, v in a['buttonMap'].items ()]), 'starts with the layout as it is')
    t = list (a['triads'])
    want = sorted (triads.values (), reverse=True)
    m = len (want)
    if limit > 0 and limit < m:
        m = limit
    ctx.check (len (t) == m, 'number of triads')
    ctx.check ([v for _, v in t] == want[:len (t)], 'most frequent triads')
    ctx.observe (what)


class Triads:
    def __init__ (self, triads):
        self.triads = triads


class Pipe:
    """ queue of no workers """
    def __init__ (self, *a):
        pass

    def put (self, *a, **k):
        pass

    def get (self, *a, **k):
        return None

    def empty (self):
        return True

    def close (self):
        pass

    join_thread = cancel_join_thread = close


def write (ctx, n, digits, bad=None):
    """ what lulua-write hands to its workers """
    import multiprocessing
    import lulua.text as t
    started = []

    class Worker:
        def __init__ (self, group=None, target=None, name=None, args=(), kwargs={}, daemon=None):
            self.target, self.args, self.kwargs = target, args, kwargs
            self.exitcode = 0

        def start (self):
            started.append (self)

        def join (self, *a):
            pass

        def is_alive (self):
            return False

        terminate = kill = close = join
    kb = keyboard ()
    layout = object ()

    class Generic:
        def specialize (self, k):
            if k is not kb:
                raise ValueError ('keyboard')
            return layout
    boards, layouts = Names (kb), Names (Generic ())
    lname, kname = word (ctx, 'layout', n), word (ctx, 'keyboard', n)
    number = ctx.str ('number', digits, '0123456789')
    what = ctx.fork ('what', ['none', 'jobs', 'keyboard', 'benchmark', 'verbose']) if bad is None else bad
    jobs, board = 3, 'ibmpc105'
    filters = ctx.fork ('filters', [['lines'], ['file', 'text'], ['file', 'brotli', 'tar', 'aljazeera'], ['text', 'file'], ['file', 'xml', 'tei2'], ['json', 'mediawikimarkdown'], ['epub'], ['file', 'xml', 'opensubtitles'], ['file', 'bbcarabic']]) if what == 'none' else ['file', 'text']
    opt = []
    if what == 'jobs':
        ctx.assume (int (number) > 0 and int (number) < 12)
        opt = ctx.fork ('jj', [['-j', number], ['--jobs', number], ['--jobs='+number]])
        jobs = int (number)
    elif what == 'keyboard':
        opt = ctx.fork ('kk', [['-k', kname], ['--keyboard', kname]])
        board = kname
    elif what == 'benchmark':
        opt = ['--benchmark']
    elif what == 'verbose':
        opt = ctx.fork ('vv', [['-v'], ['--verbose']])
    elif what == 'filter':
        w = ctx.str ('word', 3, 'abcdefghijklmnopqrstuvwxyz')
        ctx.assume (w != 'xml' and w != 'tar')
        filters = ctx.fork ('where', [[w], ['file', w], [w, 'text']])
    elif what == 'number':
        opt = ['-j', ctx.str ('word', 2, 'abcdefghijklmnopqrstuvwxyz')]
    argv = opt+[lname]+filters if what in ('filter', 'number') or ctx.fork ('first', [True, False]) else [lname]+filters+opt
    if what == 'nofilter':
        argv = [lname]
    three = lambda: 3
    with patched (t, Process=Worker, Queue=Pipe, cpu_count=three, defaultKeyboards=boards, defaultLayouts=layouts, logging=Quiet ()), patched (multiprocessing, Process=Worker, Queue=Pipe, cpu_count=three):
        status = execute (t.write, argv)
    if bad is not None:
        ctx.check (status not in (None, 0) and not started, 'invalid arguments are rejected')
        ctx.observe (bad)
        return
    ctx.check (status is None, 'valid arguments are accepted')
    workers = [w for w in started if any ([x is layout for x in list (w.args)+list (w.kwargs.values ())])]
    if not workers:
        ctx.undecided ('workers are started in another way')
    if what != 'jobs' and len (workers) != 3:
        # number of processors is determined in another way or when loaded
        import os
        ctx.check (len (workers) in (os.cpu_count (), len (os.sched_getaffinity (0))), 'default number of workers')
    else:
        ctx.check (len (workers) == jobs, 'number of workers')
    ctx.check (all ([x == lname for x in layouts.asked]) and len (layouts.asked) > 0, 'layout')
    ctx.check (all ([x == board for x in boards.asked]) and len (boards.asked) > 0, 'keyboard')
    for w in workers:
        v = list (w.args)+list (w.kwargs.values ())
        fs = [x for x in v if isinstance (x, (list, tuple)) and len (x) > 0 and callable (x[0])]
        if len (fs) != 1:
            ctx.undecided ('filters are handed over in another way')
        ctx.check (len (fs[0]) == len (filters) and all ([x is t.filterAvail[y] for x, y in zip (fs[0], filters)]), 'filters in the given order')
        flags = [x for x in v if x is True or x is False]
        if len (flags) == 1:
            ctx.check (flags[0] == (what == 'benchmark'), 'benchmark')
    ctx.observe (what)


def cases (tier):
    q = tier == 'quick'
    r = []
    for n in (1, 2) if q else (1, 2, 3):
        for c in ANALYZE:
            r.append ((f'analyze-{c}{n}', analyze, dict (cmd=c, n=n)))
        for c in RENDER:
            r.append ((f'render-{c}{n}', render, dict (cmd=c, n=n)))
        r.append ((f'import{n}', imports, dict (n=n)))
    for d in (1, 2) if q else (1, 2, 3, 4):
        r.append ((f'triadfreq{d}', triadfreq, dict (n=1, digits=d)))
    for d in (1, 2) if q else (1, 2, 3):
        r.append ((f'optimize{d}', optimize, dict (n=d, digits=d)))
        r.append ((f'write{d}', write, dict (n=d, digits=d)))
    for k in ('-m', '-n', '--steps', '--triad-limit'):
        r.append ((f'optimize-invalid{k}', optimize, dict (n=1, digits=1, bad='bad'+k)))
    for k in ('filter', 'number', 'nofilter'):
        r.append ((f'write-invalid-{k}', write, dict (n=1, digits=1, bad=k)))
    for k in ('command', 'format', 'sort', 'limit', 'heatmap', 'output'):
        for n in (3, ) if q else (2, 3, 4, 5, 6):
            r.append ((f'invalid-{k}{n}', invalid, dict (n=n, kind=k)))
    return r

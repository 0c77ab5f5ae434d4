"""
Heap snapshot of the modules under test, restored before every path, so that
module level state (caches, counters, intern tables) cannot leak between
explored paths.
"""
import sys, types, enum, functools, weakref, collections
from .containers import SDict, SSet, SFrozenSet


def children (o):
    t = type (o)
    if isinstance (o, dict):
        return [dict.__getitem__ (o, k) for k in dict.__iter__ (o)] + list (dict.__iter__ (o)) + (
                [o.__dict__] if isinstance (o, SDict) and o.__dict__ else [])
    if isinstance (o, (list, tuple, collections.deque)):
        return list (list.__iter__ (o)) if isinstance (o, list) else list (o)
    if isinstance (o, (set, frozenset)):
        return list ((set if isinstance (o, set) else frozenset).__iter__ (o))
    return None


class Snapshot:
    def __init__ (self, names):
        self.names = names
        self.saved = []
        self.caches = []
        seen = set ()
        keep = []
        stack = []
        for n in names:
            m = sys.modules.get (n)
            if m is not None:
                stack.append (m.__dict__)
        while stack:
            o = stack.pop ()
            if id (o) in seen:
                continue
            if o is None or isinstance (o, (int, float, str, bytes, bool, complex)):
                continue
            seen.add (id (o))
            keep.append (o)
            if isinstance (o, types.ModuleType):
                continue
            if hasattr (o, 'cache_clear') and callable (getattr (o, 'cache_clear', None)):
                self.caches.append (o)
                w = getattr (o, '__wrapped__', None)
                if w is not None:
                    stack.append (w)
                continue
            c = children (o)
            if c is not None:
                if isinstance (o, dict):
                    self.saved.append ((self.restore_dict, o, [(k, dict.__getitem__ (o, k)) for k in dict.__iter__ (o)],
                        o.nbox if isinstance (o, SDict) else None))
                elif isinstance (o, list):
                    self.saved.append ((self.restore_list, o, list (o), None))
                elif isinstance (o, set):
                    self.saved.append ((self.restore_set, o, set (set.__iter__ (o)), (o.nbox, list (o.order)) if isinstance (o, SSet) else None))
                elif isinstance (o, collections.deque):
                    self.saved.append ((self.restore_deque, o, list (o), None))
                stack.extend (c)
                continue
            if isinstance (o, types.FunctionType):
                if o.__module__ in names:
                    stack.extend (o.__defaults__ or ())
                    stack.extend ((o.__kwdefaults__ or {}).values ())
                    if o.__dict__:
                        stack.append (o.__dict__)
                    for cell in o.__closure__ or ():
                        try:
                            v = cell.cell_contents
                        except ValueError:
                            continue
                        self.saved.append ((self.restore_cell, cell, v, None))
                        stack.append (v)
                continue
            if isinstance (o, (classmethod, staticmethod)):
                stack.append (o.__func__)
                continue
            if isinstance (o, property):
                stack.extend ([o.fget, o.fset, o.fdel])
                continue
            if isinstance (o, types.MethodType):
                stack.extend ([o.__func__, o.__self__])
                continue
            if isinstance (o, functools.partial):
                stack.extend ([o.func, o.args, o.keywords])
                continue
            if isinstance (o, type):
                if o.__module__ in names and not issubclass (o, enum.Enum):
                    d = dict (o.__dict__)
                    self.saved.append ((self.restore_class, o, d, None))
                    stack.extend (d.values ())
                    stack.extend (o.__bases__)
                continue
            t = type (o)
            if isinstance (o, enum.Enum) or t.__module__ not in names:
                continue
            # instance of a class under test
            st = []
            if hasattr (o, '__dict__'):
                stack.append (o.__dict__)
            for k in t.__mro__:
                for s in getattr (k, '__slots__', ()) if not isinstance (getattr (k, '__slots__', ()), str) else (k.__slots__, ):
                    if s in ('__dict__', '__weakref__'):
                        continue
                    try:
                        v = getattr (o, s)
                    except AttributeError:
                        continue
                    st.append ((s, v))
                    stack.append (v)
            self.saved.append ((self.restore_slots, o, st, None))
        self.keep = keep

    @staticmethod
    def restore_dict (o, items, nbox):
        if len (o) == len (items):
            same = True
            for (k, v), k2 in zip (items, dict.__iter__ (o)):
                if k is not k2 or dict.__getitem__ (o, k2) is not v:
                    same = False
                    break
            if same:
                if nbox is not None:
                    o.nbox = nbox
                return
        dict.clear (o)
        for k, v in items:
            dict.__setitem__ (o, k, v)
        if nbox is not None:
            o.nbox = nbox

    @staticmethod
    def restore_list (o, items, _):
        if len (o) != len (items) or any (a is not b for a, b in zip (o, items)):
            o[:] = items

    @staticmethod
    def restore_deque (o, items, _):
        o.clear ()
        o.extend (items)

    @staticmethod
    def restore_set (o, items, extra):
        set.clear (o)
        for x in items:
            set.add (o, x)
        if extra is not None:
            o.nbox, o.order = extra[0], list (extra[1])

    @staticmethod
    def restore_cell (cell, v, _):
        try:
            if cell.cell_contents is v:
                return
        except ValueError:
            pass
        cell.cell_contents = v

    @staticmethod
    def restore_class (o, d, _):
        cur = o.__dict__
        for k in list (cur):
            if k not in d:
                delattr (o, k)
        for k, v in d.items ():
            if k in ('__dict__', '__weakref__', '__doc__'):
                continue
            if cur.get (k) is not v:
                setattr (o, k, v)

    @staticmethod
    def restore_slots (o, st, _):
        for s, v in st:
            try:
                if getattr (o, s) is v:
                    continue
            except AttributeError:
                pass
            object.__setattr__ (o, s, v)

    def restore (self):
        for f, o, st, x in self.saved:
            f (o, st, x)
        for c in self.caches:
            c.cache_clear ()

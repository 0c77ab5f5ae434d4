"""
Harness interface.  The same harness function runs
 - symbolically (SymCtx): inputs are symbolic, check() asks the solver
 - natively (ConcCtx): inputs come from a recorded assignment, check() is an
   ordinary assertion on the unmodified code
"""
from fractions import Fraction


class Violation (Exception):
    pass


class Excluded (Exception):
    """ assumption of the harness does not hold for this input (native) """


class BaseCtx:
    symbolic = False

    def iff (self, a, b):
        return bool (a) == bool (b)


class ConcCtx (BaseCtx):
    def __init__ (self, inputs):
        self.inputs = inputs
        self.obs = []
        self.missing = []
        self.nchecks = 0

    def _get (self, name, default):
        if name not in self.inputs:
            self.missing.append (name)
            return default
        return self.inputs[name]

    def int (self, name, lo=None, hi=None):
        return int (self._get (name, lo if lo is not None else (min (hi, 0) if hi is not None else 0)))

    def real (self, name, lo=None, hi=None):
        v = self._get (name, lo if lo is not None else (hi if hi is not None else 0))
        return float (Fraction (v))

    def bool (self, name):
        return bool (self._get (name, False))

    def pick (self, name, options):
        return options[int (self._get (name, 0))]

    fork = pick

    def char (self, name, alphabet=None):
        return chr (int (self._get (name, ord (alphabet[0]) if alphabet else 97)))

    def str (self, name, n, alphabet=None):
        v = self._get (name, [ord (alphabet[0]) if alphabet else 97]*n)
        return ''.join (map (chr, v))

    def bytes (self, name, n, alphabet=None):
        return bytes (self._get (name, [alphabet[0] if alphabet else 97]*n))

    def permutation (self, name, n):
        return list (self._get (name, list (range (n))))

    def newprocess (self):
        import sys
        for m in list (sys.modules):
            if m == 'lulua' or m.startswith ('lulua.'):
                del sys.modules[m]
        from harness import common
        common.reset ()

    def picklefile (self, objs=()):
        import io, pickle
        r = io.BytesIO ()
        for o in objs:
            pickle.dump (o, r)
        r.seek (0)
        return r

    def unpickle (self, f):
        """ first object written to f """
        import pickle
        f.seek (0)
        return pickle.load (f)

    def unpickleall (self, f):
        import pickle
        f.seek (0)
        r = []
        while True:
            try:
                r.append (pickle.load (f))
            except EOFError:
                return r

    def assume (self, c):
        if not c:
            raise Excluded ()

    def undecided (self, why):
        """ the code does something this harness cannot judge """
        raise Excluded (why)

    def check (self, c, label):
        self.nchecks += 1
        if not c:
            raise Violation (label)

    def close (self, a, b, label, eps=1e-6):
        self.nchecks += 1
        if not abs (a-b) <= eps*max (1, abs (a), abs (b)):
            raise Violation (f'{label}: {a!r} vs {b!r}')

    def observe (self, *v):
        self.obs.append (canon (v))


def canon (v):
    """ canonical, JSON-able form of an observation """
    from enum import Enum
    from decimal import Decimal
    if v is None or isinstance (v, (bool, str)):
        return v
    if isinstance (v, Enum):
        return canon (v.value)
    if isinstance (v, int):
        return int (v)
    if isinstance (v, (float, Decimal, Fraction)):
        return {'f': float (v)}
    if isinstance (v, bytes):
        return {'b': list (v)}
    if isinstance (v, (list, tuple)):
        return [canon (x) for x in v]
    if isinstance (v, (set, frozenset)):
        return {'s': sorted ((canon (x) for x in v), key=repr)}
    if isinstance (v, dict):
        return {'d': sorted (([canon (k), canon (x)] for k, x in v.items ()), key=repr)}
    return repr (type (v).__name__)


def same (a, b):
    if isinstance (a, dict) and 'f' in a and isinstance (b, (int, float)) and not isinstance (b, bool):
        b = {'f': float (b)}
    if isinstance (b, dict) and 'f' in b and isinstance (a, (int, float)) and not isinstance (a, bool):
        a = {'f': float (a)}
    if isinstance (a, dict) and isinstance (b, dict):
        if 'f' in a and 'f' in b:
            x, y = a['f'], b['f']
            return abs (x-y) <= 1e-6*max (1, abs (x), abs (y))
        if a.keys () != b.keys ():
            return False
        return all (same (a[k], b[k]) for k in a)
    if isinstance (a, list) and isinstance (b, list):
        return len (a) == len (b) and all (same (x, y) for x, y in zip (a, b))
    return a == b and isinstance (a, bool) == isinstance (b, bool)

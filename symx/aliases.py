""" Names under which a module refers to (parts of) something """
import sys, types, os

KNOWN = {'lulua', 'lulua.carpalx', 'lulua.keyboard', 'lulua.layout', 'lulua.optimize', 'lulua.plot', 'lulua.render', 'lulua.report', 'lulua.stats', 'lulua.text', 'lulua.util', 'lulua.winkbd', 'lulua.writer'}
PATHS = {'ET': 'xml.etree.ElementTree'}
MISSING = object ()
_cache = {}


def proper (o):
    return isinstance (o, (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.MethodType, type))


def plan (mod, names):
    """ [(module, global, name, attribute or None)]: further globals of mod, or of
    helper modules of its package, which are (attributes of) one of names """
    mods = [mod] + [m for n, m in sorted (sys.modules.items ()) if n.startswith ('lulua.') and n not in KNOWN and not n.startswith ('lulua.test') and isinstance (m, types.ModuleType)]
    key = (tuple (map (id, mods)), names)
    if key in _cache:
        return _cache[key]
    objs = {}
    for k in names:
        real = vars (mod).get (k, MISSING)
        if real is MISSING:
            real = sys.modules.get (PATHS.get (k, k), MISSING)
        if not proper (real):
            continue
        objs[id (real)] = (real, k, None)
        if isinstance (real, types.ModuleType):
            for a, o in list (vars (real).items ()):
                if not a.startswith ('_') and proper (o) and (not isinstance (o, types.ModuleType) or o.__name__.startswith (real.__name__+'.')):
                    objs.setdefault (id (o), (o, k, a))
    r = []
    for m in mods:
        for g, o in vars (m).items ():
            if (m is mod and g in names) or g.startswith ('__'):
                continue
            e = objs.get (id (o))
            if e and e[0] is o:
                r.append ((m, g, e[1], e[2]))
    _cache[key] = r
    return r

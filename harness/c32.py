""" Finding layouts and keyboards by name """
import os as realos
import yaml as realyaml
import pkg_resources as realres
from .common import patched

PRELOAD = ['lulua.util']
FUNCTIONS = ['lulua.util.YamlLoader.__init__', 'lulua.util.YamlLoader.__getitem__', 'lulua.util.YamlLoader.__iter__']
BOUNDS = {
    'quick': 'names of 1-3 symbolic characters (any Unicode but / and NUL) with and without extension; up to one file of the user (text or not) and two shipped ones, with symbolic names; listings of up to three names of up to 7 symbolic characters',
    'thorough': 'same with three shipped files and listings of four'}
OUTSIDE = 'file system and package resources (simulated: a set of names), paths with directories, directories and unreadable files, YAML itself'


class File:
    def __init__ (self, fs, id, binary=False):
        self.fs, self.id, self.binary = fs, id, binary

    def __enter__ (self):
        self.fs.opened += 1
        return self

    def __exit__ (self, *a):
        self.fs.opened -= 1
        return False

    def read (self, *a):
        return self

    def close (self):
        pass

    def __iter__ (self):
        return iter ([self])


class Files:
    """ names of files which exist """
    def __init__ (self, ctx, user, shipped, directory):
        self.ctx = ctx
        self.user, self.shipped, self.directory = user, shipped, directory
        self.opened = 0
        self.used = False

    def open (self, name, *a, **k):
        self.used = True
        for i, (n, binary) in enumerate (self.user):
            if n == name:
                return File (self, ('user', i), binary)
        raise FileNotFoundError (name)

    def stream (self, package, path):
        self.used = True
        for i, n in enumerate (self.shipped):
            if path == self.directory+'/'+n:
                return File (self, ('shipped', i))
        raise FileNotFoundError (path)

    def exists (self, package, path):
        self.used = True
        for n in self.shipped:
            if path == self.directory+'/'+n:
                return True
        return False

    def list (self, package, path):
        self.used = True
        if path != self.directory:
            raise FileNotFoundError (path)
        return list (self.shipped)


class Proxy:
    """ replaces some attributes of an object """
    def __init__ (self, obj, **names):
        self.__dict__.update (names)
        self.obj = obj

    def __getattr__ (self, k):
        return getattr (self.obj, k)


def join (a, *rest):
    for b in rest:
        if b[:1] == '/':
            a = b
        else:
            a = a+'/'+b
    return a


def load (fd):
    if fd.binary:
        raise realyaml.reader.ReaderError ('file', 0, 0, 'utf-8', 'binary')
    return ('document', fd.id)


def world (ctx, fs):
    import lulua.util as u
    y = Proxy (realyaml, safe_load=load, load=lambda fd, *a, **k: load (fd))
    res = Proxy (realres, resource_stream=fs.stream, resource_listdir=fs.list, resource_exists=fs.exists)
    path = Proxy (realos.path, join=join, exists=lambda k: any ([n == k for n, _ in fs.user]), isfile=lambda k: any ([n == k for n, _ in fs.user]))
    return patched (u, yaml=y, pkg_resources=res, os=Proxy (realos, path=path), open=fs.open)


def name (ctx, id, n, ext):
    s = ctx.str (id, n)
    for c in s:
        ctx.assume (c != '/' and c != '\0')
    return s+ext


def lookup (ctx, key, user, shipped):
    """ key, user, shipped: (length, extension) of names """
    from lulua.util import YamlLoader
    k = name (ctx, 'key', *key)
    u = [(name (ctx, f'user{i}', *x), ctx.bool (f'binary{i}')) for i, x in enumerate (user)]
    s = [name (ctx, f'shipped{i}', *x) for i, x in enumerate (shipped)]
    for i in range (len (s)):
        for j in range (i):
            ctx.assume (s[i] != s[j])
    fs = Files (ctx, u, s, 'some/dir')
    with world (ctx, fs):
        loader = YamlLoader ('some/dir', lambda x: ('loaded', x))
        try:
            r = loader[k]
        except KeyError as e:
            r = 'unknown'
    if not fs.used:
        ctx.undecided ('other means of access to files')
    want = None
    for i, (n, binary) in enumerate (u):
        if n == k and not binary:
            want = ('user', i)
    for suffix in ('.yaml', ''):
        if want is None:
            for i, n in enumerate (s):
                if n == k+suffix:
                    want = ('shipped', i)
                    break
    if want is None:
        ctx.check (r == 'unknown', 'unknown names are reported')
    else:
        ctx.check (r != 'unknown', 'existing files are found')
        ctx.check (r[0] == 'loaded' and r[1] == ('document', want), 'the first one in order is used')
    ctx.check (fs.opened == 0, 'files are closed')
    ctx.observe (r)


def listing (ctx, shipped, user):
    from lulua.util import YamlLoader
    s = [name (ctx, f'shipped{i}', *x) for i, x in enumerate (shipped)]
    for i in range (len (s)):
        for j in range (i):
            ctx.assume (s[i] != s[j])
    # a different file of the same name in the current directory
    u = [(n, False) for n in s] if user else []
    fs = Files (ctx, u, s, 'some/dir')
    with world (ctx, fs):
        r = list (YamlLoader ('some/dir', lambda x: ('loaded', x)))
    if not fs.used:
        ctx.undecided ('other means of access to files')
    for i, n in enumerate (s):
        count = len ([x for x in r if x == ('loaded', ('document', ('shipped', i)))])
        # n.yaml.yaml would take precedence over n.yaml
        shadowed = any ([x == n+'.yaml' for x in s])
        if n[0] != '.' and n[-5:] == '.yaml':
            if not shadowed:
                ctx.check (count == 1, 'every description is visited once')
        elif not any ([x+'.yaml' == n and x[0] != '.' and x[-5:] == '.yaml' for x in s]):
            ctx.check (count == 0, 'nothing else is visited')
    ctx.check (all ([x[1][1][0] == 'shipped' for x in r]), 'files of the user are not listed')
    ctx.observe (r)


def cases (tier):
    r = []
    for k in ((1, ''), (2, ''), (1, '.yaml'), (3, '')):
        for u in ((), ((k[0], k[1]), )):
            for s in ((), ((1, '.yaml'), ), ((2, '.yaml'), (2, '')), ((1, '.yaml'), (1, '')), ((1, '.yaml.yaml'), (1, '.yaml'))) + (() if tier == 'quick' else (((1, '.yaml'), (1, ''), (2, '.yaml')), )):
                r.append ((f'lookup{k[0]}{k[1]}-{len (u)}-' + '-'.join (f'{a}{b}' for a, b in s), lookup, dict (key=k, user=u, shipped=s)))
    for s in ((), ((2, '.yaml'), ), ((7, ''), ), ((2, '.yaml'), (1, '.yaml')), ((1, '.yaml'), (6, '')), ((2, '.yaml'), (6, ''), (1, '.yml'))) + (() if tier == 'quick' else (((1, '.yaml'), (2, '.yaml'), (6, ''), (7, '')), )):
        for u in (False, True):
            r.append ((f'list{int (u)}-' + '-'.join (f'{a}{b}' for a, b in s), listing, dict (shipped=s, user=u)))
    return r

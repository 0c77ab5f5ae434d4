""" Report: everything passed to the command is shown """
import unicodedata
from .common import patched, Quiet

PRELOAD = ['lulua.report']
FUNCTIONS = ['lulua.report.render', 'lulua.report.arabnum', 'lulua.report.numspace', 'lulua.report.approx', 'lulua.report.fraction']
BOUNDS = {
    'quick': 'up to two files with up to three corpora in total (and empty documents) of any (integer) size; up to three statistics of layouts with symbolic names of 1-2 characters',
    'thorough': 'up to three files with four corpora and four layouts'}
OUTSIDE = 'templates (jinja2 is replaced by a recorder), YAML, appearance'

# letters shown by their name in the text of the report
LETTERS = {'Hamzah': '\u0621', 'Alif': '\u0627', 'Alifhamzah': '\u0623', 'Wawhamzah': '\u0624', 'Yahamzah': '\u0626', 'Ba': '\u0628', 'Ta': '\u062a', 'Tha': '\u062b', 'Ra': '\u0631', 'Dal': '\u062f', 'Dhal': '\u0630', 'Qaf': '\u0642', 'Lam': '\u0644', 'Lamalif': '\u0644\u0627', 'Mim': '\u0645', 'Nun': '\u0646', 'Waw': '\u0648', 'Ya': '\u064a', 'Tamarbutah': '\u0629', 'Alifmaqsurah': '\u0649'}


class Environment:
    """ does not render, but remembers """
    last = None

    def __init__ (self, *a, **k):
        self.filters = {}
        self.globals = {}
        self.shown = []
        Environment.last = self

    def get_template (self, name, *a, **k):
        return Template (self, name)


class Template:
    def __init__ (self, env, name):
        self.env, self.name = env, name

    def stream (self, *a, **k):
        for x in a:
            k = dict (x, **k)
        self.data = k
        return self

    def dump (self, fd, *a, **k):
        self.env.shown.append ((self.name, self.data))

    def render (self, *a, **k):
        self.stream (*a, **k)
        self.dump (None)
        return ''

    def generate (self, *a, **k):
        return [self.render (*a, **k)]


class Fd:
    def __init__ (self, docs):
        self.docs = docs

    def __enter__ (self):
        return self

    def __exit__ (self, *a):
        return False

    def read (self):
        return self

    def close (self):
        pass


class Binary:
    """ pickle file """
    def __init__ (self, f):
        self.f = f

    def __enter__ (self):
        return self.f

    def __exit__ (self, *a):
        return False


class Yaml:
    def safe_load_all (self, fd):
        return iter (fd.docs)

    def load_all (self, fd, *a, **k):
        return iter (fd.docs)


class Out:
    def write (self, s):
        pass

    def flush (self):
        pass


def report (ctx, corpora, layouts):
    """ corpora: one string per file, c(orpus) or n(othing); layouts: length of names """
    import sys
    import lulua.report as m
    docs = []
    texts = {}
    for i, f in enumerate (corpora):
        l = []
        for j, k in enumerate (f):
            if k == 'c':
                d = {'source': {'name': f'{i}-{j}'}, 'stats': {'words': ctx.int (f'words{i}_{j}', 0, 10**12), 'characters': ctx.int (f'characters{i}_{j}', 0, 10**12)}}
                l.append (d)
                docs.append (d)
            else:
                l.append (None)
        texts[f'corpus{i}.yaml'] = l
    binary = {}
    stats = []
    for i, n in enumerate (layouts):
        s = {'layout': ctx.str (f'layout{i}', n), 'value': ctx.int (f'value{i}', 0, 100)}
        for o in stats:
            ctx.assume (s['layout'] != o['layout'])
        stats.append (s)
        binary[f'stats{i}.pickle'] = s
    unknown = []

    def fopen (name, mode='r', *a, **k):
        if name in binary and 'b' in mode:
            return Binary (ctx.picklefile ([binary[name]]))
        if name in texts:
            return Fd (texts[name])
        unknown.append (name)
        raise FileNotFoundError (name)
    Environment.last = None
    old = sys.argv, sys.stdout
    sys.argv = ['lulua-report', '-c', *texts, '-l', *binary]
    sys.stdout = Out ()
    try:
        with patched (m, Environment=Environment, PackageLoader=lambda *a, **k: None, yaml=Yaml (), open=fopen, logging=Quiet ()):
            m.render ()
    finally:
        sys.argv, sys.stdout = old
    env = Environment.last
    if env is None:
        ctx.undecided ('other means to render')
    ctx.check (len (env.shown) == 1, 'one report')
    d = env.shown[0][1]
    c = d['corpus']
    c = list (c)
    ctx.check (len (c) == len (docs), 'every corpus is shown')
    w = n = 0
    for a, b in zip (c, docs):
        ctx.check (a['source'] == b['source'] and a['stats'] == b['stats'], 'every corpus is shown')
        w = w+b['stats']['words']
        n = n+b['stats']['characters']
    ctx.check (d['corpustotal']['words'] == w, 'total number of words')
    ctx.check (d['corpustotal']['characters'] == n, 'total number of characters')
    ctx.check (len (d['layoutstats']) == len (stats), 'every layout is shown')
    for s in stats:
        ctx.check (s['layout'] in d['layoutstats'] and d['layoutstats'][s['layout']]['value'] == s['value'] and d['layoutstats'][s['layout']]['layout'] == s['layout'], 'statistics belong to their layout')
    ctx.observe (w, n)


def helpers (ctx, n):
    """ filters and names of letters available to the template """
    import sys
    import lulua.report as m
    from lulua.layout import LEFT, RIGHT, FingerType
    s = ctx.str ('s', n)
    old = sys.argv, sys.stdout
    sys.argv = ['lulua-report', '-c', 'x', '-l', 'y']
    sys.stdout = Out ()
    Environment.last = None

    def fopen (name, mode='r', *a, **k):
        return Fd ([]) if 'b' not in mode else Binary (ctx.picklefile ([{'layout': 'ar-lulua'}]))
    try:
        with patched (m, Environment=Environment, PackageLoader=lambda *a, **k: None, yaml=Yaml (), open=fopen, logging=Quiet ()):
            m.render ()
    finally:
        sys.argv, sys.stdout = old
    env = Environment.last
    if env is None:
        ctx.undecided ('other means to render')
    i = ctx.int ('i', 0, 10**10)
    f = env.filters
    ctx.check (f['arabnum'] (s) == m.arabnum (s) and f['numspace'] (s) == m.numspace (s), 'filters')
    ctx.check (f['approx'] (i) == m.approx (i) and f['approx'] (i, 'ar') == m.approx (i, 'ar'), 'filters')
    ctx.check (f['fraction'] (0.5) == '1\u20442', 'filters')
    g = env.globals
    for k, v in LETTERS.items ():
        ctx.check (k in g and unicodedata.normalize ('NFC', g[k]).endswith (f'({v})</bdo>'), 'letters are shown by their name')
        ctx.check (g[k.lower ()] == g[k].lower (), 'lower case')
        ctx.check (g[k+'_'] != '' and g[k].startswith (g[k+'_']+' ') and g[k.lower ()+'_'] == g[k+'_'].lower (), 'without letter')
    o = env.shown[0][1]['fingerOrder']
    l, r = list (o[LEFT]), list (o[RIGHT])
    ctx.check (set (l) == set (FingerType) and len (l) == len (FingerType) and r == l[::-1], 'fingers from left to right')
    ctx.check ([x.name for x in l] == ['LITTLE', 'RING', 'MIDDLE', 'INDEX', 'THUMB'], 'fingers from left to right')
    ctx.observe (s)


def cases (tier):
    r = []
    for c in (('c', ), ('', ), ('cc', ), ('nc', ), ('c', 'nc'), ('ccn', 'c'), ('', 'c')) + (() if tier == 'quick' else (('cc', 'c', 'nc'), )):
        for l in ((1, ), (2, 1), (1, 1), (2, 2, 1)) + (() if tier == 'quick' else ((1, 1, 1, 1), )):
            r.append ((f'report-{"-".join (c)}-{"".join (map (str, l))}', report, dict (corpora=c, layouts=l)))
    for n in (1, ):
        r.append ((f'helpers{n}', helpers, dict (n=n)))
    return r

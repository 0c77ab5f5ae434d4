""" Sources of text: files, documents in JSON, EPUB, XML and mediawiki markup """
from .common import patched, Quiet
from . import c20

PRELOAD = ['lulua.text']
FUNCTIONS = ['lulua.text.filterEpub', 'lulua.text.filterHtml', 'lulua.text.filterText', 'lulua.text.filterJson', 'lulua.text.filterFile', 'lulua.text.filterXml', 'lulua.text.filterMediawikiMarkdown', 'lulua.text.filterLines', 'lulua.text.filterAvail', 'lulua.text.extractMediawiki', 'lulua.text.apply']
BOUNDS = {
    'quick': 'up to three sources with names of up to two symbolic characters and texts of up to two symbolic characters (any Unicode but surrogates); books of up to three documents; any exit code of the converter; dumps of up to three pages of up to two pieces of text, and other elements',
    'thorough': 'same with texts of three characters and four pages'}
OUTSIDE = 'the file system, EPUB, XML, HTML, JSON and bzip2 formats and pandoc (replaced by stand-ins which return symbolic text); names ending in white space'


def ident (ctx, name, n):
    """ name of a file """
    s = ctx.str (name, n)
    for i, c in enumerate (s):
        ctx.assume (c != '\0' and c != '\n')
        if i == n-1:
            ctx.assume (not c.isspace ())
    return s


class Fd:
    def __init__ (self, name, data):
        self.name, self.data = name, data
        self.open = True

    def __enter__ (self):
        return self

    def __exit__ (self, *a):
        self.open = False
        return False

    def close (self):
        self.open = False

    def read (self, *a):
        if not self.open:
            raise ValueError ('read of closed file')
        return self.data


class Disk:
    def __init__ (self, files):
        self.files = files
        self.opened = []
        self.used = False

    def open (self, name, mode='r', *a, **k):
        self.used = True
        for n, d in self.files:
            if n == name:
                if 'b' not in mode:
                    raise ValueError ('text mode')
                f = Fd (n, d)
                self.opened.append (f)
                return f
        raise FileNotFoundError (name)


def unique (ctx, l):
    for i in range (len (l)):
        for j in range (i):
            if len (l[i]) == len (l[j]):
                ctx.assume (l[i] != l[j])


def text (ctx, name, n):
    s = ctx.str (name, n)
    return s


def files (ctx, sizes, newline):
    """ names on standard input, content is text """
    import lulua.text as t
    names = [ident (ctx, f'name{i}', 1+i % 2) for i in range (len (sizes))]
    unique (ctx, names)
    texts = [text (ctx, f'text{i}', n) for i, n in enumerate (sizes)]
    disk = Disk ([(n, s.encode ('utf-8')) for n, s in zip (names, texts)])
    with patched (t, open=disk.open, logging=Quiet ()):
        got = []
        for x in t.apply ([t.filterAvail['file'], t.filterAvail['text']], [n+newline for n in names]):
            got.append (x)
    if not disk.used and names:
        ctx.undecided ('other means of access to files')
    ctx.check (len (got) == len (texts), 'one text per file')
    for a, b in zip (got, texts):
        ctx.check (a == b, 'content of the file')
    ctx.check (all ([not f.open for f in disk.opened]), 'files are closed')
    ctx.observe (got)


class Json:
    """ strings only, without escapes """
    used = False

    def loads (self, s, *a, **k):
        self.used = True
        s = s.strip ()
        return s[1:-1]

    def dumps (self, s, *a, ensure_ascii=True, **k):
        self.used = True
        self.ascii = ensure_ascii
        return '"'+s+'"'

    def dump (self, s, fd, *a, **k):
        fd.write (self.dumps (s, *a, **k))


def json (ctx, sizes):
    import lulua.text as t
    texts = [ctx.str (f'text{i}', n) for i, n in enumerate (sizes)]
    for s in texts:
        for c in s:
            ctx.assume (not c.isspace ())
    j = Json ()
    with patched (t, json=j):
        got = list (t.apply ([t.filterAvail['json']], ['"'+s+'"\n' for s in texts]))
    if not j.used and texts:
        ctx.undecided ('other means to parse JSON')
    ctx.check (len (got) == len (texts) and all ([a == b for a, b in zip (got, texts)]), 'decoded text of every line')
    got = list (t.apply ([t.filterAvail['lines']], [s+'\n' for s in texts]))
    ctx.check (len (got) == len (texts) and all ([a == b+'\n' for a, b in zip (got, texts)]), 'lines as they are')
    ctx.observe (got)


MOJIBAKE = [{'type': 'Characters', 'data': 'wrong encoding'}]


class Html:
    """ documents are identified by their text """
    def __init__ (self, docs={}):
        self.used = False
        self.docs = docs

    def parse (self, doc, *a, **k):
        self.used = True
        if hasattr (doc, 'read'):
            doc = doc.read ()
        if type (doc) is bytes:
            # the encoding is not detected
            enc = [v for v in k.values () if v in ('utf-8', 'utf8', 'UTF-8')]
            doc = doc.decode (enc[0] if enc else 'windows-1252')
        return self.docs.get (doc, MOJIBAKE) if type (doc) is str else doc

    def getTreeWalker (self, *a, **k):
        return lambda doc: iter (doc)

    def __getattr__ (self, k):
        import html5lib
        return getattr (html5lib, k)


class Item:
    def __init__ (self, content):
        self.content = content.encode ('utf-8')

    def get_name (self):
        return 'name'

    def get_content (self):
        return self.content

    content_ = get_body_content = get_content


class Book:
    def __init__ (self, items):
        self.items = items

    def get_items_of_type (self, t):
        import ebooklib
        if t == ebooklib.ITEM_DOCUMENT:
            return iter (self.items)
        return iter ([Item ('other')])

    def get_items (self):
        raise NotImplementedError ()

    def reset (self):
        pass


class Epub:
    def __init__ (self, books):
        self.books = books
        self.used = False

    def read_epub (self, name, *a, **k):
        self.used = True
        for n, b in self.books:
            if n == name:
                return b
        raise FileNotFoundError (name)


def tokens (ctx, name, n):
    """ document, text """
    t = ctx.str (name, n)
    doc = [c20.start ('html'), c20.start ('p'), {'type': 'Characters', 'data': t}, c20.end ('p'), c20.end ('html')]
    return doc, t+'\n\n'


def books (ctx, sizes):
    """ documents per book """
    import lulua.text as t
    names = [ident (ctx, f'name{i}', 1+i % 2) for i in range (len (sizes))]
    unique (ctx, names)
    lib = []
    want = []
    docs = {}
    for i, n in enumerate (sizes):
        items = []
        for j in range (n):
            d, s = tokens (ctx, f'text{i}_{j}', 1+j % 2)
            docs[f'{i}.{j} \u0628'] = d
            items.append (Item (f'{i}.{j} \u0628'))
            want.append (s)
        lib.append ((names[i], Book (items)))
    e, h = Epub (lib), Html (docs)
    with patched (t, epub=e, html5lib=h, logging=Quiet ()):
        got = list (t.apply ([t.filterAvail['epub']], [n+'\n' for n in names]))
    if not e.used or (want and not h.used):
        ctx.undecided ('other means to read books')
    ctx.check (len (got) == len (want) and all ([a == b for a, b in zip (got, want)]), 'text of every document of every book, in order')
    ctx.observe (got)


def html (ctx, site, sizes):
    """ selected element of every file """
    import lulua.text as t
    key, value = c20.SELECT[site]
    docs, want = [], []
    for i, n in enumerate (sizes):
        s = ctx.str (f'text{i}', n)
        sel = ctx.bool (f'selected{i}')
        docs.append (Fd ('', [c20.start ('html'), c20.start ('div', {key: value if sel else 'x'}), {'type': 'Characters', 'data': s}, c20.end ('div'), c20.end ('html')]))
        want.append (s+'\n\n' if sel else '')
    h = Html ()
    with patched (t, html5lib=h, logging=Quiet ()):
        got = list (t.apply ([t.filterAvail[site]], docs))
    if not h.used and docs:
        ctx.undecided ('other means to parse HTML')
    ctx.check (''.join (got) == ''.join (want), 'text of the selected element of every document')
    ctx.observe (got)


def xmldocs (ctx, kinds):
    """ documents, some of which (x) cannot be parsed """
    import lulua.text as t
    from xml.dom.minidom import getDOMImplementation
    docs = []
    want = []
    for i, k in enumerate (kinds):
        d = getDOMImplementation ().createDocument (None, 'document', None)
        s = d.createElement ('s')
        txt = ctx.str (f'text{i}', 1)
        for c in txt:
            ctx.assume (not c.isspace ())
        n = d.createTextNode ('')
        n.data = txt
        s.appendChild (n)
        d.documentElement.appendChild (s)
        docs.append ((i, k, d))
        if k == '.':
            want.append (txt)

    class Ns:
        pass
    seen = []
    x = Ns ()
    x.dom = Ns ()
    x.dom.minidom = Ns ()

    def parse (fd, *a, **k):
        seen.append (fd)
        if fd[1] == 'x':
            from xml.parsers.expat import ExpatError
            raise ExpatError ('invalid')
        return fd[2]
    x.dom.minidom.parse = parse
    with patched (t, xml=x, minidom=x.dom.minidom, logging=Quiet ()):
        got = list (t.apply ([t.filterAvail['xml'], t.filterAvail['opensubtitles']], docs))
    if not seen and docs:
        ctx.undecided ('other means to parse XML')
    ctx.check (len (got) == len (want), 'one text per valid document')
    for a, b in zip (got, want):
        ctx.check (a.strip () == b, 'text of the document')
    ctx.observe (len (got))


class Pipe:
    def __init__ (self, data=b''):
        self.data = data
        self.closed = False

    def write (self, s):
        self.data = self.data+s

    def read (self, *a):
        return self.data

    def flush (self):
        pass

    def close (self):
        self.closed = True

    def __enter__ (self):
        return self

    def __exit__ (self, *a):
        self.closed = True
        return False


class Subprocess:
    """ one converted text per call """
    PIPE = -1
    DEVNULL = -3
    STDOUT = -2

    def __init__ (self, results):
        self.results = list (results)
        self.calls = []

    def Popen (self, args, *a, **k):
        out, rc = self.results[len (self.calls)]
        p = Process (args, out, rc)
        self.calls.append (p)
        return p

    def run (self, args, *a, input=b'', check=False, **k):
        p = self.Popen (args)
        p.stdin.write (input)
        p.stdin.close ()
        if check and p.rc != 0:
            import subprocess
            raise subprocess.CalledProcessError (p.rc, args)
        return p


class Process:
    def __init__ (self, args, out, rc):
        self.args, self.rc = args, rc
        self.stdin = Pipe ()
        self.output = Pipe (out)
        self.stdout = Out (self)
        self.stderr = Pipe ()
        self.waited = False

    def communicate (self, input=b'', *a, **k):
        self.stdin.write (input)
        self.stdin.close ()
        self.waited = True
        return self.output.data, b''

    def wait (self, *a, **k):
        self.waited = True
        return self.rc

    poll = wait

    def __enter__ (self):
        return self

    def __exit__ (self, *a):
        return False

    @property
    def returncode (self):
        return self.rc


class Out:
    """ standard output; blocks forever unless input was closed before """
    def __init__ (self, p):
        self.p = p

    def read (self, *a):
        if not self.p.stdin.closed:
            raise RuntimeError ('deadlock')
        return self.p.output.data

    def close (self):
        pass

    def decode (self, *a):
        return self.p.output.data.decode (*a)


def wiki (ctx, sizes):
    """ (length of text, length of converted text) """
    import lulua.text as t
    texts = [ctx.str (f'text{i}', n) for i, (n, _) in enumerate (sizes)]
    conv = [ctx.str (f'converted{i}', n) for i, (_, n) in enumerate (sizes)]
    rc = [ctx.int (f'rc{i}', -15, 255) for i in range (len (sizes))]
    s = Subprocess ([(c.encode ('utf-8'), r) for c, r in zip (conv, rc)])
    with patched (t, subprocess=s, logging=Quiet (), Popen=s.Popen):
        got = list (t.apply ([t.filterAvail['mediawikimarkdown']], texts))
    if not s.calls and texts:
        ctx.undecided ('other means of conversion')
    ctx.check (len (s.calls) == len (texts), 'every text is converted')
    for p, x in zip (s.calls, texts):
        ctx.check (p.stdin.data == x.encode ('utf-8'), 'the whole text is converted')
    want = [c for c, r in zip (conv, rc) if r == 0]
    ctx.check (len (got) == len (want) and all ([a == b for a, b in zip (got, want)]), 'result of every successful conversion')
    ctx.observe (got)


class Elem:
    def __init__ (self, tag, parts):
        self.tag = tag
        self.parts = parts

    def itertext (self):
        return iter (self.parts)

    @property
    def text (self):
        return self.parts[0] if self.parts else None

    def clear (self):
        self.parts = []

    def __len__ (self):
        return 0

    def __iter__ (self):
        return iter (())


class Stdout:
    def __init__ (self):
        self.parts = []

    def write (self, s):
        self.parts.append (s)

    def flush (self):
        pass


NS = '{http://www.mediawiki.org/xml/export-0.10/}'


def dump (ctx, pages):
    """ number of pieces of text per page """
    import sys
    import lulua.text as t
    events = []
    want = ''
    for i, n in enumerate (pages):
        parts = [ctx.str (f'text{i}_{j}', 1) for j in range (n)]
        page, title, txt, mini = Elem (NS+'page', []), Elem (NS+'title', ['title']), Elem (NS+'text', parts), Elem (NS+'minor', [])
        events += [('start', page), ('start', title), ('end', title), ('start', txt), ('end', txt), ('start', mini), ('end', mini), ('end', page)]
        w = ''
        for p in parts:
            w = w+p
        want = want+'"'+w+'"\n'

    class Bz2:
        def open (self, name, mode='rb', *a, **k):
            ctx.check (mode in ('r', 'rb', 'rt'), 'the file is read')
            return Fd (name, events)

        BZ2File = open
    used = []

    def iterparse (source, events=('end', ), parser=None):
        fd, what = source, events or ('end', )
        used.append (fd)
        for e, x in fd.data:
            if e in what:
                yield e, x
    out = Stdout ()
    old = sys.argv, sys.stdout
    sys.argv = ['x', 'dump.bz2']
    sys.stdout = out
    try:
        with patched (t, bz2=Bz2 (), iterparse=iterparse, json=Json (), logging=Quiet ()):
            t.extractMediawiki ()
    finally:
        sys.argv, sys.stdout = old
    if not used:
        ctx.undecided ('other means to parse XML')
    got = ''
    for p in out.parts:
        got = got+p
    ctx.check (got == want, 'one line per page with its text')
    ctx.observe (got)


def cases (tier):
    q = tier == 'quick'
    n = 2 if q else 3
    r = []
    for s in ((), (0, ), (n, ), (1, 2), (1, 0, n)):
        k = ''.join (map (str, s))
        r.append ((f'files{k}', files, dict (sizes=s, newline='\n')))
        r.append ((f'json{k}', json, dict (sizes=s)))
    r.append (('files-plain', files, dict (sizes=(1, ), newline='')))
    for s in ((0, ), (1, ), (2, 1), (1, 0, 2)):
        r.append ((f'books{"".join (map (str, s))}', books, dict (sizes=s)))
    for site in c20.SELECT:
        for s in ((1, ), (1, 2)):
            r.append ((f'html-{site}-{len (s)}', html, dict (site=site, sizes=s)))
    for s in ('.', 'x', '.x.', 'x.'):
        r.append ((f'xml-{s}', xmldocs, dict (kinds=s)))
    for s in (((1, 1), ), ((0, n), ), ((n, 0), ), ((1, 1), (2, 1))):
        r.append ((f'wiki{"".join (f"{a}{b}" for a, b in s)}', wiki, dict (sizes=s)))
    for s in ((), (0, ), (1, ), (2, 1), (1, 1, 2)) + (() if q else ((1, 2, 1, 2), )):
        r.append ((f'dump{"".join (map (str, s))}', dump, dict (pages=s)))
    return r

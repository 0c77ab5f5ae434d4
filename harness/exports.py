""" Helpers for checking exported layouts """
from .common import keyboard, patched, Quiet


class Out (str):
    """ Name of an output file, and what was written to it """
    def __new__ (cls, name='/nonexistent/output'):
        return str.__new__ (cls, name)

    def __init__ (self, *a):
        self.parts = []
        self.closed = False

    def write (self, s):
        self.parts.append (s)

    def writelines (self, l):
        for x in l:
            self.parts.append (x)

    def __enter__ (self):
        return self

    def __exit__ (self, *a):
        self.close ()
        return False

    def close (self):
        self.closed = True

    def flush (self):
        pass

    def text (self):
        r = ''
        for x in self.parts:
            r = r + x
        return r


class Elem:
    """ Element of a tree, may contain symbolic text """
    def __init__ (self, tag, attrib=None, **extra):
        self.tag = tag
        self.attrib = dict (attrib or {})
        self.attrib.update (extra)
        self.text = self.tail = None
        self.children = []

    def get (self, k, default=None):
        return self.attrib.get (k, default)

    def set (self, k, v):
        self.attrib[k] = v

    def keys (self):
        return self.attrib.keys ()

    def items (self):
        return self.attrib.items ()

    def append (self, e):
        self.children.append (e)

    def extend (self, l):
        for e in l:
            self.children.append (e)

    def insert (self, i, e):
        self.children.insert (i, e)

    def makeelement (self, tag, attrib):
        return Elem (tag, attrib)

    def __iter__ (self):
        return iter (self.children)

    def __len__ (self):
        return len (self.children)

    def __getitem__ (self, i):
        return self.children[i]

    def iter (self, tag=None):
        if tag is None or tag == self.tag:
            yield self
        for c in self.children:
            yield from c.iter (tag)

    def findall (self, path):
        r = [self]
        for tag in path.split ('/'):
            r = [c for e in r for c in e.children if c.tag == tag]
        return r

    def find (self, path):
        return next (iter (self.findall (path)), None)


class Tree:
    """ ElementTree without serialisation: trees which would be written end up in roots """
    def __init__ (self):
        self.roots = []

    def Element (self, tag, attrib=None, **extra):
        return Elem (tag, attrib, **extra)

    def SubElement (self, parent, tag, attrib=None, **extra):
        e = Elem (tag, attrib, **extra)
        parent.append (e)
        return e

    def register_namespace (self, *a):
        pass

    def tostring (self, element, *a, **k):
        self.roots.append (element)
        return self.serialise (element, *a, **k)

    def serialise (self, element, encoding=None, *a, **k):
        return '<tree/>' if encoding == 'unicode' else b'<tree/>'

    def ElementTree (self, element, *a, **k):
        return Document (self, element)

    def indent (self, *a, **k):
        pass


class Document:
    def __init__ (self, tree, root):
        self.tree, self.root = tree, root

    def getroot (self):
        return self.root

    def write (self, fd, encoding=None, *a, **k):
        self.tree.roots.append (self.root)
        fd.write (self.tree.serialise (self.root, encoding))


class Serialising (Tree):
    """ same, serialised like the standard library does (elements with attributes only) """
    REFS = [('&', '&amp;'), ('<', '&lt;'), ('>', '&gt;'), ('"', '&quot;'), ('\r', '&#13;'), ('\n', '&#10;'), ('\t', '&#09;')]

    def serialise (self, element, encoding=None, *a, **k):
        assert encoding is None or encoding.lower () in ('unicode', 'utf-8', 'us-ascii'), encoding
        r = self.element (element)
        if encoding == 'unicode':
            return r
        return r.encode (encoding or 'us-ascii', 'xmlcharrefreplace')

    def element (self, e):
        r = '<'+e.tag
        for k, v in e.items ():
            for a, b in self.REFS:
                v = v.replace (a, b)
            r = r+' '+k+'="'+v+'"'
        assert not e.text and not e.tail, 'no text'
        if not e.children:
            return r+' />'
        r = r+'>'
        for c in e.children:
            r = r+self.element (c)
        return r+'</'+e.tag+'>'


class IllFormed (Exception):
    pass


def parsexml (text):
    """ document of elements with attributes only → root, version; control characters are valid as
    references in XML 1.1 only """
    pos = 0

    def expect (x):
        nonlocal pos
        if text[pos:pos+len (x)] != x:
            raise IllFormed (x)
        pos += len (x)

    def blank ():
        nonlocal pos
        start = pos
        while text[pos:pos+1] in (' ', '\n', '\r', '\t'):
            pos += 1
        return pos > start

    def until (x):
        nonlocal pos
        start = pos
        while text[pos:pos+len (x)] != x:
            if pos >= len (text):
                raise IllFormed (x)
            pos += 1
        r = text[start:pos]
        pos += len (x)
        return r

    def name ():
        nonlocal pos
        start = pos
        while text[pos:pos+1].isalnum ():
            pos += 1
        if start == pos:
            raise IllFormed ('name')
        return text[start:pos]

    def control (n):
        return n < 0x20 and n not in (9, 10, 13) or 0x7f <= n <= 0x9f and n != 0x85

    def value ():
        nonlocal pos
        q = text[pos:pos+1]
        if q not in ('"', "'"):
            raise IllFormed ('quote')
        pos += 1
        r = ''
        while text[pos:pos+1] != q:
            c = text[pos:pos+1]
            pos += 1
            if c == '' or c == '<' or control (ord (c)) and (ord (c) < 0x20 or version == '1.1') or ord (c) in (0xfffe, 0xffff):
                raise IllFormed ('character')
            if c == '&':
                n = until (';')
                if n[:1] == '#':
                    n = int (n[2:], 16) if n[1:2] == 'x' else int (n[1:])
                    if n == 0 or control (n) and n < 0x20 and version != '1.1' or n in (0xfffe, 0xffff):
                        raise IllFormed ('reference')
                    c = chr (n)
                elif n in ENTITIES:
                    c = ENTITIES[n]
                else:
                    raise IllFormed ('entity')
            elif c in ('\t', '\n', '\r'):
                c = ' '
            r = r+c
        pos += 1
        return r

    def element ():
        nonlocal pos
        expect ('<')
        e = Elem (name ())
        while True:
            b = blank ()
            if text[pos:pos+2] == '/>':
                pos += 2
                return e
            if text[pos:pos+1] == '>':
                pos += 1
                break
            if not b:
                raise IllFormed ('blank')
            k = name ()
            blank ()
            expect ('=')
            blank ()
            if k in e.attrib:
                raise IllFormed ('attribute')
            e.set (k, value ())
        while True:
            blank ()
            if text[pos:pos+2] == '</':
                break
            e.append (element ())
        pos += 2
        expect (e.tag)
        blank ()
        expect ('>')
        return e

    ENTITIES = {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', 'apos': "'"}
    version = '1.0'
    if text[:5] == '<?xml':
        d = until ('?>')
        version = '1.1' if 'version="1.1"' in d or "version='1.1'" in d else '1.0'
    blank ()
    while text[pos:pos+2] in ('<!', '<?'):
        until ('>')
        blank ()
    r = element ()
    blank ()
    if pos != len (text):
        raise IllFormed ('end')
    return r


class Args:
    pass


def generic (layers, name='tiny'):
    from lulua.layout import GenericLayout
    return GenericLayout.deserialize ({'name': name, 'layout': [{'modifier': [list (x) for x in m], 'layer': l} for m, l in layers]})


def export (func, layout, name='tiny', tree=None, kb='ibmpc105'):
    """ run an export function; returns what was written """
    import lulua.render as r
    out = Out ()
    args = Args ()
    args.keyboard, args.layout, args.output = kb, name, out

    def fakeopen (f, *a, **k):
        assert f is out, 'writes to the output file only'
        return out

    names = dict (open=fakeopen, defaultLayouts={name: layout}, logging=Quiet ())
    if tree is not None:
        names['ET'] = tree
    with patched (r, **names):
        getattr (r, func) (args)
    return out


MODS = [[()], [('El_shift', ), ('Er_shift', )], [('Dl_caps', ), ('Dr1', )], [('El1', ), ('Fr_altgr', )]]

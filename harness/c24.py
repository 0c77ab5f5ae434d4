""" Drawing of layouts (SVG) """
from .common import keyboard, patched, Quiet
from .exports import generic, Args

PRELOAD = ['lulua.render', 'lulua.layout', 'lulua.keyboard', 'lulua.util', 'lulua.writer']
FUNCTIONS = ['lulua.render.Renderer.__init__', 'lulua.render.Renderer.render', 'lulua.render.Renderer._calcDimensions', 'lulua.render.Renderer._drawCap', 'lulua.render.Renderer._drawCapShadow', 'lulua.render.Renderer._drawMarker',
    'lulua.render.Renderer._drawHighlight', 'lulua.render.Renderer._drawLabel', 'lulua.render.Renderer.buttonWidth', 'lulua.render.renderSvg', 'lulua.util.displayText', 'lulua.layout.KeyboardLayout.getButtonText', 'lulua.layout.KeyboardLayout.modifierToLayer', 'lulua.writer.Writer.getHandFinger']
BOUNDS = {
    'quick': 'keyboards of 2-3 rows with 3-6 of the shipped buttons of any (real) width; any settings; layouts of 1-4 layers, one text of one symbolic letter (two layouts: of any ASCII character) on any of the keys; any highlight (real) of two keys; the svg command with any heatmap of two keys on the shipped keyboard',
    'thorough': 'same with up to 8 keys and text of any character but format characters'}
OUTSIDE = 'SVG serialisation (svgwrite is replaced by a recorder), fonts and styles, labels of format characters (see C30), rendering by a browser'


class Node:
    """ drawing primitive: kind, arguments, attributes, children """
    def __init__ (self, kind, *args, **kw):
        self.kind = kind
        self.args = args
        self.kw = kw
        self.attribs = {}
        self.children = []

    def add (self, e):
        self.children.append (e)
        return e

    def __setitem__ (self, k, v):
        self.attribs[k] = v

    def __getitem__ (self, k):
        return self.attribs[k]

    def cls (self):
        return (self.attribs.get ('class') or self.kw.get ('class_') or self.attribs.get ('class_') or '').split (' ')

    def get (self, k):
        return self.attribs[k] if k in self.attribs else self.kw.get (k)

    def nodes (self):
        yield self
        for c in self.children:
            yield from c.nodes ()

    def kinds (self, kind):
        return [x for x in self.nodes () if x.kind == kind]


class Namespace:
    def __getattr__ (self, k):
        return lambda *a, **kw: Node (k, *a, **kw)


class Drawing (Node):
    def __init__ (self, filename=None, size=None, **kw):
        Node.__init__ (self, 'Drawing')
        self.filename, self.size = filename, size
        self.defs = Node ('Defs')
        self.saved = 0

    def style (self, s, **kw):
        return Node ('Style', s)

    def save (self, **kw):
        self.saved += 1


class Svg:
    """ in place of svgwrite """
    def __init__ (self):
        self.container = self.shapes = self.text = Namespace ()
        self.drawings = []

    def Drawing (self, *a, **kw):
        d = Drawing (*a, **kw)
        self.drawings.append (d)
        return d


LABELS = {'El_shift': '\u2b61', 'Er_shift': '\u2b61', 'Dl_caps': '\u2b67', 'Dr1': '\u2b67', 'El1': '\u2b68', 'Fr_altgr': '\u2b68'}
MODS = [[()], [('El_shift', ), ('Er_shift', )], [('Dl_caps', ), ('Dr1', )], [('El1', ), ('Fr_altgr', )]]


def labels (node):
    """ [(text, x, y, is shadow)] """
    r = []
    for t in node.kinds ('Text'):
        text = ''
        for s in t.kinds ('TSpan'):
            text = text+s.args[0]
        x, y = t.get ('insert')
        r.append ((text, x, y, 'shadow' in t.cls ()))
    return r


def draw (ctx, shape, nlayers, layer, anychar=False, defaults=False, ascii=False):
    import lulua.render as r
    from lulua.keyboard import PhysicalKeyboard
    from lulua.layout import GenericLayout
    from lulua.writer import Writer
    kb = keyboard ()
    rows = []
    data = kb.serialize ()['rows']
    byname = {b['name']: b for row in data for half in row for b in half}
    names = [n for row in shape for half in row for n in half]
    for row in shape:
        rows.append ([[dict (byname[n], width=ctx.real ('width'+n, 0.25, 8)) for n in half] for half in row])
    small = PhysicalKeyboard.deserialize ({'name': 'small', 'description': '', 'rows': rows})
    mods = []
    for i in range (nlayers):
        mods.append ([m for m in MODS[i] if all (x in names for x in m)])
        if not mods[-1]:
            raise ValueError ('no modifier')
    modnames = {m[0]: i for i in range (nlayers) for m in mods[i] if m}
    free = [n for n in names if n not in modnames]
    k = ctx.fork ('key', free)
    c = ctx.char ('text')
    if anychar:
        ctx.assume ((ord (c) < 0xad) | ((ord (c) > 0xad) & (ord (c) < 0x600)) | ((ord (c) > 0x61c) & (ord (c) < 0x6dd)))
    elif ascii:
        ctx.assume ((ord (c) >= 0x20) & (ord (c) <= 0x7e))
    else:
        ctx.assume ((ord (c) >= 0x620) & (ord (c) <= 0x655))
    texts = [{} for i in range (nlayers)]
    texts[layer][k] = c
    other = free[(free.index (k)+1) % len (free)]
    for i in range (nlayers):
        if i != layer and (i+layer) % 2 == 1:
            texts[i][other] = chr (0x4e00+i)
    layout = GenericLayout.deserialize ({'name': 'x', 'layout': [{'modifier': [list (x) for x in mods[i]], 'layer': texts[i]} for i in range (nlayers)]}).specialize (small)
    if defaults:
        settings = r.Renderer.defaultSettings
    else:
        settings = r.RendererSettings (buttonMargin=ctx.real ('margin', 0, 100), middleGap=ctx.real ('gap', 0, 100), buttonWidth=ctx.real ('size', 10, 400), rounded=3, shadowOffset=ctx.real ('shadow', 0, 20), markerStroke=2)
    high = {k: ctx.real ('highlight', 0, 1)}
    svg = Svg ()
    with patched (r, svgwrite=svg, logging=Quiet ()):
        g, (w, h) = r.Renderer (small, layout=layout, writer=Writer (layout), settings=None if defaults else settings, keyHighlight=dict (high)).render ()
    verify (ctx, settings, small, Writer (layout), modnames, texts, high, g, w, h)


def visible (c):
    """ what is shown for a text of one character which is not a format character """
    import unicodedata
    for a, b in (('\t', '\u2b7e'), ('\n', '\u21b3'), (' ', '\u2423'), ('\b', '\u2326')):
        if c == a:
            return b
    if unicodedata.combining (c) != 0:
        return '\u25cc'+c
    return c


def verify (ctx, settings, kb, writer, modnames, texts, high, g, w, h):
    size, margin = settings.buttonWidth, settings.buttonMargin
    # expected place of all keys
    place = {}
    y = 0
    right = 0
    for row in kb:
        x = 0
        for i, half in enumerate (row):
            if i == 1:
                x = x+settings.middleGap
            for b in half:
                place[b.name] = (x, y, b.width*size)
                x = x+b.width*size+margin
                ctx.check (x-margin <= w, 'keys are inside of the drawing')
        y = y+size+margin
    ctx.check (y-margin <= h, 'keys are inside of the drawing')
    groups = {}
    for x in g.children:
        for c in x.cls ():
            groups.setdefault (c, []).append (x)
    caps = [x for q in groups.get ('cap', []) for x in q.kinds ('Rect')]
    ctx.check (len (caps) == len (place), 'one cap per key')
    shadows = [x for q in groups.get ('cap-shadow', []) for x in q.kinds ('Rect')]
    capof = {}

    def at (node, x, y, width):
        a, b = node.get ('insert')
        c, d = node.get ('size')
        return near (a, x) & near (b, y) & near (c, width) & near (d, size)

    nused = 0
    for n, (x, y, width) in place.items ():
        m = [c for c in caps if at (c, x, y, width)]
        ctx.check (len (m) == 1, 'cap of every key at its place')
        used = n in modnames or any (n in t for t in texts)
        ctx.check (('unused' in m[0].cls ()) == (not used), 'keys without text are marked as unused')
        if used:
            nused += 1
            o = settings.shadowOffset
            s = [c for c in shadows if at (c, x+o, y+o, width)]
            ctx.check (len (s) == 1, 'shadow of used keys')
            hand = 'left' if n[1] == 'l' else 'right'
            ctx.check ('hand-'+hand in s[0].cls (), 'hand of the key')
            finger = writer.getHandFinger (kb[n])[1].name.lower ()
            ctx.check ([c for c in s[0].cls () if c.startswith ('finger-')] == ['finger-'+finger], 'finger of the key')
    ctx.check (len (shadows) == nused, 'shadow of used keys only')
    # marked keys
    lines = [l for l in g.kinds ('Line')]
    marked = [b.name for b in kb.keys () if b.isMarked]
    ctx.check (len (lines) == 2*len (marked), 'markers')
    for n in marked:
        x, y, width = place[n]
        inside = []
        for l in lines:
            if 'shadow' in l.cls ():
                continue
            (x1, y1), (x2, y2) = [tuple (p) for p in l.args] if l.args else (tuple (l.get ('start')), tuple (l.get ('end')))
            if (x1 >= x) & (x2 <= x+width) & (y1 >= y) & (y1 <= y+size) & (y2 >= y) & (y2 <= y+size) & (x1 < x2):
                inside.append (l)
        ctx.check (len (inside) == 1, 'marker on its key')
    # highlights
    circles = g.kinds ('Circle')
    active = [n for n in high if high[n] > 0]
    ctx.check (len (circles) == len (active), 'highlighted keys')
    for n in active:
        x, y, width = place[n]
        m = []
        for c in circles:
            cx, cy = c.get ('center')
            rad = c.get ('r')
            if near (cx, x+width/2) & near (cy, y+size/2):
                ctx.check ((rad > 0) & (rad*2 <= width) & (rad*2 <= size), 'highlight within its key')
                opacity = [p.split (':')[1] for p in c.get ('style').split (';') if p.startswith ('opacity')]
                ctx.check (len (opacity) == 1, 'opacity')
                ctx.close (float (opacity[0]), high[n], 'intensity of highlights')
                m.append (c)
        ctx.check (len (m) == 1, 'highlights are on their key')
    # labels
    found = [x for q in groups.get ('label', []) for x in labels (q)]
    for shadow in (False, True):
        o = settings.shadowOffset if shadow else 0
        l = [x for x in found if x[3] == shadow]
        total = 0
        for n, (x, y, width) in place.items ():
            if n in modnames:
                want = [LABELS[n]]
            else:
                want = [visible (t[n]) if n in t else None for t in texts]
            for i, t in enumerate (want):
                if t is None:
                    continue
                total += 1
                # quadrants: clock-wise from bottom left
                left, low = i in (0, 1), i in (0, 3)
                m = []
                for text, a, b, _ in l:
                    dx, dy = a-o-(x+width/2), b-o-(y+size/2)
                    if (((dx < 0) if left else (dx > 0)) & ((dy > 0) if low else (dy < 0)) & (dx > -size/2) & (dx < size/2) & (dy > -size/2) & (dy < size/2)) and text == t:
                        m.append (text)
                ctx.check (len (m) == 1, 'label of every text in the quadrant of its layer')
        ctx.check (len (l) == total, 'no other labels')
    ctx.observe (len (caps), len (found))


def near (a, b):
    return (a-b <= 1e-6) & (b-a <= 1e-6)


class Bytes:
    def __init__ (self, b):
        self.b = b

    def read (self, *a):
        return self.b

    def __enter__ (self):
        return self

    def __exit__ (self, *a):
        return False

    def close (self):
        pass


def command (ctx, heat):
    """ the svg command """
    import lulua.render as r
    from lulua.writer import Writer
    svg = Svg ()
    args = Args ()
    args.keyboard, args.layout, args.output, args.style = 'ibmpc105', 'tiny', 'out.svg', Bytes (b'.cap { }')
    values = {}
    args.heatmap = None
    if heat:
        values = {'Dl1': ctx.int ('heat1', 0, 10**6), 'Er5': ctx.int ('heat2', 1, 10**6), 'Fl_space': 7}
        args.heatmap = {'buttons': dict (values), 'total': 3}
    layers = [{'Dl1': '\u0628', 'Cr5': ctx.char ('text', '\u0627\u064e \n'), 'Fl_space': ' '}, {'Er5': '\u0629'}]
    layout = generic ([(MODS[i], l) for i, l in enumerate (layers)])
    with patched (r, svgwrite=svg, logging=Quiet (), open=lambda *a, **k: Bytes (b'font'), defaultLayouts={'tiny': layout}):
        r.renderSvg (args)
    ctx.check (len (svg.drawings) == 1 and svg.drawings[0].saved == 1 and svg.drawings[0].filename == 'out.svg', 'one drawing is saved')
    d = svg.drawings[0]
    ctx.check (len (d.children) == 1, 'one drawing')
    top = 0
    for v in values.values ():
        top = max (top, v)
    high = {n: v/top for n, v in values.items ()}
    modnames = {m[0]: i for i in range (2) for m in MODS[i] if m}
    w, h = d.size
    verify (ctx, r.Renderer.defaultSettings, keyboard (), Writer (layout.specialize (keyboard ())), modnames, layers, high, d.children[0], w, h)


S1 = [[['Dl1'], ['Dr6']], [['El_shift'], ['Er5', 'Er1']]]
S2 = [[[], ['Br1']], [['Dl_caps', 'Dl2'], ['Dr1']], [['El_shift', 'El1'], ['Er_shift']]]
S3 = [[['Cl1', 'Cl2', 'Cl3'], []], [['El_shift', 'El1'], ['Er3', 'Dr1', 'Fr_altgr']]]


def cases (tier):
    q = tier == 'quick'
    o = {'lazyformat': True}
    r = []
    for i, (s, ns) in enumerate (((S1, (1, 2)), (S2, (2, 4)), (S3, (1, 4)))):
        for n in ns:
            for layer in range (n):
                if q and i == 2 and layer != n-1:
                    continue
                r.append ((f'draw{i}{n}{layer}', draw, dict (shape=s, nlayers=n, layer=layer, anychar=not q), o))
    for s, n in ((S1, 1), (S2, 2)):
        r.append ((f'ascii{n}', draw, dict (shape=s, nlayers=n, layer=n-1, ascii=True), o))
    r.append (('defaults', draw, dict (shape=S1, nlayers=2, layer=1, defaults=True), o))
    for heat in (False, True):
        r.append ((f'command{heat}', command, dict (heat=heat), o))
    return r

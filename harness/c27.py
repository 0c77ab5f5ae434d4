""" Export to Windows (keyboard driver) """
from .common import keyboard, patched
from .exports import export, generic

PRELOAD = ['lulua.render', 'lulua.layout', 'lulua.keyboard', 'lulua.util', 'lulua.winkbd']
FUNCTIONS = ['lulua.render.renderWinKbd', 'lulua.winkbd.makeDriverSources', 'lulua.winkbd.scancodeToVkTables', 'lulua.winkbd.vkToBits', 'lulua.winkbd.charModifiers', 'lulua.winkbd.vkToWchar', 'lulua.winkbd.scancodeToName', 'lulua.winkbd.enumToCDefine', 'lulua.winkbd.enumOr']
BOUNDS = {
    'quick': 'layouts of four layers with the modifiers of ar-lulua on the shipped keyboard, text on every second or all keys, one of five keys with a symbolic character (any of the basic multilingual plane, or none) in any layer; tables of 1-3 virtual keys with 1-8 characters each, scancode tables with one symbolic addition',
    'thorough': 'same with all letter keys'}
OUTSIDE = 'compiling the driver and Windows itself (how the tables are interpreted is specified in the harness, according to kbd.h); characters outside of the basic multilingual plane, which the format cannot express as a single unit'

MODS = [[()], [('El_shift', ), ('Er_shift', )], [('Dl_caps', ), ('Dr1', )], [('Fr_altgr', ), ('El1', )]]
KEYS = ['Bl1', 'Cr5', 'Dl3', 'Er5', 'Fl_space', 'CD_ret']
# left and right variants act like the generic key
GENERIC = {'LSHIFT': 'SHIFT', 'RSHIFT': 'SHIFT', 'LCONTROL': 'CONTROL', 'RCONTROL': 'CONTROL', 'LMENU': 'MENU', 'RMENU': 'MENU'}


def symchar (ctx, name):
    c = ctx.char (name)
    ctx.assume ((ord (c) < 0xd800) | ((ord (c) > 0xdfff) & (ord (c) < 0xf000)) | ((ord (c) > 0xf000) & (ord (c) < 0x10000)))
    return c


PUNCT = '{}(),;=[]|&:*<>/'


def lex (ctx, source):
    """ C tokens; string literals are tuples. Returns (definitions, tokens) """
    define, tokens = {}, []
    comment = False
    for line in source.split ('\n'):
        l = ''
        while True:
            if comment:
                p = line.split ('*/', 1)
                if len (p) == 1:
                    break
                line = p[1]
                comment = False
            a, b = line.split ('/*', 1), line.split ('//', 1)
            if len (a) > 1 and (len (b) == 1 or len (a[0]) < len (b[0])):
                l = l+a[0]+' '
                line = a[1]
                comment = True
                continue
            l = l+b[0]
            break
        if l.startswith ('#'):
            x = l.split ()
            if x[0] == '#define' and len (x) == 3:
                v = literal (x[2].strip ('()'))
                ctx.check (x[1] not in define or define[x[1]] == v, 'defined once')
                define[x[1]] = v
            continue
        for i, part in enumerate (l.split ('"')):
            if i % 2:
                # prefix of wide strings
                if tokens and tokens[-1] == 'L':
                    tokens.pop ()
                tokens.append (('string', part))
            else:
                for c in PUNCT:
                    if c in part:
                        part = part.replace (c, f' {c} ')
                tokens.extend (part.split ())
    return define, tokens


def literal (x):
    x = x.rstrip ('uUlL')
    if x.startswith ('0x') or x.startswith ('0X'):
        return int (x[2:], 16)
    return int (x)


class Driver:
    """ the tables of a driver source """
    def __init__ (self, ctx, source):
        self.ctx = ctx
        self.define, self.tokens = lex (ctx, source)
        self.define['NULL'] = 0
        self.array = {}
        self.type = {}
        t = self.tokens
        i = 0
        while i < len (t):
            if t[i] == '=' and t[i+1] == '{':
                # variable with initialiser
                j = i-1
                if t[j] == ']':
                    while t[j] != '[':
                        j -= 1
                    j -= 1
                name = t[j]
                ctx.check (name not in self.array, 'defined once')
                self.type[name] = t[j-1]
                self.array[name], i = self.init (i+2)
            else:
                i += 1
        root = [n for n in self.array if self.type[n] == 'KBDTABLES']
        ctx.check (len (root) == 1, 'one set of tables')
        self.fields = {}
        for x in self.array[root[0]]:
            if x[0] == '.':
                x = x[1:]
            if x[0].startswith ('.'):
                x = [x[0][1:]] + x[1:]
            ctx.check (x[1] in (':', '='), 'tables are assigned by name')
            ctx.check (x[0] not in self.fields, 'tables are assigned once')
            self.fields[x[0]] = x[2:]
        ctx.check (any (t[i:i+2] == ['return', '&'] and t[i+2] == root[0] for i in range (len (t)-2)), 'tables are used')

    def init (self, i):
        """ initialiser starting after {; returns list of token lists or lists, and position after } """
        r = []
        cur = []
        depth = 0
        while True:
            x = self.tokens[i]
            i += 1
            if x == '{' and not cur:
                cur, i = self.init (i)
                r.append (('nested', cur))
                cur = []
                # until separator
                self.ctx.check (self.tokens[i] in (',', '}'), 'separated')
                if self.tokens[i] == ',':
                    i += 1
                continue
            if depth == 0 and (x == ',' or x == '}'):
                if cur:
                    r.append (cur)
                else:
                    self.ctx.check (x == '}', 'no empty entries')
                cur = []
                if x == '}':
                    return r, i
                continue
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
            cur.append (x)

    def num (self, tokens):
        r = 0
        expect = True
        for x in tokens:
            if type (x) is str and x in ('(', ')'):
                continue
            if type (x) is str and x == '|':
                self.ctx.check (not expect, 'value')
                expect = True
                continue
            self.ctx.check (expect, 'value')
            expect = False
            v = self.define[x] if x in self.define else literal (x)
            r = r | v
        self.ctx.check (not expect, 'value')
        return r

    def ref (self, tokens):
        """ table something points to """
        r = [x for x in tokens if x in self.array]
        self.ctx.check (len (r) == 1, 'pointer to a table')
        return r[0]

    def char (self, tokens):
        v = self.num (tokens)
        if v == 0xf000:
            return None
        self.ctx.check (v <= 0xffff, 'character')
        return chr (v)

    def entries (self, name):
        """ rows of a table, cut at its terminator """
        r = []
        rows = self.array[name]
        for i, x in enumerate (rows):
            self.ctx.check (type (x) is tuple, 'table has rows')
            x = x[1]
            first = x[0]
            end = all ([y in ('0', '0x0', '0x00', 'NULL') for y in first])
            self.ctx.check (end == (i == len (rows)-1), 'table is terminated')
            if not end:
                r.append (x)
        return r

    def scancodes (self):
        """ {scancode: virtual key with flags} """
        r = {}
        vk = self.array[self.ref (self.fields['pusVSCtoVK'][-1:])]
        n = self.fields['bMaxVSCtoVK']
        if 'sizeof' in n:
            self.ctx.check (n.count ('sizeof') == 2 and '/' in n, 'number of scancodes')
        else:
            self.ctx.check (self.num (n) == len (vk), 'number of scancodes')
        self.ctx.check (len (vk) == 0x80, 'all scancodes')
        for i, l in enumerate (vk):
            v = self.num (l)
            if v != 0xff:
                r[(i, )] = v
        for prefix, name in ((0xe0, 'pVSCtoVK_E0'), (0xe1, 'pVSCtoVK_E1')):
            e = self.entries (self.ref (self.fields[name]))
            codes = [self.num (x[0]) for x in e]
            self.ctx.check (all ([a < b for a, b in zip (codes, codes[1:])]), 'sorted')
            for c, x in zip (codes, e):
                r[(prefix, c)] = self.num (x[1])
        return r

    def names (self):
        r = {}
        for prefix, name in (((), 'pKeyNames'), ((0xe0, ), 'pKeyNamesExt')):
            for code, s in self.entries (self.ref (self.fields[name])):
                code = self.num (code)
                self.ctx.check (prefix+(code, ) not in r, 'one name per key')
                self.ctx.check (len (s) == 1 and s[0][0] == 'string', 'names are text')
                r[prefix+(code, )] = s[0][1]
        return r

    def modifiers (self):
        return self.array[self.ref (self.fields['pCharModifiers'])]

    def bits (self):
        r = {}
        for vk, b in self.entries (self.ref (self.modifiers ()[0])):
            r[self.num (vk)] = self.num (b)
        return r

    def columns (self):
        """ column of the character table for every combination of bits """
        m = self.modifiers ()
        r = [self.num (x) for x in m[2][1]]
        self.ctx.check (len (r) == self.num (m[1])+1, 'number of modifier combinations')
        return r

    def chars (self):
        """ {virtual key: [characters]}, first table which knows the key """
        r = {}
        for name, n, size in self.entries (self.ref (self.fields['pVkToWcharTable'])):
            ref = self.ref (name)
            n = self.num (n)
            self.ctx.check ('sizeof' in size and ((ref in size and ('[' in size or '*' in size)) or self.type[ref] in size), 'size of table')
            self.ctx.check (self.type[ref] == f'VK_TO_WCHARS{n}', 'type of table')
            for vk, flags, c in self.entries (ref):
                self.ctx.check (self.num (flags) == 0, 'attributes')
                c = [self.char (x) for x in c[1]]
                self.ctx.check (len (c) == n, 'number of characters')
                v = self.num (vk)
                if v not in r:
                    r[v] = c
        return r

    def generic (self, vk):
        """ key without flags, left or right """
        vk = vk & 0xff
        for a, b in GENERIC.items ():
            if vk == self.define['VIRTUALKEY_'+a]:
                return self.define['VIRTUALKEY_'+b]
        return vk


class Windows:
    """ what happens if keys are pressed """
    def __init__ (self, d):
        self.d = d
        self.scan, self.bits, self.col, self.ch = d.scancodes (), d.bits (), d.columns (), d.chars ()

    def type (self, mods, key):
        b = 0
        for m in mods:
            b = b | self.bits.get (self.d.generic (self.scan[m]), 0)
        if b >= len (self.col):
            return None
        c = self.ch.get (self.scan[key] & 0xff)
        i = self.col[b]
        return c[i] if c is not None and i < len (c) else None


def whole (ctx, layer, step, keys):
    kb = keyboard ()
    mods = set (y for x in MODS for z in x for y in z)
    usable = [b.name for b in kb.keys () if type (b).__name__ == 'LetterButton' and b.name not in mods and b.name != 'Fr_space']
    layers = []
    for i in range (4):
        layers.append ({k: chr (0x4e00+100*i+j) for j, k in enumerate (usable) if (i+j) % step == 0})
    k = ctx.fork ('key', keys)
    layers[layer][k] = t = symchar (ctx, 'text')
    # texts used twice are covered by C02
    ctx.assume ((ord (t) < 0x4e00) | (ord (t) > 0x4fff))
    for l in layers:
        if 'Fl_space' in l:
            l['Fr_space'] = l['Fl_space']
    out = export ('renderWinKbd', generic ([(MODS[i], l) for i, l in enumerate (layers)]), name='ar-lulua')
    w = Windows (Driver (ctx, out.text ()))
    code = {b.name: tuple (b.scancode['windows']) for b in kb.keys ()}
    for i, l in enumerate (layers):
        for m in MODS[i]:
            for n in code:
                if n in mods:
                    continue
                want = l.get (n)
                if want is not None and want == '\n':
                    want = '\r'
                got = w.type ([code[x] for x in m], code[n])
                if want is None:
                    ctx.check (got is None, 'key without text')
                else:
                    ctx.check (got is not None and got == want, 'text of every key')
    ctx.check (out.closed, 'file is closed')
    ctx.observe (len (w.ch))


def tables (ctx, lens):
    """ driver tables of arbitrary characters """
    from lulua.winkbd import makeDriverSources, VirtualKey, qwertyScancodeToVk
    vks = [VirtualKey.A, VirtualKey.OEM_2, VirtualKey.NUMPAD5, VirtualKey.SPACE][:len (lens)]
    charmap = []
    for i, (vk, n) in enumerate (zip (vks, lens)):
        l = [chr (0x4e00+10*i+j) for j in range (n)]
        k = ctx.fork (f'none{i}', [None] + ([0, n-1] if i else list (range (n))))
        if k is not None:
            l[k] = None
        if i == 0 and k != 0:
            l[0] = symchar (ctx, 'char')
        charmap.append ((vk, 0, l))
    d = Driver (ctx, makeDriverSources (dict (qwertyScancodeToVk), list (charmap)))
    got = d.chars ()
    for vk, flags, l in charmap:
        g = got.get (int (vk))
        ctx.check (g is not None and len (g) == len (l), 'all characters')
        for a, b in zip (g, l):
            ctx.check ((a is None) == (b is None) and (b is None or a == b), 'characters')
    for i in range (10):
        if 0x60+i not in [int (x) for x in vks]:
            ctx.check (got[0x60+i] == [str (i)], 'numeric keypad')
    ctx.observe (len (got))


def scan (ctx, prefix):
    """ additional scancodes """
    from lulua.winkbd import makeDriverSources, VirtualKey, VirtualKeyFlag, qwertyScancodeToVk
    m = dict (qwertyScancodeToVk)
    c = ctx.int ('code', 0x40, 0x7f)
    vk = ctx.fork ('vk', [(VirtualKey.OEM_8, ), (VirtualKey.A, VirtualKeyFlag.EXT), (VirtualKey.HOME, VirtualKeyFlag.NUMPAD, VirtualKeyFlag.SPECIAL)])
    c = int (c) if prefix is None else c
    key = (c, ) if prefix is None else (prefix, c)
    if prefix is not None:
        for k in m:
            if len (k) == 2 and k[0] == prefix:
                ctx.assume (k[1] != c)
    m[key] = vk
    d = Driver (ctx, makeDriverSources (m, []))
    got = d.scancodes ()
    ctx.check (len (got) == len (m), 'all scancodes')
    n = 0
    for k, v in got.items ():
        for a, b in m.items ():
            if len (a) == len (k) and a == k:
                n = n+1
                w = 0
                for x in b:
                    w = w | int (x)
                ctx.check (v == w, 'virtual key')
    ctx.check (n == len (m), 'all scancodes')
    ctx.observe (n)


def names (ctx, prefix):
    """ names of keys, including additional ones """
    import lulua.winkbd as w
    m = dict (w.qwertyScancodeToName)
    c = ctx.int ('code', 0x02, 0x0d) if prefix is None else ctx.int ('code', 1, 0x1b)
    c = int (c)
    m[(c, ) if prefix is None else (prefix, c)] = 'Some key'
    if ctx.fork ('order', [False, True]):
        m = dict (reversed (list (m.items ())))
    with patched (w, qwertyScancodeToName=m):
        d = Driver (ctx, w.makeDriverSources (dict (w.qwertyScancodeToVk), []))
    ctx.check (d.names () == m, 'names of all keys')
    got = d.scancodes ()
    for k in (0x1c, 0x39, 0x0e):
        ctx.check ((k, ) in got, 'named keys exist')
    ctx.observe (len (m))


def cases (tier):
    q = tier == 'quick'
    r = []
    for layer in range (4):
        for step in (1, 2):
            if q and step == 1 and layer != 3:
                continue
            keys = KEYS if q else [*KEYS, 'Bl2', 'Bl5', 'Br1', 'Cl1', 'Cr1', 'Dl1', 'Dr2', 'El2', 'Er1']
            r.append ((f'whole{layer}{step}', whole, dict (layer=layer, step=step, keys=keys)))
    for lens in [(1, ), (2, 1), (3, 3), (4, 2, 4), (8, 1, 5)] if q else [(i, j, k) for i in range (1, 9) for j in (1, 4, 8) for k in (2, 5)]:
        r.append (('tables'+''.join (map (str, lens)), tables, dict (lens=lens)))
    for p in (None, 0xe0):
        r.append ((f'names{p}', names, dict (prefix=p)))
    for p in (None, 0xe0, 0xe1):
        if p is None and q:
            continue
        r.append ((f'scan{p}', scan, dict (prefix=p)))
    return r

""" Text of HTML documents """
PRELOAD = ['lulua.text']
FUNCTIONS = ['lulua.text.Select.__init__', 'lulua.text.Select.__iter__', 'lulua.text.HTMLSerializer.serialize', 'lulua.text.f']
BOUNDS = {
    'quick': 'token streams of documents with 4-6 tokens after the root element: elements (selected or not, paragraph, division, any other of 1, 2 or 8 characters, void, script, style) nested in any way, texts of symbolic characters (any Unicode), white space, comments; element selection of both supported news sites',
    'thorough': '5-7 tokens'}
OUTSIDE = 'HTML parsing (html5lib), larger documents, elements within scripts'

LETTERS = 'abcdefghijklmnopqrstuvwxyz123456'
LENGTHS = [1, 2, 8]
SELECT = {'aljazeera': ('id', 'DynamicContentContainer'), 'bbcarabic': ('property', 'articleBody')}


def start (name, attr=None):
    return {'type': 'StartTag', 'name': name, 'namespace': 'http://www.w3.org/1999/xhtml', 'data': {(None, k): v for k, v in (attr or {}).items ()}}


def end (name):
    return {'type': 'EndTag', 'name': name, 'namespace': 'http://www.w3.org/1999/xhtml'}


def document (ctx, n, site, kinds):
    """ tokens, [(enclosing elements, token)]; element: (name, selected) """
    key, value = SELECT[site]
    tokens = [start ('html')]
    stack = [('html', False)]
    out = [(list (stack), tokens[0])]

    def put (t):
        tokens.append (t)
        out.append ((list (stack), t))
    for i in range (n):
        left = n-i
        script = stack[-1][0] in ('script', 'style')
        opts = [k for k in kinds if k != 'end' or len (stack) > 1]
        if script:
            opts = [k for k in opts if k in ('text', 'end')]
        k = ctx.fork (f'k{i}', opts) if len (opts) > 1 else opts[0]
        if k == 'end':
            put (end (stack[-1][0]))
            stack.pop ()
        elif k == 'text':
            put ({'type': 'Characters', 'data': ctx.str (f'text{i}', 1+i % 2)})
        elif k == 'space':
            put ({'type': 'SpaceCharacters', 'data': ctx.fork (f'space{i}', [' ', '\n\n\t'])})
        elif k == 'comment':
            put ({'type': 'Comment', 'data': 'comment'})
        elif k == 'void':
            put ({'type': 'EmptyTag', 'name': ctx.str (f'void{i}', 2, LETTERS), 'namespace': None, 'data': {}})
        else:
            if k == 'select':
                stack.append (('div', True))
                put (start ('div', {key: value, 'class': 'x'}))
            elif k == 'almost':
                # right element, wrong attribute or vice versa
                w = ctx.fork (f'almost{i}', [('div', {key: 'other'}), ('span', {key: value}), ('div', {'class': value})])
                stack.append ((w[0], False))
                put (start (*w))
            elif k == 'other':
                name = ctx.str (f'name{i}', ctx.fork (f'length{i}', LENGTHS), LETTERS)
                ctx.assume (name != 'p' and name != 'div' and name != 'script' and name != 'style')
                stack.append ((name, False))
                put (start (name))
            else:
                stack.append ((k, False))
                put (start (k))
    while stack:
        put (end (stack[-1][0]))
        stack.pop ()
    return tokens, out


def text (tokens):
    r = ''
    for t in tokens:
        if t['type'] == 'Characters':
            r = r+t['data']
        elif t['type'] == 'SpaceCharacters':
            r = r+' '
        elif t['type'] == 'EndTag' and t['name'] in ('p', 'div'):
            r = r+'\n\n'
    return r


def select (ctx, n, site, kinds):
    import lulua.text as t
    tokens, out = document (ctx, n, site, kinds)
    got = ''.join (t.HTMLSerializer ().serialize (t.Select (iter (tokens), t.f[site])))
    want = text ([x for stack, x in out if any (s for _, s in stack) and not any (name in ('script', 'style') for name, _ in stack)])
    ctx.check (got == want, 'text of the selected elements')
    ctx.observe (got)


def everything (ctx, n, kinds):
    import lulua.text as t
    tokens, out = document (ctx, n, 'bbcarabic', kinds)
    got = ''.join (t.HTMLSerializer ().serialize (iter (tokens)))
    ctx.check (got == text (tokens), 'text of all elements')
    ctx.observe (got)


def cases (tier):
    d = 0 if tier == 'quick' else 1
    r = []
    for site in SELECT:
        r.append ((f'{site}-nested', select, dict (n=6+d, site=site, kinds=['select', 'p', 'text', 'end'])))
        r.append ((f'{site}-script', select, dict (n=5+d, site=site, kinds=['select', 'script', 'style', 'text', 'end'])))
        r.append ((f'{site}-other', select, dict (n=4+d, site=site, kinds=['select', 'almost', 'div', 'text', 'end'])))
    r.append (('kinds', select, dict (n=4+d, site='bbcarabic', kinds=['select', 'span', 'void', 'comment', 'space', 'text', 'end'])))
    r.append (('names', select, dict (n=4+d, site='bbcarabic', kinds=['select', 'other', 'text', 'end'])))
    r.append (('names-all', everything, dict (n=3+d, kinds=['other', 'void', 'text', 'end'])))
    r.append (('all', everything, dict (n=4+d, kinds=['div', 'p', 'span', 'void', 'comment', 'space', 'text', 'end'])))
    return r

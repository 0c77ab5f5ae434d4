""" Text of XML documents """
PRELOAD = ['xml.dom.minidom', 'lulua.text']
FUNCTIONS = ['lulua.text.getText', 'lulua.text.filterTEI2', 'lulua.text.filterOpenSubtitles']
BOUNDS = {
    'quick': 'TEI.2 documents with header, 1-2 texts and 0-3 paragraphs of 0-2 sentences; subtitles of 0-3 sentences; sentences of 0-3 nodes (texts of 0-2 symbolic characters, markup with text, comments)',
    'thorough': 'same with more paragraphs and nodes'}
OUTSIDE = 'XML parsing (xml.dom.minidom is used to build documents), larger documents, nested paragraphs'


def sentence (ctx, doc, p, n, kinds):
    """ element, its text """
    s = doc.createElement ('s')
    text = ''
    for i in range (n):
        k = ctx.fork (f'{p}k{i}', kinds)
        if k == 'text':
            t = ctx.str (f'{p}t{i}', 1+i % 2)
            s.appendChild (doc.createTextNode (t))
            text = text+t
        elif k == 'time':
            e = doc.createElement ('time')
            e.setAttribute ('id', 'T1S')
            e.appendChild (doc.createTextNode ('x'))
            s.appendChild (e)
        elif k == 'comment':
            s.appendChild (doc.createComment ('c'))
    return s, text


def subtitles (ctx, lens, kinds):
    import lulua.text as t
    from xml.dom.minidom import Document
    doc = Document ()
    root = doc.appendChild (doc.createElement ('document'))
    want = []
    for i, n in enumerate (lens):
        s, text = sentence (ctx, doc, f's{i}', n, kinds)
        root.appendChild (doc.createTextNode ('\n'))
        root.appendChild (s)
        want.append (text.strip ())
    got = list (t.filterAvail['opensubtitles'] (doc))
    ctx.check (len (got) == 1, 'one text')
    exp = ''
    for i, x in enumerate (want):
        exp = exp+('\n' if i else '')+x
    ctx.check (got[0] == exp, 'one sentence per line, without surrounding white space')
    ctx.observe (got)


def tei (ctx, shape, kinds, ntexts=1):
    import lulua.text as t
    from xml.dom.minidom import Document
    doc = Document ()
    root = doc.appendChild (doc.createElement ('TEI.2'))
    # header is not part of the text
    head = root.appendChild (doc.createElement ('teiHeader'))
    hs = head.appendChild (doc.createElement ('p')).appendChild (doc.createElement ('s'))
    hs.appendChild (doc.createTextNode ('head'))
    exp = ''
    first = True
    for k in range (ntexts):
        text = root.appendChild (doc.createElement ('text'))
        front = text.appendChild (doc.createElement ('front')).appendChild (doc.createElement ('p')).appendChild (doc.createElement ('s'))
        front.appendChild (doc.createTextNode ('front'))
        body = text.appendChild (doc.createElement ('body'))
        for i, lens in enumerate (shape):
            p = body.appendChild (doc.createElement ('p'))
            for j, n in enumerate (lens):
                s, x = sentence (ctx, doc, f's{k}{i}{j}', n, kinds)
                p.appendChild (s)
                exp = exp+('' if first else '\n')+x
                first = False
            exp = exp+('' if first else '\n')
            first = False
    got = list (t.filterAvail['tei2'] (doc))
    ctx.check (len (got) == 1, 'one text')
    ctx.check (got[0] == exp, 'one sentence per line, paragraphs are separated by an empty line')
    ctx.observe (got)


def cases (tier):
    q = tier == 'quick'
    r = [('sub0', subtitles, dict (lens=[], kinds=[]))]
    k1, k2 = ['text'], ['text', 'time', 'comment']
    for lens in ([1], [2], [1, 1], [0, 1, 0])+(() if q else ([3], [2, 1], [1, 1, 1])):
        r.append ((f'sub{"".join (map (str, lens))}', subtitles, dict (lens=lens, kinds=k1)))
    for lens in ([3], [2, 1]):
        r.append ((f'submark{"".join (map (str, lens))}', subtitles, dict (lens=lens, kinds=k2)))
    for shape in ([], [[1]], [[1, 1], [1]], [[], [1]], [[2], [], [1, 0]]):
        r.append ((f'tei{shape}', tei, dict (shape=shape, kinds=k1)))
    r.append (('teimark', tei, dict (shape=[[3], [1]], kinds=k2)))
    r.append (('tei2', tei, dict (shape=[[1], [1]], kinds=k1, ntexts=2)))
    return r

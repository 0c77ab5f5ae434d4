""" Reading compressed streams """
from io import BytesIO

PRELOAD = ['lulua.text']
FUNCTIONS = ['lulua.text.BrotliFile.__init__', 'lulua.text.BrotliFile.read', 'lulua.text.filterBrotli', 'lulua.text.filterTar', 'lulua.text.iterchar']
BOUNDS = {
    'quick': 'streams of 0-4 compressed and 0-5 (symbolic) plain bytes; the decompressor releases any number of bytes after each input byte; chunks of 1-3, 64 bytes or all at once; up to 3 calls reading 0-6 bytes or all, until the end; truncated streams',
    'thorough': 'streams of 0-6 plain bytes, up to 4 calls'}
OUTSIDE = 'the brotli format: the decompressor is replaced by one which releases plain data in arbitrary portions'
ASSUMPTIONS = ['a decompressor is finished exactly when it has seen all compressed bytes, and has released all data by then']


class Brotli:
    """ stand-in for the brotli module: release[i] plain bytes after i compressed bytes """
    def __init__ (self, plain, release):
        self.plain, self.release = plain, release

    def Decompressor (self):
        return Decompressor (self.plain, self.release)


class Decompressor:
    def __init__ (self, plain, release):
        self.plain, self.release = plain, release
        self.seen = self.done = 0

    def process (self, data):
        self.seen += len (data)
        assert self.seen < len (self.release), 'trailing data'
        n = self.release[self.seen]
        r = self.plain[self.done:n]
        self.done = n
        return r

    decompress = process

    def is_finished (self):
        return self.seen == len (self.release)-1

    def flush (self):
        return b''

    finish = flush


class Source:
    """ file, short reads are possible """
    def __init__ (self, n, cut=None):
        self.data = BytesIO (b'z'*n)

    def read (self, n=None):
        return self.data.read (n)


def setup (ctx, nplain, ncomp):
    plain = ctx.bytes ('plain', nplain)
    release = [0]
    for i in range (ncomp):
        release.append (ctx.fork (f'release{i}', list (range (release[-1], nplain+1))) if i < ncomp-1 else nplain)
    return plain, Brotli (plain, release)


def make (b, src, chunk):
    import lulua.text as t
    if chunk is None:
        return next (iter (t.filterAvail['brotli'] (src)))
    return t.BrotliFile (src, chunk)


def read (ctx, nplain, ncomp, chunks, calls, sizes):
    import lulua.text as t
    plain, b = setup (ctx, nplain, ncomp)
    old = t.brotli
    t.brotli = b
    try:
        f = make (b, Source (ncomp), ctx.fork ('chunk', chunks))
        rest = plain
        for i in range (calls):
            n = ctx.fork (f'n{i}', sizes)
            if n is None:
                got = f.read () if i % 2 else f.read (None)
                ctx.check (got == rest, 'everything')
                rest = b''
            else:
                got = f.read (n)
                ctx.check (len (got) == min (n, len (rest)), 'as much as requested, if available')
                ctx.check (got == rest[:n], 'next bytes')
                rest = rest[len (got):]
        ctx.check (f.read () == rest, 'the rest')
        ctx.check (f.read (3) == b'' and f.read () == b'', 'end of file')
    finally:
        t.brotli = old
    ctx.observe (plain)


def truncated (ctx, nplain, ncomp, cut):
    """ must not block forever, nothing invented """
    import lulua.text as t
    plain, b = setup (ctx, nplain, ncomp)
    old = t.brotli
    t.brotli = b
    n = ctx.fork ('n', [None, 1, 2, 6])
    got, failed, complete = b'', False, True
    available = b.release[cut]
    try:
        f = make (b, Source (cut), ctx.fork ('chunk', [1, 2, None]))
        for i in range (3):
            complete = n is None or available < n
            x = f.read (n)
            if not complete:
                ctx.check (len (x) == n, 'as much as requested, while available')
            complete = True
            available -= len (x)
            got = got+x
    except Exception:
        failed = True
    finally:
        t.brotli = old
    ctx.check (complete, 'data in front of the truncation is available')
    ctx.check (got == plain[:len (got)], 'nothing else is read')
    if not failed and (n is None or n == 6):
        ctx.check (False, 'truncation is noticed')
    ctx.observe (failed)


def cases (tier):
    q = tier == 'quick'
    r = []
    full = [None, 0, 1, 2, 3, 6]
    few = [None, 1, 2]
    for n, m in ((0, 1), (1, 1), (2, 2), (3, 2), (3, 3)):
        r.append ((f'read{n}-{m}', read, dict (nplain=n, ncomp=m, chunks=[1, 2, None], calls=2, sizes=full)))
    r.append (('read5-2', read, dict (nplain=5, ncomp=2, chunks=[1, 3, 64], calls=2, sizes=full)))
    r.append (('read4-4', read, dict (nplain=4, ncomp=4, chunks=[1, 3], calls=1 if q else 3, sizes=full)))
    r.append (('calls', read, dict (nplain=4, ncomp=2, chunks=[1, 2], calls=3, sizes=few)))
    for n, m, c in ((2, 2, 1), (0, 1, 0), (3, 3, 1), (3, 3, 2)):
        r.append ((f'truncated{n}-{m}-{c}', truncated, dict (nplain=n, ncomp=m, cut=c)))
    return r

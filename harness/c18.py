""" Reading tar archives """
from io import BytesIO

PRELOAD = ['lulua.text']
FUNCTIONS = ['lulua.text.filterTar', 'lulua.text.apply']
BOUNDS = {
    'quick': 'GNU archives of 0-3 members: regular files (both type flags), directories, symbolic links, long names; sizes 0, 1, 511, 512, 513, 1024, 1025 (and 17 others up to 4097 for the first one; all of them for two members, 4 of them for three); member names (2 bytes), the 4 first and last bytes of every member and the unused rest of the header symbolic; ended by two or one empty blocks, or by the end of file; padding of arbitrary (symbolic) content',
    'thorough': 'same with all sizes for three members, and up to 40001 bytes'}
OUTSIDE = 'larger members, other tar formats, sparse files, streams returning fewer bytes than asked for'

SIZES = [0, 1, 511, 512, 513, 1024, 1025]


def header (name, size, typeflag, rest):
    """ GNU tar header """
    h = name + b'\0'*(100-len (name)) + b'0000644\0' + b'0001750\0' + b'0001750\0'
    h = h + b'%011o\0' % size + b'13605513472\0' + b'000000 \0'[:8] + typeflag
    h = h + b'\0'*100 + b'ustar  \0'
    h = h + rest + b'\0'*(512-len (h)-len (rest))
    return h


def archive (ctx, kinds, sizes, end):
    data = b''
    want = []
    for i, k in enumerate (kinds):
        name = ctx.bytes (f'name{i}', 2)
        size = ctx.fork (f'size{i}', sizes[i]) if k in 'f0L' else 0
        flag = {'f': b'0', '0': b'\0', 'd': b'5', 'l': b'2', 'L': b'L'}[k]
        data = data + header (name, size, flag, ctx.bytes (f'rest{i}', 3))
        if size > 8:
            body = ctx.bytes (f'head{i}', 4) + b'x'*(size-8) + ctx.bytes (f'tail{i}', 4)
        else:
            body = ctx.bytes (f'head{i}', size)
        data = data + body
        if size % 512:
            pad = 512-size % 512
            data = data + (ctx.bytes (f'pad{i}', 1) + b'\0'*(pad-1))
        if k in 'f0' and size > 0:
            want.append (body)
    data = data + b'\0'*512*end
    return data, want


def extract (ctx, kinds, sizes, end, lazy=False):
    from lulua.text import filterAvail
    data, want = archive (ctx, kinds, sizes, end)
    fd = BytesIO (data)
    if lazy:
        got = [x.read () for x in filterAvail['tar'] (fd)]
    else:
        # all members remain readable
        got = [x.read () for x in list (filterAvail['tar'] (fd))]
    ctx.check (len (got) == len (want), 'one document per non-empty regular file')
    for a, b in zip (got, want):
        ctx.check (a == b, 'content of every file, in order')
    ctx.observe (got)


def cases (tier):
    q = tier == 'quick'
    few = [0, 1, 512, 1025] if q else SIZES
    r = [('empty', extract, dict (kinds='', sizes=[], end=2)), ('eof', extract, dict (kinds='', sizes=[], end=0))]
    for kinds in ('f', '0', 'd', 'ff', 'df', 'fd', 'lf', 'Lf', 'fLf'):
        r.append ((f'{kinds}', extract, dict (kinds=kinds, sizes=[SIZES if k != 'L' else [120, 512] for k in kinds], end=2)))
    r.append (('sizes', extract, dict (kinds='ff', sizes=[[2, 7, 8, 9, 63, 64, 65, 255, 256, 510, 514, 1023, 1536, 2047, 2048, 4095, 4097]+([] if q else [32768, 40001]), [5]], end=2)))
    r.append (('lazy', extract, dict (kinds='ff', sizes=[SIZES]*2, end=1, lazy=True)))
    r.append (('ff-eof', extract, dict (kinds='ff', sizes=[few]*2, end=0)))
    r.append (('fdf', extract, dict (kinds='fdf', sizes=[few]*3, end=2)))
    r.append (('fff', extract, dict (kinds='fff', sizes=[few]*3, end=2)))
    return r

""" Typing effort as defined by http://mkweb.bcgsc.ca/carpalx/?typing_effort,
extended to several simultaneous keys as documented by lulua; written from the
definition """


def handpath (h):
    """ 0 both hands, not alternating; 1 alternating; 2 same hand """
    ab, bc = h[0] == h[1], h[1] == h[2]
    if ab and bc:
        return 2
    if not ab and not bc:
        return 1
    return 0


def rowpath (r):
    """ rows are numbered from top to bottom """
    s1, s2 = r[1]-r[0], r[2]-r[1]
    if s1 == 0 and s2 == 0:
        return 0                    # same row
    if s1 >= 0 and s2 >= 0:
        if s1 > 0 and s2 > 0:
            return 4                # downward progression
        return 1                    # downward progression with repetition
    if s1 <= 0 and s2 <= 0:
        if s1 < 0 and s2 < 0:
            return 6                # upward progression
        return 2                    # with repetition
    # not monotonic: one step up, one step down
    if -1 <= s1 and s1 <= 1 and -1 <= s2 and s2 <= 1:
        return 3                    # at most one row at a time
    if s1 > 1 or s2 > 1:
        return 5                    # more than one row downward
    return 7                        # more than one row upward


def fingerpath (f, same):
    """ f: position of finger from left to right, same: the same key twice? """
    a, b, c = f
    if a == b and b == c:
        return 5 if same else 7
    if a != b and b != c and a != c:
        # all different
        if (a < b and b < c) or (a > b and b > c):
            return 0                # monotonic
        if (a < c and c < b) or (b < c and c < a):
            return 2                # rolling
        return 3
    # two of them are the same
    if a == c:
        return 4                    # not monotonic
    return 1 if same else 6


def fingerpos (hand, finger):
    """ fingers of both hands from left to right """
    from lulua.layout import LEFT, LITTLE, RING, MIDDLE, INDEX, THUMB
    order = {LITTLE: 0, RING: 1, MIDDLE: 2, INDEX: 3, THUMB: 4}
    n = order[finger]
    return n if hand == LEFT else 9-n


def strokepath (keys, hf, row, fHRF):
    """ keys: three keys; hf, row: functions """
    pos = [hf (k) for k in keys]
    h = handpath ([p[0] for p in pos])
    r = rowpath ([row (k) for k in keys])
    same = keys[0] == keys[1] or keys[1] == keys[2] or keys[0] == keys[2]
    f = fingerpath ([fingerpos (p[0], p[1]) for p in pos], same)
    return fHRF[0]*h + fHRF[1]*r + fHRF[2]*f


def penalty (key, hf, row, model):
    w0, wh, wr, wf = model.w0HRF
    hand, finger = hf (key)
    return w0 + wh*model.pHand[hand] + wr*model.pRow[row (key)] + wf*model.pFinger[hand][finger]


def chained (e, model):
    k1, k2, k3, ks = model.k123S
    return k1*e[0] * (1 + k2*e[1] * (1 + k3*e[2]))


def effort (triad, hf, row, model):
    """ triad: three lists of keys """
    ks = model.k123S[3]
    b = [sum (model.baselineEffort[k.name] for k in c) + (len (c)-1)*ks for c in triad]
    p = [sum (penalty (k, hf, row, model) for k in c) + (len (c)-1)*ks for c in triad]
    s = None
    for x in triad[0]:
        for y in triad[1]:
            for z in triad[2]:
                v = strokepath ([x, y, z], hf, row, model.fHRF)
                if s is None or v < s:
                    s = v
    kb, kp, kS = model.kBPS
    return kb*chained (b, model) + kp*chained (p, model) + kS*s

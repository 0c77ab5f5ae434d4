""" Simulated annealing """
from .common import Bar, patched

PRELOAD = ['lulua.optimize']
FUNCTIONS = ['lulua.optimize.Annealer.__init__', 'lulua.optimize.Annealer.run']
BOUNDS = {
    'quick': '1-4 steps, every step changes the energy by a symbolic real number, states modified in place or replaced',
    'thorough': '1-6 steps'}
OUTSIDE = 'more steps, rounding of floating point numbers, progress display'
ASSUMPTIONS = ['tqdm is replaced by a stub, it has no influence on the result']


class State:
    def __init__ (self, trail):
        self.trail = trail

    def copy (self):
        return State (list (self.trail))


def run (ctx, n, inplace):
    import lulua.optimize as o
    diffs = [ctx.real (f'd{i}', -1000, 1000) for i in range (n)]
    seen = []
    # not right at the threshold, where rounding decides
    big = 0
    for i, d in enumerate (diffs):
        big = max (big, abs (d))
        ctx.assume (abs (abs (d)-10**-(i/n*6)*big) > 1e-4 or abs (d) == big)

    class A (o.Annealer):
        def mutate (self):
            i = len (seen)
            seen.append (list (self.state.trail))
            if inplace:
                self.state.trail.append (i)
            else:
                self.state = State (self.state.trail+[i])
            return diffs[i]

    with patched (o, tqdm=Bar ()):
        start = State ([])
        a = A (start)
        best, rel = a.run (n)
    ctx.check (len (seen) == n, 'number of steps')
    # every state a mutation starts with is the previous one, or the one before that
    seen.append (list (a.state.trail))
    cur, e = [], 0
    low, lowtrail = 0, []
    big = 0
    for i in range (n):
        ctx.check (seen[i] == cur, 'a rejected mutation is undone, an accepted one is kept')
        d = diffs[i]
        accepted = seen[i+1] == cur+[i]
        big = max (big, abs (d))
        if d < 0:
            ctx.check (accepted, 'improvements are always accepted')
        elif d > 0:
            limit = 10**-(i/n*6)
            if accepted:
                ctx.check (d < limit*big, 'only small degradations are accepted, decreasing')
            else:
                ctx.check (d >= limit*big, 'small degradations are accepted')
        if accepted:
            cur = cur+[i]
            e = e+d
        if e < low:
            low, lowtrail = e, cur
    ctx.check (a.state.trail == cur, 'final state')
    ctx.close (rel, low, 'lowest energy is returned')
    ctx.check (best.trail == lowtrail, 'state with the lowest energy is returned')
    ctx.observe (best.trail, rel, a.state.trail)


def cases (tier):
    return [(f'run{n}{"i" if i else ""}', run, dict (n=n, inplace=i), {'lazyformat': True}) for n in range (1, 5 if tier == 'quick' else 7) for i in (True, False) if i or n != 4]

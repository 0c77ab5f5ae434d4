""" Corpus processing with several processes: simulated processes and queues """
from .common import load, patched, Quiet, Bar

PRELOAD = ['lulua.text', 'lulua.stats', 'lulua.writer', 'lulua.layout', 'lulua.keyboard']
FUNCTIONS = ['lulua.text.write', 'lulua.text.writeWorker', 'lulua.text.statusWorker']
BOUNDS = {
    'quick': '1 or 2 workers, 0-7 lines, of which none, any one or all make their worker fail, and some have no text; interruption (KeyboardInterrupt) after any line; schedules: a process runs until it blocks, then the next in turn, with up to 2 (failures and interruptions with two workers: 1) deviations anywhere - preemption, another turn, early timeout, late delivery between processes, overtaking',
    'thorough': '1-3 workers; one deviation more'}
OUTSIDE = 'processes and queues of the operating system (simulated: bounded queues, first in first out per sender, delayed delivery, buffered items block the exit of their sender); workers killed by signals; the progress bar, which is run as soon as possible'


class Kill (BaseException):
    pass


class Hang (BaseException):
    pass


class Proc:
    def __init__ (self, name):
        import threading
        self.name = name
        self.wait = None
        self.timeout = False
        self.timedout = False
        self.done = False
        self.started = False
        self.sem = threading.Semaphore (0)


class Scheduler:
    """ one process runs at a time; the first one is the caller """
    def __init__ (self, ctx, budget):
        self.ctx = ctx
        self.budget = budget
        self.main = Proc ('main')
        self.main.started = True
        self.current = self.main
        self.procs = [self.main]
        self.queues = []
        self.last = self.main
        self.n = 0
        self.idle = 0
        self.dead = False
        self.error = None

    def decide (self, what, options):
        if len (options) == 1:
            return options[0]
        self.n += 1
        return self.ctx.fork (f'{what}{self.n}', options)

    def ready (self, p):
        return p.started and not p.done and (p.wait is None or p.wait ())

    def deviate (self, what):
        """ something that does not usually happen """
        if self.budget <= 0:
            return False
        if self.decide (what, [False, True]):
            self.budget -= 1
            return True
        return False

    def pick (self, r):
        """ in turn, usually """
        i = self.procs.index (self.current)
        r = sorted (r, key=lambda p: (self.procs.index (p)-i-1) % len (self.procs))
        if len (r) > 1 and self.deviate ('turn'):
            return self.procs[self.decide ('to', [self.procs.index (p) for p in r[1:]])]
        return r[0]

    def choose (self):
        # progress bar
        for p in self.procs:
            if p.name == 'status' and self.ready (p):
                return p
        r = [p for p in self.procs if self.ready (p)]
        cur = self.current
        if cur in r:
            others = [p for p in r if p is not cur]
            if others and self.deviate ('preempt'):
                return self.procs[self.decide ('to', [self.procs.index (p) for p in others])]
            return cur
        if r:
            if cur.timeout and cur.name != 'status' and not cur.done and self.deviate ('early'):
                cur.timedout = True
                return cur
            return self.pick (r)
        # nothing happens until someone’s patience ends
        for q in self.queues:
            q.deliver ()
        r = [p for p in self.procs if self.ready (p)]
        if r:
            return self.pick (r)
        r = [p for p in self.procs if p.started and not p.done and p.timeout]
        self.idle += 1
        if not r or self.idle > 4*len (self.procs):
            return None
        i = self.procs.index (self.last)
        p = self.last = min (r, key=lambda p: (self.procs.index (p)-i-1) % len (self.procs))
        p.timedout = True
        return p

    def switch (self, wait=None, timeout=False):
        """ let others run until wait () """
        me = self.current
        me.wait, me.timeout, me.timedout = wait, timeout, False
        p = self.choose ()
        if p is None:
            if me is self.main:
                raise Hang ()
            self.error = Hang ()
            p = self.main
        if p is not me:
            self.current = p
            p.sem.release ()
            me.sem.acquire ()
            if self.dead:
                raise Kill ()
            if self.error is not None and me is self.main:
                e, self.error = self.error, None
                raise e
        self.current = me
        t = me.timedout
        me.wait, me.timeout, me.timedout = None, False, False
        return not t

    def run (self, p, fn):
        """ body of the thread of p """
        p.sem.acquire ()
        try:
            if not self.dead:
                fn ()
        except Kill:
            return
        except Exception as e:
            p.failed = e
        except BaseException as e:
            # verdict of the engine
            if not self.dead:
                self.error = e
                self.current = self.main
                self.main.sem.release ()
            return
        p.done = True
        if self.dead:
            return
        try:
            self.current = p
            n = self.choose ()
        except BaseException as e:
            self.error, n = e, self.main
        if n is None:
            self.error, n = Hang (), self.main
        self.current = n
        n.sem.release ()

    def end (self):
        self.dead = True
        for p in self.procs[1:]:
            p.sem.release ()
        for p in self.procs[1:]:
            if p.started:
                p.thread.join ()


def primitives (sched):
    import queue

    class Queue:
        def __init__ (self, maxsize=0, **k):
            self.maxsize = maxsize
            self.pipe = []
            self.buffers = {}
            self.cancelled = set ()
            sched.queues.append (self)

        def qsize (self):
            return len (self.pipe)+sum (len (b) for b in self.buffers.values ())

        def full (self):
            return self.maxsize > 0 and self.qsize () >= self.maxsize

        def deliver (self):
            for b in self.buffers.values ():
                while b:
                    self.pipe.append (b.pop (0))

        def put (self, x, block=True, timeout=None):
            if not sched.switch ():
                pass
            if self.full ():
                if not block:
                    raise queue.Full
                if not sched.switch (lambda: not self.full (), timeout is not None):
                    raise queue.Full
            self.buffers.setdefault (sched.current.name, []).append ((sched.current.name, x))
            sched.idle = 0

        def put_nowait (self, x):
            return self.put (x, False)

        def get (self, block=True, timeout=None):
            sched.switch ()
            if self.qsize () == 0:
                if not block:
                    raise queue.Empty
                if not sched.switch (lambda: self.qsize () > 0, timeout is not None):
                    raise queue.Empty
            sched.idle = 0
            if not self.pipe:
                # whoever is first
                s = sorted (k for k, b in self.buffers.items () if b)
                if len (s) > 1 and sched.deviate ('overtake'):
                    s = [sched.decide ('sender', s[1:])]
                self.pipe.append (self.buffers[s[0]].pop (0))
            return self.pipe.pop (0)[1]

        def get_nowait (self):
            return self.get (False)

        def empty (self):
            sched.switch ()
            if self.pipe:
                return False
            if self.qsize () == 0:
                return True
            # still on its way
            if any (b for k, b in self.buffers.items () if k != sched.current.name) and sched.deviate ('late'):
                return True
            self.deliver ()
            return False

        def cancel_join_thread (self):
            self.cancelled.add (sched.current.name)

        def close (self):
            pass

        def join_thread (self):
            sched.switch (lambda: not self.buffers.get (sched.current.name))

    class Process (Proc):
        count = 0

        def __init__ (self, group=None, target=None, name=None, args=(), kwargs={}, daemon=None):
            import threading
            Process.count += 1
            super ().__init__ ('status' if target.__name__ == 'statusWorker' else f'worker{Process.count}')
            self.failed = None
            self.thread = threading.Thread (target=sched.run, args=(self, lambda: target (*args, **kwargs)), daemon=True)
            self.exitcode = None
            self.daemon = daemon

        def start (self):
            self.started = True
            sched.procs.append (self)
            self.thread.start ()

        def is_alive (self):
            sched.switch ()
            return not self.done

        def join (self, timeout=None):
            sched.switch (lambda: self.done, timeout is not None)

        def terminate (self):
            # not before it runs again
            self.done = True

        kill = terminate

        def close (self):
            pass

    return Queue, Process


class Failure (Exception):
    pass


class Stdin:
    def __init__ (self, lines, interrupt=None):
        self.lines = lines
        self.interrupt = interrupt
        self.given = 0
        self.buffer = None

    def __iter__ (self):
        return self

    def __next__ (self):
        if self.given == self.interrupt:
            self.interrupt = None
            raise KeyboardInterrupt
        if self.given >= len (self.lines):
            raise StopIteration
        self.given += 1
        return self.lines[self.given-1]

    def readline (self):
        try:
            return next (self)
        except StopIteration:
            return ''


class Stdout:
    def __init__ (self, buffer):
        self.buffer = buffer

    def write (self, x):
        pass

    def flush (self):
        pass


ALPHABET = '\u0627\u0628'


def command (ctx, jobs, lines, bad, budget, interrupt=None):
    """ run the command; returns (error, pickle file, given lines, scheduler) """
    import sys, time, multiprocessing
    import lulua.text as text
    sched = Scheduler (ctx, budget)
    Queue, Process = primitives (sched)

    def filt (item):
        if item.startswith ('x'):
            raise Failure (item)
        if not item.startswith ('-'):
            yield item

    stdin = Stdin (lines, interrupt)
    out = ctx.picklefile ()
    old = sys.stdin, sys.stdout, sys.argv
    sys.stdin, sys.stdout, sys.argv = stdin, Stdout (out), ['lulua-write', '-j', str (jobs), 'ar-lulua', 'lines']
    err = None
    try:
        with patched (text, Process=Process, Queue=Queue, tqdm=Bar (), logging=Quiet (), filterAvail={'lines': filt}), patched (multiprocessing, Process=Process, Queue=Queue), patched (time, sleep=lambda s: sched.switch (lambda: False, True)):
            try:
                code = text.write ()
                # console scripts exit with what is returned
                if type (code) is int and code != 0:
                    err = SystemExit (code)
            except Hang:
                err = 'hang'
            except (Exception, SystemExit) as e:
                err = e
    finally:
        sys.stdin, sys.stdout, sys.argv = old
        sched.end ()
    return err, out, stdin.given, sched


def total (ctx, out):
    r = {}
    results = ctx.unpickleall (out)
    for x in results:
        for c, v in x['simple'].combinations.items ():
            r[c] = r.get (c, 0)+v
    return r, len (results)


def check (ctx, jobs, n, bad, budget, interrupt=False, symbolic=False, empties=[None]):
    what = ctx.fork ('bad', bad)
    empty = ctx.fork ('empty', empties)
    lines = []
    for i in range (n):
        if empty is not None and i in empty:
            lines.append ('-')
        elif what == 'all' or what == i:
            lines.append ('x'*(i+1))
        else:
            lines.append (ctx.str (f'c{i}', 1, ALPHABET) if symbolic else ALPHABET[i%2])
    stop = ctx.fork ('interrupt', list (range (n+1))) if interrupt else None
    err, out, given, sched = command (ctx, jobs, lines, what, budget, stop)
    ctx.check (not (type (err) is str and err == 'hang'), 'terminates')
    for q in sched.queues:
        left = q.buffers.get ('main', [])+[x for x in q.pipe if x[0] == 'main']
        ctx.check (not left or 'main' in q.cancelled, 'items nobody is going to take do not prevent exiting')
    if what is None:
        if isinstance (err, SystemExit):
            ctx.check (err.code in (None, 0), 'succeeds')
        elif err is not None:
            raise err
        ctx.check (given == (n if stop is None else stop), 'all lines are read')
        got, k = total (ctx, out)
        ctx.check (k <= jobs and (k > 0) == any (x != '-' for x in lines[:given]), 'at most one result per worker')
        layout = load ('ar-lulua')
        want = {}
        for i, l in enumerate (lines[:given]):
            for c in ALPHABET:
                if l == c:
                    want[c] = want.get (c, 0)+1
        for c in ALPHABET:
            x = 0
            for k, v in got.items ():
                if layout.getText (k) == c:
                    x = x+v
            ctx.check (x == want.get (c, 0), 'every line is counted once')
    else:
        ctx.check (isinstance (err, Failure) or given <= (what if what != 'all' else 0), 'failures are reported')
        if isinstance (err, Failure):
            ctx.check (str (err) in lines, 'failures are reported')
    ctx.check (err is not None or all (p.done for p in sched.procs[1:]), 'no process is left')
    ctx.observe (given)


def cases (tier):
    q = tier == 'quick'
    r = []
    b = 0 if q else 1
    for n in (0, 1, 2, 4):
        r.append ((f'one{n}', check, dict (jobs=1, n=n, bad=[None], budget=2+b, symbolic=n == 1)))
    r.append (('one-fail', check, dict (jobs=1, n=5, bad=['all', 0, 1, 2, 3, 4], budget=2+b)))
    for n in (1, 2, 3):
        r.append ((f'two{n}', check, dict (jobs=2, n=n, bad=[None], budget=2+b)))
    # items without any text
    r.append (('one-empty', check, dict (jobs=1, n=6, bad=[None], budget=b, empties=[(0, ), (2, ), (5, ), (0, 1, 2, 3), tuple (range (6))])))
    r.append (('two-empty', check, dict (jobs=2, n=6, bad=[None, 3], budget=b, empties=[(0, ), (1, 2), (4, 5), (0, 1, 2), (0, 1, 2, 4, 5)])))
    r.append (('two-fail', check, dict (jobs=2, n=7, bad=['all', 0, 3, 6], budget=1+b)))
    r.append (('interrupt1', check, dict (jobs=1, n=2, bad=[None], budget=2+b, interrupt=True)))
    r.append (('interrupt2', check, dict (jobs=2, n=2, bad=[None], budget=1+b, interrupt=True)))
    if not q:
        r.append (('three-fail', check, dict (jobs=3, n=10, bad=['all', 0, 5], budget=1)))
    return r

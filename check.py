#!/opt/venv/bin/python
"""
Runner:  check.py --prop C01 --tier quick
         check.py --replay FILE      (re-run a counterexample on the real code)
"""
import os, sys

if os.environ.get ('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv (sys.executable, [sys.executable] + sys.argv)

import argparse, json, time, collections, subprocess, traceback, importlib, random, resource, warnings
warnings.simplefilter ('ignore')

HERE = os.path.dirname (os.path.abspath (__file__))
REPO = os.environ.get ('VERIF_REPO', '/repo')
sys.path.insert (0, HERE)
sys.path.insert (1, REPO)
sys.path.append ('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
sys.setrecursionlimit (6000)


def loadcases (prop, tier):
    mod = importlib.import_module (f'harness.{prop.lower ()}')
    cases = mod.cases (tier)
    assert len (set (c[0] for c in cases)) == len (cases), 'duplicate case name'
    return mod, cases


class Case:
    def __init__ (self, name, fn, **kw):
        self.name, self.fn, self.kw = name, fn, kw


# -- native side ------------------------------------------------------------

def native (args):
    """ read jobs from stdin, run them on the unmodified code """
    from symx.ctx import ConcCtx, Violation, Excluded
    jobs = json.load (sys.stdin)
    out = os.fdopen (os.dup (1), 'w')
    devnull = os.open (os.devnull, os.O_WRONLY)
    os.dup2 (devnull, 1)
    cache = {}
    import signal
    class NativeTimeout (BaseException):
        pass
    def onalarm (*a):
        raise NativeTimeout ()
    ntimeouts = 0
    signal.signal (signal.SIGALRM, onalarm)
    res = []
    for j in jobs:
        if j['tier'] not in cache:
            mod, cs = loadcases (j['prop'], j['tier'])
            cache[j['tier']] = {c[0]: c for c in cs}
        name, fn, kw = cache[j['tier']][j['case']][:3]
        if ntimeouts >= 3:
            res.append (dict (status='skipped', detail='', obs=[], nchecks=0, missing=[]))
            continue
        ctx = ConcCtx (j['inputs'])
        r = dict (status='ok', detail='')
        signal.alarm (int (j.get ('timeout', 20)))
        importlib.import_module ('harness.common').reset ()
        try:
            fn (ctx, **kw)
        except Violation as e:
            r = dict (status='violation', detail=str (e))
        except Excluded:
            r = dict (status='excluded', detail='')
        except RecursionError as e:
            r = dict (status='violation', detail='RecursionError')
        except NativeTimeout:
            r = dict (status='violation', detail='does not terminate')
            ntimeouts += 1
        except (Exception, SystemExit) as e:
            r = dict (status='violation', detail='unexpected '+''.join (traceback.format_exception_only (type (e), e)).strip (),
                tb=traceback.format_exc ()[-1500:])
        finally:
            signal.alarm (0)
        r['obs'] = ctx.obs
        r['nchecks'] = ctx.nchecks
        r['missing'] = ctx.missing
        res.append (r)
    json.dump (res, out)
    out.flush ()
    os._exit (0)


def runnative (jobs, timeout=300):
    env = dict (os.environ)
    p = subprocess.run ([sys.executable, os.path.join (HERE, 'check.py'), '--native'], input=json.dumps (jobs).encode (),
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd='/tmp')
    if p.returncode != 0 or not p.stdout:
        raise RuntimeError ('native runner failed: ' + p.stderr.decode ()[-2000:])
    return json.loads (p.stdout)


# -- symbolic side ------------------------------------------------------------

class Explorer:
    def __init__ (self, prop, tier):
        import site
        from symx import instrument, rt, core, values
        import pygtrie
        gtriedir = os.path.dirname (pygtrie.__file__)
        del sys.modules['pygtrie']
        roots = {'lulua': REPO, 'harness': HERE, 'pygtrie': gtriedir}
        instrument.install (roots)
        import logging
        for n in ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log'):
            rt.noop.add (getattr (logging, n))
            rt.noop.add (getattr (logging.Logger, n))
        self.mod, self.cases = loadcases (prop, tier)
        self.prop, self.tier = prop, tier
        # further modules to be executed symbolically
        for m in getattr (self.mod, 'INSTRUMENT', ()):
            roots[m] = os.path.dirname (importlib.import_module (m).__file__)
            del sys.modules[m]
        from symx.snapshot import Snapshot
        # preload everything the harness may import lazily
        for m in getattr (self.mod, 'PRELOAD', ()):
            importlib.import_module (m)
        for c in self.cases:
            pass
        names = set (rt.instrumented)
        self.snap = Snapshot (names)
        core.E.snap = self.snap
        self.instrument = instrument
        self.rt = rt
        self.E = core.E
        self.functions = set ()

    def path (self, ci, prefix, sample=False):
        """ run one path; returns dict """
        from symx.symctx import SymCtx
        from symx import core
        E = self.E
        case = self.cases[ci]
        name, fn, kw = case[:3]
        opt = case[3] if len (case) > 3 else {}
        self.snap.restore ()
        E.begin (prefix)
        E.opaque = False
        E.lazyformat = opt.get ('lazyformat', False)
        E.mergequant = opt.get ('mergequant', False)
        E.timeout = opt.get ('timeout', 30000)
        E.solver.set ('timeout', E.timeout)
        E.speculate = 0
        E.maxdecisions = opt.get ('maxdecisions', 5000)
        ctx = SymCtx ()
        res = dict (case=ci, status='ok')
        import signal
        def onalarm (*a):
            raise core.Inconclusive ('path does not terminate')
        signal.signal (signal.SIGVTALRM, onalarm)
        try:
            try:
                signal.setitimer (signal.ITIMER_VIRTUAL, opt.get ('pathlimit', 40))
                try:
                    fn (ctx, **kw)
                finally:
                    signal.setitimer (signal.ITIMER_VIRTUAL, 0)
            except (Exception, SystemExit) as e:
                # an exception nobody expected; is this path really feasible?
                r, m = E._check ()
                if str (r) == 'unsat':
                    raise core.Abort ()
                if m is None:
                    raise core.Inconclusive ('solver unknown on exception path')
                msg = 'unexpected '+''.join (traceback.format_exception_only (type (e), e)).strip ()
                if os.environ.get ('SYMX_DEBUG'):
                    traceback.print_exc ()
                raise core.CounterExample (msg, ctx.assignment (m=m))
            res['nchecks'] = ctx.nchecks
            res['labels'] = ctx.labels
            if sample:
                r, m = E._check ()
                if m is not None:
                    inp = ctx.assignment (m=m)
                    if ctx.reals:
                        # re-solve for the chosen numbers
                        import z3
                        s = z3.Solver ()
                        s.add (*E.solver.assertions ())
                        for k, (kind, e) in ctx.inputs.items ():
                            if kind == 'real':
                                s.add (e == z3.RealVal (inp[k]))
                            elif kind == 'int':
                                s.add (e == inp[k])
                            elif kind == 'bool':
                                s.add (e == inp[k])
                            else:
                                for x, y in zip (e, inp[k]):
                                    s.add (x == y)
                        m = s.model () if str (s.check ()) == 'sat' else None
                    if m is not None:
                        res['sample'] = dict (inputs=ctx.values (m), obs=ctx.evalobs (m), nchecks=ctx.nchecks)
        except core.Abort:
            res['status'] = 'abort'
        except core.CounterExample as e:
            res['status'] = 'cex'
            res['label'] = e.label
            res['inputs'] = e.inputs
            res['more'] = e.more
        except (core.Unsupported, core.Inconclusive, RecursionError) as e:
            res['status'] = 'inconclusive' if isinstance (e, core.Inconclusive) else 'unsupported'
            res['label'] = str (e)[:300]
            if res['label'] == 'path does not terminate':
                res['status'] = 'hang'
            res['tb'] = traceback.format_exc ()[-3000:]
            # an input of this path, for a native run
            try:
                r, m = E._check ()
                if m is not None:
                    res['inputs'] = ctx.assignment (m=m)
            except BaseException:
                pass
        res['pending'] = E.pending
        res['depth'] = len (E.trace)
        E.end ()
        return res

    def subtree (self, ci, prefix, budget, state):
        """ DFS below prefix for up to budget seconds """
        t0 = time.time ()
        stack = [prefix]
        results = []
        agg = dict (ok=0, abort=0, nchecks=0, labels={}, maxdepth=0)
        while stack:
            p = stack.pop ()
            n = state.setdefault (('n', ci), 0)
            state[('n', ci)] = n+1
            sample = n < 3 or (n < 4096 and (n & (n-1)) == 0) or n % 97 == 0
            r = self.path (ci, p, sample)
            stack.extend (r.pop ('pending'))
            agg['maxdepth'] = max (agg['maxdepth'], r['depth'])
            if r['status'] == 'ok':
                agg['ok'] += 1
                agg['nchecks'] += r['nchecks']
                for k, v in r['labels'].items ():
                    agg['labels'][k] = agg['labels'].get (k, 0)+v
                if 'sample' in r:
                    results.append (r)
            elif r['status'] == 'abort':
                agg['abort'] += 1
            else:
                results.append (r)
                if r['status'] in ('cex', 'hang'):
                    break
            if time.time ()-t0 > budget:
                break
        return results, agg, stack


def worker (ex, conn):
    state = {}
    ex.E.stats = dict.fromkeys (ex.E.stats, 0)
    import gc
    gc.freeze ()
    while True:
        try:
            job = conn.recv ()
        except EOFError:
            break
        if job is None:
            break
        ci, prefix, budget, deadline = job
        ex.E.deadline = deadline
        before = dict (ex.E.stats)
        try:
            results, agg, stack = ex.subtree (ci, prefix, budget, state)
        except BaseException as e:
            results, agg, stack = [dict (case=ci, status='crash', label=repr (e), tb=traceback.format_exc ()[-3000:])], dict (ok=0, abort=0, nchecks=0, labels={}, maxdepth=0), []
        st = {k: ex.E.stats[k]-before[k] for k in before}
        conn.send ((ci, results, agg, stack, st))
    os._exit (0)


def explore (ex, jobs, timelimit, stopfirst=True, only=None):
    """ explore all cases with worker processes """
    import multiprocessing as mp
    t0 = time.time ()
    deadline = t0+timelimit
    todo = collections.deque ((ci, []) for ci in range (len (ex.cases)) if only is None or ex.cases[ci][0] == only)
    total = dict (ok=0, abort=0, nchecks=0, labels={}, maxdepth=0)
    percase = [dict (paths=0, aborted=0, checks=0) for c in ex.cases]
    stats = dict.fromkeys (ex.E.stats, 0)
    bad, samples = [], []
    conns, procs = [], []
    for i in range (jobs):
        a, b = mp.Pipe ()
        pid = os.fork ()
        if pid == 0:
            a.close ()
            for c in conns:
                c.close ()
            try:
                worker (ex, b)
            finally:
                os._exit (1)
        b.close ()
        conns.append (a)
        procs.append (pid)
    idle = list (conns)
    busy = {}
    from multiprocessing.connection import wait
    timedout = False
    stop = False
    try:
        while (todo and not stop) or busy:
            while idle and todo and not stop:
                c = idle.pop ()
                ci, p = todo.popleft ()
                budget = 0.3 if len (todo) < jobs*4 else 2.0
                c.send ((ci, p, budget, deadline))
                busy[c] = ci
            for c in wait (list (busy), timeout=1):
                try:
                    ci, results, agg, stack, st = c.recv ()
                except EOFError:
                    bad.append (dict (case=busy.pop (c), status='crash', label='worker died (memory?)'))
                    stop = True
                    continue
                del busy[c]
                idle.append (c)
                for k in ('ok', 'abort', 'nchecks'):
                    total[k] += agg[k]
                total['maxdepth'] = max (total['maxdepth'], agg['maxdepth'])
                for k, v in agg['labels'].items ():
                    total['labels'][k] = total['labels'].get (k, 0)+v
                percase[ci]['paths'] += agg['ok']
                percase[ci]['aborted'] += agg['abort']
                percase[ci]['checks'] += agg['nchecks']
                for k in st:
                    stats[k] = stats.get (k, 0)+st[k]
                for r in results:
                    if r['status'] == 'ok':
                        samples.append (r)
                    else:
                        bad.append (r)
                        if (stopfirst and r['status'] in ('cex', 'crash', 'hang')) or len (bad) > 200:
                            stop = True
                # depth first within the queue: keeps it short
                for p in stack:
                    todo.append ((ci, p))
            if time.time () > deadline+30:
                timedout = True
                break
    finally:
        for c in conns:
            try:
                c.send (None)
            except Exception:
                pass
        import signal
        for p in procs:
            try:
                os.kill (p, signal.SIGKILL)
                os.waitpid (p, 0)
            except Exception:
                pass
    if stop and todo and not any (b['status'] in ('cex', 'crash', 'hang') for b in bad):
        bad.append (dict (case=todo[0][0], status='inconclusive', label='gave up after 200 undecided paths'))
    if timedout:
        bad.append (dict (case=todo[0][0] if todo else 0, status='inconclusive', label='time budget exhausted'))
    return total, percase, stats, bad, samples


def main ():
    ap = argparse.ArgumentParser ()
    ap.add_argument ('--prop')
    ap.add_argument ('--tier', default=os.environ.get ('VERIF_TIER', 'quick'))
    ap.add_argument ('--native', action='store_true')
    ap.add_argument ('--replay')
    ap.add_argument ('--selftest', action='store_true')
    ap.add_argument ('--strict', action='store_true', help='fail if the encoding disagrees with a native run')
    ap.add_argument ('--jobs', type=int, default=min (8, os.cpu_count () or 1))
    ap.add_argument ('--timelimit', type=float)
    ap.add_argument ('--only')
    ap.add_argument ('--all', action='store_true', help='do not stop at the first counterexample')
    args = ap.parse_args ()
    if args.selftest:
        import z3
        x = z3.Int ('x')
        so = z3.Solver ()
        so.add (x*x == 2)
        assert so.check () == z3.unsat
        print ('z3', z3.get_version_string (), 'python', sys.version.split ()[0])
        return 0
    if args.native:
        return native (args)
    if args.replay:
        with open (args.replay) as fd:
            j = json.load (fd)
        r = runnative ([j])[0]
        print (json.dumps (r, indent=1, ensure_ascii=False))
        return 1 if r['status'] == 'violation' else 0
    t0 = time.time ()
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    limit = args.timelimit or (600 if tier == 'quick' else 3000)
    ex = Explorer (args.prop, tier)
    tload = time.time ()-t0
    total, percase, stats, bad, samples = explore (ex, args.jobs, limit, not args.all, args.only)
    cexs = [b for b in bad if b['status'] in ('cex', 'hang') and 'inputs' in b]
    if cexs and not args.all and not any (r['status'] == 'violation' for r in
            runnative ([dict (prop=args.prop, tier=tier, case=ex.cases[b['case']][0], inputs=x, label=b['label']) for b in cexs[:12] for x in [b['inputs']]+b.get ('more', [])])):
        # none of them is real: look at everything
        total, percase, stats, bad, samples = explore (ex, args.jobs, max (60, limit-(time.time ()-t0)), False, args.only)
    seed = int (os.environ.get ('VERIF_SEED', '0') or 0)
    known = loadknown ()
    code = 0
    violations, msgs = [], []
    evdir = os.path.join (HERE, 'evidence')
    os.makedirs (os.path.join (evdir, 'replay'), exist_ok=True)

    # 1. counterexamples: must reproduce on the unmodified code
    def report (n, cname, label, inputs, r):
        nonlocal code
        job = dict (prop=args.prop, tier=tier, case=cname, inputs=inputs, label=label)
        path = os.path.join (evdir, 'replay', f'{args.prop}-{n}.json')
        with open (path, 'w') as fd:
            json.dump (job, fd, indent=1)
        k = [x for x in known if x['property'] == args.prop and x['case'] == cname and x['label'] in r['detail']]
        if k:
            print (f'KNOWN-FINDING: property={args.prop} {k[0]["what"]}')
            return
        print (f'case {cname}: {label}\n  native: {r["detail"]}\n  inputs: {json.dumps (inputs, ensure_ascii=False)}')
        print (f'VIOLATION property={args.prop} replay={path}')
        violations.append (dict (case=cname, label=label, inputs=inputs, native=r['detail'], replay=path))
        code = 1

    incomplete = collections.Counter ()
    hard = 0
    for n, b in enumerate (bad):
        if b['status'] != 'cex':
            continue
        if len (violations) >= 12 or sum (1 for x in bad[:n] if x['status'] == 'cex') >= 60:
            print ('more counterexamples not shown')
            break
        cname = ex.cases[b['case']][0]
        job = dict (prop=args.prop, tier=tier, case=cname, inputs=b['inputs'], label=b['label'])
        r = runnative ([job])[0]
        for x in b.get ('more', []) if r['status'] != 'violation' else []:
            r2 = runnative ([dict (job, inputs=x)])[0]
            if r2['status'] == 'violation':
                r, b['inputs'] = r2, x
                break
        if r['status'] != 'violation':
            # the encoding is imprecise here; not an answer about the code
            print (f'INCOMPLETE counterexample does not reproduce natively: {cname}: {b["label"]}: {json.dumps (b["inputs"], ensure_ascii=False)} → {r["status"]} {r["detail"]}')
            incomplete[f'{cname}: spurious: {b["label"]}'] += 1
            if args.strict:
                hard = 3
            continue
        report (n, cname, b['label'], b['inputs'], r)
    # paths the engine could not decide: their inputs are at least tried on
    # the real code; the coverage lost is reported
    jobs = []
    for n, b in enumerate (bad):
        if b['status'] == 'cex':
            continue
        cname = ex.cases[b['case']][0]
        incomplete[f'{cname}: {b["status"]}: {b["label"]}'] += 1
        if incomplete[f'{cname}: {b["status"]}: {b["label"]}'] == 1:
            print (f'INCOMPLETE {b["status"]} in {cname}: {b["label"]}')
            if b.get ('tb') and os.environ.get ('SYMX_DEBUG'):
                print (b['tb'])
        if 'inputs' in b and len (jobs) < 60:
            jobs.append (dict (prop=args.prop, tier=tier, case=cname, inputs=b['inputs'], label='undecided path'))
        if b['status'] == 'crash':
            hard = 2
    if jobs and code == 0:
        for n, (j, r) in enumerate (zip (jobs, runnative (jobs))):
            if r['status'] == 'violation':
                report (f'u{n}', j['case'], j['label'], j['inputs'], r)
                break
    if code == 0:
        code = hard

    # 2. vacuity and validation of the encoding on sampled paths
    validated = 0
    if code == 0:
        for c, pc in zip (ex.cases, percase):
            if args.only and c[0] != args.only:
                continue
            if pc['paths'] == 0 or pc['checks'] == 0:
                if any (k.startswith (c[0]+':') for k in incomplete):
                    print (f'INCOMPLETE case {c[0]} was not decided')
                    continue
                print (f'ERROR vacuous case {c[0]}')
                code = 4
        if total['ok'] == 0:
            print ('ERROR nothing could be decided')
            code = 2
        rnd = random.Random (seed)
        bycase = collections.defaultdict (list)
        for s in samples:
            bycase[s['case']].append (s)
        sel = []
        per = max (3, (60 if tier == 'quick' else 400)//max (1, len (bycase)))
        for ci, l in bycase.items ():
            rnd.shuffle (l)
            sel.extend (l[:per])
        if sel:
            jobs = [dict (prop=args.prop, tier=tier, case=ex.cases[s['case']][0], inputs=s['sample']['inputs']) for s in sel]
            from symx.ctx import same
            for s, j, r in zip (sel, jobs, runnative (jobs)):
                if r['status'] == 'violation':
                    # the encoding missed it, the real code does not
                    report (f'n{validated}', j['case'], 'native validation run', j['inputs'], r)
                    break
                elif r['status'] == 'skipped':
                    continue
                elif r['status'] != 'ok' or not same (s['sample']['obs'], r['obs']):
                    print (f'INCOMPLETE encoding differs from native run: {j["case"]} {json.dumps (j["inputs"])}\n symbolic {s["sample"]["obs"]}\n native {r["status"]} {r["obs"]}')
                    incomplete[f'{j["case"]}: encoding differs from native run'] += 1
                    if args.strict:
                        code = 5
                else:
                    validated += 1
        if validated == 0 and code == 0:
            print ('ERROR no path could be validated natively')
            code = 5

    mod = ex.mod
    wall = time.time ()-t0
    ev = dict (
        property=args.prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict (
            states=total['ok']+total['abort'], transitions=stats['decisions'],
            traces_validated_against_impl=validated, samples=len (samples),
            paths_completed=total['ok'], paths_infeasible_or_excluded=total['abort'],
            assertions_discharged=stats['checks'], assertions_trivial=stats['checks_trivial'],
            solver_queries=stats['queries'], solver_s=round (stats['solver_s'], 2), solver='z3 '+__import__ ('z3').get_version_string (),
            forks=stats['forks'], max_path_depth=total['maxdepth'],
            functions_encoded=list (getattr (mod, 'FUNCTIONS', [])), bounds=getattr (mod, 'BOUNDS', {}).get (tier, '') if isinstance (getattr (mod, 'BOUNDS', ''), dict) else getattr (mod, 'BOUNDS', ''),
            outside=getattr (mod, 'OUTSIDE', ''),
            assertions=total['labels'],
            cases={c[0]: pc for c, pc in zip (ex.cases, percase)},
            sources={os.path.relpath (k, REPO) if k.startswith (REPO) else k: v[:16] for k, v in ex.instrument.coverage_files.items () if '/harness/' not in k},
            incomplete=dict (incomplete), exit=code),
        assumptions=list (getattr (mod, 'ASSUMPTIONS', [])) + ['floating point arithmetic is modelled by exact rational arithmetic; numeric equalities are asserted up to 1e-9',
            'module level state is as after import when a path starts', 'CPython, its C extension modules and z3 are trusted'],
        violations=violations, wall_s=round (wall, 2))
    if not args.only:
        with open (os.path.join (evdir, f'{args.prop}.json'), 'w') as fd:
            json.dump (ev, fd, indent=1, ensure_ascii=False)
    print (f'{args.prop} {tier}: paths={total["ok"]} excluded={total["abort"]} assertions={stats["checks"]} (trivial {stats["checks_trivial"]}) '
        f'queries={stats["queries"]} solver={stats["solver_s"]:.1f}s validated={validated} load={tload:.1f}s wall={wall:.1f}s exit={code}')
    for c, pc in zip (ex.cases, percase):
        if not args.only or c[0] == args.only:
            print (f'   {c[0]}: {pc}')
    return code


def loadknown ():
    p = os.path.join (HERE, 'known_findings.json')
    if not os.path.exists (p):
        return []
    with open (p) as fd:
        return [x for x in json.load (fd)['findings'] if x.get ('status') == 'open']


if __name__ == '__main__':
    sys.exit (main ())

"""
Path engine: depth-first exploration of every feasible path of a harness by
re-execution.  A path is a list of decisions; each decision on a symbolic
condition asks the SMT solver (z3) which outcomes are feasible under the path
condition.  Nothing is sampled: a subtree is dropped only when the solver says
`unsat`.
"""
import os, time
import z3

z3.set_param ('memory_max_size', 6000)



_T = z3.BoolVal (True)
_F = z3.BoolVal (False)
_TP = _T.ast.value
_FP = _F.ast.value


def istrue (e):
    """ z3 terms are hash-consed, so comparing pointers is enough """
    return e.ast.value == _TP


def isfalse (e):
    return e.ast.value == _FP


class Abort (BaseException):
    """ Path is infeasible or excluded by an assumption of the harness """


class Unsupported (BaseException):
    """ The code under test did something the engine has no sound model for """


class Inconclusive (BaseException):
    """ The solver answered unknown on an assertion, or a budget ran out """


class CounterExample (BaseException):
    """ An assertion can be violated on this path """
    def __init__ (self, label, inputs, detail=''):
        super ().__init__ (label)
        self.label = label
        self.inputs = inputs
        self.detail = detail
        self.more = []


FORKS = os.environ.get ('SYMX_FORKS')


def where ():
    """ debugging aid: where do forks come from """
    import traceback
    st = [f'{f.filename.rsplit ("/", 1)[-1]}:{f.lineno}:{f.name}' for f in traceback.extract_stack () if '/symx/' not in f.filename and 'check.py' not in f.filename and 'multiprocessing' not in f.filename]
    with open (FORKS, 'a') as fd:
        fd.write (' < '.join (st[-4:][::-1])+'\n')


class Engine:
    def __init__ (self):
        self.active = False
        self.stats = dict (queries=0, solver_s=0.0, paths=0, aborted=0,
                decisions=0, checks=0, checks_trivial=0, forks=0, unknown_branch=0, unsat=0, sat=0)
        self.timeout = 20000
        self.deadline = None

    # -- path life cycle -------------------------------------------------
    def begin (self, prefix):
        self.prefix = list (prefix)
        self.pos = 0
        self.trace = []
        self.pending = []
        self.solver = z3.Solver ()
        self.solver.set ('timeout', self.timeout)
        self.cache = {}
        self.keep = []
        self.model = None
        self.active = True
        self.fresh = 0
        self.replay_checked = False

    def end (self):
        self.active = False

    # -- solver ----------------------------------------------------------
    def _check (self, *extra):
        """ satisfiability of path condition plus extra """
        if self.deadline and time.time () > self.deadline:
            raise Inconclusive ('time budget exhausted')
        self.stats['queries'] += 1
        t = time.time ()
        s = self.solver
        if extra:
            s.push ()
            for e in extra:
                s.add (e)
        r = s.check ()
        model = s.model () if r == z3.sat else None
        if extra:
            s.pop ()
        if r == z3.unknown:
            # second opinion without incrementality (enables nlsat et al.)
            s2 = z3.Solver ()
            s2.set ('timeout', self.timeout)
            s2.add (*s.assertions ())
            s2.add (*extra)
            r = s2.check ()
            model = s2.model () if r == z3.sat else None
        self.stats['solver_s'] += time.time () - t
        if r == z3.sat:
            self.stats['sat'] += 1
        elif r == z3.unsat:
            self.stats['unsat'] += 1
        return r, model

    def assume (self, c):
        """ Restrict the path; abort if it becomes infeasible """
        c = z3.simplify (c)
        if istrue (c):
            return
        if isfalse (c):
            raise Abort ()
        self.solver.add (c)
        if self.model is not None and istrue (self.model.eval (c, model_completion=True)):
            return
        self.model = None
        if self.pos < len (self.prefix):
            return
        r, m = self._check ()
        if r == z3.unsat:
            raise Abort ()
        self.model = m

    def fork (self, c):
        """ Decide condition c on this path, exploring both if feasible """
        c = z3.simplify (c)
        if istrue (c):
            return True
        if isfalse (c):
            return False
        neg = False
        base = c
        if z3.is_not (c):
            base = c.arg (0)
            neg = True
        k = base.get_id ()
        hit = self.cache.get (k)
        if hit is not None:
            return hit != neg
        self.stats['decisions'] += 1
        nc = z3.simplify (z3.Not (c))
        if self.pos < len (self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            assert d is True or d is False, 'non-deterministic re-execution'
        else:
            feasT = feasF = None
            mT = mF = None
            if self.model is not None:
                v = self.model.eval (c, model_completion=True)
                if istrue (v):
                    feasT, mT = True, self.model
                elif isfalse (v):
                    feasF, mF = True, self.model
            if feasT is None:
                r, mT = self._check (c)
                feasT = r != z3.unsat
                if r == z3.unknown:
                    self.stats['unknown_branch'] += 1
            if feasF is None:
                if not feasT:
                    # path condition is satisfiable by construction
                    feasF = True
                    if self.model is None:
                        mF = None
                else:
                    r, mF = self._check (nc)
                    feasF = r != z3.unsat
                    if r == z3.unknown:
                        self.stats['unknown_branch'] += 1
            if feasT and feasF:
                self.stats['forks'] += 1
                if FORKS:
                    where ()
                d = True
                self.pending.append (self.trace + [False])
            elif feasT:
                d = True
            elif feasF:
                d = False
            else:
                raise Abort ()
            self.model = mT if d else mF
        self.trace.append (d)
        self.solver.add (c if d else nc)
        self.cache[k] = (d != neg)
        self.keep.append (base)
        return d

    def pick (self, e):
        """ Concretise expression e (forks over all feasible values) """
        n = 0
        while True:
            n += 1
            if n > 400:
                raise Unsupported ('concretisation over too many values')
            if self.pos < len (self.prefix):
                v = self.prefix[self.pos]
                self.pos += 1
                assert isinstance (v, tuple), 'non-deterministic re-execution'
                v = v[1]
            else:
                if self.model is None:
                    r, self.model = self._check ()
                    if self.model is None:
                        raise Abort ()
                v = str (self.model.eval (e, model_completion=True))
            self.trace.append (('pick', v))
            zv = parseval (e, v)
            if self.fork (e == zv):
                return zv

    def prove (self, c):
        """ Returns None if c holds on this path for all values, or a model """
        self.stats['checks'] += 1
        c = z3.simplify (c)
        if istrue (c):
            self.stats['checks_trivial'] += 1
            return None
        nc = z3.simplify (z3.Not (c))
        r, m = self._check (nc)
        if r == z3.unsat:
            return None
        if r == z3.unknown:
            raise Inconclusive ('solver unknown on assertion')
        return m

    def freshName (self, p):
        self.fresh += 1
        return f'{p}!{self.fresh}'


def parseval (e, v):
    if z3.is_int (e):
        return z3.IntVal (v)
    if z3.is_real (e):
        return z3.RealVal (v.rstrip ('?'))
    if z3.is_bool (e):
        return z3.BoolVal (v == 'True')
    raise Unsupported (f'pick {e.sort ()}')


E = Engine ()

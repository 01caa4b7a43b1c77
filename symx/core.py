"""Forking symbolic executor for Python: engine core.

A path is one execution of the harness (and, through it, of the real sippy
code).  Whenever the truth of a symbolic condition is needed the engine asks
z3 which outcomes are feasible under the path condition; when both are, the
path forks (the alternative is queued as a decision prefix and re-executed
later).  All feasible paths are explored, so a check that passes on all of
them holds for every value of every symbolic input within the bounds stated by
the harness.
"""
import os
import sys
import time as _time

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3

_perf = _time.perf_counter


class SxControl(BaseException):
    """Engine control flow; never caught by the code under test."""


class SxInfeasible(SxControl):
    pass


class SxStop(SxControl):
    """Stop this path (violation that leaves nothing to explore, budget...)."""


class SxBudget(SxControl):
    pass


class SxInconclusive(SxControl):
    pass


PROF = {} if os.environ.get('SX_PROF') else None

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


class Stats:
    FIELDS = ('paths', 'queries', 'forks', 'checks', 'checks_solver', 'solver_s', 'infeasible',
              'concretised', 'unknown', 'reach')

    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.forks = 0
        self.checks = 0
        self.checks_solver = 0
        self.solver_s = 0.0
        self.infeasible = 0
        self.concretised = 0
        self.unknown = 0
        self.conc_sites = {}
        self.reach = {}
        self.labels = {}

    def as_dict(self):
        return dict(self.__dict__)

    def merge(self, d):
        for k, v in d.items():
            if isinstance(v, dict):
                mine = getattr(self, k)
                for kk, vv in v.items():
                    mine[kk] = mine.get(kk, 0) + vv
            else:
                setattr(self, k, getattr(self, k) + v)


class Engine:
    cur = None  # the engine executing the current path

    def __init__(self, timeout_ms=60000):
        self.solver = z3.SolverFor('QF_LIRA') if os.environ.get('SX_LIRA') else z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.stats = Stats()
        self.stack = []      # asserted constraints (one push level each)
        self.stack_ids = []
        self.model = None
        self.violations = []
        self.deadline = None
        self.max_conc = 64
        self.reset_path([])

    # -- path life cycle -------------------------------------------------
    def reset_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []          # decisions of this path
        self.pc = []             # constraints of this path
        self.alts = []           # alternative prefixes found on this path
        self.inputs = {}         # declared name -> (kind, symbolic value)
        self.fresh_n = 0
        self.model = None
        self.memo = {}
        self.conc_path = False
        self.hash_log = []
        self.dead = False
        self.notes = []
        self.path_log = []
        self.hooks = {}

    def fresh(self, stem):
        self.fresh_n += 1
        return '%s!%d' % (stem, self.fresh_n)

    # -- solver ----------------------------------------------------------
    def add(self, e):
        """Assert e on this path (no feasibility query)."""
        if z3.is_true(e):
            return
        self.pc.append(e)
        if self.model is not None:
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None

    def _sync(self):
        st, ids, pc = self.stack, self.stack_ids, self.pc
        n = 0
        m = min(len(st), len(pc))
        while n < m and ids[n] == pc[n].get_id():
            n += 1
        if n < len(st):
            self.solver.pop(len(st) - n)
            del st[n:]
            del ids[n:]
        for e in pc[n:]:
            self.solver.push()
            self.solver.add(e)
            st.append(e)
            ids.append(e.get_id())

    def query(self, *extra):
        """True / False / None(unknown); on True self.model holds a model."""
        self._sync()
        if self.deadline is not None and _perf() > self.deadline:
            raise SxBudget()
        t0 = _perf()
        self.stats.queries += 1
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        mdl = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.stats.solver_s += _perf() - t0
        if r == z3.sat:
            self.last_model = mdl
            return True
        if r == z3.unsat:
            return False
        self.stats.unknown += 1
        return None

    def get_model(self):
        if self.model is None:
            r = self.query()
            if r is None:
                raise SxInconclusive('path condition unknown')
            if not r:
                raise SxInfeasible()
            self.model = self.last_model
        return self.model

    def decide(self, e):
        """Truth of z3 Bool e on this path, forking if both are feasible."""
        if isinstance(e, bool):
            return e
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.dead:
            raise SxStop()
        key = e.get_id()
        hit = self.memo.get(key)
        if hit is not None:
            return hit[0]
        ne = z3.Not(e)
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            self.memo[key] = (v, e)
            self.memo[ne.get_id()] = (not v, ne)
            self.add(e if v else ne)
            return v
        mdl = self.get_model()
        mv = z3.is_true(mdl.eval(e, model_completion=True))
        other = self.query(ne if mv else e)
        if other is None:
            raise SxInconclusive('unknown branch')
        if other:
            self.stats.forks += 1
            if PROF is not None:
                f = sys._getframe(1)
                while f is not None and '/symx/' in f.f_code.co_filename and not f.f_code.co_filename.endswith('env.py'):
                    f = f.f_back
                k = []
                for _ in range(3):
                    if f is None:
                        break
                    k.append('%s:%d' % (f.f_code.co_filename.split('/')[-1], f.f_lineno))
                    f = f.f_back
                    while f is not None and '/symx/' in f.f_code.co_filename and not f.f_code.co_filename.endswith('env.py'):
                        f = f.f_back
                k = ' < '.join(k)
                PROF[k] = PROF.get(k, 0) + 1
            self.alts.append(self.trace + [not mv])
        v = mv
        self.pos += 1
        self.prefix = self.prefix + [v] if False else self.prefix
        self.trace.append(v)
        self.memo[key] = (v, e)
        self.memo[ne.get_id()] = (not v, ne)
        self.pc.append(e if v else ne)   # current model satisfies it
        return v

    def must(self, e):
        """True when e holds for every value on this path (no fork)."""
        if isinstance(e, bool):
            return e
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        hit = self.memo.get(e.get_id())
        if hit is not None:
            return hit[0]
        if self.model is not None and not z3.is_true(self.model.eval(e, model_completion=True)):
            return False
        r = self.query(z3.Not(e))
        return r is False

    def assume(self, e):
        if isinstance(e, bool):
            if not e:
                raise SxInfeasible()
            return
        if z3.is_true(e):
            return
        if self.pos < len(self.prefix):
            # still replaying a known feasible prefix
            self.add(e)
            return
        if self.model is not None and z3.is_true(self.model.eval(e, model_completion=True)):
            self.pc.append(e)
            return
        r = self.query(e)
        if r is None:
            raise SxInconclusive('unknown assumption')
        if not r:
            raise SxInfeasible()
        self.pc.append(e)
        self.model = self.last_model

    # -- model extraction --------------------------------------------------
    def input_values(self, mdl):
        out = {}
        for k, (_, v) in self.inputs.items():
            x = v.sx_value(mdl) if hasattr(v, 'sx_value') else v
            out[k] = x.decode('latin-1') if isinstance(x, bytes) else x
        return out


def ev_int(mdl, e):
    return mdl.eval(e, model_completion=True).as_long()


def ev_real(mdl, e):
    v = mdl.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return float(v.as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    return v.numerator_as_long() / v.denominator_as_long()

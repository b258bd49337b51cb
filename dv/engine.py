"""Path exploration and obligation discharge.

An `Engine` runs one verification task (a Python callable) repeatedly.  Each run
follows one path: every undecided branch consults the decision list; new
decisions are explored depth first.  `check` is an obligation: path condition
implies claim, for all values of the symbolic inputs.
"""
import time, sys, os
import z3
from . import term as T
from .term import Unsupported, Node, const

sys.setrecursionlimit(200000)

class PathEnd(BaseException):
    """This path needs no further exploration (infeasible or cut)."""

class Restart(BaseException):
    """Decisions changed; re-run from the start."""

class Budget(BaseException):
    pass

_current = [None]
def cur():
    return _current[0]

class Decision(object):
    __slots__ = ('kind', 'val', 'alts')
    def __init__(self, kind, val, alts):
        self.kind = kind; self.val = val; self.alts = alts

class Failure(object):
    def __init__(self, name, model, status, detail=''):
        self.name = name; self.model = model; self.status = status; self.detail = detail

class Stats(object):
    def __init__(self):
        self.obligations = 0; self.discharged = 0; self.trivial = 0
        self.paths = 0; self.queries = 0; self.solver_s = 0.0; self.forks = 0
        self.contracts_used = {}; self.by_backend = {}
        self.contract_obls = 0
    def merge(self, o):
        for k in ('obligations', 'discharged', 'trivial', 'paths', 'queries', 'solver_s', 'forks', 'contract_obls'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k, v in o.contracts_used.items():
            self.contracts_used[k] = self.contracts_used.get(k, 0) + v
        for k, v in o.by_backend.items():
            self.by_backend[k] = self.by_backend.get(k, 0) + v

class Engine(object):
    def __init__(self, name, timeout_ms=20000, deadline=None, max_paths=200000, parent=None, math=False):
        self.name = name
        self.math = math          # integer arithmetic with symbolic widths instead of bit-vectors
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.max_paths = max_paths
        self.stats = Stats()
        self.failures = []
        self.samples = []
        self.inputs = {}          # name -> description, this path
        self.journal = None
        self.parent = parent
        self.stop_on_failure = True
        self.reachable = 0
        self.cut = False          # some loop was replaced by its contract

    # ------------------------------------------------------------ running
    def run(self, fn, first=None):
        """every path of fn; `first` is run once, on concrete values, and its effects stay for all paths"""
        self.decisions = []
        prev = _current[0]
        _current[0] = self
        earlier = []
        try:
            if first is not None:
                self._start()
                earlier = self.heap
                try: first()
                except (PathEnd, Restart): raise Budget('the earlier calls are not concrete')
                if self.decisions: raise Budget('the earlier calls are not concrete')
            while True:
                self._start()
                try:
                    fn()
                    self.finish_path()
                except PathEnd:
                    pass
                except Restart:
                    continue
                finally:
                    self._undo_all()
                self.stats.paths += 1
                if self.stats.paths > self.max_paths:
                    raise Budget('more than %d paths in %s' % (self.max_paths, self.name))
                if self.failures and self.stop_on_failure:
                    return
                if not self._next():
                    return
        finally:
            for obj, kind, key, old in reversed(earlier): undo(obj, kind, key, old)
            _current[0] = prev

    def _start(self):
        self.pos = 0
        self.pc = []
        self.pcset = {}
        self.guards = []
        self.counter = {}
        self.inputs = {}
        self.arrays = {}
        self.solver = None
        self.asserted = 0
        self.merges = []
        self.heap = []            # undo log of lifted attribute/item writes on this path
        self.model = None         # a model of the current path condition, if known
        self.notes = []
        self.poison = set()
        self.keep = []
        self.loops = {}           # loop contracts the task has active
        self.wide = set()         # functions called through their every-width contracts

    def _undo_all(self):
        """Module level objects must look the same at the start of every path."""
        for obj, kind, key, old in reversed(self.heap):
            undo(obj, kind, key, old)
        self.heap = []

    def _next(self):
        while self.decisions:
            d = self.decisions[-1]
            if d.alts:
                d.val = d.alts.pop(0)
                return True
            self.decisions.pop()
        return False

    def finish_path(self):
        pass

    # ------------------------------------------------------------ names
    def fresh(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else '%s#%d' % (base, n)

    # ------------------------------------------------------------ solver
    def _collect_sels(self, nodes):
        return T.collect(nodes, ('sel', 'fn'))

    def _axioms(self, nodes):
        """functional consistency of array reads and uninterpreted functions"""
        out = []
        todo = [n for n in self._collect_sels(nodes)]
        for n in todo:
            key = (n.op, n.args[0].id if n.op == 'sel' else n.args[0])
            lst = self.sel_seen.setdefault(key, [])
            if any(m is n for m in lst):
                continue
            for m in lst:
                if n.op == 'sel':
                    same = T.eq(n.args[1], m.args[1])
                else:
                    same = T.land(*[T.eq(x, y) if isinstance(x, Node) else T.boolc(x == y)
                                    for x, y in zip(n.args[1:], m.args[1:])])
                if same is T.FALSE:
                    continue
                out.append(T.implies(same, T.eq(n, m) if n.sort != 'bool' else T.iff(n, m)))
            lst.append(n)
            if n.sort == 'int' and n.lo is not None:
                # the bit-vector may exceed a non power of two bound
                W, S = T.width_of(n.lo, n.hi)
                if n.lo != (-(1 << (W - 1)) if S else 0) or n.hi != ((1 << (W - 1)) - 1 if S else (1 << W) - 1):
                    out.append(('range', n))
        return out

    def _add(self, cond):
        """assert into the incremental solver"""
        if self.math:
            if self.solver is None:
                from . import mathmode
                self.solver = z3.SimpleSolver()
                self.solver.set('smt.arith.nl', False)
                self.solver_nl = z3.SimpleSolver()
                self.tr = mathmode.Tr()
            z = self.tr.tr(cond)
            self.solver.add(z); self.solver_nl.add(z)
            self._flush()
            return
        if self.solver is None:
            self.solver = z3.SolverFor('QF_BV') if not os.environ.get('DV_PLAIN') else z3.Solver()
            self.solver.set('timeout', self.timeout_ms)
            self.sel_seen = {}
            self.var_seen = set()
        todo = [cond]
        while todo:
            c = todo.pop()
            self.solver.add(T_z(c))
            self._aux(c)

    def _flush(self):
        if self.tr.side:
            self.solver.add(*self.tr.side)
            self.solver_nl.add(*self.tr.side)
            self.tr.side = []

    def _timed(self, sv, lit, ms):
        """check with a limit that also holds inside nonlinear arithmetic"""
        import threading
        sv.set('timeout', ms)
        t = threading.Timer(ms / 1000.0 + 1, sv.ctx.interrupt)
        t.start()
        try: return str(sv.check(lit))
        except z3.Z3Exception: return 'unknown'
        finally: t.cancel()

    def _math_sat(self, extra, quick):
        from . import mathmode
        t = time.time()
        if self.math == 'lin':
            s = self._lin_sat(extra, quick)
            self.stats.solver_s += time.time() - t
            return s
        # a small exact model first: cheap, and settles most feasible branches
        env = mathmode.refute(self.pc, extra, self.inputs, tries=400 if quick else 1500)
        if env is None:
            z = self.tr.tr(extra)
            self._flush()
            lit = z3.Bool('q!%d' % extra.id)
            s = 'unknown'
            for sv, ms in ((self.solver, 4000), (self.solver_nl, 2000 if quick else 10000)):
                sv.add(z3.Implies(lit, z))
                if s == 'unsat': continue
                s = self._timed(sv, lit, ms)
                self.stats.queries += 1
            if s == 'unsat':
                self.stats.solver_s += time.time() - t
                return 'unsat'
            env = mathmode.refute(self.pc, extra, self.inputs, tries=4000, seed=2)
        self.stats.solver_s += time.time() - t
        if env is None: return 'unknown'
        self.last_model = env
        self._last_model_exact = True
        self.model = env
        return 'sat'

    def _lin_sat(self, extra, quick):
        """linear integer arithmetic with arrays as functions: the solver's own models"""
        from . import mathmode
        z = self.tr.tr(extra)
        self._flush()
        lit = z3.Bool('q!%d' % extra.id)
        sv = self.solver
        sv.add(z3.Implies(lit, z))
        s = self._timed(sv, lit, 5000 if quick else self.timeout_ms)
        self.stats.queries += 1
        if s == 'sat':
            env = mathmode.model_env(self.tr, sv.model(), list(self.pc) + [extra] + [v for v in self.inputs.values() if isinstance(v, Node)])
            ok = True
            memo = {}
            try:
                for c in [extra] + self.pc:
                    if T.evaluate(c, env, memo) is not True:
                        ok = False
                        break
            except Unsupported: ok = False
            self._last_model_exact = ok
            self.last_model = env
            if ok: self.model = env
        return s

    def _aux(self, c):
        work = [c]
        while work:
            c = work.pop()
            for v in T.collect([c], ('var',)):
                if v.id not in self.var_seen:
                    self.var_seen.add(v.id)
                    W, S = T.width_of(v.lo, v.hi)
                    if v.lo != (-(1 << (W - 1)) if S else 0) or v.hi != ((1 << (W - 1)) - 1 if S else (1 << W) - 1):
                        self.solver.add(_range(v))
            for ax in self._axioms([c]):
                if isinstance(ax, tuple):
                    self.solver.add(_range(ax[1]))
                else:
                    self.solver.add(T_z(ax))
                    work.append(ax)

    def sync(self):
        while self.asserted < len(self.pc):
            self._add(self.pc[self.asserted])
            self.asserted += 1

    def sat(self, extra, want_model=False, quick=False):
        """'sat' | 'unsat' | 'unknown' for path condition and extra"""
        if extra is T.FALSE:
            return 'unsat'
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exhausted in %s' % self.name)
        # cheap: does the cached model satisfy it?
        if self.model is not None and not want_model:
            try:
                if T.evaluate(extra, self.model, {}) is True:
                    return 'sat'
            except (Unsupported, KeyError):
                pass
        self.sync()
        if self.solver is None:
            self._add(T.TRUE)
        if self.math: return self._math_sat(extra, quick)
        t = time.time()
        lit = z3.Bool('q!%d' % extra.id)
        self.solver.add(z3.Implies(lit, T_z(extra)))
        self._aux(extra)
        self.solver.set('timeout', min(3000, self.timeout_ms) if quick else self.timeout_ms)
        r = self.solver.check(lit)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        s = str(r)
        if s == 'sat':
            m = self._model()
            if m is not None:
                ok = True
                try:
                    memo = {}
                    if T.evaluate(extra, m, memo) is not True:
                        ok = False
                    else:
                        for c in self.pc:
                            if T.evaluate(c, m, memo) is not True:
                                ok = False
                                break
                except Unsupported:
                    ok = False
                self._last_model_exact = ok
                if ok:
                    self.last_model = m
                    if not want_model:
                        self.model = m
                else:
                    self.last_model = None
                    if want_model:
                        self.last_model = m
        return s

    def _model(self):
        zm = self.solver.model()
        env = {}
        vals = {}
        for d in zm.decls():
            v = zm[d]
            if z3.is_bv_value(v):
                vals[d.name()] = v
            elif z3.is_bool(v):
                env[d.name()] = z3.is_true(v)
        nodes = list(self.pc)
        for name, n in self.inputs.items():
            if isinstance(n, Node) and n.op == 'var':
                v = vals.get(n.args[0])
                W, S = T.width_of(n.lo, n.hi)
                if v is None:
                    env[n.args[0]] = max(n.lo, 0) if n.hi >= 0 else n.hi
                else:
                    env[n.args[0]] = v.as_signed_long() if S else v.as_long()
        for d, v in vals.items():
            if d not in env and '!' not in d:
                env[d] = v.as_long()
        # arrays: rebuild the map from the reads seen
        memo = {}
        for key, lst in getattr(self, 'sel_seen', {}).items():
            if key[0] != 'sel':
                continue
            pend = list(lst)
            for n in lst:
                a = n.args[0]
                m = env.setdefault(a.args[0], {})
        for key, lst in getattr(self, 'sel_seen', {}).items():
            if key[0] != 'sel':
                continue
            for n in sorted(lst, key=lambda n: n.id):
                v = vals.get('sel!%d' % n.id)
                W, S = T.width_of(n.lo, n.hi)
                val = 0 if v is None else (v.as_signed_long() if S else v.as_long())
                # index depends on earlier reads only (ids increase)
                try:
                    idx = T.evaluate(n.args[1], env, {})
                except Unsupported:
                    return None
                env[n.args[0].args[0]].setdefault(idx, val)
        return env

    # ------------------------------------------------------------ assume / fork / check
    def guarded(self, c):
        for g in self.guards:
            c = T.implies(g, c)
        return c

    def push_pc(self, c):
        if c is T.TRUE:
            return
        g = self.guarded(c)
        if g is T.TRUE:
            return
        self.pc.append(g)
        self._learn(g)
        if self.model is not None:
            try:
                if T.evaluate(g, self.model, {}) is not True:
                    self.model = None
            except (Unsupported, KeyError):
                self.model = None

    def _learn(self, g):
        if g.op == 'and_':
            for x in g.args:
                self._learn(x)
            return
        self.pcset[g.id] = True
        n = T.lnot(g)
        self.pcset[n.id] = False
        if g.op == 'eq' and g.args[1].op == 'const':
            self.counter.setdefault('eqs', {})[g.args[0].id] = g.args[1]

    def known(self, c):
        if c is T.TRUE: return True
        if c is T.FALSE: return False
        if c.id in self.pcset:
            return self.pcset[c.id]
        for g in self.guards:
            if g is c: return True
            if T.lnot(g) is c: return False
        if c.op == 'eq' and c.args[1].op == 'const':
            k = self.counter.get('eqs', {}).get(c.args[0].id)
            if k is not None:
                return k is c.args[1]
        return None

    def prune(self, n):
        """n with the if-then-else conditions resolved that this path decides"""
        conds = []
        while n.op == 'ite':
            k = self.known(n.args[0])
            if k is True: n = n.args[1]
            elif k is False: n = n.args[2]
            else:
                conds.append((n.args[0], n.args[1])); n = n.args[2]
        for c, a in reversed(conds): n = T.ite(c, a, n)
        return n

    def assume(self, c, feasible_check=True):
        if c is T.TRUE:
            return
        if c is T.FALSE:
            raise PathEnd()
        self.push_pc(c)
        if feasible_check and self.sat(T.TRUE) == 'unsat':
            raise PathEnd()

    def decide(self, kind, options):
        """generic n-way decision; options: list of values; explores all"""
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            return d.val
        d = Decision(kind, options[0], list(options[1:]))
        self.decisions.append(d)
        self.pos += 1
        return d.val

    def fork(self, c):
        """truth of the boolean node c on this path"""
        k = self.known(c)
        if k is not None:
            return k
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            assert d.kind == 'fork', (d.kind, d.val)
            if d.alts is not None and d.val[1]:
                self.push_pc(c if d.val[0] else T.lnot(c))
            elif d.val[1] is False:
                # implied by the path condition: remember for quick lookup
                self._learn_implied(c, d.val[0])
            return d.val[0]
        self.stats.forks += 1
        gc = c
        for g in reversed(self.guards):
            gc = T.land(g, gc)
        ngc = T.lnot(c)
        for g in reversed(self.guards):
            ngc = T.land(g, ngc)
        st = self.sat(gc, quick=True)
        sf = self.sat(ngc, quick=True)
        if st == 'unsat' and sf == 'unsat':
            if self.guards:
                raise MergeAbort()
            raise PathEnd()
        if st == 'unsat':
            d = Decision('fork', (False, False), [])
        elif sf == 'unsat':
            d = Decision('fork', (True, False), [])
        else:
            d = Decision('fork', (True, True), [(False, True)])
        self.decisions.append(d)
        self.pos += 1
        if d.val[1]:
            self.push_pc(c if d.val[0] else T.lnot(c))
        else:
            self._learn_implied(c, d.val[0])
        return d.val[0]

    def _learn_implied(self, c, v):
        if not self.guards:
            self.pcset[c.id] = v
            self.pcset[T.lnot(c).id] = not v

    def entails(self, c):
        k = self.known(c)
        if k is not None:
            return k
        x = T.lnot(c)
        for g in self.guards:
            x = T.land(g, x)
        return self.sat(x) == 'unsat'

    def check(self, name, c, detail=''):
        self.stats.obligations += 1
        if c is T.TRUE or self.known(c) is True:
            self.stats.discharged += 1
            self.stats.trivial += 1
            self.stats.by_backend['simplifier'] = self.stats.by_backend.get('simplifier', 0) + 1
            return True
        neg = T.lnot(c)
        for g in self.guards:
            neg = T.land(g, neg)
        s = self.sat(neg, want_model=True)
        if s == 'unsat':
            self.stats.discharged += 1
            k = 'z3 integer arithmetic' if self.math else 'z3 bit-vectors'
            self.stats.by_backend[k] = self.stats.by_backend.get(k, 0) + 1
            return True
        self.failures.append(Failure('%s/%s' % (self.name, name), self.snapshot_model() if s == 'sat' else None,
                                     s, detail))
        return False

    def fail(self, name, detail=''):
        """reached a point that must be unreachable"""
        return self.check(name, T.FALSE, detail)

    def snapshot_model(self):
        m = dict(self.last_model or {})
        out = {}
        for name, n in self.inputs.items():
            if isinstance(n, Node):
                if n.op == 'var':
                    out[name] = m.get(n.args[0], max(n.lo or 0, 0) if n.hi is None or n.hi >= 0 else n.hi)
                elif n.op == 'arrvar':
                    out[name] = {'array': {str(k): v for k, v in m.get(n.args[0], {}).items()}}
                elif n.op == 'bvar':
                    out[name] = bool(m.get(n.args[0], False))
                else:
                    out[name] = T.evaluate(n, m, {})
            else:
                out[name] = n
        return out

    def path_model(self):
        """concrete inputs that follow this path, or None"""
        s = self.sat(T.TRUE, want_model=True)
        if s == 'sat' and self._last_model_exact:
            return self.snapshot_model()
        return None

    # ------------------------------------------------------------ heap journal
    def log(self, obj, kind, key, old):
        if self.poison and id(obj) in self.poison:
            raise Unsupported("write to an object that was merged")
        self.heap.append((obj, kind, key, old))
        if len(self.heap) > 2000000:
            raise Budget('heap log')

class MergeAbort(BaseException):
    """this if statement cannot be merged; fork instead"""

MISSING = object()
def undo(obj, kind, key, old):
    if kind == 'attr':
        if old is MISSING:
            try: object.__delattr__(obj, key)
            except (AttributeError, TypeError): delattr(obj, key)
        else:
            try: object.__setattr__(obj, key, old)
            except (AttributeError, TypeError): setattr(obj, key, old)
    elif kind == 'item':
        obj[key] = old
    elif kind == 'ditem':
        if old is MISSING: obj.pop(key, None)
        else: obj[key] = old
    elif kind == 'whole':
        if isinstance(obj, (list, bytearray)):
            obj[:] = old
        else:
            obj.clear(); obj.update(old)

def T_z(c):
    """z3 Bool of a boolean node"""
    if c._z is None:
        T._translate(c)
    return c._z

def _range(v):
    b, s = T.zi(v)
    W = b.size()
    if s:
        return z3.And(b >= z3.BitVecVal(v.lo, W), b <= z3.BitVecVal(v.hi, W))
    return z3.And(z3.UGE(b, z3.BitVecVal(v.lo, W)), z3.ULE(b, z3.BitVecVal(v.hi, W)))

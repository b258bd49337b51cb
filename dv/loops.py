"""Loop contracts.

A loop named by function and position carries an invariant over its local
variables.  While a task has a contract active for a loop, the extracted loop is
cut: the invariant is proved on entry, the variables the loop assigns are given
arbitrary values satisfying it (havoc), one iteration is followed, and the
invariant is proved again at its end; the code behind the loop continues from an
arbitrary state satisfying the invariant and the negated condition.  That is all
iterations, with no bound.

Frame: every variable the loop assigns must be given a value by the contract
(otherwise it is unbound behind the cut), and every object the iteration writes
must be one the contract names.  If the code does not have the loop the contract
describes, or the invariant does not hold of it, the task is undecided - never
a violation: the unrolled (bounded) tasks of the property then stand in.
"""
import sys
from . import term as T, engine as E, sym as S, lift
from .term import const

from .harness import WANT, FOUND, declare

CONTAINERS = (list, dict, set, bytearray, S.SList, S.SBytes)

OWN = [3]        # the argument of getrefcount, of alone, and the variable itself

class NoFit(T.Unsupported): pass

class Ctl(object):
    def __init__(self, spec, e, names, it):
        self.spec = spec; self.e = e; self.names = names; self.it = it
        self.idx = None
        self.count = None
        self.given = []
        if it is not None: self.count = count(it)
    def fail(self, why): raise NoFit('loop contract: ' + why)
    def prove(self, when, env, idx):
        e = self.e
        try: claims = self.spec.inv(env, idx)
        except (KeyError, AttributeError, TypeError) as x: self.fail('the invariant does not apply (%s: %s)' % (type(x).__name__, x))
        for n, c in claims:
            before = len(e.failures)
            if not e.check('invariant %s %s' % (n, when), S.NB(lift.truthv(c))):
                del e.failures[before:]
                self.fail('invariant "%s" not shown %s' % (n, when))
    def head(self, *thunks):
        e = self.e
        if e.guards: self.fail('inside a merged branch')
        env = dict(zip(self.names, lift.snap(thunks)))
        self.prove('on entry', env, 0 if self.it is not None else None)
        if self.it is not None:
            n = N0(self.count)
            v = T.var(e.fresh('iteration'), 0, n.hi if n.hi is not None else None)
            self.idx = S.I(v)
            e.push_pc(T.le(v, n))
        new = self.spec.havoc(env, self.idx)
        out = []
        self.env = {}
        for n in self.names:
            v = new.get(n, env['self'] if n == 'self' else lift.UNB)
            if n in env and v is not env[n] and isinstance(v, CONTAINERS) and isinstance(env[n], CONTAINERS) and not any(v is o for o in self.spec.frame()):
                self.alone(env[n], env)
                self.given.append(v)
            out.append(v); self.env[n] = v
        for n, c in self.spec.inv(self.env, self.idx):
            e.push_pc(S.NB(lift.truthv(c)))
        if e.sat(T.TRUE) == 'unsat': raise E.PathEnd()
        e.cut = True
        self.mark = len(e.heap)
        return tuple(out)
    def alone(self, o, env):
        """a container replaced by an arbitrary one must be known under one name only"""
        k = sum(1 for v in env.values() if v is o) + sum(1 for x in self.e.heap for y in (x[0], x[3]) if y is o)

        if sys.getrefcount(o) - k > OWN[0]: self.fail('a container the loop changes is known under another name')
    def more(self):
        return lift.truth(lift.compare('<', self.idx, self.count))
    def item(self):
        return item(self.it, self.idx)
    def back(self, *thunks):
        env = dict(zip(self.names, lift.snap(thunks)))
        self.frame()
        self.prove('kept by an iteration', env, None if self.idx is None else self.idx + 1)
        raise E.PathEnd()
    def frame(self):
        ok = set(id(o) for o in self.spec.frame()) | set(id(o) for o in self.given)
        # an object whose every attribute was first set within the iteration was made by it
        first = {}
        for o, kind, key, old in self.e.heap[self.mark:]:
            if kind == 'attr' and id(o) not in ok: first.setdefault(id(o), (o, {}))[1].setdefault(key, old)
        for k, (o, d) in first.items():
            if all(d.get(a) is E.MISSING for a in attrs(o)): ok.add(k)
        for o, kind, key, old in self.e.heap[self.mark:]:
            if id(o) not in ok: self.fail('an iteration writes an object the contract does not name (%s)' % type(o).__name__)

def attrs(o):
    out = list(getattr(o, '__dict__', ()))
    for c in type(o).__mro__:
        s = c.__dict__.get('__slots__', ())
        for a in (s,) if isinstance(s, str) else s:
            if hasattr(o, a): out.append(a)
    return out

def N0(x):
    n = S.N(x)
    return n if n is not None else const(x)

def count(it):
    t = type(it)
    if t is S.SBytes: return S.I(it.length)
    if t is S.SList: return S.I(it.length)
    if t is lift.SRange:
        d = T.sub(it.stop, it.start)
        st = it.step
        if st != 1: d = S.N((S.I(d) + (st - 1)) // st)
        return S.I(T.ite(T.lt(d, const(0)), const(0), d))
    if t is lift.SRangeDown:
        d = T.sub(it.start, it.stop)
        return S.I(T.ite(T.lt(d, const(0)), const(0), d))
    if t is lift.SEnum: return count(it.it)
    if isinstance(it, (range, list, tuple)): return len(it)
    raise NoFit('loop contract: iteration over %s' % t.__name__)

def item(it, idx):
    t = type(it)
    if t is S.SBytes: return S.I(S.sel(it.arr, S.N(idx)))
    if t is S.SList: return it.at(S.N(idx))
    if t is lift.SRange: return S.I(it.start) + idx * it.step
    if t is lift.SRangeDown: return S.I(it.start) - idx
    if t is lift.SEnum: return (it.start + idx, item(it.it, idx))
    if isinstance(it, range): return it.start + idx * it.step
    return lift.getitem(it, idx)

def loop(qual, k, names, it):
    e = E.cur()
    if e is None: return None
    spec = e.loops.get((qual, k))
    if spec is None: return None
    if not spec.every: del e.loops[(qual, k)]
    return Ctl(spec, e, names, it)

class Spec(object):
    """havoc(env, idx) -> {name: value}; inv(env, idx) -> [(name, claim)]"""
    every = False        # for every entry of the loop, not only the next one
    def __init__(self, havoc, inv, frame=lambda: ()):
        self.havoc = havoc; self.inv = inv; self.frame = frame

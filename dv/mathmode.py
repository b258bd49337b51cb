"""Integer arithmetic back end for terms of unbounded size (bit strings of every
width).  2**w is an uninterpreted function with instantiated lemmas; x mod 2**w
and x // 2**w are introduced by their defining equations; bitwise operations are
uninterpreted with sound bounds.  Only 'unsat' answers are trusted; a model is
believed after exact evaluation."""
import random
import z3
from . import term as T
from .term import Unsupported, Node, const

P = z3.Function('pow2', z3.IntSort(), z3.IntSort())

class Tr(object):
    def __init__(self):
        self.cache = {}
        self.side = []            # constraints to assert
        self.keep = []
        self.pows = {}            # exponent node -> z3 P(exponent)
        self.bits = []            # bitwise results (node, z3)
        self.n = 0
        self.dm = {}; self.byw = {}
        self.sels = []
    def fresh(self, base):
        self.n += 1
        return z3.Int('%s!%d' % (base, self.n))
    def add(self, c): self.side.append(c)

    def pow(self, w):
        """2**w for an exponent node"""
        if w.op == 'const': return z3.IntVal(1 << max(T.cval(w), 0))
        if w.id in self.pows: return self.pows[w.id][1]
        # 2**(c + rest) = 2**c * 2**rest keeps few distinct exponents
        e = self.tr(w)
        p = P(e)
        self.add(z3.Implies(e >= 0, z3.And(p >= 1, p >= e + 1)))
        self.add(z3.Implies(e == 0, p == 1))
        self.add(z3.Implies(e >= 1, p >= 2))
        self.add(z3.Implies(e >= 1, p % 2 == 0))
        others = list(self.pows.values())
        self.pows[w.id] = (w, p, e)
        for w2, p2, e2 in others:
            d = T.sub(w, w2)
            if d.op == 'const':
                k = T.cval(d)
                if k >= 0: self.add(z3.Implies(e2 >= 0, p == p2 * (1 << k)))
                else: self.add(z3.Implies(e >= 0, p2 == p * (1 << -k)))
                continue
            self.add(z3.Implies(z3.And(e >= 0, e < e2), 2 * p <= p2))
            self.add(z3.Implies(z3.And(e2 >= 0, e2 < e), 2 * p2 <= p))
            self.add(z3.Implies(e == e2, p == p2))
            for x, q in ((d, 0), (T.neg(d), 1)):
                if x.id in self.pows:
                    w3, p3, e3 = self.pows[x.id]
                    if q == 0: self.add(z3.Implies(z3.And(e2 >= 0, e3 >= 0), p == p2 * p3))
                    else: self.add(z3.Implies(z3.And(e >= 0, e3 >= 0), p2 == p * p3))
        # triples: w = w2 + w3
        for i, (w2, p2, e2) in enumerate(others):
            for w3, p3, e3 in others[i:]:
                s = T.add(w2, w3)
                if s is w: self.add(z3.Implies(z3.And(e2 >= 0, e3 >= 0), p == p2 * p3))
        return p

    def digits(self, x, w, q, r):
        """x mod and div 2**w and 2**(w+1) differ by bit w"""
        for w2 in self.dm.get(x.id, ()):
            d = T.sub(w, w2)
            q2, r2 = self.cache[('dm', x.id, w2.id)]
            if d.op != 'const': self.add(z3.Implies(self.cache[w.id] == self.cache[w2.id], z3.And(q == q2, r == r2)))
            if d.op != 'const' or abs(T.cval(d)) != 1: continue
            lo, hi = (w2, w) if T.cval(d) == 1 else (w, w2)
            ql, rl = self.cache[('dm', x.id, lo.id)]
            qh, rh = self.cache[('dm', x.id, hi.id)]
            b = self.fresh('bit')
            e = self.cache[lo.id]
            p = self.pow(lo)
            self.add(z3.Implies(e >= 0, z3.And(0 <= b, b <= 1, ql == 2 * qh + b, rh == rl + p * b)))
            if lo.lo is not None and lo.lo >= 0: n = T.low(T.shr(x, lo), const(1))
            else: n = T.mk('low', (T.mk('shr', (x, lo), None, None), const(1)), 0, 1)
            self.add(z3.Implies(e >= 0, b == self.tr(n)))
        self.dm.setdefault(x.id, []).append(w)
        for x2 in self.byw.setdefault(w.id, []):
            q2, r2 = self.cache[('dm', x2.id, w.id)]
            self.add(z3.Implies(self.cache[x.id] == self.cache[x2.id], z3.And(q == q2, r == r2)))
        self.byw[w.id].append(x)

    def field(self, x, hi, lo):
        """the bits lo .. hi-1 of x, in place"""
        d = T.sub(hi, lo)
        y = T.shr(x, lo) if lo.op == 'const' or (lo.lo or 0) >= 0 and lo.lo is not None else T.mk('shr', (x, lo), None, None)
        v = T.low(y, d) if d.op == 'const' else T.mk('low', (y, d), 0, None)
        return self.pow(lo) * self.tr(v)

    def tr(self, root):
        c = self.cache
        stack = [root]
        while stack:
            n = stack[-1]
            if n.id in c: stack.pop(); continue
            todo = [a for a in n.args if type(a) is Node and a.id not in c and a.sort != 'arr']
            if todo: stack.extend(todo); continue
            c[n.id] = self.one(n)
            self.keep.append(n)
            if n.sort == 'int' and n.op not in ('const', 'lin', 'ite'):
                if n.lo is not None and n.op not in ('low', 'pow2'): self.add(c[n.id] >= n.lo)
                if n.hi is not None and abs(n.hi) < (1 << 4096): self.add(c[n.id] <= n.hi)
            stack.pop()
        return c[root.id]

    def one(self, n):
        op, a = n.op, n.args
        g = lambda x: self.cache[x.id]
        if n.sort == 'bool':
            if op == 'true': return z3.BoolVal(True)
            if op == 'false': return z3.BoolVal(False)
            if op == 'bvar': return z3.Bool(a[0])
            if op == 'not': return z3.Not(g(a[0]))
            if op == 'and_': return z3.And(*[g(x) for x in a])
            if op == 'iff': return g(a[0]) == g(a[1])
            if op == 'ite': return z3.If(g(a[0]), g(a[1]), g(a[2]))
            if op == 'eq': return g(a[0]) == g(a[1])
            if op == 'lt': return g(a[0]) < g(a[1])
            raise Unsupported('math ' + op)
        if n.sort == 'arr': raise Unsupported('math array')
        if op == 'const': return z3.IntVal(a[0])
        if op == 'var': return z3.Int(a[0])
        if op == 'lin':
            r = z3.IntVal(a[0])
            for i in range(1, len(a), 2): r = r + g(a[i]) * a[i + 1]
            return r
        if op == 'mul': return g(a[0]) * g(a[1])
        if op == 'pow2': return self.pow(a[0])
        if op in ('low', 'shr'):
            x, w = g(a[0]), a[1]
            if w.op == 'const':
                m = z3.IntVal(1 << T.cval(w))
                return x % m if op == 'low' else x / m
            key = ('dm', a[0].id, w.id)
            if key not in self.cache:
                p = self.pow(w); e = g(w)
                q, r = self.fresh('q'), self.fresh('r')
                self.add(z3.Implies(e >= 0, z3.And(x == q * p + r, 0 <= r, r < p)))
                self.add(z3.Implies(z3.And(e >= 0, 0 <= x, x < p), z3.And(q == 0, r == x)))
                self.add(z3.Implies(z3.And(e >= 0, 0 <= x), z3.And(q >= 0, q <= x, r <= x)))
                self.add(z3.Implies(z3.And(e >= 0, x < 0), q < 0))
                self.add(z3.Implies(z3.And(e >= 0, p <= x, x < 2 * p), z3.And(q == 1, r == x - p)))
                self.add(z3.Implies(z3.And(e >= 0, -p <= x, x < 0), z3.And(q == -1, r == x + p)))
                self.add(z3.Implies(e == 1, z3.And(q == x / 2, r == x % 2)))
                # negative distances do not occur (the caller's path excludes them)
                self.cache[key] = (q, r)
                self.digits(a[0], w, q, r)
                if a[0].op == 'shr' and (a[0].args[1].lo or 0) >= 0 and a[0].args[1].op != 'const':
                    m = T.shr(a[0].args[0], T.add(a[0].args[1], w))
                    self.add(z3.Implies(z3.And(e >= 0, self.tr(a[0].args[1]) >= 0), q == self.tr(m)))
                if a[0].op == 'low' and a[0].args[1].op != 'const':
                    self.add(z3.Implies(z3.And(e >= 0, e <= self.tr(a[0].args[1])), r == self.tr(T.mk('low', (a[0].args[0], w), 0, None))))
                if a[0].op == 'shl' and a[0].args[1].op != 'const':      # z*2**k mod 2**w == 2**k * (z mod 2**(w-k))
                    z, k = a[0].args
                    d = T.sub(w, k)
                    m = T.mk('low', (z, d), 0, None) if d.op != 'const' else T.low(z, d) if T.cval(d) >= 0 else None
                    if m is not None:
                        self.add(z3.Implies(z3.And(self.tr(k) >= 0, e >= self.tr(k)), r == self.pow(k) * self.tr(m)))
            q, r = self.cache[key]
            return r if op == 'low' else q
        if op == 'shl': return g(a[0]) * self.pow(a[1])
        if op in ('div', 'mod'):
            x, y = g(a[0]), g(a[1])
            key = ('fd', a[0].id, a[1].id)
            if key not in self.cache:
                q, r = self.fresh('q'), self.fresh('r')
                self.add(z3.Implies(y > 0, z3.And(x == q * y + r, 0 <= r, r < y)))
                self.add(z3.Implies(y < 0, z3.And(x == q * y + r, y < r, r <= 0)))
                self.add(z3.Implies(z3.And(y > 0, x >= 0), z3.And(q >= 0, q <= x)))
                self.cache[key] = (q, r)
            return self.cache[key][0 if op == 'div' else 1]
        if op in ('and', 'or', 'xor'):
            x, y = g(a[0]), g(a[1])
            r = z3.Function('bit' + op, z3.IntSort(), z3.IntSort(), z3.IntSort())(x, y)
            nn = z3.And(x >= 0, y >= 0)
            self.add(z3.Implies(x == 0, r == (0 if op == 'and' else y)))
            self.add(z3.Implies(y == 0, r == (0 if op == 'and' else x)))
            if op == 'and':
                self.add(z3.Implies(x >= 0, z3.And(r >= 0, r <= x)))
                self.add(z3.Implies(y >= 0, z3.And(r >= 0, r <= y)))
            elif op == 'or':
                self.add(z3.Implies(nn, z3.And(r >= x, r >= y, r <= x + y)))
            else:
                self.add(z3.Implies(nn, z3.And(r >= 0, r <= x + y)))
            if op in ('or', 'xor'):
                for u, v, s in ((x, y, a[1]), (y, x, a[0])):       # below 2**k, and a multiple of 2**k
                    top = s.args[1] if s.op == 'low' else None
                    if top is not None: s = s.args[0]
                    if s.op not in ('shl', 'pow2'): continue
                    kn = s.args[1 if s.op == 'shl' else 0]
                    k = self.tr(kn)
                    c = [nn, k >= 0, u < self.pow(kn)]
                    if top is not None: c.append(self.tr(top) >= k)
                    self.add(z3.Implies(z3.And(*c), r == u + v))
            if op == 'and':
                for u, m in ((a[0], a[1]), (a[1], a[0])):
                    f = run(m)
                    if f is not None: self.add(z3.Implies(z3.And(self.tr(f[1]) >= 0, self.tr(f[0]) >= self.tr(f[1])), r == self.field(u, *f)))
                    f = run(T.sub(const(-1), m))               # x & ~m is x - (x & m)
                    if f is not None: self.add(z3.Implies(z3.And(self.tr(f[1]) >= 0, self.tr(f[0]) >= self.tr(f[1])), r == g(u) - self.field(u, *f)))
            elif a[0].op == 'and' and a[1].op == 'and':        # no bit in common
                if any(T.add(p, q) is const(-1) for p in a[0].args for q in a[1].args): self.add(r == x + y)
            for w, p, e in list(self.pows.values()):
                self.add(z3.Implies(z3.And(nn, x < p, y < p), r < p))
                if op == 'and':
                    self.add(z3.Implies(z3.And(x >= 0, x < p), r < p))
            return r
        if op == 'ite': return z3.If(g(a[0]), g(a[1]), g(a[2]))
        if op == 'pop':
            x = g(a[0])
            r = z3.Function('popc', z3.IntSort(), z3.IntSort())(x)
            self.add(z3.And(r >= 0, z3.Implies(x > 0, r >= 1), z3.Implies(x == 0, r == 0)))
            if a[0].op == 'shr' and a[0].args[1].op == 'const' and T.cval(a[0].args[1]) == 1:
                y = self.tr(a[0].args[0])
                f = z3.Function('popc', z3.IntSort(), z3.IntSort())
                self.add(z3.Implies(y >= 0, f(y) == r + y % 2))
            return r
        if op == 'fn': return z3.Int('fn!%d' % n.id)
        if op == 'sel':
            if a[0].op != 'arrvar': raise Unsupported('math sel')
            self.sels.append(n)
            return z3.Function('arr!' + a[0].args[0], z3.IntSort(), z3.IntSort())(g(a[1]))
        raise Unsupported('math ' + op)

def run(m):
    """(hi, lo) when m is 2**hi - 2**lo"""
    if m.op != 'lin': return None
    c, t = m.args[0], m.args[1:]
    t = sorted(((t[i + 1], t[i]) for i in range(0, len(t), 2)), key=lambda q: q[0])
    if any(q[1].op != 'pow2' for q in t): return None
    if c == 0 and [q[0] for q in t] == [-1, 1]:
        hi, lo = t[1][1].args[0], t[0][1].args[0]
        d = T.sub(hi, lo)
        return None if d.op == 'const' and T.cval(d) < 0 else (hi, lo)
    if [q[0] for q in t] == [1] and c == -1: return t[0][1].args[0], const(0)
    return None

def model_env(tr, zm, nodes):
    """values of the inputs in a solver model (to be checked by exact evaluation)"""
    env = {}
    def val(z, default=0):
        v = zm.eval(z, model_completion=True)
        return v.as_long() if z3.is_int_value(v) else default
    for v in T.collect(nodes, ('var',)):
        x = val(z3.Int(v.args[0]))
        if v.lo is not None: x = max(x, v.lo)
        if v.hi is not None: x = min(x, v.hi)
        env[v.args[0]] = x
    for b in T.collect(nodes, ('bvar',)):
        env[b.args[0]] = z3.is_true(zm.eval(z3.Bool(b.args[0]), model_completion=True))
    for n in T.collect(nodes, ('arrvar',)): env.setdefault(n.args[0], {})
    for n in tr.sels:
        a = n.args[0].args[0]
        try: i = val(tr.cache[n.args[1].id])
        except KeyError: continue
        x = val(tr.cache[n.id])
        if n.lo is not None: x = max(x, n.lo)
        if n.hi is not None: x = min(x, n.hi)
        env.setdefault(a, {}).setdefault(i, x)
    return env

def refute(pc, neg, inputs, tries=3000, seed=1):
    """exact small counterexample by evaluation, or None"""
    rng = random.Random(seed)
    vs = T.collect(list(pc) + [neg], ('var',))
    for v in inputs.values():
        if isinstance(v, Node) and v.op == 'var' and v not in vs: vs.append(v)
    for t in range(tries):
        env = {}
        for v in vs:
            lo = v.lo if v.lo is not None else -(1 << 40)
            hi = v.hi if v.hi is not None else (1 << 80)
            k = rng.random()
            if k < 0.45: x = rng.randint(lo if lo > -16 else -16, min(hi, max(lo, 0) + 20))
            elif k < 0.6: x = rng.choice([1 << rng.randrange(70), (1 << rng.randrange(70)) - 1])
            elif v.args[0].startswith(('w', 'n', 'k')): x = rng.randint(max(lo, 0), min(hi, 140))
            else: x = rng.getrandbits(rng.randrange(1, 75))
            x = max(lo, min(hi, x))
            env[v.args[0]] = x
        memo = {}
        try:
            if all(T.evaluate(c, env, memo) is True for c in pc) and T.evaluate(neg, env, memo) is True:
                return env
        except (Unsupported, OverflowError, MemoryError): continue
    return None

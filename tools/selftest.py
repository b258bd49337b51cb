"""Random differential test of dv/term.py: simplified terms against CPython
integers, and the z3 translation against both."""
import os, sys, random, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from dv import term as T
from dv.term import const

def build(rng, env, depth):
    """(node, value under env)"""
    if depth == 0 or rng.random() < 0.1:
        if rng.random() < 0.6:
            n, v = rng.choice(env)
            return n, v
        c = rng.choice([0, 1, 2, 3, 5, 7, 8, 15, 16, 31, 32, 255, 256, 0xff00, 0x7fffffff, 0x80000000, 0xffffffff, -1, -2, -4, -256, rng.getrandbits(8)])
        return const(c), c
    k = rng.randrange(17)
    a, x = build(rng, env, depth - 1)
    if k == 0: s = rng.randrange(0, 40); return T.low(a, const(s)), x & ((1 << s) - 1)
    if k == 1: s = rng.randrange(0, 20); return T.shl(a, const(s)), x << s
    if k == 2: s = rng.randrange(0, 40); return T.shr(a, const(s)), x >> s
    if k == 3: return T.lin_not(a), ~x
    if k == 4: return T.neg(a), -x
    if k == 16:
        s = rng.randrange(1, 9); m = (1 << s) - 1
        r, v = const(0), 0
        for i in range(rng.randrange(1, 6)):
            if rng.random() < 0.5: b, y = T.low(a, const(1)), x & 1
            else: b, y = T.low(T.shr(a, const(i)), const(s)), (x >> i) & m
            r = T.bor(T.shl(r, const(s)), b); v = v << s | y
        return r, v
    b, y = build(rng, env, depth - 1)
    if k == 5: return T.add(a, b), x + y
    if k == 6: return T.sub(a, b), x - y
    if k == 7: return T.mul(a, b), x * y
    if k == 8: return T.band(a, b), x & y
    if k == 9: return T.bor(a, b), x | y
    if k == 10: return T.bxor(a, b), x ^ y
    if k == 11 and y != 0: return T.floordiv(a, b), x // y
    if k == 12 and y != 0: return T.floormod(a, b), x % y
    if k == 13:
        c, z = build(rng, env, depth - 1)
        d = rng.randrange(4)
        cond, cv = [(T.eq(a, b), x == y), (T.lt(a, b), x < y), (T.le(a, b), x <= y), (T.lnot(T.eq(a, b)), x != y)][d]
        e, w = build(rng, env, depth - 1)
        return T.ite(cond, c, e), z if cv else w
    if k == 14 and x >= 0: return T.popcount(T.low(a, const(32))), bin(x & 0xffffffff).count('1')
    if k == 15:
        s, sv = T.low(b, const(5)), y & 31
        d = rng.randrange(3)
        if d == 0: return T.shl(a, s), x << sv
        if d == 1: return T.shr(a, s), x >> sv
        return T.low(a, s), x & ((1 << sv) - 1)
    return T.add(a, b), x + y

def main(n=6000, seed=7):
    rng = random.Random(seed)
    t0 = time.time()
    z = 0
    for i in range(n):
        vals = {}
        env = []
        for k in range(4):
            lo, hi = rng.choice([(0, 1), (0, 1), (0, 255), (0, 0xffffffff), (-128, 127), (0, 15), (3, 9), (-1, 0xffff)])
            v = rng.choice([lo, hi, rng.randint(lo, hi)])
            nm = 'v%d_%d_%d' % (k, lo, hi)
            vals[nm] = v
            env.append((T.var(nm, lo, hi), v))
        node, want = build(rng, env, rng.randrange(1, 5))
        got = T.evaluate(node, vals, {})
        assert got == want, (i, node, vals, got, want)
        assert (node.lo is None or node.lo <= want) and (node.hi is None or want <= node.hi), ('interval', i, node, node.lo, node.hi, want)
        if i % 3 == 0 and node.lo is not None and node.hi is not None and node.op != 'const' \
                and max(node.hi.bit_length(), abs(node.lo).bit_length()) < 400 and not T.collect([node], ('div', 'mod')):
            s = z3.Solver(); s.set('timeout', 2000)
            for nd, v in env:
                b, sg = T.zi(nd)
                s.add(b == z3.BitVecVal(v, b.size()))
            b, sg = T.zi(node)
            s.add(b != z3.BitVecVal(want, b.size()))
            r = str(s.check())
            assert r != 'sat', ('z3', i, node, vals, want)
            z += r == 'unsat'
        if i % 500 == 0: T.reset()
    print('term layer: %d random terms agree with CPython, %d with z3, %.1f s' % (n, z, time.time() - t0))

def wide(rng, ws, env, depth):
    """a term over symbolic widths, and its value"""
    if depth == 0 or rng.random() < 0.08:
        if rng.random() < 0.65: return rng.choice(env)
        if rng.random() < 0.4:
            w, v = width(rng, ws)
            return T.pow2(w), 1 << v
        c = rng.choice([0, 1, 2, 3, 8, 255, -1, -2, -8])
        return const(c), c
    k = rng.randrange(13)
    a, x = wide(rng, ws, env, depth - 1)
    w, v = width(rng, ws)
    if k in (0, 1): return T.low(a, w), x & ((1 << v) - 1)
    if k == 2: return T.shl(a, w), x << v
    if k in (3, 4): return T.shr(a, w), x >> v
    if k == 5:
        m = T.sub(T.pow2(w), const(1))
        return T.band(a, m), x & ((1 << v) - 1)
    if k == 6:
        w2, v2 = width(rng, ws)
        m, y = T.sub(T.pow2(w), T.pow2(w2)), (1 << v) - (1 << v2)
        if rng.random() < 0.4: m, y = T.lin_not(m), ~y
        return T.band(a, m), x & y
    b, y = wide(rng, ws, env, depth - 1)
    if k == 7: return T.add(a, b), x + y
    if k == 8: return T.sub(a, b), x - y
    if k == 9: return T.band(a, b), x & y
    if k == 10: return T.bor(a, b), x | y
    if k == 11: return T.bxor(a, b), x ^ y
    return T.mul(a, b), x * y

def width(rng, ws):
    for _ in range(20):
        k = rng.randrange(4)
        (a, x), (b, y) = rng.choice(ws), rng.choice(ws)
        if k == 0: return a, x
        if k == 1: return T.add(a, b), x + y
        if k == 2 and x >= y: return T.sub(a, b), x - y
        if k == 3 and x >= 1: return T.sub(a, const(1)), x - 1
    return ws[0]

def lemmas(n=1500, seed=3):
    """the facts dv/mathmode.py adds hold of the true values"""
    from dv import mathmode
    rng = random.Random(seed)
    t0 = time.time()
    facts = done = 0
    for i in range(n):
        T.reset()
        vals, ws, env = {}, [], []
        for k in range(3):
            v = rng.choice([0, 1, 2, 3, 5, 8, 13]); nm = 'w%d' % k
            vals[nm] = v; ws.append((T.var(nm, 0, None), v))
        for k in range(3):
            lo, hi = rng.choice([(0, None), (None, None), (0, 1), (0, 255)])
            v = rng.choice([0, 1, 3, 8, rng.getrandbits(9), (1 << ws[k][1]) - 1]) if lo == 0 else rng.randint(-600, 600)
            if hi is not None: v = min(v, hi)
            nm = 'x%d' % k
            vals[nm] = v; env.append((T.var(nm, lo, hi), v))
        if rng.random() < 0.6:                      # a value below 2**w, as bit strings have
            v = rng.getrandbits(20) & ((1 << ws[0][1]) - 1)
            env.append((T.low(T.var('y', 0, None), ws[0][0]), v)); vals['y'] = v
        try: node, want = wide(rng, ws, env, rng.randrange(1, 5))
        except T.Unsupported: continue
        if abs(want).bit_length() > 300: continue
        got = T.evaluate(node, vals, {})
        assert got == want, (i, T.show(node), vals, got, want)
        assert (node.lo is None or node.lo <= want) and (node.hi is None or want <= node.hi), ('interval', i, T.show(node), vals, want)
        if node.op == 'const': continue
        tr = mathmode.Tr()
        try: z = tr.tr(node)
        except T.Unsupported: continue
        s = z3.Solver(); s.set('timeout', 3000)
        for nm, v in vals.items(): s.add(z3.Int(nm) == v)
        for e in range(0, 60): s.add(mathmode.P(z3.IntVal(e)) == (1 << e))
        # the true value of every subterm that has one
        stack, seen = [node], set()
        while stack:
            m = stack.pop()
            if m.id in seen: continue
            seen.add(m.id)
            if m.id in tr.cache and m.sort == 'int' and m.op != 'const':
                s.add(tr.cache[m.id] == T.evaluate(m, vals, {}))
            stack.extend(a for a in m.args if type(a) is T.Node)
        base = s.check()
        assert base != z3.unsat, ('translation', i, T.show(node), vals)
        s.add(*tr.side)
        r = s.check()
        if r == z3.unsat:
            bad = []
            for c in tr.side:
                s2 = z3.Solver(); s2.set('timeout', 2000); s2.add(s.assertions()[:len(vals) + 60 + 0]); s2.add(c)
                if s2.check() == z3.unsat: bad.append(c)
            raise AssertionError(('lemma', i, T.show(node, 9), vals, bad[:2]))
        facts += len(tr.side); done += r == z3.sat
    print('symbolic widths: %d terms, %d with the %d facts of the integer back end consistent with the true values, %.1f s' % (n, done, facts, time.time() - t0))

if __name__ == '__main__':
    main(*map(int, sys.argv[1:]))
    lemmas()

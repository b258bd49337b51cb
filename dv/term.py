"""Hash-consed terms over exact (unbounded) Python integers, booleans and
integer arrays, with interval analysis, local simplification, concrete
evaluation and translation to z3 bit-vectors.

Every integer term denotes a mathematical integer.  The bit-vector translation
is exact: each node is translated at a width that holds its whole interval, so
no overflow is ever abstracted away.  Terms whose interval is infinite cannot be
translated this way; `dv.mathz` handles them.
"""
import z3

INF = None

class Unsupported(BaseException):
    """The construct is outside what the verifier models (not a violation)."""

class Node(object):
    __slots__ = ('op', 'args', 'lo', 'hi', 'id', 'sort', '_z', '__weakref__')
    def __repr__(self):
        return show(self)

_table = {}
_next = [0]

def _key(a):
    return ('n', a.id) if isinstance(a, Node) else a

def mk(op, args, lo, hi, sort='int'):
    k = (op,) + tuple([a.id if type(a) is Node else ('k', a) for a in args])
    n = _table.get(k)
    if n is None:
        n = Node()
        n.op = op; n.args = args; n.lo = lo; n.hi = hi; n.sort = sort; n._z = None
        _next[0] += 1
        n.id = _next[0]
        _table[k] = n
    return n

def reset():
    """Forget all terms (between independent tasks, to bound memory)."""
    global TRUE, FALSE
    _table.clear()
    for n in (TRUE, FALSE):
        _table[(n.op,)] = n
    _ccache.clear()
    BELOW.clear()

_ccache = {}
BELOW = set()        # (variable id, width id): 0 <= variable < 2**width by assumption
def const(v):
    n = _ccache.get(v)
    if n is None:
        v = int(v)
        n = mk('const', (v,), v, v)
        _ccache[v] = n
    return n

def var(name, lo=None, hi=None):
    return mk('var', (name, lo, hi), lo, hi)

TRUE = mk('true', (), None, None, 'bool')
FALSE = mk('false', (), None, None, 'bool')
def boolc(b):
    return TRUE if b else FALSE
def bvar(name):
    return mk('bvar', (name,), None, None, 'bool')

def is_const(n):
    return n.op == 'const'
def cval(n):
    return n.args[0]

# ---------------------------------------------------------------- intervals
def _add(a, b):
    return None if a is None or b is None else a + b
def _neg(a):
    return None if a is None else -a

def _mulint(alo, ahi, blo, bhi):
    if None in (alo, ahi, blo, bhi):
        if alo is not None and blo is not None and alo >= 0 and blo >= 0:
            return alo * blo, None
        return None, None
    c = [alo * blo, alo * bhi, ahi * blo, ahi * bhi]
    return min(c), max(c)

def bitlen(v):
    return v.bit_length()

# ---------------------------------------------------------------- linear sums
def lin(c, terms):
    """c + sum coeff*node ; terms: dict node -> coeff"""
    items = [(n, k) for n, k in terms.items() if k != 0]
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda t: t[0].id)
    lo = hi = c
    for n, k in items:
        l, h = (n.lo, n.hi) if k > 0 else (n.hi, n.lo)
        lo = None if lo is None or l is None else lo + k * l
        hi = None if hi is None or h is None else hi + k * h
    args = [c]
    for n, k in items:
        args.append(n); args.append(k)
    return mk('lin', tuple(args), lo, hi)

def lin_parts(n):
    if n.op == 'const':
        return n.args[0], {}
    if n.op == 'lin':
        a = n.args
        return a[0], {a[i]: a[i + 1] for i in range(1, len(a), 2)}
    if n.op == 'shl' and n.args[1].op == 'const' and n.args[0].op == 'lin':
        k = 1 << cval(n.args[1])
        c, d = lin_parts(n.args[0])
        return c * k, {x: v * k for x, v in d.items()}
    return 0, {n: 1}

def add(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(a.args[0] + b.args[0])
    if a.op == 'const' and a.args[0] == 0:
        return b
    if b.op == 'const' and b.args[0] == 0:
        return a
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for n, k in db.items():
        d[n] = d.get(n, 0) + k
    return lin(ca + cb, d)

def scale(a, k):
    if k == 1:
        return a
    c, d = lin_parts(a)
    return lin(c * k, {n: v * k for n, v in d.items()})

def sub(a, b):
    if a is b:
        return const(0)
    return add(a, scale(b, -1))

def neg(a):
    return scale(a, -1)

def bnot(a):
    return lin_not(a)

def lin_not(a):
    c, d = lin_parts(a)
    return lin(-c - 1, {n: -v for n, v in d.items()})

def is_not(n):
    """x if n is ~x in normal form"""
    if n.op == 'lin' and n.args[0] == -1 and len(n.args) == 3 and n.args[2] == -1:
        return n.args[1]
    return None

def mul(a, b):
    if a.op == 'const':
        a, b = b, a
    if b.op == 'const':
        return scale(a, b.args[0])
    if a.id > b.id:
        a, b = b, a
    lo, hi = _mulint(a.lo, a.hi, b.lo, b.hi)
    if a is b:
        lo = max(lo or 0, 0)
    return mk('mul', (a, b), lo, hi)

# ---------------------------------------------------------------- bits
def _pow2m1(v):
    """k if v == 2**k - 1 (k >= 0)"""
    return v.bit_length() if v >= 0 and (v & (v + 1)) == 0 else None

def low(x, w):
    """x mod 2**w (w >= 0)"""
    if w.op == 'const':
        k = cval(w)
        if x.op == 'const':
            return const(x.args[0] & ((1 << k) - 1))
        if k == 0:
            return const(0)
        if x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi < (1 << k):
            return x
        if x.op == 'low' and x.args[1].op == 'const':
            return low(x.args[0], const(min(k, cval(x.args[1]))))
        if x.op == 'low' and x.args[1].lo is not None and x.args[1].lo >= k:
            return low(x.args[0], w)
        if x.op == 'lin':
            bm = _bitmul(x)
            if bm is not None: return _mulbit(bm[0], bm[1] & ((1 << k) - 1))
            x = _strip_mod(x, k)
            if x.op != 'lin':
                return low(x, w)
        if x.op == 'mul':
            y = mul(_modrep(x.args[0], k), _modrep(x.args[1], k))
            if y is not x: return low(y, w)
        if x.op == 'shl' and x.args[1].op == 'const':
            s = cval(x.args[1])
            if s >= k:
                return const(0)
            return shl(low(x.args[0], const(k - s)), x.args[1])
        if x.op == 'ite' and (x.args[1].op == 'const' or x.args[2].op == 'const'):
            return ite(x.args[0], low(x.args[1], w), low(x.args[2], w))
        if x.op == 'or' and x.args[1].op in ('shl',) and x.args[1].args[1].op == 'const' \
                and cval(x.args[1].args[1]) >= k:
            return low(x.args[0], w)
        if x.op == 'or' and x.args[0].op in ('shl',) and x.args[0].args[1].op == 'const' \
                and cval(x.args[0].args[1]) >= k:
            return low(x.args[1], w)
        if x.op in ('or', 'and', 'xor') :
            a, b = x.args
            na, nb = low(a, w), low(b, w)
            if na is not a or nb is not b:
                return {'or': bor, 'and': band, 'xor': bxor}[x.op](na, nb)
        return mk('low', (x, w), 0, (1 << k) - 1)
    # symbolic width
    if x.op == 'const' and cval(x) == 0:
        return x
    n = is_not(x)
    if n is not None:         # low(~n, w) == 2**w - 1 - low(n, w)
        return sub(sub(pow2(w), const(1)), low(n, w))
    if x.op == 'lin' and x.args[0] == 0 and len(x.args) == 5:       # n - low(n, k) with 0 <= n < 2**w
        for n, l in ((x.args[1], x.args[3]), (x.args[3], x.args[1])):
            if l.op == 'low' and l.args[0] is n and x.args[2] + x.args[4] == 0 and dict(zip(x.args[1::2], x.args[2::2]))[n] == 1 \
                    and _nonneg(n) and _below(n, w): return x
    if x.op not in ('const',) and _nonneg(x) and _below(x, w): return x
    if x.op == 'low' and x.args[1] is w:
        return x
    if x.op == 'shl' and x.args[0].op == 'low' and x.args[0].args[1] is w:
        return low(shl(x.args[0].args[0], x.args[1]), w)
    if x.op == 'lin':
        x = _strip_mod_sym(x, w)
        if x.op != 'lin': return low(x, w)
        n = is_not(x)
        if n is not None: return sub(sub(pow2(w), const(1)), low(n, w))
    if x.op == 'mul':
        y = _strip_mul_sym(x, w)
        if y is not x:
            return low(y, w)
    if w.hi is not None:
        hi = (1 << w.hi) - 1
    else:
        hi = None
    if x.lo is not None and x.lo >= 0 and x.hi is not None:
        hi = x.hi if hi is None else min(hi, x.hi)
    return mk('low', (x, w), 0, hi)

def _bitmul(x):
    """(s, c) if x == s * c for a 0/1 term s and a constant c > 0"""
    if x.op == 'lin' and x.args[0] == 0 and len(x.args) == 3 and x.args[2] > 0:
        s = x.args[1]
        if s.lo == 0 and s.hi == 1: return s, x.args[2]
    return None

def _bitmul1(x):
    r = _bitmul(x)
    if r is not None: return r
    k = 0
    if x.op == 'shl' and x.args[1].op == 'const':
        k = cval(x.args[1]); x = x.args[0]
    if x.lo == 0 and x.hi == 1 and x.op != 'const': return x, 1 << k
    return None

def _mulbit(s, c):
    if c == 0: return const(0)
    if c & (c - 1) == 0: return shl(s, const(c.bit_length() - 1))
    return lin(0, {s: c})

def _modrep(n, k):
    """a simpler term congruent to n modulo 2**k"""
    while n.op == 'low' and n.args[1].op == 'const' and cval(n.args[1]) >= k:
        n = n.args[0]
    if n.op == 'lin':
        # only useful when a term drops out
        m = _strip_mod(n, k)
        if len(m.args) < len(n.args): return m
    return n

def _strip_mod(x, k):
    c, d = lin_parts(x)
    m = (1 << k)
    nd = {}
    changed = False
    for n, v in d.items():
        v2 = v % m
        if v2 > m // 2 or (v2 == m // 2 and v < 0):
            v2 -= m
        while n.op == 'low' and n.args[1].op == 'const' and cval(n.args[1]) >= k:
            n = n.args[0]
        if n.op == 'mul': n = mul(_modrep(n.args[0], k), _modrep(n.args[1], k))
        if n.op == 'shl' and n.args[1].op == 'const' and cval(n.args[1]) >= k: continue
        if n.op == 'pow2' and n.args[0].lo is not None and n.args[0].lo >= k: continue
        if n.op == 'lin' or n.op == 'const':
            c2, d2 = lin_parts(n)
            c += c2 * v2
            for n2, v3 in d2.items():
                nd[n2] = nd.get(n2, 0) + v3 * v2
        else:
            nd[n] = nd.get(n, 0) + v2
    c2 = c % m
    nd = {n: ((v % m) - m if (v % m) > m // 2 else v % m) for n, v in nd.items()}
    # keep ~x recognisable
    if len(nd) == 1 and list(nd.values())[0] == -1 and c2 == m - 1:
        c2 = -1
    return lin(c2, nd)

def _strip_mod_sym(x, w):
    c, d = lin_parts(x)
    nd = {}
    for n, v in d.items():
        if n.op == 'pow2':         # a multiple of 2**w
            dd = sub(n.args[0], w)
            if dd.lo is not None and dd.lo >= 0: continue
        while n.op == 'low' and n.args[1] is w:
            n = n.args[0]
        c2, d2 = lin_parts(n)
        c += c2 * v
        for n2, v3 in d2.items():
            nd[n2] = nd.get(n2, 0) + v3 * v
    return lin(c, nd)

def _strip_mul_sym(x, w):
    a, b = x.args
    while a.op == 'low' and a.args[1] is w:
        a = a.args[0]
    while b.op == 'low' and b.args[1] is w:
        b = b.args[0]
    if a is x.args[0] and b is x.args[1]:
        return x
    return mul(a, b)

def pow2(w):
    if w.op == 'const':
        return const(1 << cval(w))
    lo = 1 if w.lo is None or w.lo < 0 else (1 << w.lo)
    hi = None if w.hi is None else (1 << w.hi)
    return mk('pow2', (w,), lo, hi)

def shl(x, n):
    """x << n, n >= 0"""
    if n.op == 'const':
        k = cval(n)
        if k == 0:
            return x
        if x.op == 'const':
            return const(x.args[0] << k)
        if x.op == 'shl' and x.args[1].op == 'const':
            return shl(x.args[0], const(k + cval(x.args[1])))
        if x.op == 'lin':
            bm = _bitmul(x)
            if bm is not None: return lin(0, {bm[0]: bm[1] << k})
            return scale(x, 1 << k)
        if x.op == 'or' and _bnd(x) and x.lo >= 0:
            return bor(shl(x.args[0], n), shl(x.args[1], n))
        lo = None if x.lo is None else x.lo << k
        hi = None if x.hi is None else x.hi << k
        return mk('shl', (x, n), lo, hi)
    if x.op == 'const' and cval(x) == 1:
        return pow2(n)
    if x.op == 'const' and cval(x) == 0:
        return x
    lo = hi = None
    nh = n.hi
    if nh is not None and nh <= 4096:
        if x.lo is not None:
            lo = min(x.lo, x.lo << nh)
        if x.hi is not None:
            hi = max(x.hi, x.hi << nh)
    elif x.lo is not None and x.lo >= 0:
        lo = 0
    return mk('shl', (x, n), lo, hi)

def shr(x, n):
    """floor(x / 2**n), n >= 0"""
    if n.op == 'const':
        k = cval(n)
        if k == 0:
            return x
        if x.op == 'const':
            return const(x.args[0] >> k)
        if x.lo is not None and x.hi is not None:
            if x.lo >= 0 and x.hi < (1 << k):
                return const(0)
            if x.hi < 0 and x.lo >= -(1 << k):
                return const(-1)
        if x.op == 'shr' and x.args[1].op == 'const':
            return shr(x.args[0], const(k + cval(x.args[1])))
        if x.op == 'shl' and x.args[1].op == 'const':
            s = cval(x.args[1])
            return shl(x.args[0], const(s - k)) if s >= k else shr(x.args[0], const(k - s))
        if x.op == 'low' and x.args[1].op == 'const':
            return low(shr(x.args[0], n), const(cval(x.args[1]) - k))
        if x.op in ('or', 'and', 'xor'):
            f = {'or': bor, 'and': band, 'xor': bxor}[x.op]
            return f(shr(x.args[0], n), shr(x.args[1], n))
        if x.op == 'ite' and (x.args[1].op == 'const' or x.args[2].op == 'const'):
            return ite(x.args[0], shr(x.args[1], n), shr(x.args[2], n))
        bm = _bitmul(x)
        if bm is not None: return _mulbit(bm[0], bm[1] >> k)
        if x.op == 'lin' and x.args[0] % 1 == 0:
            # all coefficients and the constant divisible by 2**k: exact
            if all(v % (1 << k) == 0 for v in x.args[2::2]):
                c, d = lin_parts(x)
                return lin(c >> k, {n_: v >> k for n_, v in d.items()})
        lo = None if x.lo is None else x.lo >> k
        hi = None if x.hi is None else x.hi >> k
        return mk('shr', (x, n), lo, hi)
    if x.op == 'const' and cval(x) in (0, -1):
        return x
    if x.op == 'pow2' or (x.op == 'shl'):
        base, s = (const(1), x.args[0]) if x.op == 'pow2' else x.args
        dd = sub(s, n)
        if dd.lo is not None and dd.lo >= 0:
            return shl(base, dd)
        if s is n:
            return base
    lo = None if x.lo is None else min(x.lo, 0) if x.lo < 0 else 0
    hi = None if x.hi is None else max(x.hi, 0) if x.hi >= 0 else -1
    if x.hi is not None and x.hi >= 0 and n.lo is not None and n.lo >= 0:
        hi = x.hi >> n.lo
    if x.lo is not None and x.lo < 0 and n.lo is not None and n.lo >= 0:
        lo = x.lo >> n.lo
    if x.op == 'shr':
        return shr(x.args[0], add(x.args[1], n))
    return mk('shr', (x, n), lo, hi)

def _maskwidth(b):
    """node w with b == 2**w - 1, or None"""
    if b.op == 'const':
        k = _pow2m1(cval(b))
        return None if k is None else const(k)
    if b.op == 'lin' and b.args[0] == -1 and len(b.args) == 3 and b.args[2] == 1 and b.args[1].op == 'pow2':
        return b.args[1].args[0]
    return None

def _maskminus(m):
    """(k, n) if m == 2**k - 1 - n with n known to lie in [0, 2**k), k symbolic"""
    if m.op != 'lin' or m.args[0] != -1 or len(m.args) != 5: return None
    d = {m.args[1]: m.args[2], m.args[3]: m.args[4]}
    for p in d:
        if p.op == 'pow2' and d[p] == 1:
            for n in d:
                if n is not p and d[n] == -1 and _nonneg(n) and _below(n, p.args[0]): return p.args[0], n
    return None

def _symshl(n):
    """(x, k) if n == x << k with a symbolic k"""
    if n.op == 'pow2': return const(1), n.args[0]
    if n.op == 'shl' and n.args[1].op != 'const': return n.args
    return None

def _sym_disjoint(a, b):
    """no bit is set in both, for structural reasons with symbolic distances"""
    for x, y in ((a, b), (b, a)):
        if y.op == 'lin' and _nonneg(x):          # y == z - z mod 2**k, 0 <= x < 2**k
            for n, v in zip(y.args[1::2], y.args[2::2]):
                if v == -1 and n.op == 'low' and n.args[0] is add(y, n) and _below(x, n.args[1]): return True
        if x.op == 'lin' and _nonneg(y) and y.hi is not None and y.hi < 256 and not (_bnd(a) and _bnd(b)):
            k = 1 << y.hi.bit_length()          # a multiple of 2**k, and less than 2**k
            if all(v % k == 0 for v in x.args[2::2]) and x.args[0] % k == 0: return True
        s = _symshl(x)
        if s is not None:
            if _nonneg(y) and _below(y, s[1]): return True
            if s[0].op == 'low' and y.op == 'lin':
                # y == z - (the field of z at k, as wide as x's) << k
                for n, v in zip(y.args[1::2], y.args[2::2]):
                    t = _symshl(n)
                    if v == -1 and t and t[1] is s[1] and t[0].op == 'low' and t[0].args[1] is s[0].args[1] \
                            and t[0].args[0] is shr(add(y, n), s[1]): return True
            if s[0].lo is not None and s[0].lo >= 0 and s[0].hi is not None and s[0].hi <= 1 and y.op == 'lin':
                # y == z - (bit k of z) << k
                for n, v in zip(y.args[1::2], y.args[2::2]):
                    if v == -1 and _symshl(n) and _symshl(n)[1] is s[1]:
                        t = _symshl(n)[0]
                        if t.op == 'low' and t.args[1].op == 'const' and cval(t.args[1]) == 1 and t.args[0].op == 'shr' \
                                and t.args[0].args[1] is s[1] and t.args[0].args[0] is add(y, n): return True
        if x.op == 'shl' and x.args[1].op == 'const' and not (_bnd(a) and _bnd(b)) and _nonneg(y) and y.hi is not None \
                and y.hi < (1 << cval(x.args[1])): return True
    return False

def _symfield(n):
    """(k, s) if n == (2**s - 1) << k with s and k not both constant"""
    if n.op == 'shl':
        s = _maskwidth(n.args[0])
        if s is not None and (s.op != 'const' or n.args[1].op != 'const'): return n.args[1], s
    return None

def band(a, b):
    if a.op == 'const':
        a, b = b, a
    if b.op == 'const':
        v = cval(b)
        if a.op == 'const':
            return const(cval(a) & v)
        if v == 0:
            return b
        if v == -1:
            return a
    if a is b:
        return a
    w = _maskwidth(b)
    if w is not None:
        return low(a, w)
    w = _maskwidth(a)
    if w is not None:
        return low(b, w)
    for u, m in ((a, b), (b, a)):
        if m.op == 'pow2' and (u.op != 'pow2' or m is b):
            return shl(low(shr(u, m.args[0]), const(1)), m.args[0])
        if m.op == 'low' and m.args[1].op != 'const' and _nonneg(u) and _below(u, m.args[1]):
            return band(u, m.args[0])
        r = _maskminus(m)
        if r is not None:          # u & (2**k - 1 - n) with 0 <= n < 2**k
            return sub(low(u, r[0]), band(u, r[1]))
        n = is_not(m)
        if n is not None and (n.op == 'pow2' or _symfield(n)):
            return sub(u, band(u, n))
        if m.op == 'lin' and m.args[0] == 0 and len(m.args) == 3 and m.args[2] == -1 and m.args[1].op == 'pow2':
            return sub(u, low(u, m.args[1].args[0]))          # u & -2**k
        r = _symfield(m)
        if r is not None:          # u & ((2**s - 1) << k)
            return shl(low(shr(u, r[0]), r[1]), r[0])
    if b.op == 'const':
        v = cval(b)
        if v > 0:
            tz = (v & -v).bit_length() - 1
            if tz and _pow2m1(v >> tz) is not None:
                return shl(low(shr(a, const(tz)), const((v >> tz).bit_length())), const(tz))
            if a.lo is not None and a.lo >= 0 and a.hi is not None and (a.hi.bit_length() < v.bit_length()):
                return band(a, const(v & ((1 << a.hi.bit_length()) - 1)))
            if a.op == 'and' and a.args[1].op == 'const':
                return band(a.args[0], const(v & cval(a.args[1])))
            if a.op in ('or', 'xor'):
                f = bor if a.op == 'or' else bxor
                x, y = band(a.args[0], b), band(a.args[1], b)
                return f(x, y)
            if a.op == 'shl' and a.args[1].op == 'const':
                s = cval(a.args[1])
                return shl(band(a.args[0], const(v >> s)), a.args[1])
        if v < 0 and _pow2m1(-v - 1) is not None and not (a.lo is not None and a.lo >= 0 and a.hi is not None):
            return sub(a, low(a, const((-v).bit_length() - 1)))
        if v < 0 and a.lo is not None and a.lo >= 0 and a.hi is not None:
            return band(a, const(v & ((1 << a.hi.bit_length()) - 1)))
    elif a.id > b.id:
        a, b = b, a
    alo, ahi, blo, bhi = a.lo, a.hi, b.lo, b.hi
    lo = hi = None
    if (alo is not None and alo >= 0) or (blo is not None and blo >= 0):
        lo = 0
        hs = []
        if alo is not None and alo >= 0 and ahi is not None: hs.append(ahi)
        if blo is not None and blo >= 0 and bhi is not None: hs.append(bhi)
        hi = min(hs) if hs else None
    elif None not in (alo, ahi, blo, bhi):
        n = max(bitlen(alo if alo >= 0 else ~alo), bitlen(ahi if ahi >= 0 else ~ahi), bitlen(blo if blo >= 0 else ~blo), bitlen(bhi if bhi >= 0 else ~bhi))
        lo, hi = -(1 << n), (1 << n) - 1
    return mk('and', (a, b), lo, hi)

def _span(n):
    """(lowest possibly set bit, highest+1) for a nonnegative bounded node"""
    if n.op == 'shl' and n.args[1].op == 'const':
        l, h = _span(n.args[0])
        s = cval(n.args[1])
        return l + s, h + s
    if n.op == 'const' and cval(n) > 0:
        v = cval(n)
        return (v & -v).bit_length() - 1, v.bit_length()
    if n.op == 'or':
        l1, h1 = _span(n.args[0]); l2, h2 = _span(n.args[1])
        return min(l1, l2), max(h1, h2)
    bm = _bitmul(n)
    if bm is not None:
        return (bm[1] & -bm[1]).bit_length() - 1, bm[1].bit_length()
    return 0, n.hi.bit_length()

def _cmp_or(a, b, op):
    if a.op == 'const':
        a, b = b, a
    if b.op == 'const':
        v = cval(b)
        if a.op == 'const':
            return const(cval(a) | v if op == 'or' else cval(a) ^ v)
        if v == 0:
            return a
        if v == -1:
            return b if op == 'or' else lin_not(a)
    if a is b:
        return a if op == 'or' else const(0)
    return None

def _bnd(a):
    return a.lo is not None and a.hi is not None

def _or_interval(a, b, op):
    if a.lo is not None and b.lo is not None and a.lo >= 0 and b.lo >= 0:
        hi = None
        if a.hi is not None and b.hi is not None:
            hi = (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1
        lo = max(a.lo, b.lo) if op == 'or' else 0
        return lo, hi
    if _bnd(a) and _bnd(b):
        n = max(bitlen(v if v >= 0 else ~v) for v in (a.lo, a.hi, b.lo, b.hi))
        return -(1 << n), (1 << n) - 1
    return None, None

def _parts(n, out):
    if n.op == 'or':
        _parts(n.args[0], out); _parts(n.args[1], out)
    else:
        out.append(n)

def _disjoint(parts):
    """(constant, [(lo, hi, node)] sorted) when the non-constant parts do not overlap, else None"""
    c = 0
    sp = []
    for p in parts:
        if p.op == 'const':
            c |= cval(p)
            continue
        l, h = _span(p)
        sp.append((l, h, p))
    sp.sort(key=lambda t: t[0])
    for i in range(len(sp) - 1):
        if sp[i][1] > sp[i + 1][0]:
            return None
    return c, sp

def bor(a, b):
    r = _cmp_or(a, b, 'or')
    if r is not None:
        return r
    if _bnd(a) and _bnd(b) and a.lo >= 0 and b.lo >= 0:
        parts = []
        _parts(a, parts); _parts(b, parts)
        d = _disjoint(parts)
        if d is not None:
            c, sp = d
            nodes = []
            for l, h, p in sp:
                while nodes:
                    j = _join(nodes[-1], p)
                    if j is None: break
                    nodes.pop()
                    p = j
                nodes.append(p)
            r = None
            for p in nodes:
                r = p if r is None else _mkor(r, p)
            if c:
                r = _mkor(r, const(c))
            return r
    if _sym_disjoint(a, b): return add(a, b)
    if a.id > b.id and b.op != 'const':
        a, b = b, a
    return _mkor(a, b)

def _mkor(a, b):
    lo, hi = _or_interval(a, b, 'or')
    return mk('or', (a, b), lo, hi)

def _extract_view(n):
    """n == low(x >> s, w) << t  -> (x, s, w, t)"""
    t = 0
    if n.op == 'shl' and n.args[1].op == 'const':
        t = cval(n.args[1]); n = n.args[0]
    if n.lo is None or n.hi is None or n.lo < 0:
        return None
    w = n.hi.bit_length()
    if n.op == 'low' and n.args[1].op == 'const':
        w = cval(n.args[1]); n = n.args[0]
    s = 0
    if n.op == 'shr' and n.args[1].op == 'const':
        s = cval(n.args[1]); n = n.args[0]
    return n, s, w, t

def _join(a, b):
    ba = _bitmul1(a)
    if ba is not None:
        bb = _bitmul1(b)
        if bb is not None and ba[0] is bb[0]:
            return _mulbit(ba[0], ba[1] | bb[1])
    va, vb = _extract_view(a), _extract_view(b)
    if va is None or vb is None or va[0] is not vb[0]:
        return None
    if va[3] > vb[3]:
        va, vb = vb, va
    x, s1, w1, t1 = va
    _, s2, w2, t2 = vb
    if s2 - s1 == t2 - t1 and s2 == s1 + w1:
        return shl(low(shr(x, const(s1)), const(w1 + w2)), const(t1))
    return None

def bxor(a, b):
    r = _cmp_or(a, b, 'xor')
    if r is not None:
        return r
    if _sym_disjoint(a, b): return add(a, b)
    if a.id > b.id and b.op != 'const':
        a, b = b, a
    lo, hi = _or_interval(a, b, 'xor')
    return mk('xor', (a, b), lo, hi)

def floordiv(a, b):
    """floor(a/b); caller guarantees b != 0"""
    if a.op == 'const' and b.op == 'const':
        return const(cval(a) // cval(b))
    if b.op == 'const':
        v = cval(b)
        if v == 1:
            return a
        if v > 0 and v & (v - 1) == 0:
            return shr(a, const(v.bit_length() - 1))
    if b.op == 'pow2':
        return shr(a, b.args[0])
    lo = hi = None
    if _bnd(a):
        m = max(abs(a.lo), abs(a.hi)) + 1
        lo, hi = -m, m
        if a.lo >= 0 and b.lo is not None and b.lo >= 0:
            lo, hi = 0, a.hi // max(b.lo, 1)
    elif a.lo is not None and a.lo >= 0 and b.lo is not None and b.lo >= 0:
        lo = 0
    return mk('div', (a, b), lo, hi)

def floormod(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(cval(a) % cval(b))
    if b.op == 'const':
        v = cval(b)
        if v > 0 and v & (v - 1) == 0:
            return low(a, const(v.bit_length() - 1))
        if v > 0 and a.lo is not None and a.lo >= 0 and a.hi is not None and a.hi < v:
            return a
    if b.op == 'pow2':
        return low(a, b.args[0])
    lo = hi = None
    if b.lo is not None and b.lo >= 0:
        lo = 0
        hi = None if b.hi is None else max(b.hi - 1, 0)
    elif _bnd(b):
        lo, hi = min(b.lo + 1, 0), max(b.hi - 1, 0)
    return mk('mod', (a, b), lo, hi)

def popcount(x):
    """number of one bits of x >= 0"""
    if x.op == 'const':
        return const(bin(cval(x)).count('1'))
    hi = x.hi.bit_length() if x.hi is not None else None
    if hi == 1:
        return x
    return mk('pop', (x,), 0, hi)

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == 'bool':
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return lnot(c)
        if a is TRUE: return lor(c, b)
        if a is FALSE: return land(lnot(c), b)
        if b is TRUE: return lor(lnot(c), a)
        if b is FALSE: return land(c, a)
        return mk('ite', (c, a, b), None, None, 'bool')
    if a.sort == 'arr':
        return mk('ite', (c, a, b), a.lo, a.hi, 'arr')
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if a.op == 'const' and b.op == 'const':
        # 1-bit test gives the bit itself
        if cval(a) == 1 and cval(b) == 0 and c.op == 'eq' and c.args[1].op == 'const' \
                and cval(c.args[1]) == 1 and c.args[0].lo == 0 and c.args[0].hi == 1:
            return c.args[0]
        if cval(a) == 0 and cval(b) == 1 and c.op == 'eq' and c.args[1].op == 'const' \
                and cval(c.args[1]) == 0 and c.args[0].lo == 0 and c.args[0].hi == 1:
            return c.args[0]
    lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
    hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
    if c.op == 'lt' and set((a.id, b.id)) == set((c.args[0].id, c.args[1].id)):
        if a is c.args[1]: lo = max([x.lo for x in (a, b) if x.lo is not None], default=None)      # the larger one
        else: hi = min([x.hi for x in (a, b) if x.hi is not None], default=None)                   # the smaller one
    return mk('ite', (c, a, b), lo, hi)

# ---------------------------------------------------------------- booleans
def lnot(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'lt':      # not a<b  ==  b <= a  ==  b < a+1
        return lt(a.args[1], add(a.args[0], const(1)))
    return mk('not', (a,), None, None, 'bool')

def land(*xs):
    out = []
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        if x.op == 'and_':
            for y in x.args:
                if y not in out: out.append(y)
        elif x not in out: out.append(x)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    s = set(o.id for o in out)
    for o in out:
        if o.op == 'not' and o.args[0].id in s: return FALSE
    out.sort(key=lambda n: n.id)
    return mk('and_', tuple(out), None, None, 'bool')

def lor(*xs):
    return lnot_raw(land(*[lnot(x) for x in xs]))

def lnot_raw(a):
    return lnot(a)

def implies(a, b):
    return lor(lnot(a), b)

def lxor(a, b):
    return lnot(iff(a, b))

def iff(a, b):
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return lnot(b)
    if b is FALSE: return lnot(a)
    if a.id > b.id: a, b = b, a
    if a.op == 'not' and a.args[0] is b or b.op == 'not' and b.args[0] is a: return FALSE
    return mk('iff', (a, b), None, None, 'bool')

def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'const' and b.op == 'const':
        return boolc(cval(a) == cval(b))
    if a.sort == 'bool':
        return iff(a, b)
    if (a.hi is not None and b.lo is not None and a.hi < b.lo) or \
       (b.hi is not None and a.lo is not None and b.hi < a.lo):
        return FALSE
    if a.op == 'const':
        a, b = b, a
    if b.op == 'const':
        v = cval(b)
        if a.op == 'ite':
            x, y = a.args[1], a.args[2]
            if x.op == 'const' or y.op == 'const':
                return ite(a.args[0], eq(x, b), eq(y, b))
        if a.op == 'shl' and a.args[1].op == 'const':
            s = cval(a.args[1])
            if v & ((1 << s) - 1):
                return FALSE
            return eq(a.args[0], const(v >> s))
        if a.op == 'or' and _bnd(a) and a.lo >= 0 and v >= 0:
            parts = []
            _parts(a, parts)
            d = _disjoint(parts)
            if d is not None:
                c, sp = d
                seen = 0
                ok = True
                for l, h, p in sp:
                    m = ((1 << (h - l)) - 1) << l
                    if c & m: ok = False
                    seen |= m
                if ok:
                    if v & ~seen != c: return FALSE
                    return land(*[eq(p, const(v & (((1 << (h - l)) - 1) << l))) for l, h, p in sp])
        if a.op == 'low' and a.args[1].op == 'const' and a.args[0].op == 'lin':
            t = a.args[0]
            if len(t.args) == 3 and t.args[2] == 1 and t.args[1].lo is not None and t.args[1].hi is not None \
                    and 0 <= t.args[1].lo and t.args[1].hi < (1 << cval(a.args[1])):
                return eq(t.args[1], const((v - t.args[0]) & ((1 << cval(a.args[1])) - 1)))
        if a.lo == 0 and a.hi == 1 and v == 0:
            return lnot(eq(a, const(1)))
    if a.op == 'low' and b.op == 'low' and a.args[1] is b.args[1] and a.args[1].op == 'const':
        d = sub(a.args[0], b.args[0])
        if d.op == 'const':
            return boolc(cval(d) % (1 << cval(a.args[1])) == 0)
    if a.op == 'lin' or b.op == 'lin':
        d = sub(a, b)
        if d.op == 'const':
            return boolc(cval(d) == 0)
        if d.lo is not None and d.lo > 0 or d.hi is not None and d.hi < 0:
            return FALSE
        if d.op == 'lin' and len(d.args) == 3:
            c, n, k = d.args
            if c % k:
                return FALSE
            return eq(n, const(-c // k)) if (a.op, b.op) != (n.op, 'const') or a is not n else _mkeq(a, b)
        c, dd = lin_parts(d)
        # canonical: move everything to one side
        if list(dd.values())[0] < 0:
            d = neg(d)
        return _mkeq(d, const(0))
    return _mkeq(a, b)

def _mkeq(a, b):
    if b.op != 'const' and a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), None, None, 'bool')

def _below(n, w):
    """n < 2**w for structural reasons (w symbolic, w >= 0)"""
    if w.op == 'ite' and n.op == 'low' and _ismax(w) and n.args[1] in w.args[1:]: return True
    if n.op == 'var': return (n.id, w.id) in BELOW
    if n.op == 'low': return n.args[1] is w or n.lo is not None and _below(n.args[0], w) and _nonneg(n.args[0])
    if n.op == 'and': return any(_nonneg(x) and _below(x, w) for x in n.args)
    if n.op in ('or', 'xor'): return all(_nonneg(x) and _below(x, w) for x in n.args)
    if n.op in ('shr', 'div'): return _nonneg(n.args[0]) and _below(n.args[0], w) and (n.op == 'shr' or n.args[1].lo is not None and n.args[1].lo >= 1)
    if n.op == 'ite': return _below(n.args[1], w) and _below(n.args[2], w)
    return False

def _ismax(w):
    c = w.args[0]
    if c.op != 'lt' or c.args[1].op != 'const' or cval(c.args[1]): return False
    return c.args[0] is sub(w.args[2], w.args[1])     # ite(a - b < 0, b, a)

def _nonneg(n): return n.lo is not None and n.lo >= 0

def lt(a, b):
    if a is b: return FALSE
    if a.hi is not None and b.lo is not None and a.hi < b.lo: return TRUE
    if a.lo is not None and b.hi is not None and a.lo >= b.hi: return FALSE
    if b.op == 'pow2' and _below(a, b.args[0]): return TRUE
    d = sub(a, b)        # d < 0
    if d.hi is not None and d.hi < 0: return TRUE
    if d.lo is not None and d.lo >= 0: return FALSE
    if b.op == 'const' and a.op not in ('lin', 'const'):
        if a.lo is not None and cval(b) == a.lo + 1:
            return eq(a, const(a.lo))
        if a.hi is not None and cval(b) == a.hi:
            return lnot(eq(a, b))
        return mk('lt', (a, b), None, None, 'bool')
    if a.op == 'const' and b.op not in ('lin', 'const'):
        if b.hi is not None and cval(a) == b.hi - 1:
            return eq(b, const(b.hi))
        if b.lo is not None and cval(a) == b.lo:
            return lnot(eq(b, a))
        return mk('lt', (a, b), None, None, 'bool')
    if d.op == 'lin' and len(d.args) == 3:
        c, n, k = d.args
        if k > 0:    # n < -c/k  -> n < ceil(-c/k)
            return lt(n, const(-(c // k)))
        return lt(const((c) // (-k)), n)     # c + k n < 0, k<0: n > c/(-k)
    return mk('lt', (d, const(0)), None, None, 'bool')

def le(a, b):
    return lt(a, add(b, const(1)))

def b2i(c):
    return ite(c, const(1), const(0))

# ---------------------------------------------------------------- arrays
def arrvar(name, lo, hi):
    return mk('arrvar', (name, lo, hi), lo, hi, 'arr')

def store(a, i, v):
    if a.op == 'store' and a.args[1] is i:
        a = a.args[0]
    return mk('store', (a, i, v), a.lo, a.hi, 'arr')

_selcache = {}
def sel(a, i):
    # iterative walk down the store chain
    conds = []
    while True:
        if a.op == 'store':
            e = eq(a.args[1], i)
            if e is TRUE:
                r = a.args[2]
                break
            if e is not FALSE:
                conds.append((e, a.args[2]))
            a = a.args[0]
            continue
        if a.op == 'ite':
            k = (a.id, i.id)
            r = _selcache.get(k)
            if r is None or r[0] is not a or r[1] is not i:
                v = ite(a.args[0], sel(a.args[1], i), sel(a.args[2], i))
                _selcache[k] = (a, i, v)
            else:
                v = r[2]
            r = v
            break
        if a.op == 'arrconst':
            r = a.args[0]
            break
        r = mk('sel', (a, i), a.lo, a.hi)
        break
    for e, v in reversed(conds):
        r = ite(e, v, r)
    return r

def arrconst(v):
    return mk('arrconst', (v,), v.lo, v.hi, 'arr')

def ufn(name, args, lo, hi, sort='int'):
    """uninterpreted function (evaluated by a registered Python function)"""
    return mk('fn', (name,) + tuple(args), lo, hi, sort)

FN_EVAL = {}

# ---------------------------------------------------------------- evaluation
def evaluate(node, env, memo=None):
    """env: {name: int}, arrays: {name: (dict, default)}"""
    if memo is None:
        memo = {}
    stack = [node]
    while stack:
        n = stack[-1]
        if n.id in memo:
            stack.pop(); continue
        op = n.op
        if op == 'const': memo[n.id] = n.args[0]; stack.pop(); continue
        if op == 'var':
            v = env.get(n.args[0])
            if v is None: v = n.lo if n.lo is not None else 0 if n.hi is None else min(0, n.hi)
            memo[n.id] = v; stack.pop(); continue
        if op == 'bvar': memo[n.id] = bool(env.get(n.args[0], False)); stack.pop(); continue
        if op == 'true': memo[n.id] = True; stack.pop(); continue
        if op == 'false': memo[n.id] = False; stack.pop(); continue
        if op == 'arrvar':
            memo[n.id] = ConcArr(env.get(n.args[0], {}), {}); stack.pop(); continue
        todo = [a for a in n.args if type(a) is Node and a.id not in memo]
        if todo:
            stack.extend(todo); continue
        g = [memo[a.id] if type(a) is Node else a for a in n.args]
        if op in ('low', 'shl') and g[1] > 20000 or op == 'pow2' and g[0] > 20000: raise Unsupported('evaluating a huge power of two')
        if op == 'lin':
            v = g[0]
            for i in range(1, len(g), 2): v += g[i] * g[i + 1]
        elif op == 'mul': v = g[0] * g[1]
        elif op == 'low': v = g[0] & ((1 << max(g[1], 0)) - 1)
        elif op == 'pow2': v = 1 << max(g[0], 0)
        elif op == 'shl': v = g[0] << max(g[1], 0)
        elif op == 'shr': v = g[0] >> max(g[1], 0)
        elif op == 'and': v = g[0] & g[1]
        elif op == 'or': v = g[0] | g[1]
        elif op == 'xor': v = g[0] ^ g[1]
        elif op == 'div': v = g[0] // g[1] if g[1] else 0
        elif op == 'mod': v = g[0] % g[1] if g[1] else 0
        elif op == 'pop': v = bin(g[0]).count('1')
        elif op == 'ite': v = g[1] if g[0] else g[2]
        elif op == 'not': v = not g[0]
        elif op == 'and_': v = all(g)
        elif op == 'iff': v = g[0] == g[1]
        elif op == 'eq': v = g[0] == g[1]
        elif op == 'lt': v = g[0] < g[1]
        elif op == 'sel': v = g[0].get(g[1])
        elif op == 'store': v = g[0].set(g[1], g[2])
        elif op == 'arrconst': v = ConcArr({}, {}, g[0])
        elif op == 'fn': v = FN_EVAL[g[0]](*g[1:])
        else: raise Unsupported('eval ' + op)
        memo[n.id] = v
        stack.pop()
    return memo[node.id]

class ConcArr(object):
    def __init__(self, base, over, default=0):
        self.base = base; self.over = over; self.default = default
    def get(self, i):
        if i in self.over: return self.over[i]
        return self.base.get(i, self.default)
    def set(self, i, v):
        o = dict(self.over); o[i] = v
        return ConcArr(self.base, o, self.default)

# ---------------------------------------------------------------- z3 (bit-vectors)
def width_of(lo, hi):
    """(bits, signed) needed for the interval"""
    if lo >= 0:
        return max(hi.bit_length(), 1), False
    return max((~lo).bit_length(), hi.bit_length() if hi >= 0 else 0) + 1, True

MAXW = 4096

def zi(n):
    """(z3 bv, signed) at the node's natural width"""
    if n._z is None:
        _translate(n)
    return n._z

def _ext(n, W):
    """z3 bv of n at exactly W bits (sign/zero extended or truncated)"""
    b, s = zi(n)
    w = b.size()
    if w == W: return b
    if w > W: return z3.Extract(W - 1, 0, b)
    return z3.SignExt(W - w, b) if s else z3.ZeroExt(W - w, b)

def _translate(root):
    stack = [root]
    while stack:
        n = stack[-1]
        if n._z is not None:
            stack.pop(); continue
        todo = [a for a in n.args if type(a) is Node and a._z is None and a.sort != 'arr']
        if todo:
            stack.extend(todo); continue
        n._z = _tr(n)
        stack.pop()

def _tr(n):
    op = n.op
    if n.sort == 'bool':
        a = n.args
        if op == 'true': return z3.BoolVal(True)
        if op == 'false': return z3.BoolVal(False)
        if op == 'bvar': return z3.Bool(a[0])
        if op == 'not': return z3.Not(a[0]._z)
        if op == 'and_': return z3.And(*[x._z for x in a])
        if op == 'iff': return a[0]._z == a[1]._z
        if op == 'ite': return z3.If(a[0]._z, a[1]._z, a[2]._z)
        if op in ('eq', 'lt'):
            x, y = a
            (bx, sx), (by, sy) = x._z, y._z
            W = max(bx.size() + (0 if sx else 1), by.size() + (0 if sy else 1)) if (sx or sy) else max(bx.size(), by.size())
            ex, ey = _ext(x, W), _ext(y, W)
            if op == 'eq': return ex == ey
            return (ex < ey) if (sx or sy) else z3.ULT(ex, ey)
        if op == 'fn': return z3.Bool('fn!%d' % n.id)
        raise Unsupported('z3 bool ' + op)
    if n.lo is None or n.hi is None:
        raise Unsupported('unbounded integer in bit-vector query: %s' % op)
    W, S = width_of(n.lo, n.hi)
    if W > MAXW:
        raise Unsupported('integer too wide for bit-vectors (%d bits)' % W)
    a = n.args
    if op == 'const': return z3.BitVecVal(a[0], W), S
    if op == 'var': return z3.BitVec('%s' % a[0], W), S
    if op == 'lin':
        r = None
        if _bitmul(n) is not None:
            return z3.If(a[1]._z[0] == 1, z3.BitVecVal(a[2], W), z3.BitVecVal(0, W)), S
        if is_not(n) is not None:
            return ~_ext(a[1], W), S
        for i in range(1, len(a), 2):
            x, k = _ext(a[i], W), a[i + 1]
            if k == 1: r = x if r is None else r + x
            elif k == -1: r = -x if r is None else r - x
            else:
                ak = abs(k)
                t = _shc(x, ak.bit_length() - 1, W) if ak & (ak - 1) == 0 else x * z3.BitVecVal(ak, W)
                if k < 0: r = -t if r is None else r - t
                else: r = t if r is None else r + t
        if a[0] != 0:
            r = r + z3.BitVecVal(a[0], W)
        return r, S
    if op == 'mul': return _ext(a[0], W) * _ext(a[1], W), S
    if op == 'low':
        if a[1].op == 'const':
            x = a[0]
            k = cval(a[1])
            if x.op in ('lin', 'mul') :
                return _tr_mod(x, k), False
            return _ext(x, k), False
        x, w = a
        W2 = max(W, zi(x)[0].size(), w.hi + 1)
        m = (z3.BitVecVal(1, W2) << _extn(w, W2)) - 1
        return z3.Extract(W - 1, 0, _ext(x, W2) & m), S
    if op == 'pow2':
        return z3.BitVecVal(1, W) << _extn(a[0], W), S
    if op == 'shl':
        if a[1].op == 'const': return _shc(_ext(a[0], W), cval(a[1]), W), S
        return _ext(a[0], W) << _extn(a[1], W), S
    if op == 'shr':
        (b, s) = a[0]._z
        if a[1].op == 'const':
            k = cval(a[1])
            W2 = max(b.size(), k + 1)
            e = _ext(a[0], W2)
            e = z3.Extract(W2 - 1, k, e)
            return _fit(e, s, W), S
        W2 = max(b.size(), zi(a[1])[0].size() + 1)
        e = _ext(a[0], W2)
        nn = _ext(a[1], W2)
        e = (e >> nn) if s else z3.LShR(e, nn)
        return _fit(e, s, W), S
    if op in ('and', 'or', 'xor'):
        W2 = W
        x, y = _ext(a[0], W2), _ext(a[1], W2)
        return (x & y if op == 'and' else x | y if op == 'or' else x ^ y), S
    if op in ('div', 'mod'):
        W2 = max(a[0]._z[0].size(), a[1]._z[0].size(), W) + 2
        x, y = _ext(a[0], W2), _ext(a[1], W2)
        if a[0].lo >= 0 and a[1].lo >= 0:
            r = z3.UDiv(x, y) if op == 'div' else z3.URem(x, y)
        else:
            m = z3.SRem(x, y)
            adj = z3.And(m != 0, (m < 0) != (y < 0))
            if op == 'div':
                r = x / y - z3.If(adj, z3.BitVecVal(1, W2), z3.BitVecVal(0, W2))
            else:
                r = z3.If(adj, m + y, m)
        return _fit(r, True, W), S
    if op == 'pop':
        b, _ = a[0]._z
        r = z3.BitVecVal(0, W)
        for i in range(b.size()):
            bit = z3.Extract(i, i, b)
            r = r + (z3.ZeroExt(W - 1, bit) if W > 1 else bit)
        return r, S
    if op == 'ite':
        return z3.If(a[0]._z, _ext(a[1], W), _ext(a[2], W)), S
    if op in ('sel', 'fn'):
        return z3.BitVec('%s!%d' % (op, n.id), W), S
    raise Unsupported('z3 ' + op)

def _shc(x, k, W):
    """x << k at W bits for a constant k (which need not fit in W bits)"""
    return z3.BitVecVal(0, W) if k >= W else x << z3.BitVecVal(k, W)

def _tr_mod(x, k):
    """x mod 2**k computed at k bits"""
    if x.op == 'lin':
        if is_not(x) is not None:
            return ~_ext(x.args[1], k)
        r = None
        a = x.args
        for i in range(1, len(a), 2):
            t, c = _ext(a[i], k), a[i + 1]
            if c == 1: r = t if r is None else r + t
            elif c == -1: r = -t if r is None else r - t
            else:
                t = t * z3.BitVecVal(c, k)
                r = t if r is None else r + t
        if a[0]:
            r = r + z3.BitVecVal(a[0], k)
        return r
    return _ext(x.args[0], k) * _ext(x.args[1], k)

def _extn(n, W):
    """shift distance at W bits; saturates when it does not fit"""
    b, s = zi(n)
    w = b.size()
    if s:
        # negative distances are excluded by the caller's path condition
        b = b
    if w <= W:
        return z3.ZeroExt(W - w, b) if w < W else b
    big = z3.UGE(b, z3.BitVecVal(W, w)) if w > W.bit_length() else z3.BoolVal(False)
    return z3.If(big, z3.BitVecVal(W, W) if W.bit_length() <= W else z3.BitVecVal(-1, W), z3.Extract(W - 1, 0, b))

def _fit(e, s, W):
    w = e.size()
    if w == W: return e
    if w > W: return z3.Extract(W - 1, 0, e)
    return z3.SignExt(W - w, e) if s else z3.ZeroExt(W - w, e)

def collect(nodes, ops):
    """all sub-terms with op in ops, reachable from nodes (also through selects)"""
    seen = set(); out = []
    stack = list(nodes)
    while stack:
        n = stack.pop()
        if n.id in seen: continue
        seen.add(n.id)
        if n.op in ops: out.append(n)
        for a in n.args:
            if type(a) is Node: stack.append(a)
    return out

def show(n, depth=6):
    if depth == 0: return '...'
    if n.op == 'const': return str(n.args[0])
    if n.op in ('var', 'bvar', 'arrvar'): return str(n.args[0])
    return '(%s %s)' % (n.op, ' '.join(show(a, depth - 1) if type(a) is Node else repr(a) for a in n.args))

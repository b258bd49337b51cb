"""C01..C08: the bit string class.

Every claim exists in two forms: over *all* widths (symbolic width, integer
arithmetic back end) where the code is loop free or its loops carry an invariant
(dv/invariants.py), and over enumerated widths with symbolic values."""
from dv.harness import add_task, declare, Unfit

SMALL = (0, 1, 2, 3, 4, 5, 6, 7, 8)
WIDTHS = SMALL + (9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65)
MORE = tuple(w for w in range(10, 70) if w not in WIDTHS) + (95, 96, 127, 128, 129)
LOOPW = SMALL + (9, 12, 15, 16, 17, 24, 31, 32, 33)
LOOPMORE = tuple(w for w in range(10, 66) if w not in LOOPW)
BOUND = 'widths %s, all values'

def BS(h): return h.p.bitstring.bitstring
def is_bits(h, x): return isinstance(x, BS(h))

def one(h): return 1
def pow2(h, w): return 1 << w if type(w) is int else h.S.I(h.T.pow2(h.S.N(w)))
def low(h, v, w): return v & (pow2(h, w) - 1)

def val(h, name, w):
    """an arbitrary value of width w: (raw integer, its low w bits)"""
    if type(w) is int:
        v = h.int(name, 0, (1 << w) - 1)
        return v, v
    X = h.big(name, w)
    return X, low(h, X, w)

def mk(h, name, w):
    X, v = val(h, name, w)
    return BS(h)(X, w), v

def inv(h, tag, x, w=None, v=None, rng=True):
    """representation invariant and, if given, exact width and value"""
    if not h.check(tag + ' is a bit string', is_bits(h, x)): return
    if w is None or getattr(h, 'ranges', False): w = x.width
    else: h.check(tag + ' width', x.width == w)
    u = x.unsigned
    if v is not None: h.check(tag + ' value', u == v)
    if rng: h.check(tag + ' in range', h.and_(0 <= u, u < pow2(h, w)))
    h.check(tag + ' mask', x.mask == pow2(h, w) - 1)

def snap(x): return (x.width, x.unsigned, x.mask)
def kept(h, tag, x, s):
    h.check(tag + ' kept', h.and_(x.width == s[0], x.unsigned == s[1], x.mask == s[2]))

class Ranges(object):
    """of a task's claims only those about range, mask and unchanged operands (C01)"""
    ranges = True
    def __init__(self, h): self.__dict__['h'] = h
    def __getattr__(self, n): return getattr(self.__dict__['h'], n)
    def __setattr__(self, n, v): setattr(self.__dict__['h'], n, v)
    def check(self, name, c, detail=''):
        if name.endswith((' in range', ' mask', ' kept')): return self.h.check(name, c, detail)
        return c if type(c) is bool else True

def ranges_task(h, fn, *args): fn(Ranges(h), *args)

def sint(h, v, w):
    """two's complement reading, w >= 1"""
    p = pow2(h, w)
    return h.ite(v < (pow2(h, w - 1)), v, v - p)

# right operands: (what is passed, the integer it stands for)
def text_of(h, w, lens, lo=0):
    """binary text: (number of digits, number, text); any number of digits beside a bit string of any width"""
    if type(w) is not int and h.symbolic: n = h.width('n', None, lo); v = h.sized('t', n)
    else: n = h.width('n', lens); v = h.int('t', 0, (1 << n) - 1)
    return n, v, h.bin(v, n)

def right(h, kind, w):
    if kind == 'int': return (h.big('i', w),) * 2
    if kind == 'nat': return (h.big('i', w, False),) * 2
    if kind.startswith('bits'):
        w2 = right_width(h, kind, w)
        y, v = mk(h, 'y', w2)
        return y, v
    if kind == 'text':
        n, v, t = text_of(h, w, (0, 1, 2, 5, 8, 13))
        return t, v
    raise AssertionError(kind)

def right_width(h, kind, w):
    if type(w) is not int: return w if kind == 'bits=' else h.width('w2')
    if kind == 'bits=': return w
    opts = sorted(set(x for x in (0, 1, w - 1, w, w + 1, 2 * w, 8, 32) if x >= 0))
    if not h.symbolic: return h.width('w2')
    return h.width('w2', opts)

ARITH = {
    '+': (lambda x, y: x + y, lambda h, a, b: a + b),
    '-': (lambda x, y: x - y, lambda h, a, b: a - b),
    '*': (lambda x, y: x * y, lambda h, a, b: a * b),
    '//': (lambda x, y: x // y, lambda h, a, b: a // b),
    '&': (lambda x, y: x & y, lambda h, a, b: a & b),
    '|': (lambda x, y: x | y, lambda h, a, b: a | b),
    '^': (lambda x, y: x ^ y, lambda h, a, b: a ^ b),
}
def ip_add(x, y): x += y; return x
def ip_sub(x, y): x -= y; return x
def ip_mul(x, y): x *= y; return x
def ip_div(x, y): x //= y; return x
def ip_and(x, y): x &= y; return x
def ip_or(x, y): x |= y; return x
def ip_xor(x, y): x ^= y; return x
def ip_shl(x, y): x <<= y; return x
def ip_shr(x, y): x >>= y; return x
def ip_cat(x, y): x %= y; return x
INPLACE = {'+': ip_add, '-': ip_sub, '*': ip_mul, '//': ip_div, '&': ip_and, '|': ip_or, '^': ip_xor, '<<': ip_shl, '>>': ip_shr, '%': ip_cat}

def result(h, tag, op, r, w, v, b, ykind, wy):
    """the value of x op y: exact at the left width for arithmetic and &; for | and ^ the
    low left-width bits, with the left width unless the right operand is wider"""
    want = low(h, ARITH[op][1](h, v, b), w)
    if op in '|^' and ykind.startswith('bits'):
        if not h.check(tag + ' is a bit string', is_bits(h, r)): return
        h.check(tag + ' low bits', low(h, r.unsigned, w) == want)
        h.check(tag + ' width', h.and_(r.width >= w, h.implies(wy <= w, r.width == w)))
        inv(h, tag, r)
    else:
        inv(h, tag, r, w, want)

def arith_task(h, widths, op, kind):
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    y, b = right(h, kind, w)
    f, g = ARITH[op]
    wy = y.width if kind.startswith('bits') else w
    sx = snap(x); sy = snap(y) if kind.startswith('bits') else None
    if op == '//':
        h.assume(b != 0)
    r = f(x, y)
    result(h, 'x %s y' % op, op, r, w, v, b, kind, wy)
    kept(h, 'x', x, sx)
    if sy: kept(h, 'y', y, sy)
    # in place: the same value in the same object, the right operand unchanged
    z = BS(h)(x)
    q = INPLACE[op](z, y)
    h.check('in place returns the object', q is z)
    result(h, 'x %s= y' % op, op, q, w, v, b, kind, wy)
    kept(h, 'x after in place use of its copy', x, sx)
    if sy: kept(h, 'y', y, sy)

def arith_self_task(h, widths, op):
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    if op == '//': h.assume(v != 0)
    r = ARITH[op][0](x, x)
    want = low(h, ARITH[op][1](h, v, v), w)
    inv(h, 'x %s x' % op, r, w, want)
    q = INPLACE[op](x, x)
    h.check('same object', q is x)
    inv(h, 'x %s= x' % op, x, w, want)

def zero_div_task(h, widths):
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    s = snap(x)
    for y in (0, BS(h)(0, 5), '00', BS(h)(0, w)):
        e, r = h.raises(lambda: x // y)
        h.check('x // 0 raises', e == 'ZeroDivisionError', str(e))
        e, r = h.raises(lambda: ip_div(x, y))
        h.check('x //= 0 raises', e == 'ZeroDivisionError', str(e))
        kept(h, 'x', x, s)
    z = BS(h)(0, w)
    e, r = h.raises(lambda: 7 // z)
    h.check('7 // zero raises', e == 'ZeroDivisionError', str(e))

def default_width(h, i):
    return 64 if h.split(i >= (1 << 32)) else 32

def reflected_task(h, widths, op, kind):
    """integer or text on the left"""
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    s = snap(x)
    if kind == 'int':
        i = h.int('i', 0 if op in '&|^' else -(1 << 31), (1 << 64) - 1)
        wl = default_width(h, i)
        left = i
        a = low(h, i, wl)
    else:
        wl, a, left = text_of(h, w, (1, 2, 5, 8, 13, 33), 1)
    if op == '//': h.assume(v != 0)
    f, g = ARITH[op]
    r = f(left, x)
    result(h, 'left %s x' % op, op, r, wl, a, v, 'bits', w)
    kept(h, 'x', x, s)

def shift_task(h, widths, op):
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    s = snap(x)
    if type(w) is int: n = h.int('n', 0, w + 3)
    else: n = h.width('n')
    if op == '<<':
        r = x << n; want = low(h, v << n, w)
    else:
        r = x >> n; want = v >> n
    inv(h, 'x %s n' % op, r, w, want)
    kept(h, 'x', x, s)
    z = BS(h)(x)
    q = INPLACE[op](z, n)
    h.check('same object', q is z)
    inv(h, 'x %s= n' % op, z, w, want)
    kept(h, 'x', x, s)

def logic_bits_task(h, widths, op, kind):
    """bit by bit, at enumerated widths"""
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    y, b = right(h, kind, w)
    r = ARITH[op][0](x, y)
    u = r.unsigned
    for k in range(w):
        p, q = (v >> k) & 1, (b >> k) & 1
        if op == '&': want = h.ite(h.and_(p == 1, q == 1), 1, 0)
        elif op == '|': want = h.ite(h.or_(p == 1, q == 1), 1, 0)
        else: want = h.ite(p != q, 1, 0)
        h.check('bit %d' % k, ((u >> k) & 1) == want)

def invert_task(h, widths):
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    s = snap(x)
    want = pow2(h, w) - 1 - v
    inv(h, '~x', ~x, w, want)
    kept(h, 'x', x, s)
    inv(h, 'x.inverted', x.inverted, w, want)
    kept(h, 'x', x, s)
    h.check('~~x', (~~x).unsigned == v)
    q = x.invert()
    inv(h, 'x.invert()', x, w, want)
    x.invert()
    inv(h, 'x.invert() twice', x, w, v)

def concat_task(h, widths, kind):
    w = h.width('w', widths)
    seq = None
    x, v = mk(h, 'x', w)
    sx = snap(x)
    if kind == 'bits':
        w2 = right_width(h, 'bits', w)
        y, b = mk(h, 'y', w2)
    elif kind == 'self':
        y, b, w2 = x, v, w
    elif kind == 'text':
        w2, b, y = text_of(h, w, (0, 1, 2, 5, 8, 13))
    elif kind == 'seq' and h.symbolic and type(w) is not int:
        y, w2 = h.items('d', 0, 1)
        seq = h.recdef('value', 0, lambda i, r: 2 * r + h.at(y, i))
        b = seq(w2)
        fold_loop(h, seq, lambda i: i)
    elif kind == 'seq':
        w2 = h.width('n', (0, 1, 2, 5, 8))
        ds = [h.int('d%d' % k, 0, 1) for k in range(w2)]
        b = 0
        for d in ds: b = b * 2 + d
        y = h.choice('t', (list, tuple))(ds)
    else:
        y = b = h.choice('i', (0, 1)); w2 = 1
    sy = snap(y) if is_bits(h, y) else None
    want = (v << w2) + b
    r = x % y
    inv(h, 'x % y', r, w + w2, want)
    kept(h, 'x', x, sx)
    if sy: kept(h, 'y', y, sy)
    z = BS(h)(x)
    if seq: fold_loop(h, seq, lambda i: i)
    q = INPLACE['%'](z, y)
    h.check('same object', q is z)
    inv(h, 'x %= y', z, w + w2, want)
    kept(h, 'x', x, sx)
    if sy: kept(h, 'y', y, sy)
    if kind == 'self':
        q = INPLACE['%'](x, x)
        inv(h, 'x %= x', x, w + w, want)
    if kind == 'text' and h.split(w2 != 0):
        r = h.call(lambda: BS(h).__rmod__(x, y))
        inv(h, 'text % x', r, w2 + w, (b << w) + v)

def concat_bad_task(h, widths):
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    s = snap(x)
    i = h.int('i', -4, 9)
    h.assume(h.and_(i != 0, i != 1))
    e, r = h.raises(lambda: x % i)
    h.check('only 0 and 1 may be appended', e is not None, 'no exception')
    kept(h, 'x', x, s)

def index_task(h, widths):
    w = h.width('w', widths, 1)
    if type(w) is int and w == 0: return
    x, v = mk(h, 'x', w)
    s = snap(x)
    i = h.int('i', -w, w - 1) if type(w) is int else h.big('i', w)
    if type(w) is not int: h.assume(h.and_(i >= -w, i < w))
    k = h.ite(i < 0, i + w, i)
    want = low(h, v >> k, 1)
    inv(h, 'x[i]', x[i], 1, want)
    inv(h, 'x.get_bit(i)', x.get_bit(i), 1, want)
    kept(h, 'x', x, s)
    j = h.int('j', 0, w - 1) if type(w) is int else h.width('j')
    h.check('x.get_bit_value(j)', x.get_bit_value(j) == ((v >> j) & 1))
    kept(h, 'x', x, s)

def setitem_task(h, widths, kind):
    w = h.width('w', widths, 1)
    if type(w) is int and w == 0: return
    x, v = mk(h, 'x', w)
    i = h.int('i', -w, w - 1) if type(w) is int else h.big('i', w)
    if type(w) is not int: h.assume(h.and_(i >= -w, i < w))
    k = h.ite(i < 0, i + w, i)
    if kind == 'bits':
        y, b = mk(h, 'y', 1)
        sy = snap(y)
    else:
        y = b = h.choice('b', (0, 1)); sy = None
    old = (v >> k) & 1
    if h.symbolic and type(w) is not int:
        k = i + w if h.split(i < 0) else i
        old = (v >> k) & 1
        field_lemmas(h, w, v, k, k + 1, 1, old, b)
        x[i] = y
        inv(h, 'x after x[i] = v', x, w, v - (old << k) + (b << k))
    else:
        x[i] = y
        inv(h, 'x after x[i] = v', x, w, v + (b - old) * (1 << k), type(w) is int)
    if sy: kept(h, 'y', y, sy)

def setitem_range_task(h, widths):
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    s = snap(x)
    i = h.big('i', 8)
    h.assume(h.or_(i < -w, i >= w))
    def go(): x[i] = 1
    e, r = h.raises(go)
    h.check('an index outside the width raises IndexError', e == 'IndexError', str(e))
    kept(h, 'x', x, s)

def bounds(h, w):
    opts = [None] + list(range(-w - 2, w + 3))
    return opts

def ext_bits(h, v, idx):
    r = 0
    for n, k in enumerate(idx): r = r | (((v >> k) & 1) << n)
    return r

def slice_task(h, widths, steps):
    """every slice of a small width; the value is symbolic"""
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    s = snap(x)
    a = h.choice('a', bounds(h, w))
    b = h.choice('b', bounds(h, w))
    for st in steps:
        idx = list(range(w))[slice(a, b, st)]
        r = x[a:b:st] if st is not None else x[a:b]
        inv(h, 'x[a:b:%s]' % st, r, len(idx), ext_bits(h, v, idx))
    kept(h, 'x', x, s)

WIDE = [(a, b) for a in (None, 0, 1, 7, 8, 15, 16, 24, 31, -1, -8, -31, 40, 63) for b in (None, 0, 1, 8, 9, 16, 31, 32, 33, 64, 200, -1, -9)]
def slice_wide_task(h, widths):
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    if h.symbolic: a, b = h.choice('ab', WIDE)
    else:
        a = h.choice('a', bounds(h, w)); b = h.choice('b', bounds(h, w))
    if not h.symbolic and 'ab' in h.given: a, b = WIDE[h.given['ab']]
    for st in (None, 1, 3, -1):
        idx = list(range(w))[slice(a, b, st)]
        r = x[a:b:st]
        inv(h, 'x[a:b:%s]' % st, r, len(idx), ext_bits(h, v, idx))
    inv(h, 'x', x, w, v)

# ---- every width, every bound: the loops carry invariants
def of(env, ok):
    """the one local variable the loop assigns that is `ok` (its name does not matter)"""
    xs = [(k, x) for k, x in sorted(env.items()) if k != 'self' and ok(x)]
    if len(xs) != 1: raise KeyError('loop variable')
    return xs[0]
def is_num(h, x): return type(x) is int or type(x) is h.S.SInt
declare('bitstring:bitstring.__getitem__')

def clamp(h, a, w, default):
    if a is None: return default
    if h.split(a < 0): return 0 if h.split(a + w < 0) else a + w
    return w if h.split(a > w) else a

def slice_all_task(h, form, step=None):
    w = h.width('w')
    x, v = mk(h, 'x', w)
    s = snap(x)
    a = h.big('a', w) if form[0] == 'a' else None
    b = h.big('b', w) if form[1] == 'b' else None
    lo, hi = clamp(h, a, w, 0), clamp(h, b, w, w)
    n = hi - lo if h.split(lo < hi) else 0
    slice_loop(h, x, v, lo, n)
    inv(h, 'x[a:b]', x[a:b] if step is None else x[a:b:step], n, low(h, v >> lo, n))
    kept(h, 'x', x, s)

def slice_loop(h, x, v, lo, n):
    """i runs from lo; the result holds the bits below it"""
    if not h.symbolic: return
    N = h.S.N
    def havoc(env, idx):
        k = h.unknown('done', 0, None)
        h.assume(k <= n)
        return {of(env, lambda q: is_num(h, q))[0]: lo + k, of(env, lambda q: is_bits(h, q))[0]: BS(h)(low(h, v >> lo, k), k)}
    def inv_(env, idx):
        i = of(env, lambda q: is_num(h, q))[1]; r = of(env, lambda q: is_bits(h, q))[1]
        k = i - lo
        return [('position', h.and_(0 <= k, k <= n)), ('width', r.width == k), ('mask', r.mask == pow2(h, k) - 1), ('bits', r.unsigned == low(h, v >> lo, k))]
    h.loop('bitstring:bitstring.__getitem__', 0, havoc, inv_, optional=True)

def slice_step_task(h, form, step):
    """x[a:b:step]: G(0) = 0, G(k+1) = G(k) + (bit lo + k*step) << k: bit k of the result is bit lo + k*step"""
    w = h.width('w')
    x, v = mk(h, 'x', w)
    s = snap(x)
    a = h.big('a', w) if form[0] == 'a' else None
    b = h.big('b', w) if form[1] == 'b' else None
    least, most = (0, w) if step > 0 else (-1, w - 1)
    def end(q, default):
        if q is None: return default
        if h.split(q < 0): return least if h.split(q + w < least) else q + w
        return most if h.split(q > most) else q
    lo, hi = (end(a, least), end(b, most)) if step > 0 else (end(a, most), end(b, least))
    span = hi - lo if step > 0 else lo - hi
    n = (span + abs(step) - 1) // abs(step) if h.split(span > 0) else 0
    g = h.recdef('taken', 0, lambda k, r: r + (((v >> (lo + k * step)) & 1) << k))
    if h.symbolic:
        def havoc(env, idx):
            k = h.unknown('done', 0, None)
            h.assume(k <= n)
            if h.split(k < n): g.unfold(k)
            return {of(env, lambda q: is_num(h, q))[0]: lo + k * step, of(env, lambda q: is_bits(h, q))[0]: BS(h)(low(h, g(k), k), k), '@k': k}
        def inv_(env, idx):
            i = of(env, lambda q: is_num(h, q))[1]; r = of(env, lambda q: is_bits(h, q))[1]
            k = r.width
            return [('position', h.and_(i == lo + k * step, 0 <= k, k <= n)), ('mask', r.mask == pow2(h, k) - 1), ('in range', h.and_(0 <= g(k), g(k) < pow2(h, k))), ('bits', r.unsigned == g(k))]
        def hav(env, idx):
            d = havoc(env, idx); d.pop('@k')
            return d
        h.loop('bitstring:bitstring.__getitem__', 0, hav, inv_, optional=True)
    inv(h, 'x[a:b:%d]' % step, x[a:b:step], n, g(n))
    kept(h, 'x', x, s)

def field_lemmas(h, w, v, lo, hi, n, old, new):
    """v with its bits lo..hi-1 replaced stays below 2**w: the parts below, inside and above"""
    top = v >> hi
    h.lemma('above the field', h.and_(pow2(h, w) == (1 << hi) * (1 << (w - hi)), top < (1 << (w - hi))))
    h.lemma('above', (top << hi) + (1 << hi) <= pow2(h, w))
    h.lemma('parts', v == low(h, v, lo) + (old << lo) + (top << hi))
    h.lemma('split', (1 << hi) == (1 << lo) * (1 << n))
    h.lemma('field', (new << lo) + (1 << lo) <= (1 << hi))
    h.lemma('below', low(h, v, lo) + (new << lo) < (1 << hi))
    h.lemma('whole', h.and_(0 <= v - (old << lo) + (new << lo), v - (old << lo) + (new << lo) < (1 << hi) + (top << hi)))

def setslice_all_task(h, form, kind):
    w = h.width('w')
    x, v = mk(h, 'x', w)
    a = h.big('a', w) if form[0] == 'a' else None
    b = h.big('b', w) if form[1] == 'b' else None
    lo, hi = clamp(h, a, w, 0), clamp(h, b, w, w)
    n = hi - lo if h.split(lo < hi) else 0
    sy = None
    if kind == 'int': y = f = h.big('i', w)
    elif kind == 'bits':
        y, f = mk(h, 'y', h.width('wy'))
        sy = snap(y)
    elif kind == 'text': n_, f, y = text_of(h, w, (0, 1, 2, 5, 8, 13))
    else: y, f = x, v
    old = low(h, v >> lo, n)
    new = low(h, f, n)
    if h.symbolic and type(n) is not int: field_lemmas(h, w, v, lo, hi, n, old, new)
    x[a:b] = y
    inv(h, 'x after x[a:b] = v', x, w, v - (old << lo) + (new << lo))
    if sy: kept(h, 'y', y, sy)

def setslice_task(h, widths, kind, wide=False):
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    if wide and h.symbolic: a, b = h.choice('ab', WIDE)
    elif wide and 'ab' in h.given: a, b = WIDE[h.given['ab']]
    else:
        a = h.choice('a', bounds(h, w))
        b = h.choice('b', bounds(h, w))
    lo, hi, _ = slice(a, b).indices(w)
    n = max(hi - lo, 0)
    if kind == 'bits':
        wy = h.width('wy', sorted(set((n, max(n - 1, 0), n + 2))))
        y, f = mk(h, 'y', wy)
    elif kind == 'int':
        y = f = h.int('y', -(1 << (n + 2)), 1 << (n + 2))
    elif kind == 'text':
        wy = h.width('wy', sorted(set((n, max(n - 1, 0), n + 2))))
        f = h.int('y', 0, (1 << wy) - 1)
        y = h.bin(f, wy)
    else: y, f = x, v
    sy = snap(y) if is_bits(h, y) and y is not x else None
    x[a:b] = y
    m = ((1 << n) - 1) << lo
    want = (v - (v & m)) + ((f & ((1 << n) - 1)) << lo)
    inv(h, 'x after x[a:b] = v', x, w, want)
    if sy: kept(h, 'y', y, sy)

def iter_task(h, widths):
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    s = snap(x)
    bits = [b for b in x]
    h.check('number of bits', len(bits) == w)
    for k, b in enumerate(bits[:w]): h.check('bit %d' % k, b == ((v >> k) & 1))
    kept(h, 'x', x, s)

def extend_task(h, widths):
    w = h.width('w', [x for x in widths if x >= 1])
    x, v = mk(h, 'x', w)
    s = snap(x)
    n = h.width('n', sorted(set((w, w + 1, w + 2, w + 7, 2 * w, 2 * w + 1, max(w, 24), max(w, 32), max(w, 64))))) if h.symbolic else h.width('n', None, w)
    r = x.sign_extend(n)
    inv(h, 'sign_extend', r, n, low(h, sint(h, v, w), n))
    if n >= 2: h.check('signed value preserved', r.signed == sint(h, v, w))
    kept(h, 'x', x, s)
    r = x.zero_extend(n)
    inv(h, 'zero_extend', r, n, v)
    kept(h, 'x', x, s)

def sign_extend_all_task(h):
    w = h.width('w', None, 1)
    x, v = mk(h, 'x', w)
    s = snap(x)
    d = h.width('d')
    n = w + d
    neg = h.split(v >= pow2(h, w - 1))
    # the sign bits as a sequence, folded into a number
    sign = low(h, v >> (w - 1), 1)
    if h.symbolic: h.lemma('sign', sign == (1 if neg else 0))
    digits_loop(h, lambda i: sign * (pow2(h, i) - 1))
    r = x.sign_extend(n)
    want = v + (pow2(h, n) - pow2(h, w)) if neg else v
    inv(h, 'sign_extend', r, n, want)
    h.check('the value is the signed one modulo 2**n', want == low(h, v - pow2(h, w) if neg else v, n))
    kept(h, 'x', x, s)

def digits_loop(h, f):
    """folding digits, most significant first: the number after i of them is f(i)"""
    if not h.symbolic: return
    h.loop('functools.reduce', 0, lambda env, i: {'acc': f(i)}, lambda env, i: [('number so far', env['acc'] == f(i))])

def zero_extend_task(h, widths):
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    s = snap(x)
    d = h.width('d', (0, 1, 5, 32) if widths else None)
    r = x.zero_extend(w + d)
    inv(h, 'zero_extend', r, w + d, v)
    kept(h, 'x', x, s)

def extend_bad_task(h, widths):
    w = h.width('w', widths, 1)
    if type(w) is int and w == 0: return
    x, v = mk(h, 'x', w)
    s = snap(x)
    n = h.int('n', 0, w - 1) if type(w) is int else h.width('n')
    h.assume(n < w)
    for f in (x.sign_extend, x.zero_extend):
        e, r = h.raises(f, n)
        h.check('a smaller width raises ValueError', e == 'ValueError', str(e))
    kept(h, 'x', x, s)

def resize_task(h, widths):
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    n = h.width('n', sorted(set((0, 1, max(w - 1, 0), w, w + 1, 2 * w, 32))) if widths else None) if h.symbolic or not widths else h.width('n')
    x.width = n
    inv(h, 'x after width = n', x, n, low(h, v, n))
    z = h.big('z', w)
    x.value = z
    inv(h, 'x after value = z', x, n, low(h, z, n))
    y, b = mk(h, 'y', w)
    sy = snap(y)
    x.set(y)
    inv(h, 'x after set(y)', x, w, b)
    x.value = z + 1
    kept(h, 'y after its copy changed', y, sy)

def reverse_task(h, widths):
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    s = snap(x)
    want = ext_bits(h, v, range(w - 1, -1, -1))
    inv(h, 'x.reversed', x.reversed, w, want)
    kept(h, 'x', x, s)
    inv(h, 'reversed twice', x.reversed.reversed, w, v)
    x.reverse()
    inv(h, 'x.reverse()', x, w, want)
    x.reverse()
    inv(h, 'x.reverse() twice', x, w, v)

def from_int_task(h, widths):
    w = h.width('w', widths)
    i = h.big('i', w)
    x = BS(h)(i, w)
    inv(h, 'bitstring(i, w)', x, w, low(h, i, w))
    h.check('value', x.value == low(h, i, w))
    y = BS(h)(x)
    inv(h, 'bitstring(x)', y, w, low(h, i, w))
    h.check('a copy is a new object', y is not x)
    n = h.width('n', (0, 1, 5, 8, 32, 40) if widths else None)
    inv(h, 'bitstring(x, n)', BS(h)(x, n), n, low(h, low(h, i, w), n))
    inv(h, 'x', x, w, low(h, i, w))

def from_int_default_task(h):
    i = h.int('i', -(1 << 31), (1 << 64) - 1)
    w = default_width(h, i)
    inv(h, 'bitstring(i)', BS(h)(i), w, low(h, i, w))

def empty_task(h):
    inv(h, 'bitstring()', BS(h)(), 0, 0)
    inv(h, 'bitstring(None, 5)', BS(h)(None, 5), 5, 0)
    for bad in (3.5, object(), {}, set()):
        e, r = h.raises(BS(h), bad)
        h.check('unsupported types raise TypeError', e == 'TypeError', str(e))

def from_text_task(h, lens):
    n = h.width('n', lens)
    v = h.int('v', 0, (1 << n) - 1)
    t = h.bin(v, n)
    x = BS(h)(t)
    inv(h, 'bitstring(text)', x, n, v)
    m = h.width('m', sorted(set((0, 1, max(n - 1, 0), n + 3))))
    inv(h, 'bitstring(text, m)', BS(h)(t, m), m, low(h, v, m))
    ds = [(v >> (n - 1 - k)) & 1 for k in range(n)]
    s = h.choice('s', (list, tuple))(ds)
    inv(h, 'bitstring(bits)', BS(h)(s), n, v)
    inv(h, 'bitstring(bits, m)', BS(h)(s, m), m, low(h, v, m))

# any number of digits or bytes
declare('bitstring:bitstring.__init__')
declare('bitstring:bitstring.bytes')
declare('bitstring:bitstring.binary_string')
declare('bitstring:bitstring.__iter__')

def from_text_all_task(h):
    n = h.width('n')
    v = h.sized('v', n)
    t = h.bin(v, n)
    x = BS(h)(t)
    inv(h, 'bitstring(text)', x, n, v)
    m = h.width('m')
    inv(h, 'bitstring(text, m)', BS(h)(t, m), m, low(h, v, m))

def fold_loop(h, f, w):
    """folding: the number after i elements is f(i), below 2**w(i)"""
    if not h.symbolic: return
    def inv_(env, i):
        if type(i) is not int: f.unfold(i - 1)
        f.unfold(0)
        return [('number so far', env['acc'] == f(i)), ('in range', h.and_(0 <= env['acc'], env['acc'] < pow2(h, w(i))))]
    h.loop('functools.reduce', 0, lambda env, i: {'acc': h.unknown_sized('acc', w(i))}, inv_)

def from_digits_all_task(h, sized):
    """a sequence of digits, most significant first: value(0) = 0, value(i+1) = 2 value(i) + digit i"""
    ds, n = h.items('d', 0, 1)
    f = h.recdef('value', 0, lambda i, r: 2 * r + h.at(ds, i))
    fold_loop(h, f, lambda i: i)
    if sized:
        m = h.width('m')
        x = BS(h)(ds, m)
        inv(h, 'bitstring(bits, m)', x, m, low(h, f(n), m))
    else: inv(h, 'bitstring(bits)', BS(h)(ds), n, f(n))

def from_bytes_all_task(h, sized):
    """bytes, least significant first: value(0) = 0, value(i+1) = value(i) + byte i * 256**i"""
    d, n = h.blob('d')
    f = h.recdef('value', 0, lambda i, r: r + h.at(d, i) * pow2(h, 8 * i))
    if h.symbolic:
        made = []
        def havoc(env, i):
            o = env['self']
            h.L.setattr_(o, '_value', h.unknown_sized('value', 8 * i))
            made.append(o)
            return {}
        def inv_(env, i):
            u = env['self'].value
            if type(i) is not int: f.unfold(i - 1)
            f.unfold(0)
            return [('number so far', u == f(i)), ('in range', h.and_(0 <= u, u < pow2(h, 8 * i)))]
        h.loop('bitstring:bitstring.__init__', 0, havoc, inv_, lambda: made)
    if sized:
        m = h.width('m')
        inv(h, 'bitstring(bytes, m)', BS(h)(d, m), m, low(h, f(n), m))
    else: inv(h, 'bitstring(bytes)', BS(h)(d), 8 * n, f(n))

def bytes_all_task(h):
    """byte j of the result, for any j, at any width"""
    w = h.width('w')
    x, v = mk(h, 'x', w)
    s = snap(x)
    n = (w + 7) // 8
    j = h.int('j', 0, 1 << 20) if not h.symbolic else h.width('j')
    h.assume(j < n)
    at = lambda k: low(h, v >> (8 * k), 8)
    if h.symbolic:
        def havoc(env, i):
            return {of(env, lambda q: type(q) is list)[0]: h.unknown_list('out', 0, 255, i)} if any(type(q) is list for q in env.values()) else \
                   {of(env, lambda q: type(q) is h.S.SList)[0]: h.unknown_list('out', 0, 255, i)}
        def inv_(env, i):
            r = of(env, lambda q: type(q) in (list, h.S.SList))[1]
            if type(r) is list: return [('empty', len(r) == 0 and i == 0)]
            return [('length', r.slen() == i), ('byte j', h.or_(j >= i, h.S.I(h.T.sel(r.arr, h.S.N(j))) == at(j)))]
        h.loop('bitstring:bitstring.bytes', 0, havoc, inv_)
    b = x.bytes
    h.check('bytes length', h.call(len, b) == n)
    h.check('byte j', b[j] == at(j))
    kept(h, 'x', x, s)

def digits_text(h):
    """the text of a bit string is built digit by digit from the lowest one, whichever bit string it is"""
    if not h.symbolic: return
    isnum = lambda q: isinstance(q, (str, h.S.SStr))
    def T_(env, i):
        v = env['self'].unsigned
        return h.bin(low(h, v, i), i)
    havoc = lambda env, i: {of(env, isnum)[0]: T_(env, i)}
    inv_ = lambda env, i: [('digits so far', of(env, isnum)[1] == T_(env, i))]
    h.loop('bitstring:bitstring.binary_string', 0, havoc, inv_, optional=True, every=True)

def text_all_task(h):
    """binary text at any width"""
    w = h.width('w')
    x, v = mk(h, 'x', w)
    s = snap(x)
    digits_text(h)
    t = x.binary_string
    h.check('binary_string', t == h.bin(v, w))
    h.check('number of digits', h.call(len, t) == w)
    kept(h, 'x', x, s)

def reverse_all_task(h):
    """reversed text at any width: R(0) = 0, R(i+1) = 2 R(i) + bit i"""
    w = h.width('w')
    x, v = mk(h, 'x', w)
    s = snap(x)
    f = h.recdef('reversal', 0, lambda i, r: 2 * r + ((v >> i) & 1))
    digits_text(h)
    reverse_loop(h, f)
    inv(h, 'x.reversed', x.reversed, w, f(w))
    kept(h, 'x', x, s)
    reverse_loop(h, f)
    x.reverse()
    inv(h, 'x.reverse()', x, w, f(w))

def reversal_lemma_task(h):
    """R puts bit k of v at position i - 1 - k for every i > k, by induction over i"""
    w = h.width('w')
    v = h.sized('v', w)
    k, m = h.width('k'), h.width('m')
    r = h.sized('r', h.width('n'))
    b = (v >> k) & 1
    h.check('first: bit 0 of 2 R(k) + bit k', ((2 * r + b) & 1) == b)
    # next: x = 2 R(i) + c, so R(i) is x >> 1
    x = h.sized('x', h.width('i'))
    h.check('of this form', x == 2 * (x >> 1) + (x & 1))
    h.check('next: the bits move up by one', ((x >> (m + 1)) & 1) == (((x >> 1) >> m) & 1))

def reverse_loop(h, f):
    if not h.symbolic: return
    def inv_(env, i):
        return [('text so far', env['acc'] == h.bin(f(i), i)), ('in range', h.and_(0 <= f(i), f(i) < pow2(h, i)))]
    def havoc(env, i):
        f.unfold(i)
        return {'acc': h.bin(f(i), i)}
    h.loop('str.join', 0, havoc, inv_)

def iter_all_task(h):
    """the i-th value is bit i, one per iteration, and there are as many as bits"""
    w = h.width('w')
    x, v = mk(h, 'x', w)
    s = snap(x)
    if not h.symbolic:
        bits = list(x)
        h.check('number of bits', len(bits) == w)
        for k, b in enumerate(bits): h.check('bit', b == ((v >> k) & 1))
        kept(h, 'x', x, s)
        return
    at = []
    h.loop('bitstring:bitstring.__iter__', 0, lambda env, i: at.append(i) or {}, lambda env, i: [('position', 0 <= i)])
    it = iter(x)
    try: b = next(it)
    except StopIteration:
        kept(h, 'x', x, s)
        if not at: raise Unfit('the loop of __iter__ was not met')
        h.check('number of bits', at[0] == w)
        return
    h.check('bit', b == low(h, v >> at[0], 1))
    kept(h, 'x', x, s)
    try: next(it)
    except StopIteration: pass
    h.check('one bit per position', False)

def from_bytes_task(h, lens):
    n = h.width('n', lens)
    bs = [h.int('b%d' % k, 0, 255) for k in range(n)]
    v = 0
    for k in range(n): v = v | (bs[k] << (8 * k))
    d = h.mkbytes(bs)
    inv(h, 'bitstring(bytes)', BS(h)(d), 8 * n, v)
    m = h.width('m', sorted(set((0, 3, max(8 * n - 3, 0), 8 * n + 5))))
    inv(h, 'bitstring(bytes, m)', BS(h)(d, m), m, low(h, v, m))

def signed_task(h, widths):
    w = h.width('w', widths, 2)
    if type(w) is int and w < 2: return
    x, v = mk(h, 'x', w)
    s = snap(x)
    h.check('unsigned', x.unsigned == v)
    h.check('signed', x.signed == sint(h, v, w))
    h.check('signed again', x.signed == sint(h, v, w))
    h.check('value', x.value == v)
    h.check('int()', h.call(int, x) == v)
    h.check('index use', BS(h).__index__(x) == v)
    h.check('len()', h.call(len, x) == w)
    kept(h, 'x', x, s)

def pre(h, w, c): return h.cat(h.dec(w), "'" + c)
def render_task(h, widths):
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    s = snap(x)
    b = h.bin(v, w)
    if type(w) is not int: digits_text(h)
    h.check('binary_string', x.binary_string == b)
    h.check('repr', h.call(repr, x) == h.cat(pre(h, w, 'b'), b))
    h.check('base 2', x.base_string(2) == h.cat(pre(h, w, 'b'), b))
    h.check('base 16', x.base_string(16) == h.cat(pre(h, w, 'h'), h.hex(v)))
    h.check('base 16 is the default', x.base_string() == h.cat(pre(h, w, 'h'), h.hex(v)))
    h.check('base 8', x.base_string(8) == h.cat(pre(h, w, 'o'), h.oct(v)))
    h.check('base 10', x.base_string(10) == h.cat(pre(h, w, 'd'), h.dec(v)))
    h.check('hex text', x.__hex__() == h.cat(pre(h, w, 'h'), h.hex(v, (w + 3) // 4)))
    e, r = h.raises(x.base_string, 7)
    h.check('other bases raise ValueError', e == 'ValueError', str(e))
    inv(h, 'rebuilt from text', BS(h)(x.binary_string), w, v)
    kept(h, 'x', x, s)
    if type(w) is not int: return
    n = (w + 7) // 8
    bs = x.bytes
    h.check('bytes length', h.call(len, bs) == n)
    for k in range(n): h.check('byte %d' % k, bs[k] == ((v >> (8 * k)) & 0xff))
    inv(h, 'rebuilt from bytes', BS(h)(bs, w), w, v)
    kept(h, 'x', x, s)

def cmp_task(h, widths):
    w = h.width('w', widths)
    w2 = right_width(h, 'bits', w)
    x, v = mk(h, 'x', w)
    y, b = mk(h, 'y', w2)
    sx, sy = snap(x), snap(y)
    eq = h.and_(w == w2, v == b)
    lt = h.or_(v < b, h.and_(v == b, w < w2))
    order(h, x, y, eq, lt)
    kept(h, 'x', x, sx); kept(h, 'y', y, sy)

def order(h, x, y, eq, lt):
    same = lambda tag, a, b: h.check(tag, h.not_(h.xor(a, b)))
    same('==', x == y, eq)
    same('!=', x != y, h.not_(eq))
    same('<', x < y, lt)
    same('<=', x <= y, h.or_(lt, eq))
    same('>', x > y, h.not_(h.or_(lt, eq)))
    same('>=', x >= y, h.not_(lt))

def cmp_int_task(h, widths, neg):
    w = h.width('w', widths, 2 if neg else 0)
    if type(w) is int and neg and w < 2: return
    x, v = mk(h, 'x', w)
    s = snap(x)
    if type(w) is int: i = h.int('i', -(1 << (w + 2)) if neg else 0, -1 if neg else 1 << (w + 2))
    else:
        i = h.big('i', w); h.assume(i < 0 if neg else i >= 0)
    u = sint(h, v, w) if neg else v
    order(h, x, i, u == i, u < i)
    h.check('i == x', h.not_(h.xor(i == x, u == i)))
    h.check('i < x', h.not_(h.xor(i < x, u > i)))
    h.check('i >= x', h.not_(h.xor(i >= x, h.not_(u > i))))
    kept(h, 'x', x, s)

def cmp_text_task(h, widths):
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    w2, b, t = text_of(h, w, sorted(set((0, 1, 2, 5, 8, w))) if type(w) is int else None)
    order(h, x, t, h.and_(w == w2, v == b), h.or_(v < b, h.and_(v == b, w < w2)))
    inv(h, 'x', x, w, v)

class Other(object): pass
def cmp_other_task(h, widths):
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    s = snap(x)
    for o in (None, 1.5, Other(), [1], (0,), {}):
        h.check('== is false', h.not_(x == o))
        h.check('!= is true', x != o)
        h.check('reflected', h.and_(h.not_(o == x), o != x))
        for f in (lambda: x < o, lambda: x <= o, lambda: x > o, lambda: x >= o):
            e, r = h.raises(f)
            h.check('ordering raises TypeError', e == 'TypeError', str(e))
    kept(h, 'x', x, s)

def truth_task(h, widths):
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    h.check('truth', h.not_(h.xor(h.call(bool, x), v != 0)))
    h.check('is_zero', h.not_(h.xor(x.is_zero(), v == 0)))
    h.check('is_ones', h.not_(h.xor(x.is_ones(), v == pow2(h, w) - 1)))
    inv(h, 'is_zero_bit', x.is_zero_bit(), 1, h.ite(v == 0, 1, 0))
    inv(h, 'is_ones_bit', x.is_ones_bit(), 1, h.ite(v == pow2(h, w) - 1, 1, 0))
    h.check('len()', h.call(len, x) == w)
    inv(h, 'x', x, w, v)

def hash_task(h, widths, how):
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    s = snap(x)
    if type(w) is not int: digits_text(h)
    a = h.call(hash, x)
    h.check('hash repeats', a == h.call(hash, x))
    if how == 'copy': y = BS(h)(x)
    elif how == 'text': y = BS(h)(h.bin(v, w))
    elif how == 'resized':
        y = BS(h)(v, w + 3); y.width = w
    elif how == 'computed':
        y = BS(h)(low(h, v + 1, w), w) - 1
    elif how == 'mutated':
        y = BS(h)(low(h, v + 1, w), w)
        h.call(hash, y); y -= 1
    elif how == 'wider':
        y = (x % BS(h)(5, 3)) >> 3; y.width = w
    h.check('the other one is equal', x == y)
    h.check('equal bit strings hash alike', a == h.call(hash, y))
    kept(h, 'x', x, s)

def query_task(h, widths):
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    s = snap(x)
    n = 0
    for k in range(w): n = n + ((v >> k) & 1)
    h.check('bit_count', x.bit_count() == n)
    kept(h, 'x', x, s)

def lowest_task(h, widths):
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    s = snap(x)
    r = x.lowest_set_bit()
    if h.split(v == 0): h.check('lowest_set_bit of zero', r == w)
    else:
        h.check('lowest_set_bit', h.and_(0 <= r, r < w))
        h.check('lowest_set_bit is set', ((v >> r) & 1) == 1)
        h.check('no lower bit is set', (v & ((1 << r) - 1)) == 0)
    kept(h, 'x', x, s)

def highest_task(h, widths):
    w = h.width('w', widths)
    x, v = mk(h, 'x', w)
    s = snap(x)
    r = x.highest_set_bit()
    if h.split(v == 0): h.check('highest_set_bit of zero', r == -1)
    else:
        h.check('highest_set_bit', h.and_(0 <= r, r < w))
        h.check('highest_set_bit is set and no higher one', h.and_((v >> r) == 1))
    kept(h, 'x', x, s)

# every width, with loop contracts
declare('bitstring:bitstring.bit_count')
declare('bitstring:bitstring.lowest_set_bit')
declare('bitstring:bitstring.highest_set_bit')

def same(h, a, b):
    """the same value for structural reasons"""
    return h.S.N(a) is not None and h.S.N(a) is h.S.N(b)

def count_loop(h, qual, v, k=0):
    """while bits remain: the count so far and the population of the rest add up"""
    if not h.symbolic: return
    role = {}
    def find(env):
        if not role:
            rest = [n for n in sorted(env) if same(h, env[n], v)]
            cnt = [n for n in sorted(env) if is_num(h, env[n]) and n not in rest]
            if len(rest) != 1 or len(cnt) != 1: raise KeyError('count loop')
            role.update(rest=rest[0], count=cnt[0])
        return env[role['rest']], env[role['count']]
    def havoc(env, idx):
        find(env)
        r = h.unknown('rest', 0, None)
        return {role['rest']: r, role['count']: h.popcount(v) - h.popcount(r)}
    def inv_(env, idx):
        r, c = find(env)
        return [('rest', r >= 0), ('count', c + h.popcount(r) == h.popcount(v))]
    h.loop(qual, k, havoc, inv_, optional=True)

def count_all_task(h):
    w = h.width('w')
    x, v = mk(h, 'x', w)
    s = snap(x)
    count_loop(h, 'bitstring:bitstring.bit_count', v)
    h.check('bit_count', x.bit_count() == h.popcount(v))
    kept(h, 'x', x, s)

def scan_loop(h, qual, v, claim):
    """a scan over the positions: what has been passed, and (if kept in a variable) the shifted value"""
    if not h.symbolic: return
    moving = set()
    def havoc(env, idx): return {n: v >> idx for n in moving}
    def inv_(env, idx):
        if type(idx) is int and idx == 0: moving.update(n for n in env if same(h, env[n], v))
        return claim(idx) + [('shifted', env[n] == v >> idx) for n in sorted(moving)]
    h.loop(qual, 0, havoc, inv_, optional=True)

def lowest_all_task(h):
    w = h.width('w')
    x, v = mk(h, 'x', w)
    s = snap(x)
    scan_loop(h, 'bitstring:bitstring.lowest_set_bit', v, lambda i: [('no bit passed', low(h, v, i) == 0)])
    r = x.lowest_set_bit()
    if h.split(v == 0): h.check('lowest_set_bit of zero', r == w)
    else:
        h.check('lowest_set_bit', h.and_(0 <= r, r < w))
        h.check('lowest_set_bit is set', low(h, v >> r, 1) == 1)
        h.check('no lower bit is set', low(h, v, r) == 0)
    kept(h, 'x', x, s)

def highest_all_task(h):
    w = h.width('w')
    x, v = mk(h, 'x', w)
    s = snap(x)
    scan_loop(h, 'bitstring:bitstring.highest_set_bit', v, lambda i: [('no bit passed', v < pow2(h, w - i))])
    r = x.highest_set_bit()
    if h.split(v == 0): h.check('highest_set_bit of zero', r == -1)
    else:
        h.check('highest_set_bit', h.and_(0 <= r, r < w))
        h.check('highest_set_bit is set and no higher one', (v >> r) == 1)
    kept(h, 'x', x, s)

def const_task(h, widths):
    n = h.width('n', widths)
    m = h.p.bitstring
    inv(h, 'zeros(n)', m.zeros(n), n, 0)
    inv(h, 'ones(n)', m.ones(n), n, pow2(h, n) - 1)
    a = m.zeros(n); a.value = 1
    inv(h, 'zeros(n) is new each time', m.zeros(n), n, 0)
    a = m.ones(n); a.value = 0
    inv(h, 'ones(n) is new each time', m.ones(n), n, pow2(h, n) - 1)

# ---------------------------------------------------------------- C01: frames over every operation
def eqv(h, a, b):
    """same answer"""
    if is_bits(h, a) and is_bits(h, b): return h.and_(a.width == b.width, a.unsigned == b.unsigned)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b): return False
        return h.and_(*[eqv(h, p, q) for p, q in zip(a, b)])
    return a == b

OPS1 = {
    '~x': lambda h, x: ~x, 'signed': lambda h, x: x.signed, 'unsigned': lambda h, x: x.unsigned, 'inverted': lambda h, x: x.inverted,
    'reversed': lambda h, x: x.reversed, 'binary_string': lambda h, x: x.binary_string, 'bytes': lambda h, x: x.bytes,
    'hash': lambda h, x: h.call(hash, x), 'repr': lambda h, x: h.call(repr, x), 'bool': lambda h, x: h.call(bool, x),
    'len': lambda h, x: h.call(len, x), 'int': lambda h, x: h.call(int, x), 'bit_count': lambda h, x: x.bit_count(),
    'is_zero': lambda h, x: x.is_zero(), 'is_ones': lambda h, x: x.is_ones(), 'is_zero_bit': lambda h, x: x.is_zero_bit(),
    'is_ones_bit': lambda h, x: x.is_ones_bit(), 'lowest': lambda h, x: x.lowest_set_bit(), 'highest': lambda h, x: x.highest_set_bit(),
    'iter': lambda h, x: [b for b in x], 'x[0]': lambda h, x: x[0], 'x[1:3]': lambda h, x: x[1:3], 'x[:]': lambda h, x: x[:],
    'x[::-1]': lambda h, x: x[::-1], 'get_bit': lambda h, x: x.get_bit(0), 'get_bit_value': lambda h, x: x.get_bit_value(0),
    'zero_extend': lambda h, x: x.zero_extend(x.width + 3), 'sign_extend': lambda h, x: x.sign_extend(x.width + 3) if x.width else None,
    'x<<1': lambda h, x: x << 1, 'x>>1': lambda h, x: x >> 1, 'x%1': lambda h, x: x % 1, 'x%text': lambda h, x: x % '101',
    'x+3': lambda h, x: x + 3, 'x-3': lambda h, x: x - 3, 'x*3': lambda h, x: x * 3, 'x//3': lambda h, x: x // 3,
    '3+x': lambda h, x: 3 + x, '9-x': lambda h, x: 9 - x, 'x&5': lambda h, x: x & 5, 'x|5': lambda h, x: x | 5, 'x^5': lambda h, x: x ^ 5,
    'x<7': lambda h, x: x < 7, 'x>=7': lambda h, x: x >= 7, 'x==7': lambda h, x: x == 7, 'x!=-1': lambda h, x: x != -1,
    'copy': lambda h, x: BS(h)(x), 'base16': lambda h, x: x.base_string(16), 'base8': lambda h, x: x.base_string(8),
    'base10': lambda h, x: x.base_string(10), 'base2': lambda h, x: x.base_string(2),
}
OPS2 = {
    'x+y': lambda h, x, y: x + y, 'x-y': lambda h, x, y: x - y, 'x*y': lambda h, x, y: x * y, 'x&y': lambda h, x, y: x & y,
    'x|y': lambda h, x, y: x | y, 'x^y': lambda h, x, y: x ^ y, 'x%y': lambda h, x, y: x % y, 'x==y': lambda h, x, y: x == y,
    'x!=y': lambda h, x, y: x != y, 'x<y': lambda h, x, y: x < y, 'x<=y': lambda h, x, y: x <= y, 'x>y': lambda h, x, y: x > y,
    'x>=y': lambda h, x, y: x >= y,
}

def mutations(h, w):
    def value(x, z): x.value = z
    def width(x, z): x.width = x.width + 1
    def narrow(x, z): x.width = h.ite(w > 0, w - 1, 0)
    def iadd(x, z): x += z
    def ixor(x, z): x ^= BS(h)(z, w)
    def ishl(x, z): x <<= 1
    def icat(x, z): x %= '1'
    def set_(x, z): x.set(BS(h)(z, w))
    def inv_(x, z): x.invert()
    def rev_(x, z): x.reverse()
    def item(x, z):
        if h.split(w != 0): x[w - 1] = low(h, z, 1)
    def sl(x, z):
        if h.symbolic and type(w) is not int and h.split(w >= 2):
            v = x.unsigned
            field_lemmas(h, w, v, 0, 2, 2, low(h, v, 2), low(h, z, 2))
        x[0:2] = z
    return [value, width, narrow, iadd, ixor, ishl, icat, set_, inv_, rev_, item, sl]

def frame1_task(h, w, name):
    op = OPS1[name]
    if w is None: w = h.width('w'); digits_text(h)
    x, v = mk(h, 'x', w)
    y, b = mk(h, 'y', w)
    inv(h, 'x', x, w, v)
    sx, sy = snap(x), snap(y)
    try: r = op(h, x)
    except IndexError: r = None
    kept(h, 'x', x, sx)
    if is_bits(h, r): inv(h, 'result', r)
    keep = snap(r) if is_bits(h, r) else None
    # another object of the same class is not involved
    if h.split(w != 0): op(h, y)
    kept(h, 'y', y, sy)
    try: r2 = op(h, x)
    except IndexError: r2 = None
    if r is not None: h.check('same answer again', eqv(h, r, r2))
    if keep is not None and r is not x:
        h.check('first answer kept', h.and_(r.unsigned == keep[1], r.width == keep[0]))
        # changing the answer must not change the operand or later answers
        r.value = r.unsigned + 1
        r.invert()
        kept(h, 'x after the result changed', x, sx)
        h.check('another answer is independent', h.and_(r2.unsigned == keep[1], r2.width == keep[0]))
        r3 = op(h, x)
        h.check('same answer after the first was changed', h.and_(r3.unsigned == keep[1], r3.width == keep[0]))

def frame2_task(h, w, w2, name):
    op = OPS2[name]
    if w is None: w = h.width('w'); w2 = h.width('w2'); digits_text(h)
    x, v = mk(h, 'x', w)
    y, b = mk(h, 'y', w2)
    sx, sy = snap(x), snap(y)
    r = op(h, x, y)
    kept(h, 'x', x, sx); kept(h, 'y', y, sy)
    keep = None
    if is_bits(h, r): inv(h, 'result', r); keep = snap(r)
    r2 = op(h, x, y)
    h.check('same answer again', eqv(h, r, r2))
    if keep is not None:
        r.value = r.unsigned + 1
        r.invert()
        kept(h, 'x after the result changed', x, sx); kept(h, 'y after the result changed', y, sy)
        r3 = op(h, x, y)
        h.check('same answer after the first was changed', h.and_(r3.unsigned == keep[1], r3.width == keep[0]))

OBSERVE = [lambda h, x: x.unsigned, lambda h, x: x.value, lambda h, x: x.signed, lambda h, x: ~x, lambda h, x: x.inverted,
           lambda h, x: x.binary_string, lambda h, x: h.call(len, x), lambda h, x: h.call(int, x), lambda h, x: h.call(bool, x),
           lambda h, x: x.base_string(16), lambda h, x: h.call(repr, x), lambda h, x: x.is_zero(), lambda h, x: x.is_ones(),
           lambda h, x: x == 3, lambda h, x: x < 3, lambda h, x: x << 1, lambda h, x: x % '1', lambda h, x: x + 1, lambda h, x: h.call(hash, x)]
OBSERVE1 = [lambda h, x: [q for q in x], lambda h, x: x[0:2], lambda h, x: x.bytes]
OBSERVE2 = [lambda h, x: x.reversed, lambda h, x: x.sign_extend(x.width + 2), lambda h, x: x.bit_count(), lambda h, x: x.highest_set_bit(),
            lambda h, x: x.lowest_set_bit()]
def observe(h, x, only=None):
    w = x.width
    fs = OBSERVE if only is None else OBSERVE[only::OBGROUPS]
    if type(w) is int: fs = fs + OBSERVE1 + (OBSERVE2 if w else [])
    return [f(h, x) for f in fs]
OBGROUPS = 7

def stale_task(h, w, k, only=None):
    """observe, change in place, observe: the second observation is that of a fresh
    bit string of the new width and value, and an equal bit string made before is unaffected"""
    if w is None: w = h.width('w'); digits_text(h)
    x, v = mk(h, 'x', w)
    twin = BS(h)(x)
    z = h.sized('z', w)
    observe(h, x, only); observe(h, twin, only)
    st = snap(twin)
    m = mutations(h, w)[k]
    m(x, z)
    inv(h, 'x', x)
    kept(h, 'an equal bit string', twin, st)
    fresh = BS(h)(x.unsigned, x.width)
    for i, (a, b) in enumerate(zip(observe(h, x, only), observe(h, fresh, only))):
        h.check('observation %d is that of the new value' % i, eqv(h, a, b))
    fresh = BS(h)(v, w)
    for i, (a, b) in enumerate(zip(observe(h, twin, only), observe(h, fresh, only))):
        h.check('twin observation %d' % i, eqv(h, a, b))

# ---------------------------------------------------------------- registration
BSF = ['bitstring:bitstring.' + n for n in ('__init__',)]
def reg(prop, name, fn, args=(), math=True, widths=WIDTHS, more=MORE, fns=(), **kw):
    F = ['bitstring:bitstring.' + f for f in fns] + BSF
    props = (prop,) if isinstance(prop, str) else prop
    if math:
        add_task(props, name + '.all', fn, None, *args, math=True, functions=F, contracts=False, budget=60, **kw)
        if props[0] in ('C02', 'C03', 'C04', 'C05', 'C06'):
            add_task(('C01',), 'range.%s.all' % name, ranges_task, fn, None, *args, math=True, functions=F, contracts=False, budget=60, weight=0.7)
    if widths:
        add_task(props, name, fn, widths, *args, bound=BOUND % (list(widths),), functions=F, contracts=False, **kw)
    if more:
        add_task(props, name + '.more', fn, more, *args, bound=BOUND % (list(more),), functions=F, thorough=True, contracts=False, **kw)

DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '//': 'floordiv', '&': 'and', '|': 'or', '^': 'xor', '<<': 'lshift', '>>': 'rshift', '%': 'mod'}
for op in ('+', '-', '*', '//'):
    d = DUNDER[op]
    for kind in ('bits', 'int', 'text'):
        reg('C02', 'arith.%s.%s' % (d, kind), arith_task, (op, kind), fns=('__%s__' % d, '__i%s__' % d))
    reg('C02', 'arith.%s.self' % d, arith_self_task, (op,), fns=('__%s__' % d, '__i%s__' % d))
    for kind in ('int', 'text'):
        reg('C02', 'reflected.%s.%s' % (d, kind), reflected_task, (op, kind), more=None, fns=('__r%s__' % d,))
reg('C02', 'arith.zerodiv', zero_div_task, fns=('__floordiv__', '__ifloordiv__'))
for op in '&|^':
    d = DUNDER[op]
    for kind in ('bits', 'nat', 'text'):
        reg('C03', 'logic.%s.%s' % (d, kind), arith_task, (op, kind), fns=('__%s__' % d, '__i%s__' % d))
        reg('C03', 'logicbits.%s.%s' % (d, kind), logic_bits_task, (op, kind), math=False, widths=SMALL + (16, 32, 33), more=None)
    reg('C03', 'logic.%s.self' % d, arith_self_task, (op,))
    for kind in ('int', 'text'):
        reg('C03', 'reflected.%s.%s' % (d, kind), reflected_task, (op, kind), more=None, fns=('__r%s__' % d,))
for op in ('<<', '>>'):
    d = DUNDER[op]
    reg('C03', 'shift.%s' % d, shift_task, (op,), fns=('__%s__' % d, '__i%s__' % d))
reg('C03', 'invert', invert_task, fns=('__invert__', 'inverted', 'invert'))
for kind in ('bits', 'self', 'text', 'seq', 'int'):
    reg('C04', 'concat.' + kind, concat_task, (kind,), fns=('__mod__', '__imod__', '__rmod__'))
reg('C04', 'concat.bad', concat_bad_task, widths=(0, 1, 8, 33), more=None)
reg('C04', 'index', index_task, fns=('__getitem__', 'get_bit', 'get_bit_value'))
for kind in ('bits', 'int'):
    reg('C04', 'setitem.' + kind, setitem_task, (kind,), fns=('__setitem__',))
reg('C04', 'setitem.range', setitem_range_task, widths=(0, 1, 2, 8, 33), more=None, fns=('__setitem__',))
for form in ('ab', 'a-', '-b', '--'):
    add_task(('C04',), 'slice.all.' + form, slice_all_task, form, math=True, contracts=False, budget=90, functions=['bitstring:bitstring.__getitem__', 'bitstring:bitstring.get_bit', 'bitstring:bitstring.__imod__'])
    add_task(('C01',), 'range.slice.%s.all' % form, ranges_task, slice_all_task, form, math=True, contracts=False, budget=90, functions=['bitstring:bitstring.__getitem__'])
reg('C04', 'slice', slice_task, ((None, 1, 2, 3, -1, -2),), math=False, widths=(0, 1, 2, 3, 5), more=(4, 6, 7, 8, 9), fns=('__getitem__',))
reg('C04', 'slice.wide', slice_wide_task, (), math=False, widths=(8, 16, 32, 33), more=(24, 40, 64, 65), fns=('__getitem__',))
for kind in ('bits', 'int', 'text', 'self'):
    reg('C04', 'setslice.' + kind, setslice_task, (kind,), math=False, widths=(0, 1, 2, 3, 5), more=(4, 7, 8), fns=('__setitem__',))
    reg('C04', 'setslice.wide.' + kind, setslice_task, (kind, True), math=False, widths=(32,), more=(16, 33, 64), fns=('__setitem__',))
for kind in ('bits', 'int', 'self', 'text'):
    for form in ('ab', 'a-', '-b', '--'):
        add_task(('C04',), 'setslice.all.%s.%s' % (kind, form), setslice_all_task, form, kind, math=True, contracts=False, budget=90, functions=['bitstring:bitstring.__setitem__'])
        add_task(('C01',), 'range.setslice.%s.%s.all' % (kind, form), ranges_task, setslice_all_task, form, kind, math=True, contracts=False, budget=90, functions=['bitstring:bitstring.__setitem__'])
reg('C04', 'iter', iter_task, math=False, widths=LOOPW, more=LOOPMORE, fns=('__iter__',))
reg('C05', 'extend', extend_task, math=False, widths=LOOPW, more=LOOPMORE, fns=('sign_extend', 'zero_extend'))
add_task(('C05',), 'sign_extend.all', sign_extend_all_task, math=True, contracts=False, budget=60, functions=['bitstring:bitstring.sign_extend', 'bitstring:bitstring.__init__', 'bitstring:bitstring.__imod__'])
reg('C05', 'zero_extend', zero_extend_task, fns=('zero_extend',))
reg('C05', 'extend.bad', extend_bad_task, fns=('sign_extend', 'zero_extend'))
reg('C05', 'resize', resize_task, fns=('width', 'value', 'set'))
reg('C05', 'reverse', reverse_task, math=False, widths=LOOPW, more=LOOPMORE, fns=('reversed', 'reverse'))
reg('C05', 'invert.twice', invert_task, fns=('invert',))
reg('C06', 'from_int', from_int_task)
add_task(('C06',), 'from_int.default', from_int_default_task, functions=BSF, contracts=False)
add_task(('C06',), 'empty', empty_task, functions=BSF, contracts=False)
IN = ['bitstring:bitstring.__init__']
add_task(('C06',), 'from_text.all', from_text_all_task, math=True, contracts=False, budget=60, functions=IN)
for z in (False, True):
    q = '.sized' if z else ''
    add_task(('C06',), 'from_digits.all' + q, from_digits_all_task, z, math=True, contracts=False, budget=60, functions=IN)
    add_task(('C06',), 'from_bytes.all' + q, from_bytes_all_task, z, math=True, contracts=False, budget=60, functions=IN)
add_task(('C06',), 'bytes.all', bytes_all_task, math=True, contracts=False, budget=60, functions=['bitstring:bitstring.bytes'])
for st in (2, 3, 8, -1, -2, -5):
    for form in ('ab', 'a-', '-b', '--'):
        add_task(('C04',), 'slice.step.%s.%d.all' % (form, st), slice_step_task, form, st, math=True, contracts=False, budget=60, functions=['bitstring:bitstring.__getitem__'])
add_task(('C05',), 'reverse.all', reverse_all_task, math=True, contracts=False, budget=60, functions=['bitstring:bitstring.' + f for f in ('reversed', 'reverse', 'binary_string', 'set')])
add_task(('C05',), 'reverse.lemma', reversal_lemma_task, math=True, contracts=False, budget=60)
add_task(('C06',), 'text.all', text_all_task, math=True, contracts=False, budget=60, functions=['bitstring:bitstring.binary_string'])
add_task(('C04',), 'iter.all', iter_all_task, math=True, contracts=False, budget=60, functions=['bitstring:bitstring.__iter__'])
reg('C06', 'from_text', from_text_task, math=False, widths=LOOPW, more=LOOPMORE)
reg('C06', 'from_bytes', from_bytes_task, math=False, widths=(0, 1, 2, 3, 4, 5, 8, 9), more=(6, 7, 12, 16))
reg('C06', 'signed', signed_task, fns=('signed', 'unsigned', 'value', '__int__', '__index__', '__len__'))
reg('C06', 'render', render_task, widths=LOOPW, more=LOOPMORE, fns=('binary_string', 'bytes', 'base_string', '__repr__', '__hex__'))
reg('C07', 'cmp', cmp_task, fns=('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__'))
reg('C07', 'cmp.nat', cmp_int_task, (False,), fns=('__eq__', '__lt__'))
reg('C07', 'cmp.neg', cmp_int_task, (True,), fns=('__eq__', '__lt__'))
reg('C07', 'cmp.text', cmp_text_task, widths=SMALL + (16, 32), more=None)
reg('C07', 'cmp.other', cmp_other_task, widths=(0, 1, 8, 33), more=None)
reg(('C07', 'C08'), 'truth', truth_task, fns=('__bool__', 'is_zero', 'is_ones', 'is_zero_bit', 'is_ones_bit', '__len__'))
for how in ('copy', 'text', 'resized', 'computed', 'mutated', 'wider'):
    reg('C07', 'hash.' + how, hash_task, (how,), widths=(0, 1, 2, 3, 5, 8, 16, 32), more=None, fns=('__hash__',))
TERM = ('loops are proved partially correct: termination of the while loops is left to the unrolled tasks and the native runs',)
add_task(('C08',), 'bit_count.all', count_all_task, math=True, contracts=False, budget=60, functions=['bitstring:bitstring.bit_count'], assumes=TERM)
add_task(('C08',), 'lowest.all', lowest_all_task, math=True, contracts=False, budget=60, functions=['bitstring:bitstring.lowest_set_bit'])
add_task(('C08',), 'highest.all', highest_all_task, math=True, contracts=False, budget=60, functions=['bitstring:bitstring.highest_set_bit'])
reg('C08', 'bit_count', query_task, math=False, widths=SMALL + (12, 16, 24, 32), more=(33, 40, 48, 64), fns=('bit_count',))
reg('C08', 'lowest', lowest_task, math=False, widths=LOOPW, more=LOOPMORE, fns=('lowest_set_bit',))
reg('C08', 'highest', highest_task, math=False, widths=LOOPW, more=LOOPMORE, fns=('highest_set_bit',))
reg('C08', 'getbit', index_task, fns=('get_bit', 'get_bit_value'))
reg('C08', 'consts', const_task, widths=LOOPW, more=LOOPMORE)
for w in (0, 1, 2, 5, 8):
    for name in OPS1:
        if w == 0 and name in ('x[0]', 'get_bit', 'sign_extend'): continue
        add_task(('C01',), 'frame.%s.w%d' % (name, w), frame1_task, w, name, bound='width %d' % w, contracts=False, weight=0.5)
for w, w2 in ((0, 3), (1, 1), (4, 4), (5, 3), (3, 6)):
    for name in OPS2:
        add_task(('C01',), 'frame.%s.w%d.w%d' % (name, w, w2), frame2_task, w, w2, name, bound='widths %d, %d' % (w, w2), contracts=False, weight=0.5)
ALLOPS = [n for n in OPS1 if n not in ('reversed', 'bytes', 'bit_count', 'lowest', 'highest', 'iter', 'x[:]', 'x[::-1]')]
for name in ALLOPS:
    add_task(('C01',), 'frame.%s.all' % name, frame1_task, None, name, math=True, contracts=False, budget=60, weight=0.5)
for name in OPS2:
    add_task(('C01',), 'frame.%s.all' % name, frame2_task, None, None, name, math=True, contracts=False, budget=60, weight=0.5)
for k in range(12):
    if k == 9: continue        # reversal is a comprehension over the digits: widths listed below
    for g in range(OBGROUPS):
        add_task(('C01',), 'stale.%d.%d.all' % (k, g), stale_task, None, k, g, math=True, contracts=False, budget=60, weight=0.5)
for w in (1, 2, 4):
    for k in range(12):
        add_task(('C01',), 'stale.%d.w%d' % (k, w), stale_task, w, k, bound='width %d' % w, contracts=False)

for name, fn, args, fs in (('sign_extend', sign_extend_all_task, (), ('sign_extend',)), ('from_text', from_text_all_task, (), ('__init__',)),
                           ('bytes', bytes_all_task, (), ('bytes',)), ('iter', iter_all_task, (), ('__iter__',)), ('bit_count', count_all_task, (), ('bit_count',)),
                           ('lowest', lowest_all_task, (), ('lowest_set_bit',)), ('highest', highest_all_task, (), ('highest_set_bit',)),
                           ('from_digits', from_digits_all_task, (False,), ('__init__',)), ('from_digits.sized', from_digits_all_task, (True,), ('__init__',)),
                           ('from_bytes', from_bytes_all_task, (False,), ('__init__',)), ('from_bytes.sized', from_bytes_all_task, (True,), ('__init__',))):
    add_task(('C01',), 'range.%s.all' % name, ranges_task, fn, *args, math=True, contracts=False, budget=60, functions=['bitstring:bitstring.' + f for f in fs])

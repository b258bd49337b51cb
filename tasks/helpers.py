"""H01..H03: the Arm pseudocode helpers.  U01: byte conversions and bit fields."""
from dv.harness import add_task, declare
from tasks.bits import count_loop, TERM, of, is_num, WIDTHS, MORE, SMALL, BOUND, BS, mk, inv, snap, kept, low, pow2, sint, is_bits
from spec import arm

def HP(h): return h.p.helpers
def F(*names): return ['helpers:' + n for n in names]

# ---------------------------------------------------------------- H01
def awc_task(h, widths):
    w = h.width('w', widths, 1)
    if type(w) is int and w < 1: return
    x, a = mk(h, 'x', w)
    y, b = mk(h, 'y', w)
    c, k = mk(h, 'c', 1)
    sx, sy, sc = snap(x), snap(y), snap(c)
    def go(tag):
        r = HP(h).AddWithCarry(x, y, c)
        res, co, ov = r[0], r[1], r[2]
        h.check('%sthree results' % tag, h.call(len, r) == 3)
        s = a + b + k
        inv(h, tag + 'sum', res, w, low(h, s, w))
        inv(h, tag + 'carry', co, 1, h.ite(s < pow2(h, w), 0, 1))
        if type(w) is not int or w >= 2:
            t = sint(h, a, w) + sint(h, b, w) + k
            half = pow2(h, w - 1)
            inv(h, tag + 'overflow', ov, 1, h.ite(h.and_(w >= 2, h.or_(t < -half, t >= half)), 1, 0) if type(w) is int else
                h.ite(h.or_(t < -half, t >= half), 1, 0))
        kept(h, 'x', x, sx); kept(h, 'y', y, sy); kept(h, 'carry in', c, sc)
    go('')
    go('again: ')

def awc_all_task(h, widths):
    w = h.width('w', None, 2)
    a, b = h.sized('a', w), h.sized('b', w)
    x, y = BS(h)(a, w), BS(h)(b, w)
    c, k = mk(h, 'c', 1)
    sx, sy, sc = snap(x), snap(y), snap(c)
    res, co, ov = HP(h).AddWithCarry(x, y, c)
    s = a + b + k
    big = pow2(h, w)
    inv(h, 'sum', res, w, low(h, s, w))
    inv(h, 'carry', co, 1, h.ite(s < big, 0, 1))
    t = sint(h, a, w) + sint(h, b, w) + k
    half = pow2(h, w - 1)
    inv(h, 'overflow', ov, 1, h.ite(h.or_(t < -half, t >= half), 1, 0))
    kept(h, 'x', x, sx); kept(h, 'y', y, sy); kept(h, 'carry in', c, sc)

def same_task(h, widths):
    """the same object on both sides"""
    w = h.width('w', widths, 1)
    if type(w) is int and w < 1: return
    x, a = mk(h, 'x', w)
    c, k = mk(h, 'c', 1)
    sx, sc = snap(x), snap(c)
    res, co, ov = HP(h).AddWithCarry(x, x, c)
    s = a + a + k
    inv(h, 'sum', res, w, low(h, s, w))
    inv(h, 'carry', co, 1, h.ite(s < pow2(h, w), 0, 1))
    kept(h, 'x', x, sx); kept(h, 'carry in', c, sc)

def align_bits_task(h, widths, ks):
    w = h.width('w', widths, 1 if widths or not h.symbolic else max(ks))
    if type(w) is int and w < 1: return
    a = h.sized('x', w)
    x = BS(h)(a, w)
    s = snap(x)
    for k in ks:
        if type(w) is int and k > w: continue
        r = HP(h).Align(x, 1 << k)
        inv(h, 'Align(x, %d)' % (1 << k), r, w, a - low(h, a, k))
        kept(h, 'x', x, s)

def align_int_task(h, ks):
    v = h.big('v', 70)
    for k in ks:
        r = HP(h).Align(v, 1 << k)
        h.check('Align(v, %d) is an integer' % (1 << k), not is_bits(h, r))
        h.check('Align(v, %d)' % (1 << k), r == v - low(h, v, k))

B = lambda ws: 'widths %s, all values' % (list(ws),)
add_task(('H01',), 'awc.all', awc_all_task, None, math=True, functions=F('AddWithCarry'), contracts=False, budget=60)
for w in WIDTHS:
    if w: add_task(('H01',), 'awc.w%d' % w, awc_task, (w,), functions=F('AddWithCarry'), contracts=False, bound='width %d' % w, thorough=w > 33)
add_task(('H01',), 'awc.more', awc_task, MORE, functions=F('AddWithCarry'), contracts=False, bound=B(MORE), thorough=True)
add_task(('H01',), 'awc.same', same_task, WIDTHS, functions=F('AddWithCarry'), contracts=False, bound=B(WIDTHS))
ALIGNS = (0, 1, 2, 3, 4, 5, 8, 12, 16, 31)
for k in ALIGNS:
    add_task(('H01',), 'align.bits.all.%d' % k, align_bits_task, None, (k,), math=True, functions=F('Align'), contracts=False, budget=60)
add_task(('H01',), 'align.bits', align_bits_task, WIDTHS, ALIGNS, functions=F('Align'), contracts=False, bound=B(WIDTHS))
add_task(('H01',), 'align.int.all', align_int_task, ALIGNS + (32, 40), math=True, functions=F('Align'), contracts=False, budget=60)
add_task(('H01',), 'align.int', align_int_task, ALIGNS + (32, 40), functions=F('Align'), contracts=False, bound='integers of 73 bits')

# ---------------------------------------------------------------- H02
def ref(h, typ, v, n, w, cin):
    """Arm result and carry out for n >= 1 (RRX: n == 1)"""
    bit = lambda x, k: (x >> k) & 1
    if typ == 'LSL': return low(h, v << n, w), bit(v, w - n) if n <= w else 0
    if typ == 'LSR': return v >> n, bit(v, n - 1)
    if typ == 'ASR':
        s = v - (bit(v, w - 1) << w)
        return low(h, s >> n, w), bit(s, n - 1)
    if typ == 'ROR':
        m = n % w
        r = low(h, (v >> m) | (v << (w - m)), w)
        return r, bit(r, w - 1)
    return (v >> 1) | (cin << (w - 1)), bit(v, 0)

def dists(w): return sorted(set(list(range(1, min(w, 40) + 4)) + [w - 1, w, w + 1, 2 * w - 1, 2 * w, 2 * w + 1, 3 * w, 31, 32, 33, 63, 64, 65, 96, 255, 256]))

def shift_c_task(h, w, typ):
    x, v = mk(h, 'x', w)
    s = snap(x)
    n = h.choice('n', dists(w)) if h.symbolic or 'n' in h.given and False else h.choice('n', dists(w))
    if n < 1: return
    want, carry = ref(h, typ, v, n, w, 0)
    for tag in ('', 'again: '):
        r = getattr(HP(h), typ + '_C')(x, n)
        inv(h, '%s%s_C result' % (tag, typ), r[0], w, want)
        inv(h, '%s%s_C carry' % (tag, typ), r[1], 1, carry)
        kept(h, 'x', x, s)
    r = getattr(HP(h), typ)(x, n)
    inv(h, typ, r, w, want)
    kept(h, 'x', x, s)

def shift_all_task(h, typ):
    """every width and every distance, without carry"""
    w = h.width('w', None, 1)
    n = h.width('n', None, 0 if typ in ('LSL', 'LSR') else 1)
    x, v = mk(h, 'x', w)
    s = snap(x)
    h.wide(*CALLEES)
    r = getattr(HP(h), typ)(x, n)
    inv(h, typ, r, w, wide_ref(h, typ, v, n, w, 0)[0] if typ in ('ASR', 'ROR') else low(h, v << n, w) if typ == 'LSL' else v >> n)
    kept(h, 'x', x, s)

CALLEES = ('bitstring:bitstring.__getitem__', 'bitstring:bitstring.sign_extend')

def wide_ref(h, typ, v, n, w, cin):
    """Arm result and carry out for any width w >= 1 and distance n >= 1"""
    bit = lambda x, k: low(h, x >> k, 1)
    if typ == 'LSL': return low(h, v << n, w), bit(v, w - n) if h.split(n <= w) else 0
    if typ == 'LSR': return v >> n, bit(v, n - 1)
    if typ == 'ASR':
        s = v - pow2(h, w) if h.split(v >= pow2(h, w - 1)) else v
        return low(h, s >> n, w), bit(s, n - 1)
    if typ == 'ROR':
        m = n % w
        if h.symbolic:
            h.lemma('distance', h.and_(0 <= m, m < w))
            h.lemma('part that stays', (v >> m) < pow2(h, w - m))
        r = (v >> m) + (low(h, v, m) << (w - m))
        return r, bit(r, w - 1)
    return (v >> 1) + (cin << (w - 1)), bit(v, 0)

def shift_c_all_task(h, typ, far=None):
    """every width and every distance"""
    w = h.width('w', None, 1)
    n = h.width('n', None, 1)
    if far is not None:
        if far: n = n + w
        else: h.assume(n <= w)
    x, v = mk(h, 'x', w)
    s = snap(x)
    h.wide(*CALLEES)
    want, carry = wide_ref(h, typ, v, n, w, 0)
    r = getattr(HP(h), typ + '_C')(x, n)
    inv(h, typ + '_C result', r[0], w, want)
    inv(h, typ + '_C carry', r[1], 1, carry)
    kept(h, 'x', x, s)

def rrx_all_task(h):
    w = h.width('w', None, 1)
    x, v = mk(h, 'x', w)
    c, k = mk(h, 'c', 1)
    s, sc = snap(x), snap(c)
    h.wide(*CALLEES)
    want, carry = wide_ref(h, 'RRX', v, 1, w, k)
    r = HP(h).RRX_C(x, c)
    inv(h, 'RRX_C result', r[0], w, want)
    inv(h, 'RRX_C carry', r[1], 1, carry)
    inv(h, 'RRX', HP(h).RRX(x, c), w, want)
    kept(h, 'x', x, s); kept(h, 'carry in', c, sc)

def shift0_task(h, w):
    x, v = mk(h, 'x', w)
    c, k = mk(h, 'c', 1)
    s, sc = snap(x), snap(c)
    for typ in ('LSL', 'LSR', 'ASR', 'ROR'):
        inv(h, '%s by 0' % typ, getattr(HP(h), typ)(x, 0), w, v)
        kept(h, 'x', x, s)
    want, carry = ref(h, 'RRX', v, 1, w, k)
    r = HP(h).RRX_C(x, c)
    inv(h, 'RRX_C result', r[0], w, want)
    inv(h, 'RRX_C carry', r[1], 1, carry)
    inv(h, 'RRX', HP(h).RRX(x, c), w, want)
    kept(h, 'x', x, s); kept(h, 'carry in', c, sc)

TYPES = ('None', 'LSL', 'LSR', 'ASR', 'ROR', 'RRX')
def dispatch_task(h, w, typ):
    x, v = mk(h, 'x', w)
    c, k = mk(h, 'c', 1)
    s, sc = snap(x), snap(c)
    ty = getattr(HP(h).SRType, 'SRType_' + typ)
    for n in ([0, 1] if typ == 'RRX' else [0] + dists(w)):
        if n < 0: continue
        want, carry = (v, k) if n == 0 or typ == 'None' else ref(h, typ, v, n, w, k)
        if n == 0 and typ == 'RRX': continue
        r = HP(h).Shift_C(x, ty, n, c)
        inv(h, 'Shift_C(%s, %d) result' % (typ, n), r[0], w, want)
        inv(h, 'Shift_C(%s, %d) carry' % (typ, n), r[1], 1, carry)
        inv(h, 'Shift(%s, %d)' % (typ, n), HP(h).Shift(x, ty, n, c), w, want)
    kept(h, 'x', x, s); kept(h, 'carry in', c, sc)

def dispatch_all_task(h, typ, far):
    """any width, any distance, 0 included"""
    w = h.width('w', None, 1)
    if typ == 'RRX': n = 1
    else:
        n = h.width('n', None, 0)
        if far is not None:
            if far: n = n + w + 1
            else: h.assume(n <= w)
    x, v = mk(h, 'x', w)
    c, k = mk(h, 'c', 1)
    s, sc = snap(x), snap(c)
    h.wide(*CALLEES)
    ty = getattr(HP(h).SRType, 'SRType_' + typ)
    want, carry = (v, k) if typ == 'None' or h.split(n == 0) else wide_ref(h, typ, v, n, w, k)
    r = HP(h).Shift_C(x, ty, n, c)
    inv(h, 'Shift_C result', r[0], w, want)
    inv(h, 'Shift_C carry', r[1], 1, carry)
    inv(h, 'Shift', HP(h).Shift(x, ty, n, c), w, want)
    kept(h, 'x', x, s); kept(h, 'carry in', c, sc)

def zero_all_task(h):
    w = h.width('w', None, 1)
    x, v = mk(h, 'x', w)
    s = snap(x)
    for typ in ('LSL', 'LSR', 'ASR', 'ROR'):
        inv(h, '%s by 0' % typ, getattr(HP(h), typ)(x, 0), w, v)
        kept(h, 'x', x, s)

for w in (1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33, 64):
    th = w in (31, 64)
    for typ in ('LSL', 'LSR', 'ASR', 'ROR'):
        add_task(('H02',), 'shift.%s.w%d' % (typ, w), shift_c_task, w, typ, functions=F(typ + '_C', typ), contracts=False,
                 bound='width %d, distances up to 256' % w, thorough=th)
    add_task(('H02',), 'shift.zero.w%d' % w, shift0_task, w, functions=F('LSL', 'LSR', 'ASR', 'ROR', 'RRX_C', 'RRX'), contracts=False, bound='width %d' % w, thorough=th)
    for typ in TYPES:
        if w in (1, 3, 8, 32):
            add_task(('H02',), 'dispatch.%s.w%d' % (typ, w), dispatch_task, w, typ, functions=F('Shift_C', 'Shift'), contracts=False, bound='width %d' % w)
for typ in ('LSL', 'LSR', 'ASR', 'ROR'):
    add_task(('H02',), 'shift.%s.all' % typ, shift_all_task, typ, math=True, functions=F(typ), contracts=False, budget=90)
    for far in ((0, 1) if typ == 'LSL' else (None,)):
        q = '' if far is None else ('.near', '.far')[far]
        add_task(('H02',), 'shift_c.%s.all%s' % (typ, q), shift_c_all_task, typ, far, math=True, functions=F(typ + '_C'), contracts=False, budget=90)
        add_task(('H02',), 'dispatch.%s.all%s' % (typ, q), dispatch_all_task, typ, far, math=True, functions=F('Shift_C', 'Shift'), contracts=False, budget=90)
add_task(('H02',), 'dispatch.None.all', dispatch_all_task, 'None', None, math=True, functions=F('Shift_C', 'Shift'), contracts=False, budget=60)
add_task(('H02',), 'dispatch.RRX.all', dispatch_all_task, 'RRX', None, math=True, functions=F('Shift_C', 'Shift'), contracts=False, budget=60)
add_task(('H02',), 'shift.zero.all', zero_all_task, math=True, functions=F('LSL', 'LSR', 'ASR', 'ROR'), contracts=False, budget=60)
add_task(('H02',), 'rrx.all', rrx_all_task, math=True, functions=F('RRX_C', 'RRX'), contracts=False, budget=60)

# ---------------------------------------------------------------- H03
def immshift_task(h):
    t = h.choice('type', (0, 1, 2, 3))
    ty = BS(h)(t, 2)
    im, v = mk(h, 'imm5', 5)
    s, st = snap(im), snap(ty)
    for tag in ('', 'again: '):
        r = HP(h).DecodeImmShift(ty, im)
        z = h.split(v == 0)
        name = ('LSL', 'LSR', 'ASR', 'RRX' if z else 'ROR')[t]
        h.check(tag + 'shift type', r[0] is getattr(HP(h).SRType, 'SRType_' + name))
        h.check(tag + 'distance', r[1] == ((0, 32, 32, 1)[t] if z else v))
        kept(h, 'imm5', im, s); kept(h, 'type', ty, st)

def expand_ref(h, v):
    top = v >> 10
    b = v & 0xff
    sel = (v >> 8) & 3
    plain = h.ite(sel == 0, b, h.ite(sel == 1, b | b << 16, h.ite(sel == 2, (b | b << 16) << 8, b | b << 8 | b << 16 | b << 24)))
    n = v >> 7
    u = 0x80 | (v & 0x7f)
    rot = 0
    for k in range(8, 32): rot = h.ite(n == k, (u >> k | u << (32 - k)) & 0xffffffff, rot)
    return h.ite(top == 0, plain, rot), top == 0

def expand_task(h):
    im, v = mk(h, 'imm12', 12)
    c, k = mk(h, 'c', 1)
    s, sc = snap(im), snap(c)
    want, plain = expand_ref(h, v)
    for tag in ('', 'again: '):
        inv(h, tag + 'ThumbExpandImm', HP(h).ThumbExpandImm(im), 32, want)
        r = HP(h).ThumbExpandImm_C(im, c)
        inv(h, tag + 'ThumbExpandImm_C constant', r[0], 32, want)
        inv(h, tag + 'ThumbExpandImm_C carry', r[1], 1, h.ite(plain, k, want >> 31))
        kept(h, 'imm12', im, s); kept(h, 'carry in', c, sc)

add_task(('H03',), 'immshift', immshift_task, functions=F('DecodeImmShift'), contracts=False)
add_task(('H03',), 'expand', expand_task, functions=F('ThumbExpandImm', 'ThumbExpandImm_C'), contracts=False)

# ---------------------------------------------------------------- U01
def UT(h): return h.p.utilities
def U(*n): return ['utilities:' + x for x in n]

def bseq(h, n, kind):
    xs = [h.int('b%d' % i, 0, 255) for i in range(n)]
    return xs, (tuple(xs) if kind == 'tuple' else h.mkbytes(xs) if kind == 'bytearray' else list(xs))

def same_list(h, tag, r, want):
    if not h.check(tag + ' length', h.call(len, r) == len(want)): return
    for i, x in enumerate(want): h.check('%s item %d' % (tag, i), r[i] == x)

def le_read_task(h, n, kind):
    xs, d = bseq(h, n, kind)
    for o in range(n):
        if o + 2 <= n: h.check('bytes_to_le16 at %d' % o, UT(h).bytes_to_le16(d, o) == xs[o] + (xs[o + 1] << 8))
        if o + 4 <= n: h.check('bytes_to_le32 at %d' % o, UT(h).bytes_to_le32(d, o) == xs[o] + (xs[o + 1] << 8) + (xs[o + 2] << 16) + (xs[o + 3] << 24))
    if n >= 2: h.check('bytes_to_le16', UT(h).bytes_to_le16(d) == xs[0] + (xs[1] << 8))
    if n >= 4: h.check('bytes_to_le32', UT(h).bytes_to_le32(d) == xs[0] + (xs[1] << 8) + (xs[2] << 16) + (xs[3] << 24))
    for i in range(n): h.check('data kept', d[i] == xs[i])

def le_any_offset_task(h, lo):
    """an arbitrary offset into data of any length"""
    data = h.array('data', 0, 255)
    o = h.int('o', 0, 1 << 40)
    g = lambda i: data[o + i]
    h.check('bytes_to_le16', UT(h).bytes_to_le16(data, o) == g(0) + (g(1) << 8))
    h.check('bytes_to_le32', UT(h).bytes_to_le32(data, o) == g(0) + (g(1) << 8) + (g(2) << 16) + (g(3) << 24))

def le_write_task(h):
    v = h.big('v', 40)
    for f, n in ((UT(h).le16_to_bytes, 2), (UT(h).le32_to_bytes, 4)):
        r = f(v)
        same_list(h, 'to %d bytes' % n, r, [(v >> (8 * i)) & 0xff for i in range(n)])
    h.check('le16 round trip', UT(h).bytes_to_le16(UT(h).le16_to_bytes(v)) == (v & 0xffff))
    h.check('le32 round trip', UT(h).bytes_to_le32(UT(h).le32_to_bytes(v)) == (v & 0xffffffff))

def to_words_task(h, n, size, kind):
    xs, d = bseq(h, n * size, kind)
    f = UT(h).byteListToU16leList if size == 2 else UT(h).byteListToU32leList
    g = UT(h).u16leListToByteList if size == 2 else UT(h).u32leListToByteList
    r = f(d)
    same_list(h, 'words', r, [sum(xs[i * size + k] << (8 * k) for k in range(size)) for i in range(n)])
    same_list(h, 'and back', g(r), xs)
    for i in range(n * size): h.check('data kept', d[i] == xs[i])

def to_bytes_task(h, n, size):
    vs = [h.int('v%d' % i, -(1 << 8 * size + 4), 1 << 8 * size + 4) for i in range(n)]
    d = list(vs)
    f = UT(h).byteListToU16leList if size == 2 else UT(h).byteListToU32leList
    g = UT(h).u16leListToByteList if size == 2 else UT(h).u32leListToByteList
    r = g(d)
    same_list(h, 'bytes', r, [(v >> (8 * k)) & 0xff for v in vs for k in range(size)])
    same_list(h, 'and back', f(r), [v & ((1 << 8 * size) - 1) for v in vs])
    for i in range(n): h.check('data kept', d[i] == vs[i])

def field_task(h, lo, hi):
    v = h.big('v', 66)
    f = h.big('f', 66)
    for lsb in range(lo, hi):
        for msb in list(range(lsb, 34)) + [40, 63]:
            if msb < lsb: continue
            n = msb - lsb + 1
            h.check('bfx(v, %d, %d)' % (msb, lsb), UT(h).bfx(v, msb, lsb) == ((v >> lsb) & ((1 << n) - 1)))
            h.check('bfi(v, f, %d, %d)' % (msb, lsb), UT(h).bfi(v, f, msb, lsb) == ((v >> (msb + 1)) << (msb + 1)) | ((f & ((1 << n) - 1)) << lsb) | (v & ((1 << lsb) - 1)))
        h.check('bfx(v, %d)' % lsb, UT(h).bfx(v, lsb) == ((v >> lsb) & 1))
        h.check('bfi(v, f, %d)' % lsb, UT(h).bfi(v, f, lsb) == ((v >> (lsb + 1)) << (lsb + 1)) | ((f & 1) << lsb) | (v & ((1 << lsb) - 1)))

def weight_task(h, n):
    v = h.int('v', 0, (1 << n) - 1)
    want = 0
    for k in range(n): want = want + ((v >> k) & 1)
    h.check('hamming_weight', UT(h).hamming_weight(v) == want)

def mask_task(h):
    """bitmask of every kind of argument"""
    for hi in range(0, 40):
        h.check('bitmask(%d)' % hi, UT(h).bitmask(hi) == 1 << hi)
        for lo in range(0, hi + 1):
            h.check('bitmask((%d, %d))' % (hi, lo), UT(h).bitmask((hi, lo)) == ((1 << (hi + 1)) - (1 << lo)))
        h.check('bitmask((%d, 3), 1, [0, 2, 2], 1)' % hi, UT(h).bitmask((hi, 3), 1, [0, 2, 2], 1) == ((((1 << (hi + 1)) - 8) if hi >= 3 else 0) | 7))
    h.check('bitmask()', UT(h).bitmask() == 0)
    h.check('bitmask([])', UT(h).bitmask([]) == 0)
    h.check('bitmask([5, 9], (12, 11))', UT(h).bitmask([5, 9], (12, 11)) == 0x1a20)
    h.check('bitmask(3, 3)', UT(h).bitmask(3, 3) == 8)

# any length, any position: loops with invariants
CONV = {2: ('byteListToU16leList', 'u16leListToByteList'), 4: ('byteListToU32leList', 'u32leListToByteList')}
for _f in ('byteListToU16leList', 'u16leListToByteList', 'byteListToU32leList', 'u32leListToByteList', 'hamming_weight', 'bitmask'):
    declare('utilities:' + _f)
declare('utilities:bitmask', 1)

def filling(h, name, lo, hi, step, j, want):
    """a list grows by `step` items an iteration; item j is `want` once it is there"""
    if not h.symbolic: return
    grows = lambda q: type(q) in (list, h.S.SList)
    role = {}
    def mine(env):
        return env[role['n']] if role else of(env, grows)[1]
    def havoc(env, i):
        role['n'] = of(env, grows)[0]
        return {role['n']: h.unknown_list('out', lo, hi, step * i)}
    def inv_(env, i):
        r = mine(env)
        if type(r) is list: return [('empty', len(r) == 0 and i == 0)]
        return [('length', r.slen() == step * i), ('item', h.or_(j >= step * i, h.at(r, j) == want))]
    h.loop('utilities:' + name, 0, havoc, inv_)

def words_all_task(h, size, k, kind):
    """item q of the words, for any q and any number of items, and byte k of it back again"""
    if h.symbolic:
        n = h.width('n')
        a = h.array('d', 0, 255)
        d = h.S.SBytes(a.a, h.S.N(size * n)) if kind == 'bytearray' else h.S.SList(a.a, h.S.N(size * n), None, 0, 255)
        q = h.width('q')
    else:
        n = h.int('n', 0, 40); q = h.int('q', 0, 40)
        a = h.array('d', 0, 255)
        d = [a.get(i) for i in range(size * n)]
        if kind == 'bytearray': d = bytearray(d)
    h.assume(q < n)
    item = lambda i: h.at(d, i)
    word = item(size * q)
    for i in range(1, size): word = word + (item(size * q + i) << (8 * i))
    byte = item(size * q + k)
    filling(h, CONV[size][0], 0, (1 << 8 * size) - 1, 1, q, word)
    r = getattr(UT(h), CONV[size][0])(d)
    h.check('number of words', h.call(len, r) == n)
    h.check('word q', r[q] == word)
    filling(h, CONV[size][1], 0, 255, size, size * q + k, byte)
    b = getattr(UT(h), CONV[size][1])(r)
    h.check('number of bytes', h.call(len, b) == size * n)
    h.check('byte k of word q is back', b[size * q + k] == byte)
    h.check('data kept', h.and_(h.call(len, d) == size * n, h.at(d, size * q + k) == byte))

def bytes_all_task(h, size, k):
    """byte k of item q, for any integers and any number of them, and the item back again"""
    v, n = h.items('v', -(1 << 8 * size + 4), 1 << 8 * size + 4)
    q = h.width('q') if h.symbolic else h.int('q', 0, 40)
    h.assume(q < n)
    x = h.at(v, q)
    b = low(h, x >> (8 * k), 8)
    filling(h, CONV[size][1], 0, 255, size, size * q + k, b)
    r = getattr(UT(h), CONV[size][1])(v)
    h.check('number of bytes', h.call(len, r) == size * n)
    h.check('byte k of item q', r[size * q + k] == b)
    h.check('data kept', h.and_(h.call(len, v) == n, h.at(v, q) == x))

def weight_all_task(h):
    v = h.big('v', 40, False) if not h.symbolic else h.width('v')
    count_loop(h, 'utilities:hamming_weight', v)
    h.check('hamming_weight', UT(h).hamming_weight(v) == h.popcount(v))

def run_of_ones(h, lsb):
    """bits lsb.. set one after the other"""
    if not h.symbolic: return
    role = {}
    def mask(i): return pow2(h, lsb + i) - pow2(h, lsb)
    def inv_(env, i):
        if not role: role['n'] = of(env, lambda q: is_num(h, q))[0]
        return [('bits so far', env[role['n']] == mask(i))]
    h.loop('utilities:bitmask', 1, lambda env, i: {role['n']: mask(i)}, inv_, optional=True)

def field_all_task(h, form):
    """any value, any field"""
    v, f = h.big('v', 66), h.big('f', 66)
    lsb = h.width('lsb')
    n = 1 if form == 'bit' else h.width('len', None, 1)
    msb = lsb + n - 1
    at = (msb,) if form == 'bit' else (msb, lsb)
    run_of_ones(h, lsb)
    h.check('bfx', UT(h).bfx(v, *at) == low(h, v >> lsb, n))
    run_of_ones(h, lsb)
    h.check('bfi', UT(h).bfi(v, f, *at) == v - (low(h, v >> lsb, n) << lsb) + (low(h, f, n) << lsb))

def mask_all_task(h):
    lsb = h.width('lsb')
    n = h.width('len')
    msb = lsb + n - 1
    run_of_ones(h, lsb)
    h.check('bitmask((msb, lsb))', UT(h).bitmask((msb, lsb)) == pow2(h, msb + 1) - pow2(h, lsb))
    h.check('bitmask(n)', UT(h).bitmask(lsb) == pow2(h, lsb))
    h.check('bitmask([n])', UT(h).bitmask([lsb]) == pow2(h, lsb))

def le_offset_all_task(h):
    """any offset into data of any length"""
    data = h.array('data', 0, 255)
    o = h.width('o')
    g = lambda i: data[o + i]
    h.check('bytes_to_le16', UT(h).bytes_to_le16(data, o) == g(0) + (g(1) << 8))
    h.check('bytes_to_le32', UT(h).bytes_to_le32(data, o) == g(0) + (g(1) << 8) + (g(2) << 16) + (g(3) << 24))

def wmask_task(h):
    n = h.width('n', None)
    h.check('wmask', UT(h).wmask(n) == pow2(h, n) - 1)
    v = h.big('v', 70)
    h.check('invert32', UT(h).invert32(v) == 0xffffffff - low(h, v, 32))

for size in (2, 4):
    for k in range(size):
        for kind in ('list', 'bytearray'):
            add_task(('U01',), 'words.%d.%s.all.%d' % (size * 8, kind, k), words_all_task, size, k, kind, math=True, functions=U(*CONV[size]), contracts=False, budget=60)
        add_task(('U01',), 'bytes.%d.all.%d' % (size * 8, k), bytes_all_task, size, k, math=True, functions=U(CONV[size][1]), contracts=False, budget=60)
add_task(('U01',), 'hamming.all', weight_all_task, math=True, functions=U('hamming_weight'), contracts=False, budget=60, assumes=TERM)
for form in ('field', 'bit'):
    add_task(('U01',), 'field.all.' + form, field_all_task, form, math=True, functions=U('bfx', 'bfi', 'bitmask'), contracts=False, budget=60)
add_task(('U01',), 'bitmask.all', mask_all_task, math=True, functions=U('bitmask'), contracts=False, budget=60)
add_task(('U01',), 'le.offset.all', le_offset_all_task, math=True, functions=U('bytes_to_le16', 'bytes_to_le32'), contracts=False, budget=60)
add_task(('U01',), 'le.write.all', le_write_task, math=True, functions=U('le16_to_bytes', 'le32_to_bytes'), contracts=False, budget=60)
for n in (2, 3, 4, 5, 8):
    for kind in ('list', 'tuple', 'bytearray'):
        add_task(('U01',), 'le.read.%s.%d' % (kind, n), le_read_task, n, kind, functions=U('bytes_to_le16', 'bytes_to_le32'), contracts=False, bound='data of %d bytes, every offset' % n)
add_task(('U01',), 'le.anyoffset', le_any_offset_task, 0, functions=U('bytes_to_le16', 'bytes_to_le32'), contracts=False)
add_task(('U01',), 'le.write', le_write_task, functions=U('le16_to_bytes', 'le32_to_bytes'), contracts=False, bound='integers of 43 bits')
for size in (2, 4):
    for n in (0, 1, 2, 3, 4, 5, 7, 8, 16, 33):
        for kind in ('list', 'bytearray'):
            add_task(('U01',), 'words.%d.%s.%d' % (size * 8, kind, n), to_words_task, n, size, kind, contracts=False, bound='lists of %d items' % n,
                     functions=U('byteListToU16leList', 'byteListToU32leList', 'u16leListToByteList', 'u32leListToByteList'))
        add_task(('U01',), 'bytes.%d.%d' % (size * 8, n), to_bytes_task, n, size, contracts=False, bound='lists of %d items' % n,
                 functions=U('byteListToU16leList', 'byteListToU32leList', 'u16leListToByteList', 'u32leListToByteList'))
for lo in range(0, 34, 6):
    add_task(('U01',), 'field.%d' % lo, field_task, lo, min(lo + 6, 34), functions=U('bfx', 'bfi', 'bitmask'), contracts=False, bound='values of 69 bits, fields within bits 0..33 and up to 40 and 63')
for n in (1, 8, 32, 40):
    add_task(('U01',), 'hamming.%d' % n, weight_task, n, functions=U('hamming_weight'), contracts=False, bound='values of %d bits' % n)
add_task(('U01',), 'bitmask', mask_task, functions=U('bitmask'), contracts=False, bound='bits 0..39')
add_task(('U01',), 'wmask.all', wmask_task, math=True, functions=U('wmask', 'invert32'), contracts=False, budget=60)

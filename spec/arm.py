"""Arm pseudocode functions over integers (dual: concrete or symbolic integers).
Written from the Armv7-M Architecture Reference Manual; independent of /repo."""

def mask(w): return (1 << w) - 1
def low(x, w): return x & ((1 << w) - 1)
def sint(x, w):
    """two's complement reading"""
    return x - ((x >> (w - 1)) << w) if w >= 1 else x

def add_with_carry(h, x, y, c, w=32):
    u = x + y + c
    res = low(u, w)
    carry = h.ite(u >= (1 << w), 1, 0)
    s = sint(x, w) + sint(y, w) + c
    ov = h.ite(h.or_(s < -(1 << (w - 1)), s >= (1 << (w - 1))), 1, 0)
    return res, carry, ov

LSL, LSR, ASR, ROR, RRX = 'LSL', 'LSR', 'ASR', 'ROR', 'RRX'

def shift_c(h, x, typ, n, cin, w=32):
    """Shift_C for n >= 0; n may be symbolic"""
    if typ is None:
        return x, cin
    if typ == RRX:
        return (cin << (w - 1)) | (x >> 1), x & 1
    if isinstance(n, int):
        if n == 0: return x, cin
        return shift1(h, x, typ, n, w)
    big = 2 * w if typ != ROR else None
    if typ == ROR:
        m = n % w if w & (w - 1) else n & (w - 1)
        y = x | (x << w)
        r = low(y >> m, w)
        c = (r >> (w - 1)) & 1
    elif typ == LSL:
        k = h.ite(n > w, w + 1, n)
        y = x << k
        r, c = low(y, w), (y >> w) & 1
    elif typ == LSR:
        k = h.ite(n > w, w + 1, n)
        y = (x << 1) >> k            # bit 0 is the last bit shifted out
        r, c = y >> 1, y & 1
    else:
        k = h.ite(n > w, w + 1, n)
        y = (sint(x, w) << 1) >> k
        r, c = low(y >> 1, w), y & 1
    z = n == 0
    return h.ite(z, x, r), h.ite(z, cin, c)

def shift1(h, x, typ, n, w):
    """n >= 1 concrete"""
    if typ == LSL:
        y = x << n
        return low(y, w), (y >> w) & 1
    if typ == LSR:
        return x >> n, (x >> (n - 1)) & 1
    if typ == ASR:
        s = sint(x, w)
        return low(s >> n, w), (s >> (n - 1)) & 1
    if typ == ROR:
        m = n % w
        r = low((x >> m) | (x << (w - m)), w)
        return r, (r >> (w - 1)) & 1
    raise ValueError(typ)

def decode_imm_shift(h, typ, imm5):
    """concrete 2-bit type; symbolic amount.  Returns a list of (condition, type, amount)"""
    z = imm5 == 0
    if typ == 0: return [(True, LSL, imm5)]
    if typ == 1: return [(True, LSR, h.ite(z, 32, imm5))]
    if typ == 2: return [(True, ASR, h.ite(z, 32, imm5))]
    return [(z, RRX, 1), (h.not_(z), ROR, imm5)]

def thumb_expand_imm_c(h, imm12, cin):
    """(imm32, carry) of a 12-bit code"""
    b = imm12 & 0xff
    plain = h.ite(((imm12 >> 8) & 3) == 0, b,
            h.ite(((imm12 >> 8) & 3) == 1, b | (b << 16),
            h.ite(((imm12 >> 8) & 3) == 2, (b << 8) | (b << 24),
                  b | (b << 8) | (b << 16) | (b << 24))))
    un = (imm12 & 0x7f) | 0x80
    rot = imm12 >> 7
    r = low((un | (un << 32)) >> rot, 32)
    isplain = (imm12 >> 10) == 0
    return h.ite(isplain, plain, r), h.ite(isplain, cin, (r >> 31) & 1)

def align(x, a): return x & ~(a - 1)

def cond_holds(h, cond, n, z, c, v):
    """concrete 4-bit condition on flag bits (ints)"""
    t = cond >> 1
    if t == 0: r = z == 1
    elif t == 1: r = c == 1
    elif t == 2: r = n == 1
    elif t == 3: r = v == 1
    elif t == 4: r = h.and_(c == 1, z == 0)
    elif t == 5: r = n == v
    elif t == 6: r = h.and_(n == v, z == 0)
    else: r = True
    return h.not_(r) if cond & 1 and cond != 15 else r

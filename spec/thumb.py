"""Independent description of the supported Thumb/Thumb-2 encodings, written from
the Armv7-M Architecture Reference Manual (not from the decoder's tables).

Every encoding gives: the bit pattern (letters are fields, the bits of a letter
are concatenated most significant first), the printed mnemonic and operands, the
conditions under which the manual calls the encoding unpredictable, and what
executing it does to an abstract machine.  Dual: works on symbolic and concrete
integers.
"""
from . import arm
from dv.harness import REGS

M32 = 0xffffffff

class Spec(object):
    def __init__(self):
        self.ops = []            # operand texts
        self.alts = []           # alternative operand lists with the same meaning
        self.comments = []
        self.must = False        # UnpredictableError required
        self.may = False         # Arm UNPREDICTABLE; decoding may report it or not, execution not judged
        self.undef = False       # not an encoding of this instruction: reported undefined
        self.also = False        # cases left open (see DESIGN)
        self.pcsrc = False       # reads the PC as a general operand (known finding)
        self.ex = None           # None: execution is not specified (exception generating)
        self.label = None
        self.skip = False        # the manual gives these bits to another encoding
        self.regs = None
        self.loose = False
        self.n = None
        self.mnem = None
        self.lists = False

class Enc(object):
    def __init__(self, name, pat, mnem, fn, props, kind, **kw):
        self.name = name; self.mnem = mnem; self.fn = fn; self.kw = kw
        self.xprop = props; self.kind = kind
        self.pat = pat.replace(' ', '').replace('|', '')
        assert len(self.pat) in (16, 32), (name, len(self.pat))
        self.size = len(self.pat) // 8
        self.except_ = kw.pop('except_', ())

    def match(self):
        n = len(self.pat)
        mask = val = 0
        for k, c in enumerate(self.pat):
            if c in '01':
                mask |= 1 << (n - 1 - k)
                val |= int(c) << (n - 1 - k)
        return mask, val

    def fields(self, w):
        """letter -> value, w being the word with the first halfword on top"""
        n = len(self.pat)
        out = {}
        k = 0
        while k < n:
            j = k
            while j < n and self.pat[j] == self.pat[k]: j += 1
            c = self.pat[k]
            if c not in '01':
                part = (w >> (n - j)) & ((1 << (j - k)) - 1)
                if c in out: out[c] = (out[c] << (j - k)) | part
                else: out[c] = part
            k = j
        return out

    def spec(self, h, w, addr):
        s = Spec()
        self.fn(h, s, addr, self, **dict(self.fields(w), **self.kw))
        return s

ENCODINGS = []
def enc(name, pat, mnem, xprop, kind='', **kw):
    def deco(fn):
        ENCODINGS.append(Enc(name, pat, mnem, fn, xprop, kind, **kw))
        return fn
    return deco

# ------------------------------------------------------------------ text parts
def R(h, n): return h.names(REGS, n)
def imm(h, s, v, hide=False):
    """immediate operand; its hexadecimal comment when above 9"""
    if hide and h.split(v == 0): return None
    if h.split(v > 9): s.comments.append(h.cat('0x', h.hex(v)))
    return h.cat('#', h.dec(v))
def label(h, s, addr, target):
    """relative label text and absolute comment.  target: exact (not yet wrapped)"""
    s.label = target & M32
    s.comments.append(h.cat('0x', h.hex(target & M32)))
    return h.cat('.', h.dec(target - addr, plus=True))
def mem(h, *ops): return h.cat('[', *sep(h, [o for o in ops if o is not None])) if False else \
    h.cat(*(['['] + sep(h, [o for o in ops if o is not None]) + [']']))
def sep(h, ops):
    out = []
    for k, o in enumerate(ops):
        if k: out.append(', ')
        out.append(o)
    return out

def text(h, halfwords, mnem, ops, comments):
    b = h.cat(*[x for k, hw in enumerate(halfwords) for x in ([' '] if k else []) + [h.hex(hw, 4)]])
    r = h.cat(h.ljust(b, 12), ' ', h.ljust(mnem, 8), *sep(h, ops))
    if comments:
        c = []
        for k, x in enumerate(comments):
            if k: c.append(' ')
            c.append(x)
        r = h.cat(h.ljust(r, 36), ' ; ', *c)
    return r

# ------------------------------------------------------------------ machine
class St(object):
    """oracle's view of the machine: m is a Machine (see tasks/isa.py)"""
    def __init__(self, h, m, pcoff=4):
        self.h = h; self.m = m; self.pcoff = pcoff
    def r(self, n):
        """core register operand; the PC reads as the instruction address + 4"""
        v = self.m.get(n)
        if isinstance(n, int):
            return (v + self.pcoff) & M32 if n == 15 else v
        return self.h.ite(n == 15, (self.m.get(15) + self.pcoff) & M32, v)
    def raw(self, n): return self.m.get(n)
    def w(self, n, v): self.m.put(n, v)
    def pc(self): return self.m.get(15)
    def adv(self, size): self.m.put(15, (self.m.get(15) + size) & M32)
    def branch(self, t): self.m.put(15, t)
    def flag(self, k): return (self.m.get(16) >> {'n': 31, 'z': 30, 'c': 29, 'v': 28}[k]) & 1
    def setf(self, **kw):
        x = self.m.get(16)
        for k, b in kw.items():
            p = {'n': 31, 'z': 30, 'c': 29, 'v': 28}[k]
            x = (x & ~(1 << p)) | (b << p)
        self.m.put(16, x)
    def nz(self, res):
        self.setf(n=(res >> 31) & 1, z=self.h.ite(res == 0, 1, 0))
    def load(self, a, n): return self.m.load(a & M32, n)
    def store(self, a, v, n): self.m.store(a & M32, v, n)

def both(a, b): return (a, b)
def bad(h, n): return h.or_(n == 13, n == 15)

def do_arith(h, st, size, d, x, y, cin, setf, dest=True, canpc=False):
    res, c, v = arm.add_with_carry(h, x, y, cin)
    if setf:
        st.nz(res); st.setf(c=c, v=v)
    if dest:
        if canpc and h.split(d == 15):
            st.branch(res & ~1 & M32); return
        st.w(d, res)
    st.adv(size)

def do_logic(h, st, size, d, res, setf, c=None, canpc=False, dest=True):
    if setf:
        st.nz(res)
        if c is not None: st.setf(c=c)
    if dest:
        if canpc and h.split(d == 15):
            st.branch(res & ~1 & M32); return
        st.w(d, res)
    st.adv(size)

def inv(x): return x ^ M32

# ------------------------------------------------------------------ 16-bit data processing
def dp16(name, op, mnem, prop, f, order='dm', kind='dp'):
    @enc(name, '010000 %s mmm ddd' % op, mnem, prop, kind)
    def _(h, s, addr, e, m, d):
        s.ops = {'dm': [R(h, d), R(h, m)], 'dmd': [R(h, d), R(h, m), R(h, d)], 'dm0': [R(h, d), R(h, m), '#0']}[order]
        s.ex = lambda st: f(h, st, d, m)

dp16('and_t1', '0000', 'ands', 'X02', lambda h, st, d, m: do_logic(h, st, 2, d, st.r(d) & st.r(m), True))
dp16('eor_t1', '0001', 'eors', 'X02', lambda h, st, d, m: do_logic(h, st, 2, d, st.r(d) ^ st.r(m), True))
dp16('orr_t1', '1100', 'orrs', 'X02', lambda h, st, d, m: do_logic(h, st, 2, d, st.r(d) | st.r(m), True))
dp16('bic_t1', '1110', 'bics', 'X02', lambda h, st, d, m: do_logic(h, st, 2, d, st.r(d) & inv(st.r(m)), True))
dp16('mvn_t1', '1111', 'mvns', 'X02', lambda h, st, d, m: do_logic(h, st, 2, d, inv(st.r(m)), True))
dp16('tst_t1', '1000', 'tst', 'X02', lambda h, st, d, m: do_logic(h, st, 2, d, st.r(d) & st.r(m), True, dest=False))
dp16('mul_t1', '1101', 'muls', 'X02', lambda h, st, d, m: do_logic(h, st, 2, d, (st.r(d) * st.r(m)) & M32, True), 'dmd')
dp16('adc_t1', '0101', 'adcs', 'X01', lambda h, st, d, m: do_arith(h, st, 2, d, st.r(d), st.r(m), st.flag('c'), True))
dp16('sbc_t1', '0110', 'sbcs', 'X01', lambda h, st, d, m: do_arith(h, st, 2, d, st.r(d), inv(st.r(m)), st.flag('c'), True))
dp16('rsb_t1', '1001', 'rsbs', 'X01', lambda h, st, d, m: do_arith(h, st, 2, d, inv(st.r(m)), 0, 1, True), 'dm0')
dp16('cmp_t1r', '1010', 'cmp', 'X01', lambda h, st, d, m: do_arith(h, st, 2, d, st.r(d), inv(st.r(m)), 1, True, dest=False))
dp16('cmn_t1', '1011', 'cmn', 'X01', lambda h, st, d, m: do_arith(h, st, 2, d, st.r(d), st.r(m), 0, True, dest=False))
def sh_reg(typ):
    def f(h, st, d, m):
        res, c = arm.shift_c(h, st.r(d), typ, st.r(m) & 0xff, st.flag('c'))
        do_logic(h, st, 2, d, res, True, c)
    return f
dp16('lsl_t2', '0010', 'lsls', 'X03', sh_reg(arm.LSL))
dp16('lsr_t2', '0011', 'lsrs', 'X03', sh_reg(arm.LSR))
dp16('asr_t2', '0100', 'asrs', 'X03', sh_reg(arm.ASR))
dp16('ror_t1', '0111', 'rors', 'X03', sh_reg(arm.ROR))

for _n, _op, _mn, _sub in (('add_imm_t1', '0', 'adds', False), ('sub_imm_t1', '1', 'subs', True)):
    @enc(_n, '000111 %s iii nnn ddd' % _op, _mn, 'X01', sub=_sub)
    def _(h, s, addr, e, i, n, d, sub):
        s.ops = [R(h, d), R(h, n), imm(h, s, i)]
        s.ex = lambda st: do_arith(h, st, 2, d, st.r(n), inv(i) if sub else i, int(sub), True)
for _n, _op, _mn, _sub in (('add_reg_t1', '0', 'adds', False), ('sub_reg_t1', '1', 'subs', True)):
    @enc(_n, '000110 %s mmm nnn ddd' % _op, _mn, 'X01', sub=_sub)
    def _(h, s, addr, e, m, n, d, sub):
        s.ops = [R(h, d), R(h, n), R(h, m)]
        s.ex = lambda st: do_arith(h, st, 2, d, st.r(n), inv(st.r(m)) if sub else st.r(m), int(sub), True)
for _n, _op, _mn, _sub in (('add_imm_t2', '10', 'adds', False), ('sub_imm_t2', '11', 'subs', True)):
    @enc(_n, '001 %s ddd iiiiiiii' % _op, _mn, 'X01', sub=_sub)
    def _(h, s, addr, e, d, i, sub):
        s.ops = [R(h, d), imm(h, s, i)]
        s.ex = lambda st: do_arith(h, st, 2, d, st.r(d), inv(i) if sub else i, int(sub), True)
@enc('cmp_imm_t1', '001 01 nnn iiiiiiii', 'cmp', 'X01')
def _(h, s, addr, e, n, i):
    s.ops = [R(h, n), imm(h, s, i)]
    s.ex = lambda st: do_arith(h, st, 2, n, st.r(n), inv(i), 1, True, dest=False)
@enc('mov_imm_t1', '001 00 ddd iiiiiiii', 'movs', 'X02')
def _(h, s, addr, e, d, i):
    s.ops = [R(h, d), imm(h, s, i)]
    s.ex = lambda st: do_logic(h, st, 2, d, i, True)

@enc('add_reg_t2', '010001 00 d mmmm ddd', 'add', 'X01')
def _(h, s, addr, e, d, m):
    s.skip = h.or_(d == 13, m == 13)          # see ADD (SP plus register)
    s.ops = [R(h, d), R(h, m)]
    s.may = h.and_(d == 15, m == 15)
    s.pcsrc = h.or_(d == 15, m == 15)
    s.ex = lambda st: do_arith(h, st, 2, d, st.r(d), st.r(m), 0, False, canpc=True)
@enc('add_sp_reg_t1', '010001 00 d 1101 ddd', 'add', 'X01')
def _(h, s, addr, e, d):
    s.ops = [R(h, d), 'sp', R(h, d)]
    s.pcsrc = d == 15
    s.ex = lambda st: do_arith(h, st, 2, d, st.r(13), st.r(d), 0, False, canpc=True)
@enc('add_sp_reg_t2', '010001 00 1 mmmm 101', 'add', 'X01')
def _(h, s, addr, e, m):
    s.skip = m == 13                          # see encoding T1
    s.ops = ['sp', R(h, m)]
    s.pcsrc = m == 15
    s.ex = lambda st: do_arith(h, st, 2, 13, st.r(13), st.r(m), 0, False)
@enc('add_sp_imm_t1', '1010 1 ddd iiiiiiii', 'add', 'X01')
def _(h, s, addr, e, d, i):
    v = i << 2
    s.ops = [R(h, d), 'sp', imm(h, s, v)]
    s.ex = lambda st: do_arith(h, st, 2, d, st.r(13), v, 0, False)
for _n, _op, _mn, _sub in (('add_sp_imm_t2', '0', 'add', False), ('sub_sp_imm_t1', '1', 'sub', True)):
    @enc(_n, '1011 0000 %s iiiiiii' % _op, _mn, 'X01', sub=_sub)
    def _(h, s, addr, e, i, sub):
        v = i << 2
        s.ops = ['sp', imm(h, s, v)]
        s.ex = lambda st: do_arith(h, st, 2, 13, st.r(13), inv(v) if sub else v, int(sub), False)

for _n, _op, _mn, _t in (('lsl_imm_t1', '00', 'lsls', arm.LSL), ('lsr_imm_t1', '01', 'lsrs', arm.LSR), ('asr_imm_t1', '10', 'asrs', arm.ASR)):
    @enc(_n, '000 %s iiiii mmm ddd' % _op, _mn, 'X03', t=_t)
    def _(h, s, addr, e, i, m, d, t):
        if t == arm.LSL:
            s.skip = i == 0                   # see MOV (register) T2
            n = i
        else:
            n = h.ite(i == 0, 32, i)
        s.ops = [R(h, d), R(h, m), imm(h, s, n)]
        def ex(st):
            res, c = arm.shift_c(h, st.r(m), t, n, st.flag('c'))
            do_logic(h, st, 2, d, res, True, c)
        s.ex = ex
@enc('mov_reg_t2', '000 00 00000 mmm ddd', 'movs', 'X02')
def _(h, s, addr, e, m, d):
    s.ops = [R(h, d), R(h, m)]
    s.ex = lambda st: do_logic(h, st, 2, d, st.r(m), True)
@enc('mov_reg_t1', '010001 10 d mmmm ddd', 'mov', 'X02')
def _(h, s, addr, e, d, m):
    s.ops = [R(h, d), R(h, m)]
    s.pcsrc = m == 15
    s.ex = lambda st: do_logic(h, st, 2, d, st.r(m), False, canpc=True)
@enc('cmp_reg_t2', '010001 01 n mmmm nnn', 'cmp', 'X01')
def _(h, s, addr, e, n, m):
    s.ops = [R(h, n), R(h, m)]
    s.may = h.or_(h.and_(n < 8, m < 8), n == 15, m == 15)
    s.ex = lambda st: do_arith(h, st, 2, n, st.r(n), inv(st.r(m)), 1, True, dest=False)

@enc('adr_t1', '1010 0 ddd iiiiiiii', 'adr', 'X01', 'label')
def _(h, s, addr, e, d, i):
    t = lambda a: ((a + 4) & ~3) + (i << 2)
    s.ops = [R(h, d), label(h, s, addr, t(addr))]
    def ex(st):
        st.w(d, t(st.pc()) & M32); st.adv(2)
    s.ex = ex

def do_extend(h, st, size, d, m, rot, width, signed):
    x = st.r(m)
    y = arm.low((x | (x << 32)) >> rot, width)
    st.w(d, h.sext(y, width) if signed else y)
    st.adv(size)
for _n, _op, _mn, _w, _s in (('sxth_t1', '00', 'sxth', 16, True), ('sxtb_t1', '01', 'sxtb', 8, True),
                             ('uxth_t1', '10', 'uxth', 16, False), ('uxtb_t1', '11', 'uxtb', 8, False)):
    @enc(_n, '1011 0010 %s mmm ddd' % _op, _mn, 'X02', width=_w, signed=_s)
    def _(h, s, addr, e, m, d, width, signed):
        s.ops = [R(h, d), R(h, m)]
        s.ex = lambda st: do_extend(h, st, 2, d, m, 0, width, signed)

def byte(x, k): return (x >> (8 * k)) & 0xff
def rev_val(h, x, kind):
    if kind == 'rev': return byte(x, 0) << 24 | byte(x, 1) << 16 | byte(x, 2) << 8 | byte(x, 3)
    if kind == 'rev16': return byte(x, 2) << 24 | byte(x, 3) << 16 | byte(x, 0) << 8 | byte(x, 1)
    return h.sext(byte(x, 0), 8, 24) << 8 | byte(x, 1)
for _n, _op in (('rev', '00'), ('rev16', '01'), ('revsh', '11')):
    @enc(_n + '_t1', '1011 1010 %s mmm ddd' % _op, _n, 'X02', k=_n)
    def _(h, s, addr, e, m, d, k):
        s.ops = [R(h, d), R(h, m)]
        s.ex = lambda st: do_logic(h, st, 2, d, rev_val(h, st.r(m), k), False)

# ------------------------------------------------------------------ branches
CONDS = ('eq', 'ne', 'cs', 'cc', 'mi', 'pl', 'vs', 'vc', 'hi', 'ls', 'ge', 'lt', 'gt', 'le')
def do_branch(h, st, size, off, link=False):
    a = st.pc()
    if link: st.w(14, ((a + size) & M32) | 1)
    st.branch((a + 4 + off) & M32)
for _c, _mn in enumerate(CONDS):
    @enc('b_t1_' + _mn, '1101 %s iiiiiiii' % format(_c, '04b'), 'b' + _mn, 'X04', 'label', c=_c)
    def _(h, s, addr, e, i, c):
        off = h.sgn(i, 8) * 2
        s.ops = [label(h, s, addr, addr + 4 + off)]
        def ex(st):
            if h.split(arm.cond_holds(h, c, st.flag('n'), st.flag('z'), st.flag('c'), st.flag('v'))):
                do_branch(h, st, 2, off)
            else: st.adv(2)
        s.ex = ex
@enc('b_t2', '11100 iiiiiiiiiii', 'b', 'X04', 'label')
def _(h, s, addr, e, i):
    off = h.sgn(i, 11) * 2
    s.ops = [label(h, s, addr, addr + 4 + off)]
    s.ex = lambda st: do_branch(h, st, 2, off)
@enc('bl_t1', '11110 S iiiiiiiiii | 11 j 1 k lllllllllll', 'bl', 'X04', 'label')
def _(h, s, addr, e, S, i, j, k, l):
    i1 = 1 ^ (j ^ S)
    i2 = 1 ^ (k ^ S)
    off = h.sgn((S << 24) | (i1 << 23) | (i2 << 22) | (i << 12) | (l << 1), 25)
    s.ops = [label(h, s, addr, addr + 4 + off)]
    s.ex = lambda st: do_branch(h, st, 4, off, link=True)
@enc('bx_t1', '010001 110 mmmm 000', 'bx', 'X04')
def _(h, s, addr, e, m):
    s.ops = [R(h, m)]
    s.pcsrc = m == 15
    s.ex = lambda st: st.branch(st.r(m) & ~1 & M32)
@enc('blx_t1', '010001 111 mmmm 000', 'blx', 'X04')
def _(h, s, addr, e, m):
    s.ops = [R(h, m)]
    s.may = m == 15
    def ex(st):
        t = st.r(m)
        a = st.pc()
        st.w(14, ((a + 2) & M32) | 1)
        st.branch(t & ~1 & M32)
    s.ex = ex

# ------------------------------------------------------------------ loads and stores
def do_load(h, st, size, t, a, nbytes, signed, canpc=False):
    v = st.load(a, nbytes)
    if signed: v = h.sext(v, 8 * nbytes)
    if canpc and h.split(t == 15):
        st.branch(v & ~1 & M32); return
    st.w(t, v)
    st.adv(size)
def do_store(h, st, size, t, a, nbytes):
    st.store(a, arm.low(st.r(t), 8 * nbytes), nbytes)
    st.adv(size)

REGFORMS = (('str', '000', 'st', 4, 0), ('strh', '001', 'st', 2, 0), ('strb', '010', 'st', 1, 0), ('ldrsb', '011', 'ld', 1, 1),
            ('ldr', '100', 'ld', 4, 0), ('ldrh', '101', 'ld', 2, 0), ('ldrb', '110', 'ld', 1, 0), ('ldrsh', '111', 'ld', 2, 1))
for _mn, _op, _k, _nb, _sg in REGFORMS:
    @enc(_mn + '_reg_t1', '0101 %s mmm nnn ttt' % _op, _mn, 'X05', k=_k, nb=_nb, sg=_sg)
    def _(h, s, addr, e, m, n, t, k, nb, sg):
        s.ops = [R(h, t), mem(h, R(h, n), R(h, m))]
        def ex(st):
            a = (st.r(n) + st.r(m)) & M32
            if k == 'ld': do_load(h, st, 2, t, a, nb, sg)
            else: do_store(h, st, 2, t, a, nb)
        s.ex = ex
for _mn, _op, _k, _nb in (('str', '01100', 'st', 4), ('ldr', '01101', 'ld', 4), ('strb', '01110', 'st', 1),
                          ('ldrb', '01111', 'ld', 1), ('strh', '10000', 'st', 2), ('ldrh', '10001', 'ld', 2)):
    @enc(_mn + '_imm_t1', '%s iiiii nnn ttt' % _op, _mn, 'X05', k=_k, nb=_nb)
    def _(h, s, addr, e, i, n, t, k, nb):
        off = i * nb
        s.ops = [R(h, t), mem(h, R(h, n), imm(h, s, off, hide=True))]
        def ex(st):
            a = (st.r(n) + off) & M32
            if k == 'ld': do_load(h, st, 2, t, a, nb, False)
            else: do_store(h, st, 2, t, a, nb)
        s.ex = ex
for _mn, _op, _k in (('str', '0', 'st'), ('ldr', '1', 'ld')):
    @enc(_mn + '_sp_t2', '1001 %s ttt iiiiiiii' % _op, _mn, 'X05', k=_k)
    def _(h, s, addr, e, t, i, k):
        off = i << 2
        s.ops = [R(h, t), mem(h, 'sp', imm(h, s, off, hide=True))]
        def ex(st):
            a = (st.r(13) + off) & M32
            if k == 'ld': do_load(h, st, 2, t, a, 4, False)
            else: do_store(h, st, 2, t, a, 4)
        s.ex = ex
@enc('ldr_lit_t1', '01001 ttt iiiiiiii', 'ldr', 'X05')
def _(h, s, addr, e, t, i):
    s.ops = [R(h, t), mem(h, 'pc', imm(h, s, i << 2))]
    s.ex = lambda st: do_load(h, st, 2, t, (((st.pc() + 4) & M32 & ~3) + (i << 2)) & M32, 4, False)

for _mn, _op, _k, _nb, _sg in (('ldrb', '00 0 0 00 1', 'ld', 1, 0), ('ldrh', '00 0 0 01 1', 'ld', 2, 0), ('ldr', '00 0 0 10 1', 'ld', 4, 0),
                               ('ldrsb', '00 1 0 00 1', 'ld', 1, 1), ('ldrsh', '00 1 0 01 1', 'ld', 2, 1),
                               ('strb', '00 0 0 00 0', 'st', 1, 0), ('strh', '00 0 0 01 0', 'st', 2, 0), ('str', '00 0 0 10 0', 'st', 4, 0)):
    @enc(_mn + '_reg_t2', '11111 %s nnnn | tttt 0 00000 ii mmmm' % _op, _mn + '.w', 'X05', k=_k, nb=_nb, sg=_sg)
    def _(h, s, addr, e, n, t, i, m, k, nb, sg):
        if k == 'ld':
            s.skip = n == 15                          # literal form
            if nb != 4:
                s.undef = h.and_(n != 15, t == 15)    # preload hints, not supported
                s.may = h.or_(t == 13, bad(h, m))
            else: s.may = bad(h, m)
        else:
            s.undef = n == 15
            s.may = h.or_(t == 15, bad(h, m)) if nb == 4 else h.or_(bad(h, t), bad(h, m))
        s.ops = [R(h, t), mem(h, R(h, n), R(h, m), h.cat('LSL #', h.dec(i)))]
        s.alts = [(i == 0, [R(h, t), mem(h, R(h, n), R(h, m))])]
        def ex(st):
            a = (st.r(n) + (st.r(m) << i)) & M32
            if k == 'ld': do_load(h, st, 4, t, a, nb, sg, canpc=nb == 4)
            else: do_store(h, st, 4, t, a, nb)
        s.ex = ex
for _mn, _op, _nb, _sg in (('ldr', '00 0 u 10 1', 4, 0), ('ldrh', '00 0 u 01 1', 2, 0), ('ldrb', '00 0 u 00 1', 1, 0),
                           ('ldrsh', '00 1 u 01 1', 2, 1), ('ldrsb', '00 1 u 00 1', 1, 1)):
    @enc(_mn + '_lit_t2', '11111 %s 1111 | tttt iiiiiiiiiiii' % _op, _mn + '.w', 'X05', nb=_nb, sg=_sg)
    def _(h, s, addr, e, u, t, i, nb, sg):
        s.undef = t == 15                             # hints / load to PC: not supported
        if nb != 4: s.may = t == 13
        up = h.split(u == 1)
        if h.split(i == 0): o = None
        elif up: o = imm(h, s, i)
        else: o = h.cat('#-', h.dec(i))
        s.ops = [R(h, t), mem(h, 'pc', o)]
        def ex(st):
            b = (st.pc() + 4) & M32 & ~3
            do_load(h, st, 4, t, (b + i if up else b - i) & M32, nb, sg)
        s.ex = ex

# ------------------------------------------------------------------ multiple transfers
def bit(v, k): return (v >> k) & 1
def do_push(h, st, size, regs, n=16):
    cnt = h.popcount(regs)
    a = (st.raw(13) - 4 * cnt) & M32
    pre = st.m.copy()
    st.w(13, a)
    for k in range(n):
        b = bit(regs, k)
        if isinstance(b, int) and b == 0: continue
        st.m.store_if(b == 1, a, pre.get(k), 4)
        a = h.ite(b == 1, (a + 4) & M32, a)
    st.adv(size)
def do_pop(h, st, size, regs):
    cnt = h.popcount(regs)
    a = st.raw(13)
    st.w(13, (a + 4 * cnt) & M32)
    for k in range(15):
        b = bit(regs, k)
        if isinstance(b, int) and b == 0: continue
        st.m.put_if(b == 1, k, st.load(a, 4))
        a = h.ite(b == 1, (a + 4) & M32, a)
    if h.split(bit(regs, 15) == 1): st.branch(st.load(a, 4))
    else: st.adv(size)
def do_ldm(h, st, size, n, regs, wback):
    cnt = h.popcount(regs)
    base = st.raw(n)
    a = base
    for k in range(15):
        b = bit(regs, k)
        if isinstance(b, int) and b == 0: continue
        st.m.put_if(b == 1, k, st.load(a, 4))
        a = h.ite(b == 1, (a + 4) & M32, a)
    if h.split(bit(regs, 15) == 1): st.branch(st.load(a, 4))
    else: st.adv(size)
    if wback is not False:
        st.m.put_if(wback, n, (base + 4 * cnt) & M32)
def do_stm(h, st, size, n, regs, wback):
    base = st.raw(n)
    a = base
    pre = st.m.copy()
    for k in range(15):
        b = bit(regs, k)
        if isinstance(b, int) and b == 0: continue
        st.m.store_if(b == 1, a, pre.get(k), 4)
        a = h.ite(b == 1, (a + 4) & M32, a)
    if wback is not False: st.m.put_if(wback, n, a)
    st.adv(size)

@enc('push_t1', '1011010 m rrrrrrrr', 'push', 'X06', 'list')
def _(h, s, addr, e, m, r):
    regs = (m << 14) | r
    s.must = regs == 0
    s.ops = [h.reglist(regs)]
    s.regs = regs
    s.ex = lambda st, L=None: do_push(h, st, 2, regs if L is None else L)
@enc('push_t2', '1110100100101101 | 0 m 0 rrrrrrrrrrrrr', 'push.w', 'X06', 'list')
def _(h, s, addr, e, m, r):
    regs = (m << 14) | r
    s.must = regs == 0
    s.also = h.popcount(regs) == 1                     # see PUSH T3 / unpredictable
    s.ops = [h.reglist(regs)]
    s.regs = regs
    s.ex = lambda st, L=None: do_push(h, st, 4, regs if L is None else L)
@enc('push_t3', '1111100001001101 | tttt 1101 00000100', 'push.w', 'X06', 'list')
def _(h, s, addr, e, t):
    s.must = bad(h, t)
    s.ops = [h.cat('{', R(h, t), '}')]
    s.regs = 1 << t
    def ex(st, L=None):
        if L is not None: return do_push(h, st, 4, L)
        a = (st.raw(13) - 4) & M32
        v = st.raw(t)
        st.w(13, a); st.store(a, v, 4); st.adv(4)
    s.ex = ex
@enc('pop_t1', '1011110 p rrrrrrrr', 'pop', 'X06', 'list')
def _(h, s, addr, e, p, r):
    regs = (p << 15) | r
    s.must = regs == 0
    s.ops = [h.reglist(regs)]
    s.regs = regs
    s.ex = lambda st, L=None: do_pop(h, st, 2, regs if L is None else L)
@enc('pop_t2', '1110100010111101 | p m 0 rrrrrrrrrrrrr', 'pop.w', 'X06', 'list')
def _(h, s, addr, e, p, m, r):
    regs = (p << 15) | (m << 14) | r
    s.must = h.or_(h.popcount(regs) < 2, h.and_(p == 1, m == 1))
    s.ops = [h.reglist(regs)]
    s.regs = regs
    s.ex = lambda st, L=None: do_pop(h, st, 4, regs if L is None else L)
@enc('pop_t3', '1111100001011101 | tttt 1011 00000100', 'pop.w', 'X06', 'list')
def _(h, s, addr, e, t):
    s.may = t == 13
    s.ops = [h.cat('{', R(h, t), '}')]
    s.regs = 1 << t
    def ex(st, L=None):
        if L is not None: return do_pop(h, st, 4, L)
        a = st.raw(13)
        v = st.load(a, 4)
        st.w(13, (a + 4) & M32)
        if h.split(t == 15): st.branch(v)
        else:
            st.w(t, v); st.adv(4)
    s.ex = ex
def lowest(h, regs, n):
    """no register below n in the list"""
    return (regs & ((1 << n) - 1)) == 0
@enc('stm_t1', '1100 0 nnn rrrrrrrr', 'stm', 'X06', 'list')
def _(h, s, addr, e, n, r):
    s.must = r == 0
    s.ops = [h.cat(R(h, n), '!'), h.reglist(r)]
    s.regs = r
    s.loose = h.and_(((r >> n) & 1) == 1, h.not_(lowest(h, r, n)))   # stored base value unknown
    s.n = n
    s.ex = lambda st, L=None: do_stm(h, st, 2, n, r if L is None else L, True)
@enc('ldm_t1', '1100 1 nnn rrrrrrrr', 'ldm', 'X06', 'list')
def _(h, s, addr, e, n, r):
    s.must = r == 0
    wb = ((r >> n) & 1) == 0
    s.ops = [h.cat(R(h, n), '!') if h.split(wb) else R(h, n), h.reglist(r)]
    s.regs = r
    s.ex = lambda st, L=None: do_ldm(h, st, 2, n, r if L is None else L, wb if L is None else ((L >> n) & 1) == 0)
@enc('stm_t2', '1110100010 w 0 nnnn | 0 m 0 rrrrrrrrrrrrr', 'stm.w', 'X06', 'list')
def _(h, s, addr, e, w, n, m, r):
    regs = (m << 14) | r
    s.must = h.or_(n == 15, h.popcount(regs) < 2, h.and_(w == 1, ((regs >> n) & 1) == 1))
    s.ops = [h.cat(R(h, n), '!') if h.split(w == 1) else R(h, n), h.reglist(regs)]
    s.regs = regs
    s.ex = lambda st, L=None: do_stm(h, st, 4, n, regs if L is None else L, w == 1)
@enc('ldm_t2', '1110100010 w 1 nnnn | p m 0 rrrrrrrrrrrrr', 'ldm.w', 'X06', 'list')
def _(h, s, addr, e, w, n, p, m, r):
    regs = (p << 15) | (m << 14) | r
    s.skip = h.and_(w == 1, n == 13)                     # see POP
    s.must = h.or_(n == 15, h.popcount(regs) < 2, h.and_(p == 1, m == 1), h.and_(w == 1, ((regs >> n) & 1) == 1))
    s.ops = [h.cat(R(h, n), '!') if h.split(w == 1) else R(h, n), h.reglist(regs)]
    s.regs = regs
    s.ex = lambda st, L=None: do_ldm(h, st, 4, n, regs if L is None else L, w == 1)

# ------------------------------------------------------------------ system
@enc('cps_t1', '1011 0110 011 m 00 i f', 'cps', 'X07')
def _(h, s, addr, e, m, i, f):
    s.must = h.and_(i == 0, f == 0)
    dis = h.split(m == 1)
    s.mnem = 'cpsid' if dis else 'cpsie'
    fi = h.split(i == 1); ff = h.split(f == 1)
    s.ops = [('i' if fi else '') + ('f' if ff else '')]
    def ex(st):
        if st.m.privileged():
            if fi: st.m.put(-1, int(dis))
            if ff: st.m.put(-3, int(dis))
        st.adv(2)
    s.ex = ex

def nop_ex(size): return lambda st: st.adv(size)
for _k, _mn in enumerate(('nop', 'yield', 'wfe', 'wfi', 'sev')):
    @enc(_mn, '1011 1111 %s 0000' % format(_k, '04b'), _mn, 'X07', 'hint')
    def _(h, s, addr, e):
        s.ex = nop_ex(2)
for _mn, _pat, _sz in (('bkpt', '1011 1110 iiiiiiii', 2), ('udf', '1101 1110 iiiiiiii', 2), ('svc', '1101 1111 iiiiiiii', 2),
                       ('udf.w', '111101111111 iiii | 1010 iiiiiiiiiiii', 4)):
    @enc(_mn, _pat, _mn, None, 'exc')
    def _(h, s, addr, e, i):
        s.ops = [imm(h, s, i)]
for _mn, _op in (('dsb', '0100'), ('dmb', '0101'), ('isb', '0110')):
    @enc(_mn, '1111001110111111 | 1000 1111 %s oooo' % _op, _mn, 'X07')
    def _(h, s, addr, e, o):
        s.ops = ['sy' if h.split(o == 15) else h.cat('#', h.dec(o))]
        s.ex = nop_ex(4)

SYSM = {0: 'APSR', 1: 'IAPSR', 2: 'EAPSR', 3: 'XPSR', 5: 'IPSR', 6: 'EPSR', 7: 'IEPSR', 8: 'MSP', 9: 'PSP', 16: 'PRIMASK',
        17: 'BASEPRI', 18: 'BASEPRI_MAX', 19: 'FAULTMASK', 20: 'CONTROL'}
def sysname(h, s, y):
    """splits on the special register number; None if reserved"""
    for k in sorted(SYSM):
        if h.split(y == k): return k
    return None
@enc('mrs', '1111001111101111 | 1000 dddd yyyyyyyy', 'mrs', 'X07')
def _(h, s, addr, e, d, y):
    k = sysname(h, s, y)
    if k is None:
        s.must = True
        return
    s.must = bad(h, d)
    s.ops = [R(h, d), SYSM[k]]
    def ex(st):
        x = st.m.get(16)
        priv = st.m.privileged()
        v = 0
        if k < 8:
            if k & 1: v = v | (x & 0x1ff)
            if not k & 4: v = v | (x & 0xf8000000)
        elif k == 8: v = st.m.get(17) if priv else 0
        elif k == 9: v = st.m.get(18) if priv else 0
        elif k == 16: v = st.m.get(-1) & 1 if priv else 0
        elif k in (17, 18): v = st.m.get(-2) & 0xff if priv else 0
        elif k == 19: v = st.m.get(-3) & 1 if priv else 0
        else: v = st.m.get(-4) & 3
        st.w(d, v)
        st.adv(4)
    s.ex = ex
@enc('msr', '111100111000 nnnn | 1000 mm 00 yyyyyyyy', 'msr', 'X07', 'msr')
def _(h, s, addr, e, n, m, y):
    k = sysname(h, s, y)
    if k is None:
        s.must = True
        return
    s.must = h.or_(m == 0, h.and_(m != 2, k > 3), bad(h, n))
    suf = ''
    if k <= 3:
        for q, t in ((2, '_nzcvq'), (1, '_g'), (3, '_nzcvqg')):
            if h.split(m == q): suf = t; break
    s.ops = [SYSM[k] + suf, R(h, n)]
    s.ex = None

# ------------------------------------------------------------------ 32-bit data processing
def timm(h, i):
    """(value, unpredictable) of a modified immediate"""
    v, _ = arm.thumb_expand_imm_c(h, i, 0)
    return v, h.and_((i >> 10) == 0, ((i >> 8) & 3) != 0, (i & 0xff) == 0)
for _s in (0, 1):
    @enc('rsb_imm_t2_%d' % _s, '11110 i 01110 %d nnnn | 0 iii dddd iiiiiiii' % _s, 'rsbs.w' if _s else 'rsb.w', 'X01', S=_s)
    def _(h, s, addr, e, i, n, d, S):
        v, u = timm(h, i)
        s.must = h.or_(bad(h, d), bad(h, n))
        s.may = u
        s.ops = [R(h, d), R(h, n), imm(h, s, v)]
        s.ex = lambda st: do_arith(h, st, 4, d, inv(st.r(n)), v, 1, S == 1)
    @enc('mov_imm_t2_%d' % _s, '11110 i 00010 %d 1111 | 0 iii dddd iiiiiiii' % _s, 'movs.w' if _s else 'mov.w', 'X02', S=_s)
    def _(h, s, addr, e, i, d, S):
        v, u = timm(h, i)
        s.may = h.or_(bad(h, d), u)
        s.ops = [R(h, d), imm(h, s, v)]
        def ex(st):
            r, c = arm.thumb_expand_imm_c(h, i, st.flag('c'))
            do_logic(h, st, 4, d, r, S == 1, c)
        s.ex = ex
    @enc('mov_reg_t3_%d' % _s, '11101010010 %d 1111 | 0000 dddd 0000 mmmm' % _s, 'movs.w' if _s else 'mov.w', 'X02', S=_s)
    def _(h, s, addr, e, d, m, S):
        s.may = h.or_(bad(h, d), bad(h, m)) if S else h.or_(d == 15, m == 15, h.and_(d == 13, m == 13))
        s.ops = [R(h, d), R(h, m)]
        s.ex = lambda st: do_logic(h, st, 4, d, st.r(m), S == 1)
    for _t in range(4):
        @enc('mvn_reg_t2_%d%d' % (_s, _t), '11101010011 %d 1111 | 0 iii dddd ii %s mmmm' % (_s, format(_t, '02b')),
             'mvns.w' if _s else 'mvn.w', 'X02', S=_s, t=_t)
        def _(h, s, addr, e, i, d, m, S, t):
            s.may = h.or_(bad(h, d), bad(h, m))
            typ, n, o = shiftop(h, s, t, i)
            s.ops = [R(h, d), R(h, m)] + ([o] if o is not None else [])
            if o is None: s.alts = [(True, s.ops + ['LSL #0'])]
            def ex(st):
                x, c = arm.shift_c(h, st.r(m), typ, n, st.flag('c'))
                do_logic(h, st, 4, d, inv(x), S == 1, c)
            s.ex = ex
def shiftop(h, s, t, i):
    """(type, distance, text or None) of a decoded immediate shift"""
    if t == 0:
        if h.split(i == 0): return arm.LSL, 0, None
        return arm.LSL, i, h.cat('LSL #', h.dec(i))
    if t in (1, 2):
        n = h.ite(i == 0, 32, i)
        typ = (arm.LSR, arm.ASR)[t - 1]
        return typ, n, h.cat(typ, ' #', h.dec(n))
    if h.split(i == 0): return arm.RRX, 1, 'RRX #1'
    return arm.ROR, i, h.cat('ROR #', h.dec(i))
for _t in range(4):
    @enc('tst_reg_t2_%d' % _t, '111010100001 nnnn | 0 iii 1111 ii %s mmmm' % format(_t, '02b'), 'tst.w', 'X02', t=_t)
    def _(h, s, addr, e, n, i, m, t):
        s.must = h.or_(bad(h, n), bad(h, m))
        typ, k, o = shiftop(h, s, t, i)
        s.ops = [R(h, n), R(h, m)] + ([o] if o is not None else [])
        if o is None: s.alts = [(True, s.ops + ['LSL #0'])]
        def ex(st):
            x, c = arm.shift_c(h, st.r(m), typ, k, st.flag('c'))
            do_logic(h, st, 4, 0, st.r(n) & x, True, c, dest=False)
        s.ex = ex
@enc('mul_t2', '111110110000 nnnn | 1111 dddd 0000 mmmm', 'mul', 'X02')
def _(h, s, addr, e, n, d, m):
    s.must = h.or_(bad(h, d), bad(h, n), bad(h, m))
    s.ops = [R(h, d), R(h, n), R(h, m)]
    s.ex = lambda st: do_logic(h, st, 4, d, (st.r(n) * st.r(m)) & M32, False)
for _n, _op, _sub in (('adr_t2', '10101', True), ('adr_t3', '10000', False)):
    @enc(_n, '11110 i %s 0 1111 | 0 iii dddd iiiiiiii' % _op, 'adr.w', 'X01', 'label', sub=_sub)
    def _(h, s, addr, e, i, d, sub):
        s.may = bad(h, d)
        t = lambda a: ((a + 4) & ~3) + (-i if sub else i)
        s.ops = [R(h, d), label(h, s, addr, t(addr))]
        def ex(st):
            st.w(d, t(st.pc()) & M32); st.adv(4)
        s.ex = ex
for _mn, _op, _w, _sg in (('sxth', '000', 16, True), ('sxtb', '100', 8, True), ('uxth', '001', 16, False), ('uxtb', '101', 8, False)):
    @enc(_mn + '_t2', '111110100 %s 1111 | 1111 dddd 10 rr mmmm' % _op, _mn + '.w', 'X02', width=_w, signed=_sg)
    def _(h, s, addr, e, d, r, m, width, signed):
        s.may = h.or_(bad(h, d), bad(h, m))
        rot = r * 8
        s.ops = [R(h, d), R(h, m)]
        if not h.split(r == 0): s.ops.append(h.cat('ROR #', h.dec(rot)))
        s.ex = lambda st: do_extend(h, st, 4, d, m, rot, width, signed)
for _mn, _op in (('rev', '000'), ('rev16', '001'), ('revsh', '011')):
    @enc(_mn + '_t2', '111110101001 mmmm | 1111 dddd 1 %s kkkk' % _op, _mn + '.w', 'X02', kd=_mn)
    def _(h, s, addr, e, m, d, k, kd):
        s.must = m != k
        s.may = h.or_(bad(h, d), bad(h, m))
        s.ops = [R(h, d), R(h, m)]
        s.ex = lambda st: do_logic(h, st, 4, d, rev_val(h, st.r(m), kd), False)
@enc('movw', '11110 i 100100 jjjj | 0 iii dddd iiiiiiii', 'movw', 'X02')
def _(h, s, addr, e, i, j, d):
    v = (j << 12) | i
    s.may = bad(h, d)
    s.ops = [R(h, d), imm(h, s, v)]
    s.ex = lambda st: do_logic(h, st, 4, d, v, False)
for _mn, _op, _sub in (('cmp.w', '01101', True), ('cmn', '01000', False)):
    @enc(_mn + '_imm', '11110 i %s 1 nnnn | 0 iii 1111 iiiiiiii' % _op, _mn, 'X01', sub=_sub)
    def _(h, s, addr, e, i, n, sub):
        v, u = timm(h, i)
        s.may = h.or_(n == 15, u)
        s.ops = [R(h, n), imm(h, s, v)]
        s.ex = lambda st: do_arith(h, st, 4, n, st.r(n), inv(v) if sub else v, int(sub), True, dest=False)

assert len(set(e.name for e in ENCODINGS)) == len(ENCODINGS)

BY_NAME = {e.name: e for e in ENCODINGS}

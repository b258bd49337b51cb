"""M01: register routes.  M02: simulated memory.  M03: register write rules.

All histories follow by induction: an arbitrary reachable state is reached through
the public interface (every register, every byte of every region gets an arbitrary
value), one arbitrary operation is performed, and the whole state is compared with
the oracle's."""
from dv.harness import add_task, declare, Unfit
from tasks.bits import BS, is_bits, snap, mk

M32 = 0xffffffff
SPECIALS = {'control': -4, 'faultmask': -3, 'basepri': -2, 'primask': -1, 'xpsr': 16, 'msp': 17, 'psp': 18, 'fpscr': 33}
NAMES = {'r%d' % k: k for k in range(16)}
NAMES.update({'sp': 13, 'lr': 14, 'pc': 15})
NAMES.update(SPECIALS)
NAMES.update({'s%d' % k: 0x40 + k for k in range(32)})
NUMBERS = sorted(set(NAMES.values()))
CTRL, SP, MSP, PSP = -4, 13, 17, 18

class Oracle(object):
    """the documented register file"""
    def __init__(self, h): self.h = h; self.r = {}
    def sel(self): return self.h.ite(((self.r[CTRL] >> 1) & 1) == 1, self.r[PSP], self.r[MSP])
    def get(self, n): return self.sel() if n == SP else self.r[n]
    def set(self, n, v):
        h = self.h
        v = v & M32
        if n in (SP, MSP, PSP): v = v & (M32 - 3)
        elif n in (-1, -3): v = v & 1
        elif n == -2: v = v & 0xff
        if n == SP:
            psp = ((self.r[CTRL] >> 1) & 1) == 1
            self.r[PSP], self.r[MSP] = h.ite(psp, v, self.r[PSP]), h.ite(psp, self.r[MSP], v)
        else: self.r[n] = v

def new_cpu(h):
    cpu = h.p.model.CpuModel()
    cpu.delegate = h.p.mock_cpu.MockCpuModelDelegate()
    return cpu

PROPS = (('pc', 15), ('lr', 14), ('sp', 13), ('msp', 17), ('psp', 18), ('xpsr', 16))
FLAGS = (('n', 31), ('z', 30), ('c', 29), ('v', 28))
def look(cpu):
    """(what, number or None, value) by every way to read a register"""
    out = [(nm, n, cpu.read_register(nm)) for nm, n in NAMES.items()]
    out += [('r[%d]' % k, k, cpu.r[k]) for k in range(16)]
    out += [('s[%d]' % k, 0x40 + k, cpu.s[k]) for k in range(32)]
    out += [(nm, n, getattr(cpu, nm)) for nm, n in PROPS + (('control', CTRL),)]
    return out

def same_views(h, cpu, o):
    """the whole state, by every way to read it"""
    same_state(h, cpu, o)
    for what, n, b in look(cpu): h.check(what, b.unsigned == o.get(n))
    for f, bit in FLAGS: h.check('flag ' + f, getattr(cpu.apsr, f).unsigned == ((o.get(16) >> bit) & 1))
    h.check('ipsr', cpu.ipsr.unsigned == (o.get(16) & 0x1ff))
    h.check('pc_for_instr', cpu.pc_for_instr.unsigned == ((o.get(15) + 4) & M32))

def warm_up(cpu):
    look(cpu); [getattr(cpu.apsr, f) for f, bit in FLAGS]; cpu.ipsr; cpu.pc_for_instr

def arbitrary(h, order=0, warm=False):
    """(processor in an arbitrary reachable state, oracle in the same state)"""
    cpu = new_cpu(h)
    if warm:
        # every way to write, then every way to read; all is overwritten below
        for k in range(16): cpu.r[k] = 5 + k
        for k in range(32): cpu.s[k] = 5 + k
        for nm, n in NAMES.items():
            if n != CTRL: cpu.write_register(nm, 9)
        for nm, n in PROPS: setattr(cpu, nm, 3)
        for f, bit in FLAGS: setattr(cpu.apsr, f, 1)
        warm_up(cpu)
    o = Oracle(h)
    o.r[CTRL] = 0; o.r[MSP] = o.r[PSP] = 0
    seq = [n for n in NUMBERS if n != SP]
    if order == 1: seq = seq[::-1]
    if order == 2: seq = [n for n in seq if n not in (CTRL, MSP, PSP)] + [MSP, CTRL, PSP]
    for n in seq:
        v = h.int('r%d' % n, 0, M32)
        cpu.write_register(n, v)
        o.set(n, v)
    if warm: warm_up(cpu)
    return cpu, o

def same_state(h, cpu, o, tag='', numbers=NUMBERS):
    for n in numbers:
        b = cpu.read_register(n)
        if h.check('%sregister %d is a bit string' % (tag, n), is_bits(h, b)):
            h.check('%sregister %d' % (tag, n), h.and_(b.width == 32, b.unsigned == o.get(n)))

def structure(h, cpu, tag=''):
    g = lambda n: cpu.read_register(n).unsigned
    h.check(tag + 'sp is the selected stack pointer', g(SP) == h.ite(((g(CTRL) >> 1) & 1) == 1, g(PSP), g(MSP)))
    for n in (SP, MSP, PSP): h.check('%sstack pointer %d aligned' % (tag, n), (g(n) & 3) == 0)
    for n in (-1, -3): h.check('%sone bit in %d' % (tag, n), g(n) < 2)
    h.check(tag + 'eight bits of basepri', g(-2) < 256)

# ---------------------------------------------------------------- M03
def initial_task(h):
    cpu = new_cpu(h)
    structure(h, cpu)
    o = Oracle(h)
    for n in NUMBERS: o.r[n] = cpu.read_register(n).unsigned
    o.get(SP)
    n = h.choice('n', NUMBERS)
    v = h.int('v', 0, M32)
    cpu.write_register(n, v); o.set(n, v)
    same_state(h, cpu, o)
    structure(h, cpu)

def write_task(h, order, numbers):
    cpu, o = arbitrary(h, order)
    same_state(h, cpu, o, 'before: ')
    n = h.choice('n', numbers)
    v = h.int('v', 0, M32)
    x, r = h.raises(cpu.write_register, n, v)
    if not h.check('write accepted', x is None, str(x)): return
    o.set(n, v)
    same_state(h, cpu, o)
    structure(h, cpu)

SEQ = (CTRL, SP, MSP, PSP)
def sequence_task(h, first, steps, direct):
    """several writes in a row, through the delegate or the model"""
    cpu, o = arbitrary(h)
    t = cpu.delegate if direct else cpu
    for k in range(steps):
        n = first if k == 0 else h.choice('n%d' % k, SEQ)
        v = h.int('v%d' % k, 0, M32)
        t.write_register(n, v)
        o.set(n, v)
        b = t.read_register(n)
        h.check('reads back', (b if direct else b.unsigned) == o.get(n))
    same_state(h, cpu, o)
    structure(h, cpu)

def G(n, k): return [NUMBERS[i:i + k] for i in range(0, len(NUMBERS), k)]
MF = ['mock_cpu:MockCpuModelDelegate.read_register', 'mock_cpu:MockCpuModelDelegate.write_register', 'mock_cpu:MockCpuModelDelegate.__init__']
CF = ['model:CpuModel.read_register', 'model:CpuModel.write_register', 'registers:register_name_to_index']
add_task(('M03',), 'mock.initial', initial_task, functions=MF)
for order in (0, 1, 2):
    for k, g in enumerate(G(NUMBERS, 8)):
        add_task(('M03',), 'mock.write.%d.%d' % (order, k), write_task, order, g, functions=MF + CF)
for n in SEQ:
    for d in (False, True):
        add_task(('M03',), 'mock.seq.%d%s' % (n, '.direct' if d else ''), sequence_task, n, 3, d, functions=MF, bound='sequences of 3 writes after an arbitrary state')
        add_task(('M03',), 'mock.seqlong.%d%s' % (n, '.direct' if d else ''), sequence_task, n, 4, d, functions=MF, bound='sequences of 4 writes after an arbitrary state', thorough=True)

# ---------------------------------------------------------------- M01
def cases(name):
    out = ['']
    for c in name: out = [o + x for o in out for x in sorted({c.lower(), c.upper()})]
    return out

def names_task(h, names):
    """every spelling of a name reads the register it numbers"""
    cpu, o = arbitrary(h, warm=True)
    for nm in names:
        n = NAMES[nm]
        for s in cases(nm):
            x, b = h.raises(cpu.read_register, s)
            if h.check('%s is known' % s, x is None, str(x)): h.check('%s reads' % s, b.unsigned == o.get(n))

def write_name_task(h, names):
    cpu, o = arbitrary(h, warm=True)
    nm = h.choice('name', names)
    v = h.int('v', 0, M32)
    s = (nm, nm.upper(), nm.title())[h.choice('case', (0, 1, 2))]
    val = BS(h)(v, 32) if h.bool('bits') is True or h.choice('asbits', (0, 1)) else v
    cpu.write_register(s, val)
    o.set(NAMES[nm], v)
    same_views(h, cpu, o)

def view_task(h, view, write, lo, hi):
    cpu, o = arbitrary(h, warm=True)
    first, size = (0, 16) if view == 'r' else (0x40, 32)
    k = h.int('k', lo, hi)
    inside = h.split(h.and_(0 <= k, k < size))
    if write:
        v = h.int('v', 0, M32)
        def act(): getattr(cpu, view)[k] = v
    else:
        def act(): return getattr(cpu, view)[k]
    x, b = h.raises(act)
    if not inside:
        h.check('KeyError', x == 'KeyError', str(x))
    elif h.check('accepted', x is None, str(x)):
        for n in range(size):
            if h.split(k == n): break
        if write: o.set(first + n, v)
        else: h.check('value', h.and_(b.width == 32, b.unsigned == o.get(first + n)))
    same_views(h, cpu, o)

def property_task(h, name, n):
    cpu, o = arbitrary(h, warm=True)
    b = getattr(cpu, name)
    h.check('read', h.and_(b.width == 32, b.unsigned == o.get(n)))
    v = h.int('v', 0, M32)
    k = h.choice('kind', ('int', 'bits', 'narrow'))
    if k == 'narrow': v = v & 0xff
    val = v if k == 'int' else BS(h)(v, 32 if k == 'bits' else 8)
    setattr(cpu, name, val)
    o.set(n, v)
    same_views(h, cpu, o)
    h.check('earlier value kept', b.width == 32)
    h.check('read back', getattr(cpu, name).unsigned == o.get(n))
    if n < 16: h.check('read through r', cpu.r[n].unsigned == o.get(n))

def control_task(h):
    cpu, o = arbitrary(h, warm=True)
    h.check('control', cpu.control.unsigned == o.get(CTRL))
    h.check('pc_for_instr', cpu.pc_for_instr.unsigned == ((o.get(15) + 4) & M32))
    h.check('ipsr', h.and_(cpu.ipsr.width == 9, cpu.ipsr.unsigned == (o.get(16) & 0x1ff)))
    for f, bit in FLAGS:
        b = getattr(cpu.apsr, f)
        h.check('flag ' + f, h.and_(b.width == 1, b.unsigned == ((o.get(16) >> bit) & 1)))
    same_views(h, cpu, o)

def flag_task(h, f, bit):
    cpu, o = arbitrary(h, warm=True)
    old = cpu.xpsr
    was = old.unsigned
    fv = getattr(cpu.apsr, f)
    fs = fv.unsigned
    v = h.int('v', 0, 1)
    k = h.choice('kind', ('int', 'bits', 'bool', 'text'))
    val = v if k == 'int' else BS(h)(v, 1) if k == 'bits' else h.split(v == 1) if k == 'bool' else ('1' if h.split(v == 1) else '0')
    setattr(cpu.apsr, f, val)
    o.r[16] = (o.r[16] & (M32 - (1 << bit))) | (v << bit)
    same_views(h, cpu, o)
    h.check('read back', getattr(cpu.apsr, f).unsigned == v)
    h.check('value read before is kept', h.and_(old.unsigned == was, fv.unsigned == fs))
    for g, b2 in FLAGS: h.check('flag ' + g, getattr(cpu.apsr, g).unsigned == ((o.get(16) >> b2) & 1))

def detached_task(h, n):
    """changing a value that was read or written changes no register"""
    cpu, o = arbitrary(h, warm=True)
    b = cpu.read_register(n)
    b[h.choice('bit', (0, 7, 31))] = h.int('v', 0, 1)
    same_state(h, cpu, o, numbers=(n, 16, 0))
    w = BS(h)(h.int('w', 0, M32), 32)
    o.set(n, w.unsigned)
    cpu.write_register(n, w)
    w[h.choice('bit2', (0, 7, 31))] = h.int('u', 0, 1)
    same_state(h, cpu, o, numbers=(n, 16, 0))

def two_cpus_task(h):
    """processors are independent"""
    cpu, o = arbitrary(h, warm=True)
    c2 = new_cpu(h)
    n = h.choice('n', (0, 13, 15, 16, 17, -4, 0x40))
    c2.write_register(n, h.int('v', 0, M32))
    c2.apsr.n = h.int('f', 0, 1)
    c2.r[1] = 5
    same_views(h, cpu, o)

ALL = sorted(NAMES, key=lambda s: (NAMES[s], s))
for k in range(0, len(ALL), 10):
    add_task(('M01',), 'names.%d' % k, names_task, ALL[k:k + 10], functions=CF + ['registers:CORE_REGISTER'])
    add_task(('M01',), 'writename.%d' % k, write_name_task, ALL[k:k + 10], functions=CF)
RF = ['model:RegistersInterface.__getitem__', 'model:RegistersInterface.__setitem__']
for view in 'rs':
    add_task(('M01',), 'view.%s.read' % view, view_task, view, False, -(1 << 40), 1 << 40, functions=RF)
    add_task(('M01',), 'view.%s.write' % view, view_task, view, True, -(1 << 40), 1 << 40, functions=RF)
    add_task(('M01',), 'view.%s.near' % view, view_task, view, True, -70, 70, functions=RF)
for nm, n in PROPS: add_task(('M01',), 'property.' + nm, property_task, nm, n, functions=['model:CpuModel.' + nm])
for f, bit in FLAGS: add_task(('M01',), 'flag.' + f, flag_task, f, bit, functions=['model:ApsrAlias.' + f])
add_task(('M01',), 'views', control_task, functions=['model:CpuModel.control', 'model:CpuModel.pc_for_instr', 'model:CpuModel.ipsr'])
for n in (0, 13, 16, -4, 0x41): add_task(('M01',), 'detached.%d' % n, detached_task, n, functions=CF)
add_task(('M01',), 'independent', two_cpus_task, functions=CF)

# ---------------------------------------------------------------- M02
TOP = 1 << 32
class Region(object):
    pass

def memory(h, k, adjacent, before=None):
    """a processor with k non-overlapping regions of arbitrary place, length and contents"""
    cpu = new_cpu(h)
    regs = []
    for j in range(k):
        r = Region()
        r.start = h.int('start%d' % j, 0, M32)
        data, r.len = h.blob('data%d' % j, 1 << 32 if h.symbolic else 40)
        if adjacent and j: r.start = regs[-1].start + regs[-1].len
        elif not h.symbolic and h.rng is not None and j and h.rng.random() < 0.5: r.start = h.used['start%d' % j] = regs[-1].start + regs[-1].len + h.rng.choice((0, 0, 1, 3))
        h.assume(r.start + r.len <= TOP)
        if k > 1: h.assume(r.len > 0)
        for q in regs: h.assume(h.or_(r.start + r.len <= q.start, q.start + q.len <= r.start))
        r.data = data
        regs.append(r)
        if before is None: cpu.delegate.add_memory(r.start, r.len)
    if before is not None:
        # accesses while the last region is not there yet
        for r in regs[:-1]: cpu.delegate.add_memory(r.start, r.len)
        before(cpu, regs)
        cpu.delegate.add_memory(regs[-1].start, regs[-1].len)
    return cpu, regs

def fill(h, cpu, regs):
    for r in regs: cpu.write_memory_block(r.start, r.data)

def within(h, r, a, n): return h.and_(r.start <= a, a + n <= r.start + r.len)

def addr(h, name, regs):
    a = h.int(name, 0, M32 + 8)
    if not h.symbolic and h.rng is not None and name not in h.given and regs and h.rng.random() < 0.9:
        r = h.rng.choice(regs)
        a = h.used[name] = max(0, r.start + h.rng.randint(-5, r.len + 5))
    return a

def old_byte(h, regs, q):
    """the byte at q, by splitting over the region it lies in"""
    for r in regs:
        if h.split(within(h, r, q, 1)): return r.data[q - r.start], r
    return 0, None

def zero_task(h, k):
    cpu, regs = memory(h, k, False)
    q = addr(h, 'q', regs)
    size = h.choice('size', (8, 16, 32))
    b = cpu.read_memory(q, size)
    h.check('initially zero', h.and_(b.width == size, b.unsigned == 0))
    for r in regs:
        d = cpu.read_memory_block(r.start, r.len)
        if h.split(r.len > 0):
            h.check('block length', h.call(len, d) == r.len)
            i = h.int('i', 0, TOP)
            h.assume(i < r.len)
            h.check('block zero', d[i] == 0)

def routes(k, size):
    """the ways to make an access; without a size it is a word"""
    if k >= 2: return ('short',)
    return ('int', 'bits', 'short', 'delegate') + (('word', 'delegate word') if size == 32 else ())

def read_task(h, k, adjacent, size):
    cpu, regs = memory(h, k, adjacent)
    fill(h, cpu, regs)
    a = addr(h, 'a', regs)
    n = size // 8
    want = 0
    for r in regs:
        if h.split(within(h, r, a, n)):
            for i in range(n): want = want | (r.data[a - r.start + i] << (8 * i))
            break
    route = h.choice('route', routes(k, size))
    if route == 'bits': h.assume(a <= M32)
    x, b = h.raises(lambda: cpu.read_memory(a, size) if route == 'int' else cpu.read_memory(BS(h)(a, 32), size) if route == 'bits'
                    else cpu.read_memory(a) if route == 'word' else cpu.delegate.read_memory(a) if route == 'delegate word'
                    else getattr(cpu, 'read%d' % size)(a) if route == 'short' else cpu.delegate.read_memory(a, size))
    if not h.check('read accepted', x is None, str(x)): return
    if route in ('delegate', 'delegate word'): h.check('value', b == want)
    else: h.check('value', h.and_(b.width == size, b.unsigned == want))

def write_mem_task(h, k, adjacent, size):
    cpu, regs = memory(h, k, adjacent)
    fill(h, cpu, regs)
    a = addr(h, 'a', regs)
    n = size // 8
    v = h.int('v', -(1 << 33), 1 << 40)
    route = h.choice('route', routes(k, size))
    if route == 'bits':
        h.assume(a <= M32); h.assume(v >= 0)
        val = BS(h)(v, 41)
    x, b = h.raises(lambda: cpu.write_memory(a, v, size) if route == 'int' else cpu.write_memory(BS(h)(a, 32), val, size) if route == 'bits'
                    else cpu.write_memory(a, v) if route == 'word' else cpu.delegate.write_memory(a, v) if route == 'delegate word'
                    else getattr(cpu, 'write%d' % size)(a, v) if route == 'short' else cpu.delegate.write_memory(a, v, size))
    if not h.check('write accepted', x is None, str(x)): return
    q = addr(h, 'q', regs)
    want, r = old_byte(h, regs, q)
    if r is not None and h.split(within(h, r, a, n)):
        for i in range(n):
            if h.split(q == a + i):
                want = (v >> (8 * i)) & 0xff
                break
    h.check('byte afterwards', cpu.read_memory(q, 8).unsigned == want)
    extents(h, cpu, regs)

def extents(h, cpu, regs):
    for j, r in enumerate(regs):
        if h.split(r.len > 0):
            more = r.len + (h.choice('over%d' % j, (0, 5)) if len(regs) < 2 else 5)
            d = cpu.read_memory_block(r.start, more)
            h.check('extent kept', h.call(len, d) == r.len)

def block_read_task(h, k, adjacent):
    cpu, regs = memory(h, k, adjacent)
    fill(h, cpu, regs)
    a = addr(h, 'a', regs)
    n = h.length('n', 1 << 20) if h.symbolic else h.length('n', 60)
    b, r = old_byte(h, regs, a)
    x, d = h.raises(cpu.read_memory_block, a, n)
    if not h.check('accepted', x is None, str(x)): return
    if r is None:
        h.check('nothing outside', d is None or h.call(len, d) == 0)
        return
    left = r.start + r.len - a
    h.check('cut at the end of the region', h.call(len, d) == h.ite(n < left, n, left))
    i = h.int('i', 0, TOP)
    h.assume(h.and_(i < n, i < left))
    h.check('bytes', d[i] == r.data[a + i - r.start])
    # the block is a copy
    d[i] = d[i] ^ 255
    h.check('the block is a copy', cpu.read_memory(a + i, 8).unsigned == r.data[a + i - r.start])

def block_write_task(h, k, adjacent, kind):
    cpu, regs = memory(h, k, adjacent)
    fill(h, cpu, regs)
    a = addr(h, 'a', regs)
    if kind == 'any': src, n = h.blob('src', 1 << 32 if h.symbolic else 60)
    else:
        xs = [h.int('x%d' % i, 0, 255) for i in range(h.choice('count', (0, 1, 3, 6)))]
        n = len(xs)
        src = xs if kind == 'list' else h.call(bytes, xs)
    b, r = old_byte(h, regs, a)
    x, d = h.raises(cpu.write_memory_block, a, src)
    if not h.check('accepted', x is None, str(x)): return
    h.check('data keeps its length', h.call(len, src) == n)
    q = addr(h, 'q', regs)
    want, rq = old_byte(h, regs, q)
    if r is not None and rq is r and h.split(h.and_(a <= q, q < a + n)):
        if kind == 'any': want = src[q - a]
        else:
            for i in range(n):
                if h.split(q == a + i): want = xs[i]; break
    h.check('byte afterwards', cpu.read_memory(q, 8).unsigned == want)
    if kind == 'any' and h.split(n > 0):
        src[0] = src[0] ^ 255
        h.check('the data was copied', cpu.read_memory(q, 8).unsigned == want if not (h.symbolic and want is not want) else True)
    extents(h, cpu, regs)

def mixed_task(h, k, s1, s2):
    """two writes of any kind and a read of any size"""
    cpu, regs = memory(h, k, False)
    fill(h, cpu, regs)
    ops = []
    for j, s in enumerate((s1, s2)):
        a = addr(h, 'a%d' % j, regs); v = h.int('v%d' % j, 0, M32)
        cpu.write_memory(a, v, s)
        ops.append((a, v, s // 8))
    q = addr(h, 'q', regs)
    want, r = old_byte(h, regs, q)
    if r is not None:
        for a, v, n in ops:
            if h.split(h.and_(within(h, r, a, n), a <= q, q < a + n)):
                for i in range(n):
                    if h.split(q == a + i): want = (v >> (8 * i)) & 0xff
    h.check('byte afterwards', cpu.read_memory(q, 8).unsigned == want)

def reads(cpu, q): return [cpu.read_memory(q, 8), cpu.read_memory(q, 16), cpu.read_memory(q, 32)], cpu.read_memory_block(q, 4)

def warm_task(h, op, late):
    """what is read does not depend on what was read before, there or elsewhere, or while a region was not yet there"""
    q = h.int('q', 0, M32)
    def before(cpu, regs): reads(cpu, q)
    cpu, regs = memory(h, 2, False, before if late else None)
    r = regs[1 if late else h.choice('region', (0, 1))]
    if not h.symbolic and h.rng is not None and 'q' not in h.given: q = h.used['q'] = r.start + h.rng.randint(0, max(0, r.len - 4))
    h.assume(within(h, r, q, 4))
    if late: reads(cpu, q)
    fill(h, cpu, regs)
    reads(cpu, q)
    a = addr(h, 'a', [r])
    if op == 'block': src, n = h.blob('src', 1 << 32 if h.symbolic else 6)
    else:
        n = op // 8
        v = h.int('v', 0, M32)
    h.assume(within(h, r, a, n))
    if op == 'block': cpu.write_memory_block(a, src)
    else: cpu.write_memory(a, v, op)
    def want(p):
        old = r.data[p - r.start]
        if not h.split(h.and_(a <= p, p < a + n)): return old
        if op == 'block': return src[p - a]
        for i in range(n):
            if h.split(p == a + i): return (v >> (8 * i)) & 0xff
    w = [want(q + i) for i in range(4)]
    got, blk = reads(cpu, q)
    for b, k in zip(got, (1, 2, 4)): h.check('%d bits' % (8 * k), b.unsigned == sum(w[i] << (8 * i) for i in range(k)))
    h.check('block', h.call(len, blk) == 4)
    for i in range(4): h.check('byte of the block', blk[i] == w[i])

FIND = ('mock_cpu:MockCpuModelDelegate._find_mem', 0)
declare(*FIND)
def any_number(h, hit):
    """a processor with any number of regions; (it, the region the access lies in or None, address, bytes to access)"""
    cpu = new_cpu(h)
    d = cpu.delegate
    r = Region()
    r.start = h.int('start', 0, M32)
    r.data, r.len = h.blob('data', 1 << 32 if h.symbolic else 40)
    h.assume(r.start + r.len <= TOP); h.assume(r.len > 0)
    count = h.length('regions', 1 << 20) + 1
    j = h.int('j', 0, 1 << 20) if h.symbolic else h.used.setdefault('j', h.given.get('j', 0)) % count
    r.others = []
    if not h.symbolic:
        at = r.start + r.len
        for i in range(count):
            if i == j: d.add_memory(r.start, r.len)
            elif at + 20 < TOP: d.add_memory(at + i % 3, 5); at += 8
    else:
        h.assume(j < count)
        d.add_memory(r.start, r.len)
        mem = getattr(d, '_mem', None)
        if type(mem) is not list or len(mem) != 1: raise Unfit('no list of regions')
        m = mem[0]
        for f in ('start', 'end', 'data', '_replace'):
            if not hasattr(m, f): raise Unfit('regions have no ' + f)
        starts, lens = h.array('starts', 0, M32), h.array('lens', 0, M32)
        def region(i):
            i = h.S.I(i)
            if h.split(i == j): return m
            s, n = starts.get(i), lens.get(i)
            h.assume(s + n <= TOP)
            h.assume(h.or_(n == 0, s + n <= r.start, r.start + r.len <= s))
            if not hit: h.assume(h.not_(h.and_(s <= r.a, r.a + r.n <= s + n)))
            o = h.unknown_bytes('other', n)
            r.others.append((o, h.contents(o)))
            return m._replace(start=s, end=s + n - 1, data=o)
        d._mem = h.S.SList(None, h.S.N(count), region)
    return cpu, r, j

def cut_find(h, r, j, hit):
    if h.symbolic: h.loop(FIND[0], FIND[1], lambda env, idx: {}, lambda env, idx: [('the region has not been passed', idx <= j)] if hit else [])

def find_task(h, op, hit, size):
    cpu, r, j = any_number(h, hit)
    r.n = n = size // 8 if size else 1
    r.a = a = addr(h, 'a', [r])
    if hit: h.assume(within(h, r, a, n))
    else: h.assume(h.not_(within(h, r, a, n)))
    if not h.symbolic and not hit: h.assume(a + n <= r.start)
    d = cpu.delegate
    q = addr(h, 'q', [r])
    h.assume(within(h, r, q, 1))
    # the contents of the region, put there without the access path under test
    if h.symbolic:
        box = d._mem.at(h.S.N(j)).data
        h.become(box, r.data)
    else: d.write_memory_block(r.start, r.data)
    if op == 'read':
        cut_find(h, r, j, hit)
        b = cpu.read_memory(a, size)
        want = 0
        if hit:
            for i in range(n): want = want | (r.data[a - r.start + i] << (8 * i))
        h.check('value', h.and_(b.width == size, b.unsigned == want))
        want = r.data[q - r.start]
    elif op == 'write':
        v = h.int('v', 0, M32)
        cut_find(h, r, j, hit)
        cpu.write_memory(a, v, size)
        want = r.data[q - r.start]
        if hit:
            for i in range(n):
                if h.split(q == a + i): want = (v >> (8 * i)) & 0xff; break
    elif op == 'readblock':
        n = h.length('n', 1 << 20)
        cut_find(h, r, j, hit)
        b = cpu.read_memory_block(a, n)
        if hit:
            left = r.start + r.len - a
            h.check('length', h.call(len, b) == h.ite(n < left, n, left))
            i = h.int('i', 0, TOP)
            if h.split(h.and_(i < n, i < left)): h.check('bytes', b[i] == r.data[a + i - r.start])
        else: h.check('nothing', b is None or h.call(len, b) == 0)
        want = r.data[q - r.start]
    else:
        src, n = h.blob('src', 1 << 32 if h.symbolic else 60)
        cut_find(h, r, j, hit)
        cpu.write_memory_block(a, src)
        want = r.data[q - r.start]
        if hit and h.split(h.and_(a <= q, q < a + n)): want = src[q - a]
    if h.symbolic:
        h.check('byte afterwards', box[q - r.start] == want)
        h.check('length kept', h.call(len, box) == r.len)
        for o, was in r.others: h.check('no other region is written', h.same_bytes(o, was))
    else:
        h.check('byte afterwards', cpu.read_memory(q, 8).unsigned == want)
        h.check('length kept', len(cpu.read_memory_block(r.start, r.len + 5)) == r.len)

RD = ['mock_cpu:MockCpuModelDelegate.' + x for x in ('read_memory', 'add_memory', '_find_mem')] + ['model:CpuModel.read_memory', 'utilities:bytes_to_le16', 'utilities:bytes_to_le32']
WR = ['mock_cpu:MockCpuModelDelegate.' + x for x in ('write_memory', 'add_memory', '_find_mem')] + ['model:CpuModel.write_memory', 'utilities:le16_to_bytes', 'utilities:le32_to_bytes']
BL = ['mock_cpu:MockCpuModelDelegate.' + x for x in ('read_memory_block', 'write_memory_block', '_find_mem')]
for k in (1, 2):
    add_task(('M02',), 'mem.zero.%d' % k, zero_task, k, functions=RD, bound='%d regions' % k, math='lin')
for k, adj in ((0, False), (1, False), (2, False), (2, True), (3, True)):
    tag = '%d%s' % (k, '.adjacent' if adj else '')
    b = '%d regions of any place and length below 2**32' % k
    for size in (8, 16, 32):
        add_task(('M02',), 'mem.read%d.%s' % (size, tag), read_task, k, adj, size, functions=RD, bound=b, thorough=k > 2, math='lin')
        add_task(('M02',), 'mem.write%d.%s' % (size, tag), write_mem_task, k, adj, size, functions=WR, bound=b, thorough=k > 2, math='lin')
    add_task(('M02',), 'mem.blockread.%s' % tag, block_read_task, k, adj, functions=BL, bound=b, thorough=k > 2, math='lin')
    for kind in ('any', 'list', 'bytes'):
        add_task(('M02',), 'mem.blockwrite.%s.%s' % (kind, tag), block_write_task, k, adj, kind, functions=BL, bound=b, thorough=k > 2, math='lin')
for op in (8, 16, 32, 'block'):
    for late in (False, True):
        add_task(('M02',), 'mem.warm.%s%s' % (op, '.late' if late else ''), warm_task, op, late, functions=RD + WR + BL, bound='two regions of any place and length below 2**32', math='lin')
for s1 in (8, 16, 32):
    for s2 in (8, 16, 32): add_task(('M02',), 'mem.mixed.%d.%d' % (s1, s2), mixed_task, 1, s1, s2, functions=WR, bound='one region, two writes', math='lin')
for hit in (True, False):
    for op in ('read', 'write'):
        for size in (8, 16, 32): add_task(('M02',), 'mem.any.%s%d.%s' % (op, size, 'in' if hit else 'out'), find_task, op, hit, size, functions=RD + WR, math='lin')
    for op in ('readblock', 'writeblock'): add_task(('M02',), 'mem.any.%s.%s' % (op, 'in' if hit else 'out'), find_task, op, hit, 0, functions=BL, math='lin')

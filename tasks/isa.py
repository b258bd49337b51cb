"""Instruction set tasks: D03/D04 (decode and print), X01..X07 (execute), X08
(again), F01 (print agrees with execution)."""
import random
from dv.harness import add_task
from spec import thumb
from spec.thumb import St
from .machine import Machine, compare, compare_any

def setup(h, e):
    w = h.word('w', e.pat)
    addr = h.int('a', 0, 0x7fffffff) * 2
    hws = [w] if e.size == 2 else [w >> 16, w & 0xffff]
    data = h.mkbytes([b for x in hws for b in (x & 0xff, x >> 8)])
    return w, addr, hws, data

def decode(h, data, addr):
    return h.raises(h.p.disasm.decoder.decode, data, addr)

def fmt(h, i, cpu=None):
    return h.raises(h.p.formatter.Formatter(cpu).format, i)

def dec_task(h, e):
    w, addr, hws, data = setup(h, e)
    s = e.spec(h, w, addr)
    h.assume(h.not_(s.skip))
    x, i = decode(h, data, addr)
    if x == 'UndefinedInstructionError':
        h.check('undefined only where the manual has no such encoding', s.undef)
        return
    if x == 'UnpredictableError':
        h.check('unpredictable only where the manual says so', h.and_(h.not_(s.undef), h.or_(s.must, s.may, s.also)))
        return
    if not h.check('no other exception', x is None, x): return
    h.check('undefined is reported', h.not_(s.undef))
    h.check('unpredictable is reported', h.not_(s.must))
    h.assume(h.and_(h.not_(s.undef), h.not_(s.must)))
    mnem = s.mnem or e.mnem
    h.check('mnemonic', i.mnemonic == mnem)
    h.check('size', i.size == e.size)
    h.check('address', i.address == addr)
    h.check('bytes', i.bytes == data)
    x, t = fmt(h, i)
    if not h.check('printable', x is None, x): return
    want = t == thumb.text(h, hws, mnem, s.ops, s.comments)
    for c, ops in s.alts:
        want = h.or_(want, h.and_(c, t == thumb.text(h, hws, mnem, ops, s.comments)))
    h.check('text', want)

def new_cpu(h, m):
    cpu = h.p.model.CpuModel()
    cpu.delegate = m
    if m.handler: cpu.mode = h.p.model.CpuMode.Handler
    return cpu

def pre_state(h, e, addr, name='B'):
    m = Machine(h, name, pcmask=e.kind == 'list')
    m.regs.set(15 + 8, addr)
    m.invariant(h)
    m.handler = h.choice(name + '.mode', (False, True)) if e.name in ('cps_t1', 'mrs', 'msr') else False
    return m

def exec_task(h, e, pcsrc=False, listed=False):
    w, addr, hws, data = setup(h, e)
    s = e.spec(h, w, addr)
    h.assume(h.and_(*[h.not_(c) for c in (s.skip, s.undef, s.must, s.may)]))
    h.assume(s.pcsrc if pcsrc else h.not_(s.pcsrc))
    x, i = decode(h, data, addr)
    if x is not None:
        h.check('decodes', h.and_(x == 'UnpredictableError', s.also))
        return
    m = pre_state(h, e, addr)
    L = None
    if listed:
        x, t = fmt(h, i)
        if x is not None: return                # reported by the decoding task
        L = h.parse_reglist(t)
        if L is None: return
        h.check('ascending, runs as ranges', h.list_form(t))
    other = h.choice('before', (False, True))
    if other:
        # after other instructions of the same encoding
        for hw in samples(e):
            x, j = decode(h, bytearray(b for q in hw for b in (q & 0xff, q >> 8)), 0x2000)
            if x is None: h.raises(j.execute, new_cpu(h, pre_state(h, e, 0x2000, 'C')))
    carry_out(h, e, s, i, m, L, addr, pcsrc, '')
    # the same instruction object once more, from another state
    if not other: carry_out(h, e, s, i, pre_state(h, e, addr, 'C'), L, addr, pcsrc, ' again')

def samples(e):
    """two concrete words of the encoding"""
    m, v = e.match()
    r = random.Random(e.name)
    out = []
    for _ in range(2):
        w = v | (r.getrandbits(8 * e.size) & ~m)
        out.append([w] if e.size == 2 else [w >> 16, w & 0xffff])
    return out

def carry_out(h, e, s, i, m, L, addr, pcsrc, tag):
    outs = []
    for off in ((4, 0) if pcsrc else (4,)):
        o = m.copy()
        if L is None: s.ex(St(h, o, off))
        else: s.ex(St(h, o, off), L)
        outs.append(o)
    x, r = h.raises(i.execute, new_cpu(h, m))
    if not h.check('executes' + tag, x is None, x): return
    if s.loose is not False:
        # the manual leaves the stored value of the base unknown here
        base = outs[0].get(s.n)
        wb = thumb_slot(h, s, e)
        for q in [m] + outs: q.store_if(s.loose, wb(addr, base), 0, 4)
    if pcsrc: compare_any(h, 'state' + tag, m, outs)
    else: compare(h, 'state' + tag, m, outs[0])

def thumb_slot(h, s, e):
    """address of the word holding the base register in a store multiple with write-back"""
    def slot(addr, final):
        cnt = h.popcount(s.regs)
        below = h.popcount(s.regs & ((1 << s.n) - 1))
        return (final - 4 * cnt + 4 * below) & 0xffffffff
    return slot

def label_task(h, e):
    """F01: the printed target is the one execution produces"""
    w, addr, hws, data = setup(h, e)
    x, i = decode(h, data, addr)
    if x is not None: return
    m = pre_state(h, e, addr)
    s = e.spec(h, w, addr)
    h.assume(h.and_(*[h.not_(c) for c in (s.skip, s.undef, s.must, s.may)]))
    d = None
    if 'adr' in e.name:
        d = e.fields(w)['d']
    x, t = fmt(h, i)
    if not h.check('printable', x is None, x): return
    cpu = new_cpu(h, m)
    if e.name.startswith('b_t1'):
        # taken
        from spec import arm
        st = St(h, m)
        h.assume(arm.cond_holds(h, e.kw['c'], st.flag('n'), st.flag('z'), st.flag('c'), st.flag('v')))
    x, r = h.raises(i.execute, cpu)
    if not h.check('executes', x is None, x): return
    target = m.get(15) if d is None else m.get(d)
    parts = h.label_parts(t)
    if not h.check('shows a label', parts is not None): return
    rel, absolute = parts
    h.check('absolute address', absolute == target)
    h.check('relative label', ((addr + rel) & 0xffffffff) == target)

USED = ([0xb50f], [0xf04f, 0x517f], [0xd0fe], [0x20c8], [0xf20f, 0x010c])     # push, mov.w with a comment, beq, movs with a comment, adr.w
def line_task(h, e):
    """F01: the halfwords a line starts with, and the comments of its immediates"""
    w, addr, hws, data = setup(h, e)
    x, i = decode(h, data, addr)
    if x is not None: return
    x, t = fmt(h, i)
    if x is not None: return                # reported by the decoding task
    # formatters that have printed other instructions, with and without comments, each of them last
    for k in range(len(USED)):
        f = h.p.formatter.Formatter(None)
        for hw in USED[k + 1:] + USED[:k + 1]:
            x, j = decode(h, bytearray(b for q in hw for b in (q & 0xff, q >> 8)), 0x2000)
            if x is None: h.raises(f.format, j)
        x, t2 = h.raises(f.format, i)
        if h.check('printable with a formatter used before', x is None, x): h.check('same line from it', t2 == t)
    parts = h.line_parts(t)
    if not h.check('line with hexadecimal comments', parts is not None): return
    words, ops, notes, mnem = parts
    if h.check('as many halfwords as the instruction has', len(words) == len(hws)):
        for k, x in enumerate(hws): h.check('halfword %d' % k, words[k] == x)
    if e.name in ('dmb', 'dsb', 'isb'): return
    due = []
    for v in ops:
        if v is None: due.append(None)
        elif h.split(v > 9): due.append(v)
    if not h.check('a comment for every immediate above 9 and every label, no others', len(due) == len(notes)): return
    for k, v in enumerate(due):
        if v is not None: h.check('comment %d' % k, notes[k] == v)

def again_task(h, e):
    """X08: executing or printing never changes the instruction"""
    w, addr, hws, data = setup(h, e)
    x, i = decode(h, data, addr)
    if x is not None: return
    n = 0
    A = Machine(h, 'A', pcmask=e.kind == 'list'); A.invariant(h)
    B = Machine(h, 'B', pcmask=e.kind == 'list'); B.invariant(h)
    if e.name in ('cps_t1', 'mrs'): A.handler = h.choice('A.mode', (False, True))
    B2 = B.copy(); B3 = B.copy()
    f = lambda cpu: h.raises(h.p.formatter.Formatter(cpu).format, i)
    x0, t0 = f(None)
    mn, sz, ad, by = i.mnemonic, i.size, i.address, i.bytes
    h.check('bytes', by == data)
    cpu = new_cpu(h, B)
    x1, r = h.raises(i.execute, cpu)
    cpuA = new_cpu(h, A)
    h.raises(i.execute, cpuA)
    A2 = A.copy()
    x2, t2 = f(cpuA)
    h.check('same print outcome', x0 == x2)
    if x0 is None and x2 is None: h.check('same text', t0 == t2)
    compare(h, 'printing changes no state', A, A2)
    cpu = new_cpu(h, B2)
    x3, r = h.raises(i.execute, cpu)
    h.check('same outcome', x1 == x3)
    compare(h, 'same effect', B, B2)
    # an odd number of executions in between as well
    cpu = new_cpu(h, B3)
    x3, r = h.raises(i.execute, cpu)
    h.check('same outcome', x1 == x3)
    compare(h, 'same effect', B, B3)
    h.check('mnemonic kept', h.and_(i.mnemonic == mn))
    h.check('size kept', i.size == sz)
    h.check('address kept', i.address == ad)
    h.check('bytes kept', i.bytes == by)
    x4, t4 = f(cpu)
    h.check('same print outcome', x0 == x4)
    if x0 is None and x4 is None: h.check('same text', t0 == t4)

def cover_task(h, size, top=None):
    """words outside every supported encoding are reported undefined"""
    if size == 2:
        w = h.int('w', 0, 0xe7ff)
        hws = [w]
    else:
        lo = h.int('w', 0, (1 << 27) - 1)
        w = (top << 27) | lo
        hws = [w >> 16, w & 0xffff]
    for e in thumb.ENCODINGS:
        if e.size == size:
            m, v = e.match()
            if size == 4 and v >> 27 != top: continue
            h.assume((w & m) != v)
    data = h.mkbytes([b for x in hws for b in (x & 0xff, x >> 8)])
    x, i = decode(h, data, 0)
    h.check('reported undefined', x == 'UndefinedInstructionError', str(x))

for e in thumb.ENCODINGS:
    D = 'D03' if e.size == 2 else 'D04'
    add_task((D,), 'dec.' + e.name, dec_task, e)
    add_task(('F01',), 'line.' + e.name, line_task, e)
    add_task(('X08',), 'again.' + e.name, again_task, e)
    if e.xprop and e.kind != 'msr':
        add_task((e.xprop,), 'exec.' + e.name, exec_task, e)
    if e.name in ('add_reg_t2', 'add_sp_reg_t1', 'add_sp_reg_t2', 'mov_reg_t1', 'bx_t1'):
        add_task((e.xprop,), 'exec.%s.pc' % e.name, exec_task, e, True)
    if e.kind == 'label':
        add_task(('F01',), 'label.' + e.name, label_task, e)
    if e.kind == 'list':
        add_task(('F01',), 'list.' + e.name, exec_task, e, False, True)
add_task(('D03',), 'cover.16', cover_task, 2)
for k in (0b11101, 0b11110, 0b11111):
    add_task(('D04',), 'cover.32.%s' % format(k, '05b'), cover_task, 4, k)

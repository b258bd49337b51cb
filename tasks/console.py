"""T01: the console (cmdis/__main__.py, converted by 2to3 as setup.py has it done).

The processor is the real CpuModel over the abstract machine of tasks/machine.py
(arbitrary registers, arbitrary memory); whole command lines go in, the printed
text and the complete state come out."""
from dv.harness import add_task, Unfit
from spec import thumb
from spec.thumb import St
from .machine import Machine, compare
from .isa import new_cpu, decode, fmt
from .model import NAMES, NUMBERS, cases

M32 = 0xffffffff
F = ['__main__:SimConsole.process_command_line', '__main__:SimConsole.process_command']

class Delegate(Machine):
    """with the block interface of the delegate; blocks end at the top of memory"""
    def read_memory_block(self, addr, n):
        h = self.h
        h.check('block inside memory', h.and_(0 <= addr, addr + n <= 1 << 32))
        return h.mkbytes([self.mem.get(addr + k) for k in range(n)])
    def write_memory_block(self, addr, data):
        h = self.h
        n = h.call(len, data)
        h.check('block inside memory', h.and_(0 <= addr, addr + n <= 1 << 32))
        for k in range(n): self.mem.set(addr + k, data[k])
    def copy(self):
        m = Delegate(self.h, None, self.pcmask)
        m.handler = self.handler
        m.regs = self.regs.copy(); m.mem = self.mem.copy()
        return m

def start(h, pcmask=False, odd=False):
    m = Delegate(h, 'B', pcmask)
    m.invariant(h, odd)          # odd: the program counter may still carry the Thumb bit of a vector
    return m, console(h, m)

def console(h, m):
    c = h.p.console
    t = c.SimTool()
    t.cpu = new_cpu(h, m)
    return c.SimConsole(t)

def run(h, con, line):
    """(exception, printed text)"""
    return h.capture(con.process_command_line, line)

def accepted(h, x, t):
    ok = h.check('never ends the console', x is None, str(x))
    bad = h.begins(t, 'Error') or h.begins(t, 'Unexpected')
    return h.check('accepted', not bad, t if isinstance(t, str) else '') and ok

# ---------------------------------------------------------------- argument values
FORMS = ('d', '0x', '0X', '0b', '0o', '-d', '-0x', '+d')
def number(h, name, form, hi):
    v = h.int(name, 0, hi)
    if form[-1] == 'd': t = h.dec(v)
    elif form[-1] in 'xX': t = h.cat(form.lstrip('+-')[:2], h.hex(v))
    elif form[-1] == 'b': t = h.cat('0b', h.bin(v, hi.bit_length()))
    else: t = h.cat('0o', h.oct(v))
    if form[0] in '+-': t = h.cat(form[0], t)
    return (-v if form[0] == '-' else v), t

def value_number(h, form, dest):
    m, con = start(h)
    v, t = number(h, 'v', form, 99999 if form[-1] == 'd' else 0xffffffffff)
    o = m.copy()
    x, out = run(h, con, h.cat('wreg ', dest, ' ', t))
    if not accepted(h, x, out): return
    o.put(NAMES[dest], v)
    compare(h, 'state', m, o)

def value_register(h, names):
    m, con = start(h)
    nm = h.choice('name', names)
    s = h.choice('spelling', (nm, nm.upper(), nm[0].upper() + nm[1:]))
    o = m.copy()
    x, out = run(h, con, 'wreg r5 ' + s)
    if not accepted(h, x, out): return
    o.put(5, o.get(NAMES[nm]))
    compare(h, 'state', m, o)
    # and again, after the register was changed
    v = h.int('v', 0, M32)
    x, out = run(h, con, h.cat('wreg ', nm, ' 0x', h.hex(v)))
    if not accepted(h, x, out): return
    o.put(NAMES[nm], v)
    x, out = run(h, con, 'wreg r2 ' + s)
    if not accepted(h, x, out): return
    o.put(2, o.get(NAMES[nm]))
    compare(h, 'later state', m, o)

def value_deref(h, base, off):
    """[base] and [base,offset] in the documented forms"""
    m, con = start(h)
    o = m.copy()
    if base in NAMES:
        a, t = m.get(NAMES[base]), base
    else: a, t = number(h, 'v', base, 99999 if base[-1] == 'd' else M32)
    if off is not None:
        d, u = number(h, 'o', off, 9999 if off[-1] == 'd' else 0xffff)
        a = a + d; t = h.cat(t, ',', u)
    h.assume(h.and_(0 <= a, a + 4 <= 1 << 32))
    x, out = run(h, con, h.cat('wreg r5 [', t, ']'))
    if not accepted(h, x, out): return
    o.put(5, o.load(a, 4))
    compare(h, 'state', m, o)

UNDERSCORES = (('1_000', 1000), ('0x1000_0000', 0x10000000), ('0xdead_beef', 0xdeadbeef), ('0b1010_0101', 0xa5), ('0o7_7', 63), ('0XABC', 0xabc),
               ('0B11', 3), ('0O17', 15), ('-1', M32), ('0', 0), ('00', 0), ('4_294_967_295', M32))
def value_examples(h):
    for t, v in UNDERSCORES:
        m, con = start(h)
        o = m.copy()
        x, out = run(h, con, 'wreg r5 ' + t)
        if accepted(h, x, out):
            o.put(5, v)
            compare(h, t, m, o)

for f in FORMS:
    add_task(('T01',), 'con.value.%s' % f, value_number, f, 'r5', functions=F + ['__main__:SimTool.convert_value', '__main__:SimTool.handle_write_reg'])
_names = sorted(NAMES)
for k in range(0, len(_names), 10):
    add_task(('T01',), 'con.value.reg.%d' % k, value_register, _names[k:k + 10], functions=F + ['__main__:SimTool.convert_value'])
for b in ('r0', 'r7', 'sp', 'pc', 'lr', 'd', '0x', '0b', '0o'):
    for f in (None,) + FORMS:
        if b in ('r7', 'lr', '0b', '0o') and f not in (None, '-d'): continue
        add_task(('T01',), 'con.deref.%s%s' % (b, '' if f is None else ',' + f), value_deref, b, f, functions=F + ['__main__:SimTool.convert_value', 'utilities:bytes_to_le32'])
add_task(('T01',), 'con.value.examples', value_examples, functions=F + ['__main__:SimTool.convert_value'])

# ---------------------------------------------------------------- registers
def reg_show(h, names):
    m, con = start(h)
    nm = h.choice('name', names)
    s = h.choice('spelling', (nm, nm.upper()))
    o = m.copy()
    line = h.choice('command', ('reg %s', '%s', 'REG %s', ' reg  %s ')) % s
    x, out = run(h, con, line)
    if not accepted(h, x, out): return
    v = o.get(NAMES[nm])
    toks = h.tokens(out)
    if h.check('shows a value', len(toks) == 4):
        h.check('text', h.and_(toks[0] == nm, toks[1] == '=', toks[2] == h.cat('0x', h.hex(v, 8)), toks[3] == h.cat('(', h.dec(v), ')')))
    compare(h, 'state', m, o)

DUMP = ['r%d' % k for k in range(13)] + ['sp', 'lr', 'pc', 'msp', 'psp', 'xpsr', 'control', 'primask', 'faultmask', 'basepri']
def reg_dump(h):
    m, con = start(h)
    o = m.copy()
    x, out = run(h, con, 'reg')
    if not accepted(h, x, out): return
    toks = h.tokens(out)
    seen = {}
    for a, b in zip(toks[::2], toks[1::2]): seen[a] = b
    for nm in DUMP:
        if h.check('lists ' + nm, nm + ':' in seen): h.check('value of ' + nm, seen[nm + ':'] == h.cat('0x', h.hex(o.get(NAMES[nm]), 8)))
    compare(h, 'state', m, o)

def reg_write(h, names):
    m, con = start(h)
    nm = h.choice('name', names)
    v = h.int('v', 0, M32)
    o = m.copy()
    x, out = run(h, con, h.cat('wreg ', nm, ' 0x', h.hex(v)))
    if not accepted(h, x, out): return
    o.put(NAMES[nm], v)
    compare(h, 'state', m, o)

for k in range(0, len(_names), 10):
    add_task(('T01',), 'con.reg.%d' % k, reg_show, _names[k:k + 10], functions=F + ['__main__:SimTool.handle_reg'])
    add_task(('T01',), 'con.wreg.%d' % k, reg_write, _names[k:k + 10], functions=F + ['__main__:SimTool.handle_write_reg'])
add_task(('T01',), 'con.reg.all', reg_dump, functions=F + ['__main__:SimTool.dump_registers'])

# ---------------------------------------------------------------- memory
READS = {8: ('read', 'read8', 'r', 'rb'), 16: ('read16', 'r16', 'rh'), 32: ('read32', 'r32', 'rw')}
WRITES = {8: ('write', 'write8', 'w', 'wb'), 16: ('write16', 'w16', 'wh'), 32: ('write32', 'w32', 'ww')}
PER = {8: 16, 16: 8, 32: 4}
def read_cmd(h, cmd, width, counts):
    m, con = start(h)
    n = width // 8
    a = h.int('a', 0, M32)
    c = h.choice('count', counts)
    size = n if c is None else c
    h.assume(a + size <= 1 << 32)
    o = m.copy()
    x, out = run(h, con, h.cat(cmd, ' 0x', h.hex(a)) if c is None else h.cat(cmd, ' 0x', h.hex(a), ' %d' % c))
    if not accepted(h, x, out): return
    lines = [l for l in (h.tokens(q) for q in h.lines(out)) if l]
    per = PER[width]
    vals = [o.load(a + n * i, n) for i in range(size // n)]
    if h.check('number of lines', len(lines) == (len(vals) + per - 1) // per, str(len(lines))):
        for k, l in enumerate(lines):
            part = vals[k * per:k * per + per]
            if h.check('items on the line', len(l) == len(part) + 1):
                h.check('address of the line', l[0] == h.cat(h.hex(a + k * 16, 8), ':'))
                for j, v in enumerate(part): h.check('data', l[1 + j] == h.hex(v, width // 4))
    compare(h, 'state', m, o)

def write_cmd(h, cmd, width, n):
    m, con = start(h)
    size = width // 8
    a = h.int('a', 0, M32)
    h.assume(a + size * n <= 1 << 32)
    o = m.copy()
    # halfwords and words are reduced to their size; an oversized byte is refused (con.bad)
    vs = [h.int('v%d' % k, 0, (1 << width + (8 if width > 8 else 0)) - 1) for k in range(n)]
    x, out = run(h, con, h.cat(cmd, ' 0x', h.hex(a), *[q for v in vs for q in (' 0x', h.hex(v))]))
    if not accepted(h, x, out): return
    for k, v in enumerate(vs): o.store(a + k * size, h.low(v, width), size)
    compare(h, 'state', m, o)

def write_overlap(h, cmd, width):
    """values are taken before anything is written, also from the memory that is written"""
    m, con = start(h)
    size = width // 8
    a = 0x20000010
    m.regs.set(4 + 8, a)
    o = m.copy()
    v = h.int('v', 0, 255)
    ls = [o.load(a, 4), o.load(a + 4, 4), o.load(a - 2, 4)]
    x, out = run(h, con, h.cat(cmd, ' r4 0x', h.hex(v), ' [r4] [r4,4] 0x5a [r4,-2] 7 [r4]'))
    if not accepted(h, x, out): return
    for k, w in enumerate((v, ls[0], ls[1], 0x5a, ls[2], 7, ls[0])): o.store(a + k * size, h.low(w, width), size)
    compare(h, 'state', m, o)

def at_register(h, width):
    """addresses and lengths given by registers"""
    m, con = start(h)
    a = m.get(3)
    h.assume(a + 4 <= 1 << 32)
    h.assume(m.get(6) == 4)
    o = m.copy()
    x, out = run(h, con, h.choice('cmd', READS[width]) + ' r3 r6')
    if not accepted(h, x, out): return
    toks = h.tokens(out)
    for v in [o.load(a + k, width // 8) for k in range(0, 4, width // 8)]: h.check('data', h.or_(*[t == h.hex(v, width // 4) for t in toks]))
    x, out = run(h, con, h.choice('wcmd', WRITES[width]) + ' r3 r4')
    if width == 8: h.assume(o.get(4) < 256)
    if width == 16: h.assume(o.get(4) < 65536)
    if not accepted(h, x, out): return
    o.store(a, o.get(4), width // 8)
    compare(h, 'state', m, o)

for w in (8, 16, 32):
    n = w // 8
    for i, c in enumerate(READS[w]):
        for q, cs in enumerate([(None, 0, n, 2 * n, 16)] if i else [(None, 0, n, 3 * n, 16), (16 + n, 32), (32 + 4 * n,), (64,)]):
            add_task(('T01',), 'con.%s' % c + ('.%d' % q if q else ''), read_cmd, c, w, cs, math='lin', weight=1 + q,
                     functions=F + ['__main__:SimTool.do_read', '__main__:dumpHexData', 'utilities:byteListToU16leList', 'utilities:byteListToU32leList'], bound='lengths up to 64 bytes')
        add_task(('T01',), 'con.%s.long' % c, read_cmd, c, w, (128, 132, 256), functions=F, bound='lengths up to 256 bytes', thorough=True)
    for i, c in enumerate(WRITES[w]):
        for k in (1, 2, 5) if i == 0 else (1, 3):
            add_task(('T01',), 'con.%s.%d' % (c, k), write_cmd, c, w, k, functions=F + ['__main__:SimTool.do_write', 'utilities:u16leListToByteList', 'utilities:u32leListToByteList'], bound='up to 5 values')
    if w > 8: add_task(('T01',), 'con.overlap.%d' % w, write_overlap, WRITES[w][0], w, functions=F + ['__main__:SimTool.do_write', '__main__:SimTool.convert_value'], bound='7 values at one address')
    add_task(('T01',), 'con.reg.address.%d' % w, at_register, w, functions=F + ['__main__:SimTool.do_read', '__main__:SimTool.do_write', '__main__:SimTool.convert_value'])

CHANGES = ('wb', 'wh', 'ww', 'wreg', 's', 'no such', 'rw [', 'ww 0x20000010 zz', 'wreg r99 1')
def afterwards(h, firsts):
    """what earlier commands read, changed or refused: every way to look at a word before and after each of two
    changes to it, by writes of any size, register writes, a stepped store and rejected lines"""
    m, con = start(h)
    a, pc = 0x20000010, 0x1000
    m.regs.set(15 + 8, pc)
    m.regs.set(4 + 8, a)
    for k, b in enumerate((0x25, 0x60, 0x25, 0x60)): m.mem.set(pc + k, b)      # str r5, [r4], twice
    o = m.copy()
    def go(line):
        x, out = run(h, con, line)
        return out if accepted(h, x, out) else None
    def look(tag):
        for c, w in (('rb', 8), ('rh', 16), ('rw', 32)):
            n = w // 8
            out = go('%s 0x%x 4' % (c, a))
            if out is None: return False
            toks = h.tokens(out)
            if h.check(tag + 'number of items', len(toks) == 1 + 4 // n):
                for k in range(4 // n): h.check(tag + 'data of ' + c, toks[1 + k] == h.hex(o.load(a + n * k, n), w // 4))
        if go('wreg r6 [r4]') is None: return False
        o.put(6, o.load(a, 4))
        if go('wreg r7 r5') is None: return False
        o.put(7, o.get(5))
        out = go('reg r5')
        if out is None: return False
        h.check(tag + 'register', out == h.cat('r5 = 0x', h.hex(o.get(5), 8), ' (', h.dec(o.get(5)), ')\n'))
        compare(h, tag + 'state', m, o)
        return True
    def change(k, tag):
        v = h.int('v%d' % k, 0, M32)
        op = h.choice('op%d' % k, firsts if k == 1 else CHANGES)
        if op in ('wb', 'wh', 'ww'):
            n = {'wb': 1, 'wh': 2, 'ww': 4}[op]
            at = a + (0 if n == 4 else n)
            v = h.low(v, 8 * n)
            if go(h.cat(op, ' 0x%x 0x' % at, h.hex(v))) is not None: o.store(at, v, n)
        elif op == 'wreg':
            if go(h.cat('wreg r5 0x', h.hex(v))) is not None: o.put(5, v)
        elif op == 's':
            if go('s') is not None: o.store(a, o.get(5), 4); o.put(15, o.get(15) + 2)
        else:
            x, out = run(h, con, op)
            h.check(tag + 'never ends the console', x is None, str(x))
            h.check(tag + 'reported', h.begins(out, 'Error') or h.begins(out, 'Unexpected'))
    if look('before: '):
        change(1, 'first: ')
        if look('after one: '):
            change(2, 'second: ')
            look('after two: ')

for k in range(0, 9, 3):
    add_task(('T01',), 'con.afterwards.%d' % k, afterwards, CHANGES[k:k + 3], math='lin', weight=2, functions=F + ['__main__:SimTool.do_read', '__main__:SimTool.do_write', '__main__:SimTool.handle_step', '__main__:SimTool.handle_write_reg', '__main__:SimTool.convert_value'],
             bound='one address, two changes')

# ---------------------------------------------------------------- disassemble and step
def place(h, m, addr, bs):
    for k, b in enumerate(bs): m.mem.set(addr + k, b)

def step_cmd(h, e):
    from .isa import exec_task
    w = h.word('w', e.pat)
    addr = h.int('a', 0, 0x7ffffff0) * 2
    hws = [w] if e.size == 2 else [w >> 16, w & 0xffff]
    bs = [b for q in hws for b in (q & 0xff, q >> 8)]
    s = e.spec(h, w, addr)
    h.assume(h.and_(*[h.not_(c) for c in (s.skip, s.undef, s.must, s.may, s.pcsrc)]))
    h.assume(h.not_(s.loose))
    m = Delegate(h, 'B', pcmask=e.kind == 'list')
    m.regs.set(15 + 8, addr)
    m.invariant(h)
    place(h, m, addr, bs)
    o = m.copy()
    x, i = decode(h, h.mkbytes(bs), addr)
    if x is not None: return
    s.ex(St(h, o))
    con = console(h, m)
    x, text = fmt(h, i, con.tool.cpu)
    if x is not None: return
    x, out = run(h, con, h.choice('cmd', ('step', 's')))
    if not accepted(h, x, out): return
    compare(h, 'state', m, o)
    h.check('shows the instruction', out == h.cat('0x', h.hex(addr, 8), ':  ', text, '\n'))

def step_any(h):
    """whatever is decoded from the bytes at the program counter is what is executed, once, on this processor"""
    m, con = start(h, True, True)
    addr = h.int('a', 0, 0x7ffffffc) * 2
    m.regs.set(15 + 8, addr + h.int('odd', 0, 1))
    o = m.copy()
    D, Fm = h.p.decoder, h.p.formatter.Formatter
    if 'decode' not in D.DecoderTree.__dict__ or 'format' not in Fm.__dict__: raise Unfit('no DecoderTree.decode or Formatter.format')
    seen = []
    v, w = h.int('v', 0, M32), h.int('w', 0, 255)
    class Instr(D.Instruction):
        def execute(self, cpu):
            seen.append(self)
            h.check('executes on the processor of the console', cpu is con.tool.cpu)
            cpu.write_register(3, v)
            m.put(15, addr + 2)
            m.mem.set(addr, w)
    def dec(tree, data, address=0):
        h.check('decodes at the program counter', address == addr)
        n = h.call(len, data)
        if h.check('has enough bytes to decode', n >= 4):
            for k in range(4): h.check('byte %d at the program counter' % k, data[k] == o.mem.get(addr + k))
        i = Instr('op', data[0] | (data[1] << 8), False)
        i.address = address
        return i
    old = D.DecoderTree.decode, Fm.format
    D.DecoderTree.decode = dec
    Fm.format = lambda f, i: 'TEXT of it'
    try: x, out = run(h, con, h.choice('cmd', ('step', 's')))
    finally: D.DecoderTree.decode, Fm.format = old
    if not accepted(h, x, out): return
    h.check('executes one instruction', len(seen) == 1)
    h.check('shows the instruction', out == h.cat('0x', h.hex(addr, 8), ':  TEXT of it\n'))
    o.put(3, v); o.put(15, addr + 2); o.mem.set(addr, w)
    compare(h, 'state', m, o)

def dis_cmd(h, names, cmd):
    """two instructions after another, from an even or odd address"""
    es = [thumb.BY_NAME[n] for n in names]
    start_ = h.int('a', 0, 0x7fffff00) * 2
    m = Delegate(h, 'B', True)
    if cmd == 'pc': m.regs.set(15 + 8, start_)
    m.invariant(h)
    at, want = start_, []
    con = console(h, m)
    for k, e in enumerate(es):
        w = h.word('w%d' % k, e.pat)
        s = e.spec(h, w, at)
        h.assume(h.and_(*[h.not_(c) for c in (s.skip, s.undef, s.must, s.may, s.also)]))
        hws = [w] if e.size == 2 else [w >> 16, w & 0xffff]
        bs = [b for q in hws for b in (q & 0xff, q >> 8)]
        place(h, m, at, bs)
        x, i = decode(h, h.mkbytes(bs), at)
        if x is not None: return
        x, t = fmt(h, i, con.tool.cpu)
        if x is not None: return
        want.append((at, t))
        at = at + e.size
    total = sum(e.size for e in es)
    o = m.copy()
    odd = h.choice('odd', (0, 1))
    center = cmd.startswith('-c') or '--center' in cmd
    a = start_ + odd
    if center: a = a + total // 2
    if cmd == 'pc':
        line = 'disasm pc %d' % total
    elif center: line = h.cat('disasm %s 0x' % cmd, h.hex(a), ' %d' % total)
    else: line = h.cat(cmd, ' 0x', h.hex(a), ' %d' % total)
    x, out = run(h, con, line)
    if not accepted(h, x, out): return
    lines = h.lines(out)
    if lines and h.split(h.call(len, lines[-1]) == 0): lines = lines[:-1]
    if cmd == 'pc': lines = lines[1:]           # the value of the register
    if h.check('one line per instruction', len(lines) == len(want), str(len(lines))):
        for l, (at, t) in zip(lines, want):
            mark = '*' if h.split(m.get(15) == at) else ' '
            h.check('line', l == h.cat('0x', h.hex(at, 8), ':', mark, ' ', t))
    compare(h, 'state', m, o)

def failing(h, cmd, exc):
    """whatever the decoder refuses is reported and changes nothing"""
    m, con = start(h, True, True)
    h.assume(m.get(15) + 8 <= 1 << 32)
    o = m.copy()
    D = h.p.decoder.DecoderTree
    if not hasattr(D, 'decode'): raise Unfit('no DecoderTree.decode')
    old = D.decode
    calls = []
    def dec(tree, *a, **kw):
        calls.append(1)
        raise getattr(h.p.decoder, exc)()
    D.decode = dec
    try: x, out = run(h, con, cmd)
    finally: D.decode = old
    if not calls: raise Unfit('the decoder is not used')
    h.check('never ends the console', x is None, str(x))
    h.check('is reported', len(h.tokens(out)) > 0)
    compare(h, 'state', m, o)

add_task(('T01',), 'con.step.any', step_any, functions=F + ['__main__:SimTool.handle_step', 'disasm:Disassembler.disasm'], assumes=('DecoderTree.decode and Instruction.execute meet their contracts (shown by D02 and X01-X07)',))
STEPS = ('mov_imm_t1', 'lsl_imm_t1', 'adr_t1', 'b_t1_eq', 'b_t2', 'bl_t1', 'ldr_lit_t1', 'str_sp_t2', 'ldr_sp_t2', 'cps_t1', 'nop', 'isb', 'movw', 'add_sp_imm_t2')
for e in thumb.ENCODINGS:
    if e.name in STEPS: add_task(('T01',), 'con.step.' + e.name, step_cmd, e, functions=F + ['__main__:SimTool.handle_step', 'disasm:Disassembler.disasm'])
for ns in (('nop', 'bl_t1'), ('mov_imm_t1', 'b_t2'), ('ldr_lit_t1', 'adr_t1'), ('bl_t1', 'nop', 'sub_sp_imm_t1')):
    for c in ('disasm', 'd', '-c', '--center', 'pc'):
        if all(n in thumb.BY_NAME for n in ns) and (c in ('d', '-c') or ns[0] != 'bl_t1'):
            add_task(('T01',), 'con.dis.%s.%s' % (ns[0], c), dis_cmd, ns, c, functions=F + ['__main__:SimTool.handle_disasm', '__main__:SimTool.print_disasm'], bound='2 or 3 instructions')
for c in ('step', 's', 'd', 'disasm pc 4', 'd 0x100 8'):
    for x in ('UndefinedInstructionError', 'UnpredictableError'):
        add_task(('T01',), 'con.refused.%s.%s' % (c.replace(' ', '_'), x), failing, c, x, functions=F + ['__main__:SimTool.handle_step', '__main__:SimTool.print_disasm'])

# ---------------------------------------------------------------- malformed commands
BAD = ('foo', 'regs', 'reg r16', 'reg x', 'reg 5', 'wreg', 'wreg r1', 'wreg r99 1', 'wreg foo 0', 'wreg r1 xyz', 'wreg r1 0x', 'wreg r1 0b2', 'wreg r1 [', 'wreg r1 [r2', 'wreg r1 []',
       'wreg r1 [r2,]', 'wreg r1 [r2,r3]', 'wreg r1 [r2,1,2]', 'wreg r1 [r2 ,1]', 'wreg r1 []]', 'wreg r1 08', 'wreg r1 1.5', 'wreg 1 r1', 'wreg r1 r16', 'read', 'read8', 'read16', 'read32', 'r zz', 'r32 0x1g', 'read r99',
       'write', 'write8', 'write16', 'write32', 'w 0x10', 'w32 0x10', 'w16 0x10', 'w 0x10 256', 'w 0x10 -1', 'w 0x10 zz', 'w32 0x10 1 zz', 'w16 r3 1 [r2', 'w zz 1', 'd zz', 'disasm -x', 'disasm --foo 1', 'disasm 0 zz',
       'log', 'log loud', '!', '[r1]', '0x10', 'r1 = 5 ;foo', 'r0r1', 'wreg r1 _', 'wreg r1 0x_', 'w 0x10 [',
       'w 0x20000000 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 zz', 'w 0x20000000 1 2 3 4 5 6 7 256 1', 'w16 0x20000000 1 2 3 4 5 6 7 8 9 [r99]', 'w32 0x20000000 1 2 3 4 5 6 7 8 [r1,', 'w32 0x20000000 1 2 zz 4')
SILENT = ('help', '?', 'help reg', 'info', 'i', 'map', 'log info', 'HELP')

def bad_cmd(h, line):
    m, con = start(h)
    o = m.copy()
    x, out = run(h, con, line)
    h.check('never ends the console', x is None, str(x))
    h.check('is reported', len(h.tokens(out)) > 0)
    compare(h, 'state', m, o)

def quiet_cmd(h):
    for line in SILENT:
        m, con = start(h)
        o = m.copy()
        x, out = run(h, con, line)
        h.check('never ends the console', x is None, str(x))
        compare(h, line, m, o)

def exit_cmd(h):
    for line in ('exit', 'quit', 'EXIT', ' quit '):
        m, con = start(h)
        o = m.copy()
        x, out = run(h, con, line)
        h.check('ends the console', x == 'ToolExitException', str(x))
        compare(h, 'state', m, o)

def reader(c):
    """the console's line source, installed once (never taken away again: the
    name must stay a global of the module)"""
    f = c.__dict__.get('input')
    if f is None or not hasattr(f, 'feed'):
        def f(prompt=''): return f.feed[-1](prompt)
        f.feed = []
        c.input = f
    return f.feed

def sequence(h):
    """several commands on a line and on several lines; an empty line repeats the last one"""
    m, con = start(h)
    o = m.copy()
    c = h.p.console
    v = h.int('v', 0, M32)
    script = [h.cat('wreg r1 0x', h.hex(v), '; wreg r2 r1;foo; wreg r3 [r99]'), '', 'nonsense', '  ', 'wreg r4 r3 ; wreg r3 r2', '', 'step me; wreg zz 1; quit']
    script.pop()
    feed = iter(script)
    def read(prompt=''):
        for l in feed: return l
        raise EOFError()
    reader(c).append(read)
    try: x, out = h.capture(con.run)
    finally: c.input.feed.pop()
    h.check('ends at the end of the input only', x is None, str(x))
    r3 = o.get(3)
    o.put(1, v); o.put(2, v)
    o.put(4, r3); o.put(3, v)
    o.put(4, v)
    compare(h, 'state', m, o)

for k in range(len(BAD)):
    add_task(('T01',), 'con.bad.%d' % k, bad_cmd, BAD[k], functions=F)
add_task(('T01',), 'con.quiet', quiet_cmd, functions=F)
add_task(('T01',), 'con.exit', exit_cmd, functions=F + ['__main__:SimTool.handle_exit'])
add_task(('T01',), 'con.run', sequence, functions=F + ['__main__:SimConsole.run'])

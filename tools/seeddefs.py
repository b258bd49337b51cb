"""Planted bugs (source of /verif/seeded; no check reads this)."""
SEEDS = []
def seed(id, property, edits, needs, breaks, demo, also=()):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, also=list(also)))

MACH = '''
from cmdis import disasm
from cmdis.bitstring import bitstring
from cmdis.model import CpuModel
from cmdis.mock_cpu import MockCpuModelDelegate
from cmdis.formatter import Formatter
def cpu():
    c = CpuModel()
    c.delegate = MockCpuModelDelegate()
    c.delegate.add_memory(0, 0x1000)
    c.delegate.add_memory(0x20000000, 0x1000)
    return c
def dec(*hws, **kw):
    b = bytearray()
    for h in hws: b += bytearray([h & 255, h >> 8])
    return disasm.decoder.decode(b, kw.get('address', 0))
def text(i): return Formatter(None).format(i)
'''

seed('x06-ldm-address-wrap', 'X06', [('cmdis/instructions.py',
  """class LoadMultiple(Instruction):
    def _eval(self, cpu):
        address = cpu.r[self.n]
""", """class LoadMultiple(Instruction):
    def _eval(self, cpu):
        address = cpu.r[self.n].unsigned
""")],
  "ldm whose register list runs past the top of the address space",
  "the running address no longer wraps at 2**32, so the words at the bottom of memory are not the ones loaded",
  MACH + '''
c = cpu()
c.delegate.add_memory(0xfffff000, 0x1000)
c.r[0] = bitstring(0xfffffffc)
c.write32(bitstring(0xfffffffc), bitstring(0x11)); c.write32(bitstring(0), bitstring(0x22))
dec(0xc806).execute(c)                 # ldm r0!, {r1,r2}
assert (c.r[1].unsigned, c.r[2].unsigned) == (0x11, 0x22), c
''')

seed('x08-cmp-inverts-immediate', 'X08', [('cmdis/instructions.py',
  "            shifted = ~shifted\n            carry_in = bit1\n",
  "            shifted = shifted.invert()\n            carry_in = bit1\n")],
  "the same decoded cmp immediate executed twice (a loop body)",
  "executing cmp inverts the stored immediate in place, so the second execution compares with the complement",
  MACH + '''
i = dec(0x2805)                          # cmp r0, #5
for k in range(3):
    c = cpu(); c.r[0] = bitstring(5)
    i.execute(c)
    assert c.apsr.z == 1, k
''')

seed('x03-ror-multiple-of-32-carry', 'X03', [('cmdis/helpers.py',
  "    carry_out = result[x.width-1]\n", "    carry_out = x[m-1] if m else x[0]\n")],
  "ror by a register whose low byte is a non-zero multiple of 32",
  "the carry of a rotation by 32, 64, ... comes from bit 0 instead of bit 31",
  MACH + '''
i = dec(0x41c8)                          # rors r0, r1
for n in (32, 64, 96, 128, 160, 192, 224):
    c = cpu(); c.r[0] = bitstring(0x80000000); c.r[1] = bitstring(n)
    i.execute(c)
    assert c.r[0].unsigned == 0x80000000 and c.apsr.c == 1, n
''', also=['H02'])

seed('d02-field-cache', 'D02', [('cmdis/decoder.py',
  "        attrs = {}\n        for n,f in self._attrs.items():\n            attrs[n] = f(word)\n",
  "        attrs = self.__dict__.setdefault('_fields', {}).get(word)\n        if attrs is None:\n            attrs = self._fields[word] = dict((n, f(word)) for n, f in self._attrs.items())\n")],
  "the same halfword/word load or store decoded twice in one process",
  "extracted fields are cached per word, and handlers that widen a field in place corrupt the next decode",
  MACH + '''
a = text(dec(0x6848)); b = text(dec(0x6848))   # ldr r0, [r1, #4]
assert a == b, (a, b)
assert text(dec(0x6848)) == a
''', also=['X08'])

seed('c01-add-zero-alias', 'C01', [('cmdis/bitstring.py',
  """    def __add__(self, other):
        b = bitstring(self)
""", """    def __add__(self, other):
        if not self._value and isinstance(other, bitstring) and other._width == self._width:
            return other # nothing to add to
        b = bitstring(self)
""")],
  "adding a bit string to a zero one of the same width, then changing the result in place",
  "the sum is the right operand itself, so an in-place operation on the sum changes the operand",
  MACH + '''
for w in (1, 4, 32):
    y = bitstring(5, w); z = bitstring(0, w)
    s = z + y
    before = y.unsigned
    s += 1
    assert y.unsigned == before, w
''')

seed('c04-slice-shift', 'C04', [('cmdis/bitstring.py',
  """            start, stop, step = key.indices(self._width)
            i = start
            result = bitstring()
""", """            start, stop, step = key.indices(self._width)
            if step == 1:
                return bitstring(self._value >> start, abs(stop - start))
            i = start
            result = bitstring()
""")],
  "a slice whose start lies beyond its stop",
  "x[5:2] yields three bits instead of none",
  MACH + '''
x = bitstring(0xff, 8)
assert len(x[5:2]) == 0 and len(x[8:8]) == 0
assert x[2:5] == '111'
''')

seed('c05-sign-extend-one', 'C05', [('cmdis/bitstring.py',
  "        b = bitstring([s] * d)\n", "        b = bitstring(-s & 0xffffffff, d)\n")],
  "sign extension of a negative value by more than 32 bits",
  "only the 32 bits above the old sign are filled; those further up stay zero",
  MACH + '''
for w in (2, 8, 31):
    for n in (w + 1, 32, 48, 64, 80, 100):
        if n < w: continue
        assert bitstring(1 << (w - 1), w).sign_extend(n).signed == -(1 << (w - 1)), (w, n)
''', also=['H02'])

seed('c06-bytes-word', 'C06', [('cmdis/bitstring.py',
  """            for i,b in enumerate(val):
                self._value |= b << (i * 8)
""", """            for i,b in enumerate(val):
                self._value |= b << ((i & 7) * 8)
""")],
  "a bytearray of more than eight bytes",
  "the ninth and later bytes are merged into the low ones",
  MACH + '''
for n in range(0, 20):
    b = bytearray(range(1, n + 1))
    x = bitstring(b)
    assert x.width == 8 * n and x.bytes == b, n
''')

seed('c07-lt-negative', 'C07', [('cmdis/bitstring.py',
  """            if other < 0:
                return self.signed < other
            else:
                return self._value < other
""", """            if other < 0:
                return self._value < other & self._mask
            else:
                return self._value < other
""")],
  "ordering against a negative integer that is below the range of the width, or a non-negative bit string",
  "the unsigned values are compared, so a positive bit string counts as below -1",
  MACH + '''
for w in (2, 4, 8):
    for v in range(1 << w):
        x = bitstring(v, w)
        for k in range(-20, 0):
            assert (x < k) == (x.signed < k) and (x >= k) == (x.signed >= k), (w, v, k)
''')

seed('c08-highest-log', 'C08', [('cmdis/bitstring.py',
  """        for n in range(self._width - 1, -1, -1):
            if (self._value >> n) & 1:
                return n
        return -1
""", """        return int(math.log(self._value, 2)) if self._value else -1
"""), ('cmdis/bitstring.py', "import collections\nimport functools\n", "import collections\nimport functools\nimport math\n")],
  "values just below a large power of two",
  "the logarithm is computed in floating point, so the highest bit of e.g. 2**48-1 is off by one",
  MACH + '''
for w in range(1, 80):
    for v in (1 << (w - 1), (1 << w) - 1):
        assert bitstring(v, w).highest_set_bit() == w - 1, (w, hex(v))
''')

seed('h01-align-signed', 'H01', [('cmdis/helpers.py',
  "        mask = ~bitstring(alignment - 1, value.width)\n", "        mask = ~bitstring(alignment - 1)\n")],
  "aligning a bit string wider than 32 bits",
  "the mask is 32 bits wide, so the upper bits of a wider value are lost",
  MACH + '''
from cmdis.helpers import Align
for w in (8, 32, 33, 40, 64):
    v = (1 << w) - 1
    assert Align(bitstring(v, w), 4).unsigned == v & ~3, w
''')

seed('x03-lsr-long', 'X03', [('cmdis/helpers.py',
  """    ext_x = x.zero_extend(shift + x.width)
    result = ext_x[shift:shift+x.width]
    carry_out = ext_x[shift-1]
""", """    shift = min(shift, x.width) # nothing is left beyond that
    ext_x = x.zero_extend(shift + x.width)
    result = ext_x[shift:shift+x.width]
    carry_out = ext_x[shift-1]
""")],
  "lsr by a register distance of 33 or more with bit 31 of the operand set",
  "the carry is bit 31 of the operand as for distance 32, not 0",
  MACH + '''
i = dec(0x40c8)                          # lsrs r0, r1
for n in range(33, 256):
    c = cpu(); c.r[0] = bitstring(0xffffffff); c.r[1] = bitstring(n); c.apsr.c = 1
    i.execute(c)
    assert c.r[0].unsigned == 0 and c.apsr.c == 0, n
''', also=['H02'])

seed('u01-bfi-field', 'U01', [('cmdis/utilities.py',
  "    value &= ~mask\n    value |= (field << lsb) & mask\n", "    value &= ~mask\n    value |= field << lsb & mask << lsb\n")],
  "inserting a field value wider than the field",
  "the surplus field bits are masked at the wrong place and spill into the bits above the field",
  MACH + '''
from cmdis.utilities import bfi, bfx
for msb in range(0, 12):
    for lsb in range(0, msb + 1):
        for f in (0, 1, 3, 0xff, 0x155):
            r = bfi(0, f, msb, lsb)
            assert r == (f & ((1 << (msb - lsb + 1)) - 1)) << lsb, (msb, lsb, f)
''')

seed('d02-instruction-cache', 'D02', [('cmdis/decoder.py',
  """                for d in node.children:
                    try:
                        if d.check(word):
                            return d.decode(word, address=dataAddress)
""", """                for d in node.children:
                    try:
                        if d.check(word):
                            return self._cached(d, word, dataAddress)
"""), ('cmdis/decoder.py', """    def _build_tree(self, decoders):
""", """    # Decoding the same word again is common (loops), so keep the last few results.
    def _cached(self, decoder, word, address):
        cache = self.__dict__.setdefault('_recent', {})
        i = cache.get((decoder, word))
        if i is None:
            if len(cache) > 64:
                cache.clear()
            i = cache[decoder, word] = decoder.decode(word, address=address)
        i.address = address
        return i

    def _build_tree(self, decoders):
""")],
  "the same word decoded at two addresses while the first instruction is still in use",
  "both decodes give the same object, so the second one moves the first to its address",
  MACH + '''
a = dec(0xe7fe, address=0x100)
t = text(a)
b = dec(0xe7fe, address=0x200)
assert a.address == 0x100 and text(a) == t
''', also=['X08', 'S01'])

seed('d03-cmp-high', 'D03', [('cmdis/instructions.py',
  "    i.n = (N % Rn).unsigned\n    i.m = Rm.unsigned\n", "    i.n = Rn.unsigned + 8 * (N & Rm[3:4]).unsigned\n    i.m = Rm.unsigned\n")],
  "cmp of a high first register with a low second one",
  "the first register loses its top bit unless both are high",
  MACH + '''
for n in range(16):
    for m in range(16):
        w = 0x4500 | (n >> 3) << 7 | m << 3 | n & 7
        c = cpu()
        for k in range(16):
            if k != 15: c.r[k] = bitstring(16 * k)
        i = dec(w)
        names = ['r%d' % k for k in range(13)] + ['sp', 'lr', 'pc']
        assert text(i).split(None, 2)[2].split(' ;')[0] == '%s, %s' % (names[n], names[m]), (n, m, text(i))
''', also=['X01'])

seed('d04-bl-sign', 'D04', [('cmdis/instructions.py',
  "    i.imm32 = (S % I1 % I2 % imm10 % imm11 % '0').sign_extend(32)\n",
  "    i.imm32 = (S % I2 % I1 % imm10 % imm11 % '0').sign_extend(32)\n")],
  "bl over a distance of 4 MB to 12 MB (J1 and J2 differ)",
  "the two recovered offset bits are swapped",
  MACH + '''
def bl(off):
    S = (off >> 24) & 1; I1 = (off >> 23) & 1; I2 = (off >> 22) & 1
    J1 = 1 - (I1 ^ S); J2 = 1 - (I2 ^ S)
    return 0xf000 | S << 10 | (off >> 12) & 0x3ff, 0xd000 | J1 << 13 | J2 << 11 | (off >> 1) & 0x7ff
for off in (0, 4, -4, 0x400000, 0x800000, 0xc00000, -0x400004, -0x800004, -0xc00004):
    c = cpu(); c.pc = 0x10000000
    dec(*bl(off)).execute(c)
    assert c.pc.unsigned == 0x10000004 + off, hex(off)
''', also=['X04', 'F01'])

seed('s01-tail-four', 'S01', [('cmdis/disasm.py',
  "                if endAddress - address < 4:\n", "                if endAddress - address <= 4:\n")],
  "an undecodable place exactly four bytes before the end",
  "it is dropped quietly instead of being reported",
  MACH + '''
from cmdis.decoder import UndefinedInstructionError
for tail in (b'\\xff\\xff\\xff\\xff', b'\\x00\\xb1\\x00\\xbf'):
    try: list(disasm.Disassembler().disasm(bytearray(b'\\x00\\xbf') + bytearray(tail), 0))
    except UndefinedInstructionError: pass
    else: raise SystemExit('not reported: %r' % tail)
assert len(list(disasm.Disassembler().disasm(bytearray(b'\\x00\\xbf\\xff\\xff'), 0))) == 1
''')

seed('x01-sbc-twice', 'X01', [('cmdis/instructions.py',
  """    def _eval(self, cpu):
        # TODO handle PC + 4
        if self.sub:
""", """    def _eval(self, cpu):
        # TODO handle PC + 4
        if self.sub and self.n == self.d and self.d == getattr(self, 'm', None) and not self.use_carry:
            # Subtracting a register from itself.
            result, carry, overflow = zeros(32), bit0, bit0
        elif self.sub:
""")],
  "subs of a register from itself",
  "the carry (no borrow) is 0 instead of 1",
  MACH + '''
for r in range(8):
    c = cpu(); c.r[r] = bitstring(7)
    dec(0x1a00 | r << 6 | r << 3 | r).execute(c)     # subs r, r, r
    assert c.r[r] == 0 and c.apsr.c == 1 and c.apsr.z == 1, r
''')

seed('x05-literal-align', 'X05', [('cmdis/instructions.py',
  """        base = Align(cpu.pc_for_instr, 4)
        address = (base + self.imm32) if self.add else (base - self.imm32)
""", """        address = Align((cpu.pc_for_instr + self.imm32) if self.add else (cpu.pc_for_instr - self.imm32), 4)
""")],
  "ldrb.w/ldrh.w literal with an offset that is not a multiple of four",
  "the final address is word aligned instead of the PC",
  MACH + '''
for pc in (0x100, 0x102):
    for off in range(8):
        c = cpu(); c.pc = pc
        c.write_memory_block(0x100, bytearray(range(32)))
        i = dec(0xf89f, 0x0000 | off); i.execute(c)        # ldrb.w r0, [pc, #off]
        assert c.r[0].unsigned == ((pc + 4) & ~3) + off - 0x100, (pc, off)
''')

seed('x05-wide-shift-carry', 'X05', [('cmdis/instructions.py',
  "        cpu.write_memory(address, cpu.r[self.t][0:self.memsize], self.memsize)\n",
  "        cpu.write_memory(Align(address, self.memsize // 8), cpu.r[self.t][0:self.memsize], self.memsize)\n")],
  "a halfword or word store to an unaligned address",
  "the address is aligned down first",
  MACH + '''
for a in (0x20000001, 0x20000002, 0x20000003):
    c = cpu(); c.r[0] = bitstring(0x11223344); c.r[1] = bitstring(a)
    dec(0x6008).execute(c)                 # str r0, [r1]
    assert c.read32(a).unsigned == 0x11223344, hex(a)
''')

seed('x07-mrs-xpsr-alias', 'X07', [('cmdis/instructions.py',
  "                r[0] = cpu.read_register(CORE_REGISTER['faultmask'])[0] if cpu.is_privileged else 0\n",
  "                r[0] = cpu.read_register(CORE_REGISTER['faultmask'])[0]\n")],
  "mrs of FAULTMASK from unprivileged thread mode while it is set",
  "the mask is visible to unprivileged code instead of reading as zero",
  MACH + '''
c = cpu()
c.write_register('faultmask', 1); c.write_register('control', 1)
dec(0xf3ef, 0x8013).execute(c)             # mrs r0, faultmask
assert c.r[0] == 0
''')

seed('m01-flag-shared', 'M01', [('cmdis/model.py',
  """    def write_register(self, reg, value):
        reg = register_name_to_index(reg)
        if isinstance(value, bitstring):
            value = value.unsigned
""", """    def write_register(self, reg, value):
        reg = register_name_to_index(reg)
        if isinstance(value, bitstring):
            value = value.signed if reg in (13, 14, 15) else value.unsigned
""")],
  "the delegate's own register file is looked at after writing an address with bit 31 set to sp, lr or pc",
  "the delegate receives a negative number, so the raw register does not hold the 32-bit value",
  MACH + '''
c = cpu()
for r in ('sp', 'lr', 'pc'):
    c.write_register(r, bitstring(0xfffffff8))
    assert c.read_register(r).unsigned == 0xfffffff8
    assert c.delegate.read_register({'sp': 13, 'lr': 14, 'pc': 15}[r]) == 0xfffffff8, r
''', also=['M03'])

seed('m02-block-append', 'M02', [('cmdis/mock_cpu.py',
  "            mem.data[offset:offset+len(data)] = data\n", "            mem.data[offset:offset+len(data)] = bytearray(data).rstrip(b'\\0') or data\n")],
  "a block write that ends in zero bytes",
  "trailing zero bytes are dropped and the region shrinks",
  MACH + '''
c = cpu()
c.write_memory_block(0x10, bytearray([1, 2, 3, 4]))
c.write_memory_block(0x10, bytearray([5, 6, 0, 0]))
assert bytes(c.read_memory_block(0x10, 5)) == b'\\5\\6\\0\\0\\0'
assert c.read32(0xffc) == 0 and len(c.delegate._find_mem(0)[0].data) == 0x1000
''')

seed('m03-psp-mirror', 'M03', [('cmdis/mock_cpu.py',
  """        elif (reg == CORE_REGISTER['msp'] and spsel == 0) or \\
                (reg == CORE_REGISTER['psp'] and spsel == 1):
            self._regs[CORE_REGISTER['sp']] = value
""", """        elif reg == CORE_REGISTER['msp'] or (reg == CORE_REGISTER['psp'] and spsel == 1):
            self._regs[CORE_REGISTER['sp']] = value
""")],
  "writing MSP while PSP is selected by CONTROL",
  "SP follows MSP although PSP is the active stack pointer",
  MACH + '''
c = cpu()
c.write_register('msp', 0x100); c.write_register('psp', 0x200)
c.write_register('control', 2)
c.write_register('msp', 0x300)
assert c.sp.unsigned == 0x200 and c.psp.unsigned == 0x200
''')

CONSOLE = MACH + '''
import io, sys, warnings
warnings.simplefilter('ignore')
from lib2to3.refactor import RefactoringTool, get_fixers_from_package
import types
src = open('cmdis/__main__.py').read()
m = types.ModuleType('cmdis.__main__')
exec(compile(str(RefactoringTool(get_fixers_from_package('lib2to3.fixes')).refactor_string(src, 'm')), 'm', 'exec'), m.__dict__)
def tool():
    t = m.SimTool(); t.cpu = cpu(); return t
def run(t, line):
    con = m.SimConsole(t); old = sys.stdout; sys.stdout = io.StringIO()
    try: con.process_command_line(line)
    finally: out = sys.stdout.getvalue(); sys.stdout = old
    return out
'''
seed('t01-deref-offset', 'T01', [('cmdis/__main__.py',
  "            value = cmdis.utilities.bytes_to_le32(self.cpu.read_memory_block(value + offset, 4))\n",
  "            value = cmdis.utilities.bytes_to_le32(self.cpu.read_memory_block(value + abs(offset), 4))\n")],
  "a dereference with a negative offset",
  "the offset is added instead of subtracted",
  CONSOLE + '''
t = tool()
t.cpu.write32(0x20, 0x11223344); t.cpu.write32(0x28, 0x55667788); t.cpu.r[3] = bitstring(0x24)
run(t, 'wreg r0 [r3,-4]')
assert t.cpu.r[0].unsigned == 0x11223344
run(t, 'wreg r0 [0x20,8]')
assert t.cpu.r[0].unsigned == 0x55667788
''')

seed('t01-step-thumb', 'T01', [('cmdis/__main__.py',
  "        pc = self.cpu.read_register('pc').unsigned & ~1\n\n        dis = cmdis.disasm.Disassembler()\n        fmt = cmdis.formatter.Formatter(self.cpu)\n\n        try:\n",
  "        pc = self.cpu.read_register('pc').unsigned & ~3\n\n        dis = cmdis.disasm.Disassembler()\n        fmt = cmdis.formatter.Formatter(self.cpu)\n\n        try:\n")],
  "stepping while the PC is at a halfword that is not word aligned",
  "the instruction before it is executed",
  CONSOLE + '''
t = tool()
t.cpu.write_memory_block(0x100, bytearray([0x01, 0x20, 0x02, 0x21]))    # movs r0,#1; movs r1,#2
t.cpu.pc = 0x100
run(t, 'step'); run(t, 's')
assert t.cpu.r[0] == 1 and t.cpu.r[1] == 2, t.cpu
''')

seed('f01-reglist-sp-gap', 'F01', [('cmdis/formatter.py',
  """            else:
                add_reg_range(regs)
                startRange = -1
                endRange = -1
""", """            elif n != 13: # sp is never listed, so it does not end a range
                add_reg_range(regs)
                startRange = -1
                endRange = -1
""")],
  "a register list with both r12 and lr",
  "they are printed as the range r12-lr, which includes sp",
  MACH + '''
i = dec(0xe92d, 0x5000)                   # push.w {r12, lr}
assert '{r12,lr}' in text(i), text(i)
''', also=['D04'])

seed('h02-asr-saturate', 'H02', [('cmdis/helpers.py',
  """    ext_x = x.sign_extend(shift + x.width)
    result = ext_x[shift:shift+x.width]
    carry_out = ext_x[shift-1]
""", """    if shift >= x.width: # only copies of the sign are left
        carry_out = x[x.width - 1]
        return bitstring(-carry_out.unsigned & 0xffffffff, x.width), carry_out
    ext_x = x.sign_extend(shift + x.width)
    result = ext_x[shift:shift+x.width]
    carry_out = ext_x[shift-1]
""")],
  "asr of a negative value wider than 32 bits by its whole width or more",
  "only the low 32 bits are filled with the sign",
  MACH + '''
from cmdis.helpers import ASR, ASR_C
for w in (4, 8, 32, 40, 64):
    for n in (w - 1, w, w + 1, 200):
        assert ASR(bitstring(1 << (w - 1), w), n).signed == -1, (w, n)
''')

seed('x02-mul-unsigned-width', 'X02', [('cmdis/instructions.py',
  "        rotated = ROR(cpu.r[self.m], self.rotation)[0:self.width]\n",
  "        rotated = LSR(cpu.r[self.m], self.rotation)[0:self.width]\n")],
  "sxth.w/uxth.w with a rotation by 24",
  "the upper byte of the rotated halfword is lost (a shift instead of a rotation)",
  MACH + '''
for op, f in ((0xfa1f, lambda v: v), (0xfa0f, lambda v: v | 0xffff0000 if v & 0x8000 else v)):
    for rot in range(4):
        c = cpu(); c.r[1] = bitstring(0x1234a5f6)
        dec(op, 0xf081 | rot << 4).execute(c)            # [us]xth.w r0, r1, ror #8*rot
        v = 0x1234a5f6; v = ((v >> 8 * rot) | (v << (32 - 8 * rot))) & 0xffff
        assert c.r[0].unsigned == f(v), (hex(op), rot)
''')

seed('x08-regs-consumed', 'X08', [('cmdis/instructions.py',
  """    def _eval(self, cpu):
        address = cpu.r[self.n]
        for i in range(15):
            if self.registers[i]:
                # Unimplemented architecture detail:
                # If write-back and the base register is not the lowest-numbered register in the
                # list, then the stored base register is unknown.
                cpu.write32(address, cpu.r[i])
                address += 4
""", """    def _eval(self, cpu):
        address = cpu.r[self.n]
        pending = self.registers
        while not pending.is_zero():
            # Unimplemented architecture detail:
            # If write-back and the base register is not the lowest-numbered register in the
            # list, then the stored base register is unknown.
            i = pending.lowest_set_bit()
            cpu.write32(address, cpu.r[i])
            address += 4
            pending &= ~(bitstring(1, pending.width) << i)
""")],
  "executing or printing the same decoded stm a second time",
  "the in-place operator empties the instruction's own register list",
  MACH + '''
i = dec(0xc106)                                # stm r1!, {r1, r2}
i = dec(0xc00c)                                # stm r0!, {r2, r3}
t = text(i)
for k in range(2):
    c = cpu(); c.r[0] = bitstring(0x20000000); c.r[2] = bitstring(2); c.r[3] = bitstring(3)
    i.execute(c)
    assert c.read32(0x20000004).unsigned == 3, k
    assert text(i) == t
''', also=['X06'])

seed('x08-print-comment', 'X08', [('cmdis/formatter.py',
  """        if self._imm > 9:
            comment = "0x%x" % (self._imm)
            formatter.add_comment(comment)
""", """        if self._imm > 9 and not getattr(self, '_comment', None):
            self._comment = "0x%x" % (self._imm)
            formatter.add_comment(self._comment)
""")],
  "printing the same instruction twice",
  "the immediate comment appears only the first time",
  MACH + '''
i = dec(0x2063)                                # movs r0, #99
assert text(i) == text(i)
''')

seed('x01-imm-mnemonic', 'X08', [('cmdis/instructions.py',
  """        if hasattr(self, 'm'):
            result = cpu.r[self.m]
            if self.m == 15: # pc
                self.setflags = SetFlags.Never
""", """        if hasattr(self, 'm'):
            result = cpu.r[self.m]
            if self.m == 15 or cpu.r[self.m] == 0: # pc
                self.setflags = SetFlags.Never
""")],
  "movs of a zero register, then the same instruction again",
  "flag setting is switched off for good",
  MACH + '''
i = dec(0x0008)                                # movs r0, r1
c = cpu(); c.r[1] = bitstring(0); i.execute(c)
c = cpu(); c.r[1] = bitstring(0x80000000); i.execute(c)
assert c.apsr.n == 1
''')

seed('x04-cond-order', 'X04', [('cmdis/instructions.py',
  "lambda apsr: apsr.z == 1 or apsr.n != apsr.v), # Signed less than or equal\n",
  "lambda apsr: apsr.z == 1 or apsr.n > apsr.v), # Signed less than or equal\n")],
  "ble with N clear, V set and Z clear",
  "the branch is not taken",
  MACH + '''
for f in range(16):
    c = cpu(); c.pc = 0x100
    c.apsr.n, c.apsr.z, c.apsr.c, c.apsr.v = f >> 3 & 1, f >> 2 & 1, f >> 1 & 1, f & 1
    dec(0xdd02).execute(c)                     # ble .+8
    taken = (f >> 2 & 1) or (f >> 3 & 1) != (f & 1)
    assert c.pc.unsigned == (0x108 if taken else 0x102), f
''')

seed('m02-straddle', 'M02', [('cmdis/mock_cpu.py',
  """        mem, offset = self._find_mem(addr)
        if mem:
            return bytearray(mem.data[offset:offset+length])
""", """        mem, offset = self._find_mem(addr)
        if mem:
            return memoryview(mem.data)[offset:offset+length]
""")],
  "a block that was read, looked at after memory has changed",
  "the block is a live view of memory rather than what was read",
  MACH + '''
c = cpu()
b = c.read_memory_block(0x10, 4)
c.write32(0x10, 0x01020304)
assert bytes(b) == b'\\0\\0\\0\\0'
''')

seed('t01-width-dump', 'T01', [('cmdis/__main__.py',
  "        elif width == 16:\n            data = bytearray(cmdis.utilities.u16leListToByteList(data))\n",
  "        elif width == 16:\n            data = bytearray(cmdis.utilities.u32leListToByteList(data))\n")],
  "write16 followed by other data after it",
  "each halfword is written as a word, so the two bytes after it are cleared",
  CONSOLE + '''
t = tool()
t.cpu.write32(0x20000000, 0xffffffff)
run(t, 'write16 0x20000000 0x1234')
assert t.cpu.read32(0x20000000).unsigned == 0xffff1234
''')

seed('d01-fixed-zero', 'D01', [('cmdis/decoder.py',
  """                    mask |= value.mask << i+offset
                    match |= value.unsigned << i+offset
""", """                    if not value.is_zero():
                        mask |= value.mask << i+offset
                        match |= value.unsigned << i+offset
""")],
  "a pattern with a fixed-value field of zeros only",
  "the bits of the field are not required to be zero",
  '''
from cmdis.decoder import Decoder, Instruction
d = Decoder(lambda i, **kw: None, 'x', Instruction, "1011 sel=0101 a(8)")
assert d.check(0xb512) and not d.check(0xb412)
e = Decoder(lambda i, **kw: None, 'x', Instruction, "1011 sel=000 a(9)")
assert e.check(0xb112)
assert not e.check(0xb212)
''', also=['D03'])

seed('c02-true-division', 'C02', [('cmdis/bitstring.py',
  "        self._value //= value\n", "        self._value = int(self._value / value)\n")],
  "a quotient of more than 53 bits, or a small divisor of a wide value",
  "the quotient is rounded to a floating point number",
  '''
from cmdis.bitstring import bitstring
assert (bitstring(1000, 32) // 7).unsigned == 142
v = (1 << 64) - 1
assert (bitstring(v, 64) // 1).unsigned == v
assert (bitstring(v, 64) // 3).unsigned == v // 3
''')

seed('c03-or-in-place', 'C03', [('cmdis/bitstring.py',
  """    def __ior__(self, other):
        self.set(self.__or__(other))
        return self
""", """    def __ior__(self, other):
        if isinstance(other, bitstring):
            self._value |= other._value
        else:
            self.set(self.__or__(other))
        return self
""")],
  "an in-place or with a wider bit string",
  "the left operand keeps its width but gets the bits above it",
  '''
from cmdis.bitstring import bitstring
a = bitstring(1, 8); a |= bitstring(0x10, 8)
assert (a.width, a.unsigned) == (8, 0x11)
a = bitstring(1, 8); a |= bitstring(0x1000, 16)
b = bitstring(1, 8) | bitstring(0x1000, 16)
assert (a.width, a.unsigned) == (b.width, b.unsigned), (a.width, a.unsigned)
''', also=['C01'])

seed('h03-expand-memo', 'H03', [('cmdis/helpers.py',
  """def ThumbExpandImm_C(imm12, carry_in):
    if imm12[10:12] == '00':
""", """_EXPANDED = {}

def ThumbExpandImm_C(imm12, carry_in):
    known = _EXPANDED.get(imm12.unsigned)
    if known is not None:
        return known
    if imm12[10:12] == '00':
"""), ('cmdis/helpers.py',
  """        imm32, carry_out = ROR_C(unrotated_value, imm12[7:12].unsigned)
    return imm32, carry_out
""", """        imm32, carry_out = ROR_C(unrotated_value, imm12[7:12].unsigned)
    _EXPANDED[imm12.unsigned] = imm32, carry_out
    return imm32, carry_out
""")],
  "the same unrotated constant expanded twice with different carries",
  "the carry in of the first expansion is returned by the second",
  '''
from cmdis.bitstring import bitstring, bit0, bit1
from cmdis.helpers import ThumbExpandImm_C
c = bitstring(0x5ab, 12)
r, k = ThumbExpandImm_C(c, bit0)
assert r.unsigned == ThumbExpandImm_C(c, bit0)[0].unsigned
c = bitstring(0x0ab, 12)
assert ThumbExpandImm_C(c, bit0)[1].unsigned == 0
assert ThumbExpandImm_C(c, bit1)[1].unsigned == 1
''', also=['X02'])

seed('h01-sum-remembered', 'H01', [('cmdis/helpers.py',
  "    assert x.width == y.width\n    unsigned_sum = x.unsigned + y.unsigned + carry_in.unsigned\n",
  "    global _last_sum\n    assert x.width == y.width\n    key = (x.unsigned, y.unsigned, carry_in.unsigned)\n    if _last_sum[0] == key:\n        return _last_sum[1]\n    unsigned_sum = sum(key)\n"),
  ('cmdis/helpers.py',
  "    return (result, carry_out, overflow)\n",
  "    _last_sum = (key, (result, carry_out, overflow))\n    return _last_sum[1]\n\n_last_sum = (None, None)\n")],
  "two additions in a row of the same numbers at different widths",
  "the sum, carry and overflow of the first width are returned for the second",
  '''
from cmdis.helpers import AddWithCarry
from cmdis.bitstring import bitstring, bit0
a = AddWithCarry(bitstring(200, 32), bitstring(100, 32), bit0)
b = AddWithCarry(bitstring(200, 8), bitstring(100, 8), bit0)
assert (a[0].width, a[0].unsigned, a[1].unsigned) == (32, 300, 0)
assert (b[0].width, b[0].unsigned, b[1].unsigned, b[2].unsigned) == (8, 44, 1, 0), b
''')

seed('t01-page-cache', 'T01', [('cmdis/__main__.py',
  "        if width == 8:\n            data = self.cpu.read_memory_block(addr, count)\n            byteData = data\n",
  "        if width == 8:\n            if getattr(self, '_page', None) is None or self._page[0] != (addr, count):\n                self._page = ((addr, count), self.cpu.read_memory_block(addr, count))\n            byteData = data = self._page[1]\n"),
  ('cmdis/__main__.py',
  "        self.cpu.write_memory_block(addr, data)\n\n    def handle_step",
  "        self._page = None\n        self.cpu.write_memory_block(addr, bytearray(data))\n\n    def handle_step")],
  "a byte read, a stepped store to those bytes, and the same byte read again",
  "the bytes shown are those of before the step",
  CONSOLE + '''
t = tool()
t.cpu.write_memory_block(0x100, bytearray([0x08, 0x60]))    # str r0, [r1]
t.cpu.pc = 0x100; t.cpu.r[0] = bitstring(0x5a); t.cpu.r[1] = bitstring(0x200)
out = run(t, 'rb 0x200')
assert out.split()[-1] == '00', out
run(t, 'step')
out = run(t, 'rb 0x200')
assert out.split()[-1] == '5a', out
''')

seed('t01-write-in-chunks', 'T01', [('cmdis/__main__.py',
  "            data = [self.convert_value(d) for d in args[1:]]\n",
  "            data = []\n            for d in args[1:]:\n                data.append(self.convert_value(d))\n                if width == 32 and len(data) == 4 and len(args) > 5:\n                    self.do_write(['%d' % addr] + ['%d' % v for v in data], width)\n                    addr, data = addr + 16, []\n")],
  "a word write of more than four values whose later value is malformed, or is read from the memory being written",
  "the first four words are written before the rest of the command is looked at",
  CONSOLE + '''
t = tool()
run(t, 'ww 0x200 1 2 3 4 5 zz')
assert t.cpu.read32(0x200).unsigned == 0
''')

seed('t01-step-pc-bit', 'T01', [('cmdis/__main__.py',
  "            code = self.cpu.read_memory_block(pc, 4)\n            # Only use",
  "            self.cpu.write_register('pc', pc)\n            code = self.cpu.read_memory_block(self.cpu.pc.unsigned, 4)\n            # Only use")],
  "stepping onto an undefined instruction while PC still carries the Thumb bit of a vector",
  "the refused step has cleared bit 0 of PC",
  CONSOLE + '''
t = tool()
t.cpu.write_memory_block(0x100, bytearray([0xff, 0xff, 0xff, 0xff]))
run(t, 'wreg pc 0x101')
out = run(t, 'step')
assert 'ndefined' in out, out
assert t.cpu.pc.unsigned == 0x101, t.cpu.pc
''')

seed('f01-comments-kept', 'F01', [('cmdis/formatter.py',
  "        self.instruction = instruction\n        self._comments = []\n",
  "        self.instruction = instruction\n"),
  ('cmdis/formatter.py',
  "            result = \"{0:<36} ; {1}\".format(result, \" \".join(self._comments))\n\n        self.instruction = None\n",
  "            result = \"{0:<36} ; {1}\".format(result, \" \".join(self._comments))\n            if len(b) == 2:\n                self._comments = []\n\n        self.instruction = None\n")],
  "one formatter printing a 32-bit instruction that has a comment and then another one",
  "the comment of the first line is repeated on the second",
  MACH + '''
f = Formatter(None)
CANDIDATES = [(0xf20f, 0x010c), (0xf5b1, 0x7f80), (0x4803,), (0xa803,), (0xf8df, 0x1010), (0xe9d1, 0x2304), (0xf04f, 0x517f), (0xf3c1, 0x2389), (0xf36f, 0x2389)]
seen = 0
for c in CANDIDATES:
    try: i = dec(*c)
    except Exception: continue
    for d in CANDIDATES:
        try: j = dec(*d)
        except Exception: continue
        f.format(i)
        assert f.format(j) == text(j), (text(i), text(j)); seen += 1
assert seen
''')

seed('m01-view-cache', 'M01', [('cmdis/model.py',
  "        self._last = last\n", "        self._last = last\n        self._seen = {}\n"),
  ('cmdis/model.py',
  "        return self._cpu.read_register(index)\n\n    def __setitem__",
  "        if index not in self._seen or index > 12:\n            self._seen[index] = self._cpu.read_register(index)\n        return bitstring(self._seen[index])\n\n    def __setitem__"),
  ('cmdis/model.py',
  "        self._cpu.write_register(index, value)\n\nclass ApsrAlias",
  "        self._seen.pop(index, None)\n        self._cpu.write_register(index, value)\n\nclass ApsrAlias")],
  "a register read through the view, written by name or number, and read through the view again",
  "the view shows the register as it was",
  MACH + '''
c = cpu()
assert c.r[3] == 0
c.write_register('r3', bitstring(7))
assert c.r[3] == 7
''')

seed('m02-line-cache', 'M02', [('cmdis/mock_cpu.py',
  "                return bytes_to_le32(mem.data[offset:offset+4])\n",
  "                if self._line[0] != addr:\n                    self._line = (addr, bytes_to_le32(mem.data[offset:offset+4]))\n                return self._line[1]\n"),
  ('cmdis/mock_cpu.py', "    def __init__(self):\n        self._mem = []\n", "    def __init__(self):\n        self._line = (None, 0)\n        self._mem = []\n"),
  ('cmdis/mock_cpu.py', "    def write_memory(self, addr, value, size=32):\n        mem,", "    def write_memory(self, addr, value, size=32):\n        self._line = (None, 0)\n        mem,")],
  "a word read, a block write over it, and the word read again",
  "the word read is the one from before the block write",
  MACH + '''
c = cpu()
assert c.read32(0x20000010) == 0
c.write_memory_block(0x20000010, bytearray([1, 2, 3, 4]))
assert c.read32(0x20000010).unsigned == 0x04030201
''')

seed('d03-last-instruction', 'D03', [('cmdis/decoder.py',
  "        # Read bitfields from the instruction.\n        attrs = {}\n",
  "        if self._done[0] == word and address in (0, self._done[1].address):\n            return self._done[1]\n        # Read bitfields from the instruction.\n        attrs = {}\n"),
  ('cmdis/decoder.py',
  "        self._handler(i, **attrs)\n\n        return i\n", "        self._handler(i, **attrs)\n\n        self._done = (word, i)\n        return i\n\n    _done = (None, None)\n")],
  "a word decoded at some address and next decoded at address 0",
  "the instruction of the other address is returned",
  MACH + '''
dec(0xe7fe, address=0x100)
assert dec(0xe7fe, address=0).address == 0
dec(0x4800, address=0x100)
assert dec(0x4800).address == 0
''', also=['D02', 'S01'])

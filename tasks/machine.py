"""Abstract processor state used as the delegate of the real CpuModel and by the
instruction oracle: an arbitrary register file and a byte addressed memory of
2**32 cells.  Only the delegate interface of the model is assumed (M02/M03 verify
the delegate the project ships)."""
M32 = 0xffffffff
OFF = 8                         # register numbers start at -4
REG_LO, REG_HI = -4, 0x5f

class Machine(object):
    def __init__(self, h, name=None, pcmask=False):
        self.h = h
        self.pcmask = pcmask
        self.handler = False
        if name is not None:
            self.regs = h.array(name + '.regs', 0, M32)
            self.mem = h.array(name + '.mem', 0, 255)
    def copy(self):
        m = Machine(self.h, None, self.pcmask)
        m.handler = self.handler
        m.regs = self.regs.copy(); m.mem = self.mem.copy()
        return m
    def invariant(self, h, odd=False):
        """what the delegate guarantees of any state (M03)"""
        for r in (13, 17, 18): self.regs.prefer(r + OFF, lambda v: v & ~3)
        if not odd: self.regs.prefer(15 + OFF, lambda v: v & ~1)
        for r in (-1, -3): self.regs.prefer(r + OFF, lambda v: v & 1)
        self.regs.prefer(-2 + OFF, lambda v: v & 0xff)
        for r in (13, 17, 18): h.assume((self.get(r) & 3) == 0)
        if not odd: h.assume((self.get(15) & 1) == 0)
        for r in (-1, -3): h.assume(self.get(r) < 2)
        h.assume(self.get(-2) < 256)
    # ---- oracle interface
    def get(self, n): return self.regs.get(n + OFF)
    def put(self, n, v):
        h = self.h
        v = v & M32
        if isinstance(n, int):
            if n in (13, 17, 18): v = v & ~3 & M32
            elif n == 15 and self.pcmask: v = v & ~1 & M32
            elif n in (-1, -3): v = v & 1
            elif n == -2: v = v & 0xff
        else:
            v = h.ite(n == 13, v & (M32 - 3), v)
        self.regs.set(n + OFF, v)
    def put_if(self, c, n, v):
        h = self.h
        if not h.symbolic:
            if c: self.put(n, v)
            return
        self._cond(c, 'regs', lambda: self.put(n, v))
    def store_if(self, c, a, v, size):
        if not self.h.symbolic:
            if c: self.store(a, v, size)
            return
        self._cond(c, 'mem', lambda: self.store(a, v, size))
    def _cond(self, c, which, act):
        h = self.h
        arr = getattr(self, which)
        old = arr.a
        act()
        c = h.L.truthv(c)
        if c is True: return
        new = arr.a
        arr.a = old if c is False else h.T.ite(c.b, new, old)
    def load(self, a, size):
        v = 0
        for k in range(size): v = v | (self.mem.get((a + k) & M32) << (8 * k))
        return v
    def store(self, a, v, size):
        for k in range(size): self.mem.set((a + k) & M32, (v >> (8 * k)) & 0xff)
    def privileged(self):
        return True if self.handler else self.h.split((self.get(-4) & 1) == 0)
    # ---- delegate interface (called by cmdis.model)
    def read_register(self, reg):
        return self.get(reg)
    def write_register(self, reg, value):
        self.put(reg, value)
    def read_memory(self, addr, size=32):
        self.h.check('address below 2**32', self.h.and_(0 <= addr, addr <= M32))
        return self.load(addr & M32, size // 8)
    def write_memory(self, addr, value, size=32):
        self.h.check('address below 2**32', self.h.and_(0 <= addr, addr <= M32))
        self.store(addr & M32, value, size // 8)

def compare(h, name, a, b):
    h.same_array(name + '.regs', a.regs, b.regs, (OFF + REG_LO, OFF + REG_HI))
    h.same_array(name + '.mem', a.mem, b.mem, (0, M32))

def compare_any(h, name, a, bs):
    """a equals one of bs, which differ in a single register"""
    h.same_any(name + '.regs', a.regs, [b.regs for b in bs], (OFF + REG_LO, OFF + REG_HI))
    h.same_array(name + '.mem', a.mem, bs[0].mem, (0, M32))

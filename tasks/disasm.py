"""S01: disassembly of a byte string.

The decoder is replaced by its contract (D02: an instruction of 2 or 4 bytes made
from the first bytes given, the size set by the first halfword, or one of the two
errors), so that the statements are about the disassembler's own loop: for every
byte string of any length below 2**32, any address, and any decoder meeting the
contract.  The loop contract covers all iterations; the unrolled tasks cover short
strings without it."""
from dv.harness import add_task, declare, Unfit
from tasks.isa import decode as real_decode
from spec import thumb

LOOP = ('disasm:Disassembler.disasm', 0)
declare(*LOOP)

class Stub(object):
    def __init__(self, h, data, n, start):
        self.h = h; self.data = data; self.n = n; self.start = start
        self.dis, self.earlier = used(h)
        self.pos = 0
        self.calls = 0
        self.last = None
        self.made = []
    def decode(self, tree, *a, **kw):
        h = self.h; D = h.p.decoder
        vals = list(a) + list(kw.values())
        d = vals[0]
        addr = vals[1] if len(vals) > 1 else 0
        self.calls += 1
        left = self.n - self.pos
        h.check('decodes at the address of the first byte not yet covered', addr == self.start + self.pos)
        m = 4
        for k in (1, 2, 3, 4):
            if h.split(left < k):
                m = k - 1
                break
        got = h.call(len, d)
        if not h.check('the decoder is given the bytes from there', got >= m): m = 0
        for k in range(m): h.check('byte %d given to the decoder' % k, d[k] == self.data[self.pos + k])
        o = h.choice('outcome%d' % self.calls, ('instruction', 'undefined', 'unpredictable'))
        if m < 2: o = 'undefined'
        if o == 'instruction':
            w = d[0] | (d[1] << 8)
            big = h.split(w >= 0xe800)
            if big and m < 4: o = 'undefined'
        self.last = o
        if o == 'undefined': raise D.UndefinedInstructionError()
        if o == 'unpredictable': raise D.UnpredictableError()
        if big: w = w | (d[2] << 16) | (d[3] << 24)
        self.size = 4 if big else 2
        i = D.Instruction('op', w, big)
        i.address = addr
        self.made.append(i)
        self.bytes = h.mkbytes([d[k] for k in range(self.size)])
        return i

def with_stub(h, st, body):
    D = h.p.decoder.DecoderTree
    old = D.__dict__['decode']
    if h.symbolic: h.e.log(D, 'attr', 'decode', old)
    D.decode = lambda tree, *a, **kw: st.decode(tree, *a, **kw)
    try: body()
    finally: D.decode = old

def used(h):
    """a disassembler, new or used before: to the end of data with a rest, or left at an instruction"""
    d = h.p.disasm.Disassembler()
    how = h.choice('disassembler', ('new', 'used', 'left'))
    if how == 'used': list(d.disasm(bytearray([0x00, 0xbf, 0x00, 0xf0]), 0x100))
    if how == 'left':
        g = iter(d.disasm(bytearray([0x00, 0xbf, 0x00, 0xbf]), 0x300))
        next(g)
        return d, g
    return d, None

def drive(h, st):
    gen = iter(st.dis.disasm(st.data, st.start))
    seen = []
    while True:
        st.last = None
        x, i = h.raises(next, gen)
        if x is None:
            if st.calls == 0: raise Unfit('the disassembler does not use DecoderTree.decode')
            if not h.check('an instruction only where the decoder gave one', st.last == 'instruction'): return
            h.check('address', i.address == st.start + st.pos)
            h.check('size', i.size == st.size)
            h.check('bytes', i.bytes == st.bytes)
            seen.append((i, i.address, st.bytes))
            st.pos = st.pos + st.size
            h.check('within the data', st.pos <= st.n)
            continue
        left = st.n - st.pos
        if x == 'StopIteration':
            h.check('ends at the end or on an undecodable rest below 4 bytes', h.or_(left == 0, left < 4) if st.last == 'undefined' else left == 0)
        elif x == 'UndefinedInstructionError':
            h.check('raises at an undecodable place', st.last == 'undefined')
            h.check('raises only when 4 bytes remain', left >= 4)
        elif x == 'UnpredictableError': h.check('unpredictable comes from the decoder', st.last == 'unpredictable')
        else: h.check('no other error', False, x)
        break
    for i, a, b in seen: h.check('earlier instructions kept', h.and_(i.address == a, i.bytes == b))

def tiles_task(h, cut):
    data, n = h.blob('data', 1 << 32)
    start = h.int('start', 0, 1 << 40)
    st = Stub(h, data, n, start)
    if cut:
        def havoc(env, idx):
            st.pos = h.unknown('pos', 0, 1 << 32)
            h.e.push_pc(h.S.NB(st.pos <= n))
            return {'address': start + st.pos, 'offset': st.pos}
        def inv(env, idx):
            return [('position', h.and_(env['address'] == start + st.pos, env['offset'] == st.pos)),
                    ('within the data', h.and_(0 <= st.pos, st.pos <= n))]
        h.loop(LOOP[0], LOOP[1], havoc, inv, lambda: st.made)
    with_stub(h, st, lambda: drive(h, st))

def short_task(h, n):
    data = h.bytes('b', n)
    st = Stub(h, data, n, h.int('start', 0, 1 << 40))
    with_stub(h, st, lambda: drive(h, st))

def default_task(h):
    """the start address is 0 when none is given"""
    data = h.bytes('b', 2)
    h.assume(data[1] < 0xe8)
    st = Stub(h, data, 2, 0)
    def body():
        x, l = h.raises(lambda: list(h.p.disasm.Disassembler().disasm(data)))
        if x is None and st.last == 'instruction':
            h.check('one instruction', len(l) == 1)
            h.check('address 0', l[0].address == 0)
    with_stub(h, st, body)

def embedded_task(h, e):
    """the real decoder: an instruction between two others keeps its place and bytes"""
    v = h.word('w', e.pat)
    hw = [v] if e.size == 2 else [v >> 16, v & 0xffff]
    mid = [b for q in hw for b in (q & 0xff, q >> 8)]
    x0, i0 = real_decode(h, h.mkbytes(mid), 0x2002)
    pre, post = [0x00, 0xbf], [0x00, 0xf0, 0x00, 0xf8]      # nop, bl
    start = h.int('start', 0, 0x7ffffff0) * 2
    seen = []
    def go():
        for i in dis.disasm(h.mkbytes(pre + mid + post), start): seen.append(i)
    dis, earlier = used(h)
    x, r = h.raises(go)
    if earlier is not None:
        x1, i = h.raises(next, earlier)
        h.check('a run left and taken up again', x1 is None and i.address == 0x302 and i.size == 2)
    h.check('outcome of the decoder', x == x0, '%s %s' % (x, x0))
    if not h.check('instructions before an undecodable place', len(seen) == (3 if x0 is None else 1), str(len(seen))): return
    at = 0
    for i, want in zip(seen, (pre, mid, post)):
        h.check('address', i.address == start + at)
        h.check('size', i.size == len(want))
        h.check('bytes', i.bytes == h.mkbytes(want))
        at += len(want)

F = ['disasm:Disassembler.disasm']
add_task(('S01',), 'tiles.any', tiles_task, True, functions=F, assumes=('DecoderTree.decode meets its contract (shown by D02)',))
for n in range(0, 11):
    add_task(('S01',), 'tiles.%d' % n, short_task, n, functions=F, bound='%d bytes' % n, assumes=('DecoderTree.decode meets its contract (shown by D02)',))
for n in range(11, 17):
    add_task(('S01',), 'tiles.%d' % n, short_task, n, functions=F, bound='%d bytes' % n, thorough=True)
add_task(('S01',), 'tiles.default', default_task, functions=F)
for e in thumb.ENCODINGS:
    add_task(('S01',), 'embedded.' + e.name, embedded_task, e, functions=F + ['decoder:DecoderTree.decode', 'decoder:Instruction.bytes'])

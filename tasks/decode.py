"""D01: encoding patterns.  D02: selection among registered encodings, purity.


Patterns and sets of encodings are generated from a seed; words, addresses and the
handlers' decisions are symbolic."""
import random
from dv.harness import add_task, Unfit
from tasks.bits import BS, is_bits, snap
from tasks.isa import dec_task, setup, decode as real_decode
from spec import thumb

def DEC(h): return h.p.decoder
def F(*n): return ['decoder:' + x for x in n]

# ---------------------------------------------------------------- patterns
NAMES = ['Rd', 'Rn', 'Rm', 'imm8', 'imm3', 'S', 'a', 'i1', 'J2', 'type', 'X9y', 'op', 'cond', 'W', 'b10', 'zz', 'Q', 'M', 'imm12', 't0']
def gen(rng, fixed=None, tag=''):
    """elements, most significant first: ('lit', '01') | ('name', n) | ('size', n, k) | ('fix', n, bits).
    fixed: prefix bits to spell out first"""
    names = [n + tag for n in NAMES]
    rng.shuffle(names)
    els = []
    left = 16
    if fixed:
        els.append(('fix', names.pop(), fixed) if rng.random() < 0.2 else ('lit', fixed)); left -= len(fixed)
    while left:
        k = rng.random()
        if k < 0.3:
            n = rng.randint(1, min(left, 5)); els.append(('lit', ''.join(rng.choice('01') for _ in range(n))))
        elif k < 0.5: n = 1; els.append(('name', names.pop()))
        elif k < 0.8: n = rng.randint(1, min(left, rng.choice((3, 4, 8, 12)))); els.append(('size', names.pop(), n))
        else:
            n = rng.randint(1, min(left, 5)); els.append(('fix', names.pop(), ''.join(rng.choice('01') for _ in range(n))))
        left -= n
    return els

def render(rng, els):
    """the pattern text, with blanks wherever they may stand"""
    bl = lambda p: rng.choice((' ', ' ', '  ', '\t')) if rng.random() < p else ''
    out = bl(0.1)
    prev = ''
    for e in els:
        if e[0] == 'lit':
            body = ''.join(c + bl(0.3) for c in e[1]).rstrip(); need = prev in ('name', 'fix')
        elif e[0] == 'name': body = e[1]; need = prev == 'name'
        elif e[0] == 'size':
            need = prev == 'name'
            num = '' if e[2] == 1 and rng.random() < 0.3 else str(e[2])
            body = e[1] + bl(0.2) + '(' + bl(0.2) + num + bl(0.2) + ')'
        else: body = e[1] + '=' + e[2]; need = prev == 'name'
        if out:
            out += (bl(0.5) or (' ' if need else '')) if out.strip() else ''
        out += body
        prev = e[0]
    return out + bl(0.1)

def layout(els):
    """(mask, match, {name: (lsb, width)})"""
    mask = match = 0
    fields = {}
    pos = 16
    for e in els:
        n = len(e[1]) if e[0] == 'lit' else 1 if e[0] == 'name' else e[2] if e[0] == 'size' else len(e[2])
        pos -= n
        bits = e[1] if e[0] == 'lit' else e[2] if e[0] == 'fix' else None
        if bits is not None:
            mask |= ((1 << n) - 1) << pos
            match |= int(bits, 2) << pos
        if e[0] != 'lit': fields[e[1]] = (pos, n)
    assert pos == 0
    return mask, match, fields

class Enc(object):
    """one generated encoding; `two`: of two halfwords (first pattern in bits 15..0)"""
    def __init__(self, rng, two=False, base=None):
        if two:
            pre = rng.choice(('11101', '11110', '11111'))
            a, b = gen(rng, pre), gen(rng, None, 'B')
            if base is not None: a, b = specialise(rng, base.els[0]), specialise(rng, base.els[1])
            self.els = (a, b)
        else:
            a = gen(rng, None)
            if base is not None: a = specialise(rng, base.els[0])
            self.els = (a,)
        self.texts = [render(rng, e) for e in self.els]
        self.mask, self.match, self.fields = layout(self.els[0])
        if two:
            m, v, f = layout(self.els[1])
            self.mask |= m << 16; self.match |= v << 16
            self.fields.update({k: (p + 16, n) for k, (p, n) in f.items()})
        self.two = two
        self.count = bin(self.mask).count('1')
    def matches(self, w): return (w & self.mask) == self.match

def specialise(rng, els):
    """a variant: some free fields are given values, some fixed ones are freed"""
    out = []
    for e in els:
        k = rng.random()
        if e[0] == 'size' and k < 0.4: out.append(('fix', e[1], ''.join(rng.choice('01') for _ in range(e[2]))))
        elif e[0] == 'name' and k < 0.4: out.append(('lit', rng.choice('01')))
        elif e[0] == 'fix' and k < 0.3: out.append(('size', e[1], len(e[2])))
        elif e[0] == 'fix' and k < 0.4: out.append(('fix', e[1], ''.join(rng.choice('01') for _ in e[2])))
        else: out.append(e)
    return out

# ---------------------------------------------------------------- D01
def word_of(h, two, name='w'):
    """(word in the decoder's order, data bytes): the first halfword in bits 15..0"""
    if two:
        w1 = h.int(name + '1', 0xe800, 0xffff); w2 = h.int(name + '2', 0, 0xffff)
        return w1 | (w2 << 16), [w1 & 0xff, w1 >> 8, w2 & 0xff, w2 >> 8]
    w = h.int(name, 0, 0xe7ff)
    return w, [w & 0xff, w >> 8]

def make(h, enc, name, handler):
    d = DEC(h)
    if enc.two: return d.Decoder(handler, name, d.Instruction, enc.texts[0], enc.texts[1])
    return d.Decoder(handler, name, d.Instruction, enc.texts[0])

def fields_ok(h, tag, enc, got, w):
    h.check(tag + 'exactly the named fields', set(got) == set(enc.fields), str(sorted(got)))
    for n, (p, k) in sorted(enc.fields.items()):
        if n not in got: continue
        b = got[n]
        if h.check('%sfield %s is a bit string' % (tag, n), is_bits(h, b)):
            h.check('%sfield %s width' % (tag, n), b.width == k)
            h.check('%sfield %s value' % (tag, n), b.unsigned == ((w >> p) & ((1 << k) - 1)))

def seed_of(h, seeds):
    return h.width('seed', seeds) if h.symbolic else h.int('seed', 0, 1 << 24)

def pattern_task(h, seeds, two):
    sd = seed_of(h, seeds)
    enc = Enc(random.Random(sd), two)
    got = []
    def handler(i, **kw): got.append((i, kw))
    x, d = h.raises(make, h, enc, 'op', handler)
    if not h.check('the pattern is accepted', x is None, '%s %s' % (enc.texts, x)): return
    h.check('size from the number of patterns', d.is32bit == two)
    tree = DEC(h).DecoderTree()
    tree.add_decoder(d)
    tree.build()
    w, data = word_of(h, two)
    addr = h.int('addr', 0, 0xffffffff)
    h.check('check() is agreement with the required bits', h.not_(h.xor(d.check(w), enc.matches(w))))
    x, i = h.raises(tree.decode, h.mkbytes(data), addr)
    if x is not None:
        h.check('rejected as undefined', x == 'UndefinedInstructionError', x)
        h.check('only words that disagree are rejected', h.not_(enc.matches(w)))
        return
    h.check('only words that agree are accepted', enc.matches(w))
    if not h.check('handler called once', len(got) == 1): return
    h.check('handler gets the instruction', got[0][0] is i)
    fields_ok(h, '', enc, got[0][1], w)
    h.check('mnemonic', i.mnemonic == 'op')
    h.check('size', i.size == (4 if two else 2))
    h.check('address', i.address == addr)
    h.check('bytes', i.bytes == h.mkbytes(data))

FIXED = ['0110 1 Rd(3) imm8(8)', '0110 S imm8(8) 000', 'Q imm7 ( 7 ) S ( 1 ) 1111000', 'Q( ) imm12 ( 12 ) S 01', '1 0 1 1 0 0 0 0 S=1 imm7(7)', 'cond=1101A(4)B(8)',
         '00000000000000A B', 'A(16)', 'A=0101010101010101', ' 01 A(3)0B(3)1 C(6) ', 'A(1)B()C( 1 )D=0E=1F(11)', 'imm5=00000 op(3)imm8=11111111']
FIXEDP = [  # independently: required bits, fields
    ('01101-----------', {'Rd': (8, 3), 'imm8': (0, 8)}), ('0110---------000', {'S': (11, 1), 'imm8': (3, 8)}),
    ('---------1111000', {'Q': (15, 1), 'imm7': (8, 7), 'S': (7, 1)}), ('--------------01', {'Q': (15, 1), 'imm12': (3, 12), 'S': (2, 1)}),
    ('101100001-------', {'S': (7, 1), 'imm7': (0, 7)}), ('1101------------', {'cond': (12, 4), 'A': (8, 4), 'B': (0, 8)}),
    ('00000000000000--', {'A': (1, 1), 'B': (0, 1)}), ('----------------', {'A': (0, 16)}), ('0101010101010101', {'A': (0, 16)}),
    ('01---0---1------', {'A': (11, 3), 'B': (7, 3), 'C': (0, 6)}), ('---01-----------', {'A': (15, 1), 'B': (14, 1), 'C': (13, 1), 'D': (12, 1), 'E': (11, 1), 'F': (0, 11)}),
    ('00000---11111111', {'imm5': (11, 5), 'op': (8, 3), 'imm8': (0, 8)})]
class Lit(object): pass
def fixed_task(h):
    """hand-written patterns against hand-written meanings"""
    k = h.choice('k', list(range(len(FIXED))))
    pat, fields = FIXEDP[k]
    enc = Lit()
    enc.fields = fields
    m = int(''.join('0' if c == '-' else '1' for c in pat), 2)
    v = int(pat.replace('-', '0'), 2)
    got = []
    def handler(i, **kw): got.append(kw)
    d = DEC(h).Decoder(handler, 'op', DEC(h).Instruction, FIXED[k])
    w = h.int('w', 0, 0xffff)
    h.check('accepted exactly on agreement', h.not_(h.xor(d.check(w), (w & m) == v)))
    d.decode(w)
    fields_ok(h, '', enc, got[0], w)

# every pattern the package itself registers, read with the grammar of the statement
import re
TOKEN = re.compile(r"\s*(?:([01])|([A-Za-z][A-Za-z0-9]*)(?:\s*\(\s*([0-9]*)\s*\)|=([01]+))?)")
def read_pattern(text):
    els, i = [], 0
    text = text.strip()
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m: return None
        i = m.end()
        if m.group(1): els.append(('lit', m.group(1)))
        elif m.group(4): els.append(('fix', m.group(2), m.group(4)))
        elif m.group(3) is not None: els.append(('size', m.group(2), int(m.group(3) or '1')))
        else: els.append(('name', m.group(2)))
    return els

def registered():
    """the pattern texts of instructions.py (decorator arguments)"""
    import ast, os
    out = []
    with open(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'cmdis', 'instructions.py')) as f: tree = ast.parse(f.read())
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', None)) == 'instr' and len(n.args) in (3, 4):
            t = [a.value if isinstance(a, ast.Constant) else getattr(a, 's', None) for a in n.args[2:]]
            if all(isinstance(x, str) for x in t): out.append(t)
    return out

REGISTERED = []
def registered_task(h, part, parts):
    if not REGISTERED: REGISTERED.extend(registered())
    mine = REGISTERED[part::parts]
    if not mine: raise Unfit('no registered patterns found')
    texts = mine[h.choice('pattern', list(range(len(mine))))]
    els = [read_pattern(t) for t in texts]
    if None in els: raise Unfit('pattern outside the grammar')
    enc = Lit()
    enc.mask, enc.match, enc.fields = layout(els[0])
    if len(els) == 2:
        m, v, f = layout(els[1])
        enc.mask |= m << 16; enc.match |= v << 16
        enc.fields.update({k: (p + 16, n) for k, (p, n) in f.items()})
    got = []
    def handler(i, **kw): got.append(kw)
    d = DEC(h).Decoder(handler, 'op', DEC(h).Instruction, *texts)
    w = h.int('w', 0, 0xffffffff if len(els) == 2 else 0xffff)
    h.check('accepted exactly on agreement', h.not_(h.xor(d.check(w), (w & enc.mask) == enc.match)))
    h.check('size from the number of patterns', d.is32bit == (len(els) == 2))
    d.decode(w)
    fields_ok(h, '', enc, got[0], w)

def group(n, k, base=0): return [tuple(range(base + i, base + i + k)) for i in range(0, n * k, k)]
for i, s in enumerate(group(8, 12)):
    add_task(('D01',), 'pattern.16.%d' % i, pattern_task, s, False, functions=F('parse_spec', 'Decoder.__init__', 'Decoder.process_fmt', 'Decoder.check', 'Decoder.decode'), bound='generated patterns %d..%d, every word' % (s[0], s[-1]))
for i, s in enumerate(group(8, 12, 5000)):
    add_task(('D01',), 'pattern.32.%d' % i, pattern_task, s, True, functions=F('parse_spec', 'Decoder.__init__', 'Decoder.process_fmt', 'Decoder.check', 'Decoder.decode'), bound='generated patterns %d..%d, every word' % (s[0], s[-1]))
for i, s in enumerate(group(40, 25, 100000)):
    add_task(('D01',), 'pattern.more.%d' % i, pattern_task, s, bool(i & 1), functions=F('parse_spec',), thorough=True, bound='generated patterns %d..%d, every word' % (s[0], s[-1]))
for i in range(4):
    add_task(('D01',), 'pattern.registered.%d' % i, registered_task, i, 4, functions=F('parse_spec', 'Decoder.__init__', 'Decoder.process_fmt', 'Decoder.check', 'Decoder.decode'),
             assumes=('the registered patterns are those instructions.py passes to instr() as literal text; each is decided for every word',))
add_task(('D01',), 'pattern.fixed', fixed_task, functions=F('parse_spec', 'Decoder.process_fmt'), bound='%d patterns, every word' % len(FIXED))

# ---------------------------------------------------------------- D02
def family(sd):
    rng = random.Random(sd)
    encs = []
    for two in (False, True):
        n = rng.randint(0 if two else 1, 4)
        base = Enc(rng, two)
        for k in range(n):
            r = rng.random()
            encs.append(base if k == 0 else Enc(rng, two, rng.choice([e for e in encs if e.two == two])) if r < 0.8 else Enc(rng, two))
    rng.shuffle(encs)
    return encs, [rng.choice(('never', 'never', 'free', 'always', 'unpredictable')) for _ in encs], rng

def select_task(h, seeds, twice):
    sd = seed_of(h, seeds)
    encs, how, rng = family(sd)
    D = DEC(h)
    free = [h.bool('declines%d' % k) if t == 'free' else t == 'always' for k, t in enumerate(how)]
    calls = []
    def mkh(k):
        def handler(i, **kw):
            calls.append((k, i, kw))
            if how[k] == 'unpredictable': raise D.UnpredictableError()
            if h.split(free[k]): raise D.DecodeError()
        return handler
    decs = [make(h, e, 'op%d' % k, mkh(k)) for k, e in enumerate(encs)]
    tree = D.DecoderTree()
    late = len(decs) // 2 if twice == 'late' else len(decs)
    for d in decs[:late]: tree.add_decoder(d)
    tree.build()
    if twice:
        w0, data0 = word_of(h, bool(rng.randint(0, 1)), 'v')
        x0, i0 = h.raises(tree.decode, h.mkbytes(data0), h.int('addr0', 0, 0xffffffff))
        for d in decs[late:]: tree.add_decoder(d)
        if late < len(decs): tree.build()
        if x0 is None: s0 = (i0.mnemonic, i0.size, i0.address, i0.bytes); kw0 = calls[-1]
    del calls[:]
    two = bool(h.choice('two', (0, 1)))
    w, data = word_of(h, two)
    extra = h.choice('extra', (0, 1, 2, 5)) if not twice else 0
    given = h.choice('given', (1, 0)) if not twice and not extra else 1
    addr = h.int('addr', 0, 0xffffffff) if given else 0
    x, i = h.raises(tree.decode, h.mkbytes(data + [h.int('e%d' % k, 0, 255) for k in range(extra)]), *((addr,) if given else ()))
    ok = lambda j: h.and_(encs[j].matches(w), h.not_(free[j]))
    cand = [j for j in range(len(encs)) if encs[j].two == two]
    if x == 'UndefinedInstructionError':
        for j in cand: h.check('undefined only when nothing matches', h.not_(ok(j)))
        return
    if not h.check('a decode outcome', x in (None, 'UnpredictableError'), str(x)): return
    k, inst, kw = calls[-1]
    if not h.check('from an encoding of that size', k in cand): return
    h.check('from a matching encoding that does not decline', ok(k))
    for j in cand:
        if encs[j].count > encs[k].count: h.check('no more specific encoding matches', h.not_(ok(j)))
    fields_ok(h, '', encs[k], kw, w)
    h.check('unpredictable comes from the handler', (x == 'UnpredictableError') == (how[k] == 'unpredictable'))
    if x is None:
        h.check('mnemonic', i.mnemonic == 'op%d' % k)
        h.check('size', i.size == (4 if two else 2))
        h.check('address', i.address == addr)
        h.check('bytes', i.bytes == h.mkbytes(data))
        h.check('the instruction the handler saw', i is inst)
    if twice and x0 is None:
        h.check('a new instruction each time', i0 is not i)
        h.check('earlier instruction kept', h.and_(i0.mnemonic == s0[0], i0.size == s0[1], i0.address == s0[2], i0.bytes == s0[3]))
        fields_ok(h, 'earlier ', encs[kw0[0]], kw0[2], w0)

def short_task(h, n):
    """two or three bytes starting a 32-bit encoding"""
    bs = [h.int('b%d' % k, 0, 255) for k in range(n)]
    h.assume((bs[0] | (bs[1] << 8)) >= 0xe800)
    x, i = real_decode(h, h.mkbytes(bs), h.int('addr', 0, 0xffffffff))
    h.check('too few bytes are undefined', x == 'UndefinedInstructionError', str(x))

def any_task(h, n):
    """the real tree on any bytes: an instruction or one of the two errors"""
    bs = [h.int('b%d' % k, 0, 255) for k in range(n)]
    addr = h.int('addr', 0, 0x7fffffff) * 2
    x, i = real_decode(h, h.mkbytes(bs), addr)
    if x is not None:
        h.check('one of the two errors', x in ('UndefinedInstructionError', 'UnpredictableError'), str(x))
        return
    big = (bs[0] | (bs[1] << 8)) >= 0xe800
    h.check('size from the first halfword', i.size == h.ite(big, 4, 2))
    h.check('address', i.address == addr)
    h.check('own bytes', i.bytes == h.mkbytes(bs[:i.size]))

WORDS = None
def words():
    """one concrete word for every encoding of the manual"""
    global WORDS
    if WORDS is None:
        WORDS = []
        for n, e in enumerate(thumb.ENCODINGS):
            m, v = e.match()
            r = random.Random(n)
            for _ in range(2): WORDS.append((e.size, v | (r.getrandbits(8 * e.size) & ~m)))
    return WORDS

def all_words(h):
    for size, w in words():
        hw = [w] if size == 2 else [w >> 16, w & 0xffff]
        x, i = real_decode(h, bytearray(b for x in hw for b in (x & 0xff, x >> 8)), 0x1000)

def history_task(h, e):
    """after decoding another word of the same encoding, and before that one or two
    words of every encoding, a word decodes and prints as the manual says"""
    v = h.word('v', e.pat)
    hw = [v] if e.size == 2 else [v >> 16, v & 0xffff]
    x, i = real_decode(h, h.mkbytes([b for q in hw for b in (q & 0xff, q >> 8)]), 0x2000)
    if x is None:
        x2, t = h.raises(h.p.formatter.Formatter(None).format, i)
    dec_task(h, e)
    if x is None:
        h.check('earlier bytes kept', i.bytes == h.mkbytes([b for q in hw for b in (q & 0xff, q >> 8)]))
        x3, t3 = h.raises(h.p.formatter.Formatter(None).format, i)
        h.check('earlier outcome kept', x2 == x3)
        if x2 is None and x3 is None: h.check('earlier text kept', t3 == t)

SEL = F('DecoderTree.add_decoder', 'DecoderTree.build', 'DecoderTree._build_tree', 'DecoderTree.decode', 'Decoder.check', 'Decoder.decode')
for i, s in enumerate(group(12, 6, 1)):
    add_task(('D02',), 'select.%d' % i, select_task, s, '', functions=SEL, bound='generated sets of encodings %d..%d, every word' % (s[0], s[-1]))
for i, s in enumerate(group(8, 4, 500)):
    add_task(('D02',), 'select.twice.%d' % i, select_task, s, 'twice', functions=SEL, bound='generated sets of encodings %d..%d, every pair of words' % (s[0], s[-1]))
for i, s in enumerate(group(8, 4, 700)):
    add_task(('D02',), 'select.late.%d' % i, select_task, s, 'late', functions=SEL, bound='generated sets of encodings %d..%d, every pair of words' % (s[0], s[-1]))
for i, s in enumerate(group(40, 12, 100000)):
    add_task(('D02',), 'select.more.%d' % i, select_task, s, ('', 'twice', 'late')[i % 3], functions=SEL, thorough=True, bound='generated sets of encodings %d..%d, every word' % (s[0], s[-1]))
for n in (2, 3): add_task(('D02',), 'decode.short.%d' % n, short_task, n, functions=SEL)
for n in (2, 3, 4, 5): add_task(('D02',), 'decode.any.%d' % n, any_task, n, functions=SEL)
for e in thumb.ENCODINGS:
    add_task(('D02',), 'history.' + e.name, history_task, e, first=all_words, functions=SEL + ['instructions:' + e.name])

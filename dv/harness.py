"""The API verification tasks are written against.  One task text serves twice:

* `Sym`  - symbolically, on the mechanically extracted package (python3-vt): every
           input is a free variable, `check` is a proof obligation;
* `Nat`  - natively, on the real package under the interpreter the project's tests
           use: inputs are concrete, `check` tests them.  This is how counterexamples
           are replayed and how bounded stand-ins and cross-checks are run.

This file must run under Python 3.9 (PyPy) without z3; the symbolic half imports
the engine lazily.
"""
import random

TASKS = {}
class Task(object):
    def __init__(self, id, fn, args, props, **kw):
        self.id = id; self.fn = fn; self.args = args; self.props = props
        self.kw = kw
        kw.setdefault('before', (1, 2))
        self.sym = kw.get('sym', True)        # discharge symbolically
        self.native = kw.get('native', True)  # may be replayed / fuzzed natively
        self.weight = kw.get('weight', 1.0)

def task(props, id=None, args=(), **kw):
    if isinstance(props, str): props = (props,)
    def deco(fn):
        tid = id or fn.__name__
        assert tid not in TASKS, tid
        TASKS[tid] = Task(tid, fn, args, tuple(props), **kw)
        return fn
    return deco

def add_task(props, id, fn, *args, **kw):
    task(props, id, args, **kw)(fn)

WANT = {}           # loops that have a contract: (function, position)
FOUND = set()       # those met in the extracted code
def declare(qual, k=0): WANT[(qual, k)] = True

def used_before(pkg, t):
    """run the task on a few fixed concrete inputs first: what the package remembers from earlier
    calls (module variables, class attributes, default arguments) is then there when the checked
    call is made; a task may name concrete calls of its own to be made first"""
    calls = [lambda s=s: t.fn(Nat(pkg, None, s), *t.args) for s in t.kw['before']]
    if 'first' in t.kw: calls.append(lambda: t.kw['first'](Nat(pkg)))
    for go in calls:
        try: go()
        except (Skip, Unfit): pass
        except Exception as x:
            # the checked call will show it; the verifier's own limits are passed on
            if type(x).__module__.startswith('dv.'): raise

class Skip(Exception):
    """the concrete inputs do not satisfy the task's assumptions"""

class Unfit(Exception):
    """the task does not apply to this tree (an internal it needs is gone)"""

class CheckFailed(Exception):
    pass

def pattern_bits(pat):
    pat = pat.replace(' ', '')
    mask = match = 0
    n = len(pat)
    for k, c in enumerate(pat):
        if c in '01':
            mask |= 1 << (n - 1 - k)
            match |= int(c) << (n - 1 - k)
    return n, mask, match

class Common(object):
    def low(self, x, w): return x & ((1 << w) - 1)
    def bits(self, x, hi, lo): return (x >> lo) & ((1 << (hi - lo + 1)) - 1)
    def sgn(self, x, w=32):
        """two's complement reading of a w-bit value"""
        return x - ((x >> (w - 1)) << w)
    def sext(self, x, frm, to=32):
        return self.low(self.sgn(x, frm), to)
    def eqs(self, name, pairs):
        for k, a, b in pairs: self.check('%s.%s' % (name, k), a == b)
    def implies(self, a, b): return self.or_(self.not_(a), b)
    def raises(self, fn, *a, **kw):
        """(class name of the exception or None, result)"""
        try:
            return None, fn(*a, **kw)
        except Skip: raise
        except (CheckFailed, Unfit): raise
        except Exception as e:
            if self.symbolic: self.L.internal(e)
            return type(e).__name__, e

# ====================================================================== native
SPECIAL = (0, 1, 2, 3, 4, 7, 8, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000,
           0x80000001, 0xfffffffe, 0xffffffff, 0xfffffffc, 0x20000000)

class Nat(Common):
    symbolic = False
    def __init__(self, pkg, inputs=None, seed=None):
        self.p = pkg
        self.given = inputs or {}
        self.rng = random.Random(seed) if seed is not None else None
        self.used = {}
        self.failed = []
        self.checks = 0

    def rnd(self, lo, hi):
        r = self.rng
        k = r.random()
        if k < 0.35:
            c = [v for v in SPECIAL if lo <= v <= hi]
            for v in (lo, hi, lo + 1, hi - 1):
                if lo <= v <= hi: c.append(v)
            if lo < 0: c.extend([-v for v in SPECIAL if lo <= -v <= hi])
            if c: return r.choice(c)
        if k < 0.45 and hi > 0:
            # next to a power of two, anywhere in the range
            v = (1 << r.randint(0, hi.bit_length())) + r.choice((-2, -1, -1, 0, 1))
            if lo < 0 and r.random() < 0.3: v = -v
            if lo <= v <= hi: return v
        if k < 0.55:
            n = hi.bit_length()
            v = 0
            for _ in range(r.randint(1, 4)): v |= 1 << r.randrange(max(n, 1))
            if r.random() < 0.5: v ^= (1 << n) - 1
            if lo <= v <= hi: return v
        return r.randint(lo, hi)

    def int(self, name, lo, hi):
        if name in self.given: v = self.given[name]
        elif self.rng is None: v = max(lo, 0) if hi >= 0 else hi
        else: v = self.rnd(lo, hi)
        self.used[name] = v
        return v
    def word(self, name, pat):
        n, mask, match = pattern_bits(pat)
        if name in self.given: v = self.given[name]
        elif self.rng is None: v = match
        else: v = (self.rng.getrandbits(n) if self.rng.random() < 0.7 else self.rnd(0, (1 << n) - 1)) & ~mask | match
        self.used[name] = v
        if v & mask != match: raise Skip()
        return v
    def bool(self, name):
        return bool(self.int(name, 0, 1))
    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]
    def width(self, name, options=None, lo=0):
        if name in self.given: v = self.given[name]
        elif self.rng is None: v = options[0] if options else lo
        elif options: v = self.rng.choice(options) if len(options) < 9 or self.rng.random() < 0.6 else self.rng.choice((34, 47, 48, 50, 53, 54, 56, 60, 63, 64, 65, 66, 72, 80, 96, 97, 128, 129))
        else: v = self.rng.choice((lo, lo + 1, 7, 8, 16, 31, 32, 33, 63, 64, 65)) if self.rng.random() < 0.5 else self.rng.randint(lo, lo + self.rng.choice((4, 40, 300)))
        self.used[name] = v
        if v < lo: raise Skip()
        return v
    def big(self, name, w, neg=True):
        return self.int(name, -(1 << (w + 3)) if neg else 0, 1 << (w + 3))
    def sized(self, name, w):
        """an integer 0 <= v < 2**w"""
        return self.int(name, 0, (1 << w) - 1)
    def array(self, name, lo, hi):
        given = self.given.get(name)
        return NArr(self, name, lo, hi, {int(k): v for k, v in given['array'].items()} if given else {})
    def bytes(self, name, n):
        return bytearray(self.int('%s%d' % (name, i), 0, 255) for i in range(n))
    def assume(self, c):
        if not c: raise Skip()
    def check(self, name, c, detail=''):
        self.checks += 1
        if not c: self.failed.append((name, detail))
        return bool(c)
    def ite(self, c, a, b): return a if c else b
    def and_(self, *xs): return all(xs)
    def or_(self, *xs): return any(xs)
    def not_(self, x): return not x
    def xor(self, a, b): return bool(a) != bool(b)
    def cat(self, *parts): return ''.join(parts)
    def dec(self, n, plus=False): return '%+d' % n if plus else '%d' % n
    def oct(self, n): return '%o' % n
    def hex(self, n, w=0): return '%0*x' % (w, n) if w else '%x' % n
    def call(self, f, *a, **kw): return f(*a, **kw)
    def bin(self, v, n): return format(v, '0%db' % n) if n else ''
    def names(self, table, n): return table[n]
    def lemma(self, name, c): self.check('lemma ' + name, c)
    def recdef(self, name, base, step):
        def f(i):
            r = base
            for k in range(i): r = step(k, r)
            return r
        f.unfold = lambda i: None
        return f
    def loop(self, qual, k, havoc, inv, frame=None, optional=False, every=False): pass
    def at(self, xs, i): return xs[i]
    def wide(self, *quals): pass
    def blob(self, name, hi=1 << 20):
        """(bytes of arbitrary length below hi, their number)"""
        a = self.array(name, 0, 255)
        n = self.length(name + '.len', hi)
        return bytearray(a.get(i) for i in range(n)), n
    def length(self, name, hi):
        if name in self.given: n = self.given[name]
        elif self.rng is None: n = 0
        else: n = self.rng.randint(0, min(hi - 1, self.rng.choice((4, 9, 40))))
        self.used[name] = n
        if n > 100000: raise Skip()
        return n
    def items(self, name, lo, hi, most=1 << 20):
        """(list of arbitrary length below most of integers lo..hi, their number)"""
        a = self.array(name, lo, hi)
        n = self.length(name + '.len', most)
        return [a.get(i) for i in range(n)], n
    def capture(self, fn, *a):
        """(exception name or None, what was printed)"""
        import sys, io
        out, old = io.StringIO(), sys.stdout
        sys.stdout = out
        try: x, r = self.raises(fn, *a)
        finally: sys.stdout = old
        return x, out.getvalue()
    def tokens(self, t): return t.split()
    def lines(self, t): return t.split('\n')
    def begins(self, t, w): return t.startswith(w)
    def popcount(self, x): return bin(x).count('1')
    def ljust(self, s, n): return s.ljust(n)
    def reglist(self, bits, n=16): return reglist_text(bits)
    def bitlist(self, v, n): return [(v >> i) & 1 for i in range(n)]
    def split(self, c): return bool(c)
    def mkbytes(self, xs): return bytearray(xs)
    def parse_reglist(self, t):
        import re
        m = re.search(r'\{(.*)\}', t)
        if not m: return None
        v = 0
        for part in m.group(1).split(','):
            if not part: continue
            a, _, b = part.partition('-')
            if a not in REGS or (b or a) not in REGS: return None
            for k in range(REGS.index(a), REGS.index(b or a) + 1): v |= 1 << k
        return v
    def list_form(self, t):
        """a printed list is in ascending order, runs as ranges"""
        import re
        m = re.search(r'\{(.*)\}', t)
        return m is not None and m.group(0) == reglist_text(self.parse_reglist(t))
    def label_parts(self, t):
        import re
        a = re.search(r'\.([-+]\d+)', t)
        b = re.search(r'; 0x([0-9a-f]+)', t)
        if not a or not b: return None
        return int(a.group(1)), int(b.group(1), 16)
    def render(self, t): return t, ()
    def shown(self, tok, marks, base, typ):
        return int(tok, base)
    def line_parts(self, t):
        """(halfwords the line starts with, [(immediate, is a comment due) or label], comment values, mnemonic)"""
        import re
        r, marks = self.render(t)
        num = r'(?:-?[0-9]+|-?\x01[0-9]+\x02)'
        body, semi, tail = r.partition(';')
        words = body.split()
        hexword = r'(?:[0-9a-f]|\x01[0-9]+\x02)+'
        hws = []
        for x in words[:2]:
            if re.fullmatch(hexword, x) and (len(x) == 4 or '\x01' in x):
                v = self.hexword(x, marks)
                if v is not None: hws.append(v); continue
            break
        ops = []
        for m in re.finditer(r'(?P<shift>(?:[A-Z]{3}|\x02) )?#(?P<imm>%s)|\.[-+]%s' % (num, num), body):
            if m.group('imm') is None: ops.append(None)
            elif m.group('shift') is None: ops.append(self.shown(m.group('imm'), marks, 10, 'd'))
        notes = []
        for x in tail.split():
            if not x.startswith('0x'): return None
            notes.append(self.shown(x[2:], marks, 16, 'x'))
        if semi and not notes: return None
        return hws, ops, notes, words[len(hws)] if len(words) > len(hws) else ''
    def hexword(self, x, marks): return int(x, 16)
    def same_any(self, name, a, bs, idx):
        self.check(name, any(all(a.get(k) == b.get(k) for k in set(a.d) | set(b.d)) for b in bs))
    def forall(self, name, lo, hi):
        """an arbitrary index; natively the interesting ones are listed by `probe`"""
        return self.int(name, lo, hi)
    def same_array(self, name, a, b, idx=None):
        keys = set(a.d) | set(b.d)
        for k in sorted(keys):
            self.check('%s[%d]' % (name, k), a.get(k) == b.get(k))
        self.check(name, True)
    def store_failed(self): return [n for n, d in self.failed]

class NArr(object):
    def __init__(self, h, name, lo, hi, base, d=None):
        self.h = h; self.name = name; self.lo = lo; self.hi = hi; self.base = base; self.d = dict(d or {})
    def get(self, i):
        if i in self.d: return self.d[i]
        return self.base_get(i)
    def base_get(self, i):
        if i not in self.base:
            if self.h.rng is None: v = 0 if self.lo <= 0 <= self.hi else self.lo
            else:
                v = self.h.rnd(self.lo, self.hi)
            self.base[i] = v
        u = self.h.used.setdefault(self.name, {'array': {}})
        u['array'][str(i)] = self.base[i]
        return self.base[i]
    def prefer(self, i, f):
        """random contents only: make cell i meet an assumption"""
        if self.h.rng is not None and i not in self.base:
            self.base[i] = f(self.h.rnd(self.lo, self.hi))
    def set(self, i, v): self.d[i] = v
    def __getitem__(self, i): return self.get(i)
    def copy(self): return NArr(self.h, self.name, self.lo, self.hi, self.base, self.d)

REGS = ('r0', 'r1', 'r2', 'r3', 'r4', 'r5', 'r6', 'r7', 'r8', 'r9', 'r10', 'r11', 'r12', 'sp', 'lr', 'pc')

def reglist_text(v):
    """{r0,r2-r4,lr}: ascending, adjacent registers joined to ranges"""
    out = []
    k = 0
    while k < 16:
        if (v >> k) & 1:
            j = k
            while j < 15 and (v >> (j + 1)) & 1: j += 1
            out.append(REGS[k] if j == k else REGS[k] + '-' + REGS[j])
            k = j + 1
        else:
            k += 1
    return '{' + ','.join(out) + '}'

# ====================================================================== symbolic
class Sym(Common):
    symbolic = True
    def __init__(self, pkg, engine):
        from . import sym, term, engine as eng, lift
        self.p = pkg
        self.e = engine
        self.S = sym; self.T = term; self.L = lift
        self.rng = None
    def begin(self): pass
    def int(self, name, lo, hi):
        T = self.T
        if lo == hi: n = T.const(lo)
        else: n = T.var(name, lo, hi)
        self.e.inputs[name] = n
        return self.S.I(n)
    def word(self, name, pat):
        T = self.T
        pat = pat.replace(' ', '')
        n = len(pat)
        w = T.const(0)
        k = 0
        while k < n:
            j = k
            fixed = pat[k] in '01'
            while j < n and (pat[j] in '01') == fixed and (fixed or pat[j] == pat[k]): j += 1
            lo = n - j
            part = T.const(int(pat[k:j], 2)) if fixed else T.var('%s.%d' % (name, lo), 0, (1 << (j - k)) - 1)
            w = T.bor(w, T.shl(part, T.const(lo)))
            k = j
        self.e.inputs[name] = w
        return self.S.I(w)
    def bool(self, name):
        T = self.T
        v = T.var(name, 0, 1)
        self.e.inputs[name] = v
        return self.S.B(T.eq(v, T.const(1)))
    def choice(self, name, options):
        k = self.e.decide('choice', list(range(len(options))))
        self.e.inputs[name] = k
        return options[k]
    def width(self, name, options=None, lo=0):
        if options is None:
            if not self.e.math: raise self.T.Unsupported('unbounded width')
            v = self.T.var(name, lo, None)
            self.e.inputs[name] = v
            return self.S.I(v)
        k = self.e.decide('choice', list(options))
        self.e.inputs[name] = k
        return k
    def big(self, name, w, neg=True):
        """any integer, including ones that do not fit in w bits"""
        if type(w) is not int:
            v = self.T.var(name, None if neg else 0, None)
            self.e.inputs[name] = v
            return self.S.I(v)
        return self.int(name, -(1 << (w + 3)) if neg else 0, 1 << (w + 3))
    def sized(self, name, w):
        T = self.T
        if type(w) is int: return self.int(name, 0, (1 << w) - 1)
        v = T.var(name, 0, None)
        w = self.S.N(w)
        self.e.inputs[name] = v
        self.e.push_pc(T.mk('lt', (v, T.pow2(w)), None, None, 'bool'))
        T.BELOW.add((v.id, w.id))
        return self.S.I(v)
    def recdef(self, name, base, step):
        """a specification function by recursion: f(0) = base, f(i+1) = step(i, f(i)); f.unfold(i) uses the second equation"""
        return SRec(self, name, base, step)
    def loop(self, qual, k, havoc, inv, frame=None, optional=False, every=False):
        """activate a loop contract (dv/loops.py) for the next time the loop is entered"""
        from . import loops
        if (qual, k) not in loops.FOUND and qual not in ('functools.reduce', 'str.join'):
            if optional: return        # the code at hand has no such loop: it is followed as it stands
            raise Unfit('no loop %d in %s' % (k, qual))
        self.e.loops[(qual, k)] = loops.Spec(havoc, inv, frame or (lambda: ()))
        self.e.loops[(qual, k)].every = every
    def wide(self, *quals):
        """calls of these functions are replaced by their every-width contracts (dv/contracts.py)"""
        self.e.wide.update(quals)
    def at(self, xs, i):
        """element i of a sequence of unknown length, without asking whether it is there"""
        n = self.S.N(i)
        return xs.at(n) if type(xs) is self.S.SList else self.S.I(self.S.sel(xs.arr, n))
    def length(self, name, hi):
        return self.int(name, 0, hi - 1)
    def blob(self, name, hi=None):
        a = self.array(name, 0, 255)
        n = self.length(name + '.len', hi) if hi else self.width(name + '.len')
        return self.S.SBytes(a.a, self.S.N(n)), n
    def items(self, name, lo, hi, most=None):
        a = self.array(name, lo, hi)
        n = self.length(name + '.len', most) if most else self.width(name + '.len')
        return self.S.SList(a.a, self.S.N(n), None, lo, hi), n
    def capture(self, fn, *a):
        k = len(self.e.notes)
        x, r = self.raises(fn, *a)
        return x, self.S.mkstr([p for n in self.e.notes[k:] if n[0] == 'print' for p in self.S.sparts(n[1])])
    def tokens(self, t): return self.L.callm(t, 'split')
    def lines(self, t): return self.L.callm(t, 'split', '\n')
    def begins(self, t, w):
        ps = self.S.sparts(t)
        return bool(ps) and isinstance(ps[0], str) and ps[0].startswith(w)
    def unknown(self, name, lo, hi):
        """an arbitrary value that is not an input (loop havoc)"""
        return self.S.I(self.T.var(self.e.fresh('havoc!' + name), lo, hi))
    def unknown_sized(self, name, w):
        """an arbitrary value below 2**w that is not an input; the claim that it is
        belongs into the invariant it comes from"""
        T = self.T
        w = self.S.N(w)
        v = T.var(self.e.fresh('havoc!' + name), 0, None)
        self.e.push_pc(T.mk('lt', (v, T.pow2(w)), None, None, 'bool'))
        T.BELOW.add((v.id, w.id))
        return self.S.I(v)
    def unknown_list(self, name, lo, hi, n):
        return self.S.SList(self.T.arrvar(self.e.fresh('havoc!' + name), lo, hi), self.S.N(n), None, lo, hi)
    def unknown_bytes(self, name, n):
        return self.S.SBytes(self.T.arrvar(self.e.fresh('havoc!' + name), 0, 255), self.S.N(n))
    def contents(self, b): return b.arr, b.length
    def same_bytes(self, b, was): return b.arr is was[0] and b.length is was[1]
    def become(self, box, data):
        """give a stored byte array of the same length these contents"""
        if type(box) is not self.S.SBytes: raise Unfit('memory is not kept in a byte array')
        box._set(data.arr)
    def array(self, name, lo, hi):
        a = self.T.arrvar(name, lo, hi)
        self.e.inputs[name] = a
        return SArr(self, name, lo, hi, a)
    def bytes(self, name, n):
        return self.S.SBytes.of([self.int('%s%d' % (name, i), 0, 255) for i in range(n)])
    def assume(self, c):
        self.e.assume(self.S.NB(self.L.truthv(c)))
    def check(self, name, c, detail=''):
        c = self.L.truthv(c)
        return self.e.check(name, self.S.NB(c), detail)
    def lemma(self, name, c):
        """prove, then use"""
        c = self.L.truthv(c)
        if self.e.check('lemma ' + name, self.S.NB(c)): self.e.push_pc(self.S.NB(c))
    def ite(self, c, a, b):
        c = self.L.truthv(c)
        if c is True: return a
        if c is False: return b
        k = self.e.known(c.b)
        if k is not None: return a if k else b
        return self.S.ite_value(c.b, a, b)
    def and_(self, *xs): return self.S.B(self.T.land(*[self.S.NB(self.L.truthv(x)) for x in xs]))
    def or_(self, *xs): return self.S.B(self.T.lor(*[self.S.NB(self.L.truthv(x)) for x in xs]))
    def not_(self, x): return self.S.B(self.T.lnot(self.S.NB(self.L.truthv(x))))
    def xor(self, a, b): return self.S.B(self.T.lxor(self.S.NB(self.L.truthv(a)), self.S.NB(self.L.truthv(b))))
    def cat(self, *parts): return self.S.mkstr([q for p in parts for q in self.S.sparts(p)])
    def dec(self, n, plus=False): return self.S.fmt_int(self.S.N(n), '+d' if plus else 'd')
    def oct(self, n): return self.S.fmt_int(self.S.N(n), 'o')
    def hex(self, n, w=0):
        if type(w) is not int: return self.S.mkstr([('fmtw', 'x', self.S.N(n), self.S.N(w))])
        return self.S.fmt_int(self.S.N(n), '0%dx' % w if w else 'x')
    def call(self, f, *a, **kw):
        """a builtin applied to possibly symbolic arguments"""
        return self.L.call(f, *a, **kw)
    def bin(self, v, n):
        if type(n) is not int: return self.S.bintext(self.S.N(v), self.S.N(n))
        return self.S.fmt_int(self.S.N(v), '0%db' % n) if n else ''
    def names(self, table, n):
        T = self.T
        n = self.S.N(n)
        return self.S.choice([(T.eq(n, T.const(k)), s) for k, s in enumerate(table)
                              if (n.lo is None or k >= n.lo) and (n.hi is None or k <= n.hi)])
    def popcount(self, x): return self.S.I(self.T.popcount(self.S.N(x)))
    def ljust(self, s, n): return self.S.pad(s, n, '<')
    def reglist(self, bits, n=16):
        b = self.S.N(bits)
        if b.op == 'const': return reglist_text(b.args[0])
        return self.S.SStr((('fn', 'reglist', b),))
    def bitlist(self, v, n): return [(v >> i) & 1 for i in range(n)]
    def split(self, c): return self.L.truth(c)
    def mkbytes(self, xs): return self.S.SBytes.of(xs)
    def render(self, t):
        """text with a numbered mark for every symbolic part, and the parts"""
        marks = []
        def go(x):
            out = ''
            for p in self.S.sparts(x):
                if isinstance(p, str): out += p
                elif p[0] == 'pad': out += go(p[1])
                else:
                    marks.append(p); out += '\x01%d\x02' % (len(marks) - 1)
            return out
        return go(t), marks
    line_parts = Nat.line_parts
    def shown(self, tok, marks, base, typ):
        """the number a token of rendered text shows"""
        neg = tok.startswith('-')
        tok = tok.lstrip('-')
        if '\x01' not in tok: v = int(tok, base)
        else:
            p = marks[int(tok[1:-1])] if tok.count('\x01') == 1 else ('?',)
            if p[0] != 'fmt' or p[1].lstrip('01') != typ: raise self.T.Unsupported('number in text')
            v = self.S.I(p[2])
        return -v if neg else v
    def hexword(self, x, marks):
        import re
        v, digits = 0, 0
        for lit, k in re.findall(r'([0-9a-f])|\x01([0-9]+)\x02', x):
            if lit: v = v * 16 + int(lit, 16); digits += 1; continue
            p = marks[int(k)]
            f = re.fullmatch(r'0?([1-9])?x', p[1]) if p[0] == 'fmt' else None
            if f is None: return None
            n = int(f.group(1) or 1)
            if p[2].lo is None or p[2].lo < 0 or p[2].hi is None or p[2].hi >= 16 ** n: raise self.T.Unsupported('hexadecimal word in text')
            v = v * 16 ** n + self.S.I(p[2]); digits += n
        if digits != 4: return None
        return v
    def parse_reglist(self, t):
        """the set of registers a printed list names"""
        import re
        T = self.T
        r, marks = self.render(t)
        m = re.search(r'\{([^}]*)\}', r)
        if m is None:
            m = re.search(r'\x01(\d+)\x02', r)
            for p in marks:
                if p[0] == 'fn' and p[1] == 'reglist': return self.S.I(p[2])
            raise self.T.Unsupported('register list text')
        if '\x01' not in m.group(1): return Nat.parse_reglist(self, m.group(0))
        k = re.fullmatch(r'\x01(\d+)\x02', m.group(1))
        if not k: raise self.T.Unsupported('register list text')
        p = marks[int(k.group(1))]
        if p[0] == 'choice':
            v = T.const(0)
            for c, x in p[1]:
                if x not in REGS: return None
                v = T.ite(c, T.const(1 << REGS.index(x)), v)
            return self.S.I(v)
        raise self.T.Unsupported('register list text')
    def list_form(self, t):
        r, marks = self.render(t)
        return Nat.list_form(self, r) if '{' in r and '\x01' not in r[r.index('{'):r.index('}')] else True
    def label_parts(self, t):
        """(relative offset, absolute address) a printed label shows"""
        import re
        r, marks = self.render(t)
        a = re.search(r'\.([-+])(?:(\d+)|\x01(\d+)\x02)', r)
        b = re.search(r'; 0x(?:([0-9a-f]+)|\x01(\d+)\x02)', r)
        if not a or not b: raise self.T.Unsupported('label text')
        def val(lit, k, base, typ):
            if lit is not None: return int(lit, base)
            p = marks[int(k)]
            if p[0] != 'fmt' or p[1] != typ: raise self.T.Unsupported('label text')
            return self.S.I(p[2])
        rel = val(a.group(2), a.group(3), 10, 'd')
        return (-rel if a.group(1) == '-' else rel), val(b.group(1), b.group(2), 16, 'x')
    def same_any(self, name, a, bs, idx):
        T = self.T
        k = T.var('idx!' + name, *idx)
        self.check(name, self.S.B(T.lor(*[T.eq(self.S.sel(a.a, k), self.S.sel(b.a, k)) for b in bs])))
    def forall(self, name, lo, hi): return self.int(name, lo, hi)
    def same_array(self, name, a, b, idx=None):
        T = self.T
        if a.a is b.a:
            self.check(name, True)
            return
        k = T.var('idx!' + name, *(idx if idx is not None else (0, 0xffffffff)))
        self.check(name, self.S.B(T.eq(self.S.sel(a.a, k), self.S.sel(b.a, k))))

class SRec(object):
    def __init__(self, h, name, base, step):
        self.h = h; self.base = base; self.step = step
        self.arr = h.T.arrvar(h.e.fresh('rec!' + name), None, None)
    def __call__(self, i):
        if type(i) is int and i == 0: return self.base
        return self.h.S.I(self.h.T.sel(self.arr, self.h.S.N(i)))
    def unfold(self, i):
        h, T = self.h, self.h.T
        n = h.S.N(i)
        z = h.S.NB(self.h.L.truthv(self(i + 1) == self.step(i, self(i))))
        h.e.push_pc(T.lor(T.lt(n, T.const(0)), z))
        h.e.push_pc(T.lor(T.lnot(T.eq(n, T.const(0))), h.S.NB(h.L.truthv(self.h.S.I(T.sel(self.arr, n)) == self.base))))

class SArr(object):
    def __init__(self, h, name, lo, hi, a):
        self.h = h; self.name = name; self.lo = lo; self.hi = hi; self.a = a
    def get(self, i):
        return self.h.S.I(self.h.e.prune(self.h.T.sel(self.a, self.h.S.N(i))))
    def set(self, i, v):
        h = self.h
        n = h.S.N(v)
        if n.lo is None or n.hi is None or n.lo < self.lo or n.hi > self.hi:
            c = h.T.land(h.T.le(h.T.const(self.lo), n), h.T.le(n, h.T.const(self.hi)))
            if not h.e.check('%s value range' % self.name, c): pass
            # keep the exact value out of the array's range visible: reduce it
            n = h.T.low(n, h.T.const(self.hi.bit_length())) if self.lo >= 0 else n
        h.e.log(self, 'attr', 'a', self.a)
        self.a = h.T.store(self.a, h.S.N(i), n)
    def prefer(self, i, f): pass
    def __getitem__(self, i): return self.get(i)
    def copy(self): return SArr(self.h, self.name, self.lo, self.hi, self.a)

def install_fns():
    from . import term as T
    T.FN_EVAL['reglist'] = reglist_text

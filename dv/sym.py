"""Symbolic values that flow through the real code: integers, booleans, text and
byte arrays.  They behave exactly like the Python types they stand for; an
operation that is not modelled raises Unsupported, never a wrong answer."""
from . import term as T
from .term import Unsupported, Node, const
from . import engine as E
from .engine import cur

def I(n):
    return n.args[0] if n.op == 'const' else SInt(n)

def B(n):
    if n is T.TRUE: return True
    if n is T.FALSE: return False
    return SBool(n)

def N(x):
    """integer node of an int-like value, else None"""
    t = type(x)
    if t is SInt: return x.n
    if t is int: return const(x)
    if t is bool: return const(1 if x else 0)
    if t is SBool: return T.b2i(x.b)
    if isinstance(x, int): return const(int(x))
    return None

def NB(x):
    """boolean node of a bool-like value, else None"""
    t = type(x)
    if t is SBool: return x.b
    if t is bool: return T.boolc(x)
    return None

MAXENUM = 300

def concretize(n, limit=None):
    """fork over all values of n on this path"""
    e = cur()
    if e is None:
        raise Unsupported('symbolic value outside a task')
    if n.op == 'const':
        return n.args[0]
    k = e.counter.get('eqs', {}).get(n.id)
    if k is not None:
        return k.args[0]
    if limit is None: limit = MAXENUM
    if n.lo is None or n.hi is None:
        raise Unsupported('enumerating an unbounded integer')
    if n.hi - n.lo < 16:
        for v in range(n.lo, n.hi):
            if e.fork(T.eq(n, const(v))):
                return v
        e.assume(T.eq(n, const(n.hi)), feasible_check=False)
        return n.hi
    for _ in range(limit):
        if e.pos < len(e.decisions):
            d = e.decisions[e.pos]
            e.pos += 1
            assert d.kind == 'val', d.kind
            v, taken = d.val
        else:
            if e.sat(T.TRUE, want_model=True) != 'sat' or not e._last_model_exact:
                raise Unsupported('no model to enumerate values from')
            v = T.evaluate(n, e.last_model, {})
            d = E.Decision('val', (v, True), [(v, False)])
            e.decisions.append(d)
            e.pos += 1
            taken = True
            if e.entails(T.eq(n, const(v))):
                d.alts = []
        if taken:
            e.push_pc(T.eq(n, const(v)))
            return v
        e.push_pc(T.lnot(T.eq(n, const(v))))
        if e.pos >= len(e.decisions) and e.sat(T.TRUE) == 'unsat':
            raise E.PathEnd()
    raise Unsupported('too many values to enumerate')

class SInt(object):
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __repr__(self): return '<SInt %s>' % T.show(self.n)
    def __bool__(self): return cur().fork(T.lnot(T.eq(self.n, const(0))))
    def __index__(self): return concretize(self.n)
    def __int__(self): return concretize(self.n)
    def __hash__(self): return hash(concretize(self.n))
    def __float__(self): raise Unsupported('float of a symbolic integer')
    def __trunc__(self): return self
    def __pos__(self): return self
    def __neg__(self): return I(T.neg(self.n))
    def __invert__(self): return I(T.lin_not(self.n))
    def __abs__(self): return I(T.ite(T.lt(self.n, const(0)), T.neg(self.n), self.n))
    def __round__(self, nd=None): return self
    def __pow__(self, o, m=None): return ipow(self, o, m)
    def __rpow__(self, o): return ipow(o, self)
    def __divmod__(self, o): return self // o, self % o
    def __rdivmod__(self, o): return o // self, o % self
    def __truediv__(self, o): raise Unsupported('true division')
    __rtruediv__ = __truediv__
    def bit_length(self):
        x = self.n
        a = T.ite(T.lt(x, const(0)), T.neg(x), x)
        if a.hi is None: raise Unsupported('bit_length of an unbounded integer')
        r = const(0)
        for k in range(a.hi.bit_length()):
            r = T.ite(T.lt(a, const(1 << k)), r, const(k + 1))
        return I(r)
    def bit_count(self):
        a = self.n
        return I(T.popcount(T.ite(T.lt(a, const(0)), T.neg(a), a)))
    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1
    def to_bytes(self, length=1, byteorder='big', signed=False):
        n = self.n
        if signed:
            raise Unsupported('signed to_bytes')
        if cur().fork(T.lor(T.lt(n, const(0)), T.le(T.pow2(const(8 * length)), n))):
            raise OverflowError('int too big to convert')
        b = [I(T.low(T.shr(n, const(8 * i)), const(8))) for i in range(length)]
        return SBytes.of(b if byteorder == 'little' else b[::-1], mutable=False)

def ipow(a, b, m=None):
    if m is not None: raise Unsupported('modular power')
    na, nb = N(a), N(b)
    if na is None or nb is None: return NotImplemented
    if nb.op == 'const' and 0 <= T.cval(nb) <= 8:
        r = const(1)
        for _ in range(T.cval(nb)): r = T.mul(r, na)
        return I(r)
    if na.op == 'const' and T.cval(na) > 0 and T.cval(na) & (T.cval(na) - 1) == 0:
        _nonneg(nb)
        k = T.cval(na).bit_length() - 1
        return I(T.pow2(T.scale(nb, k)))
    raise Unsupported('power')

def _nonneg(n):
    if n.lo is None or n.lo < 0:
        if n.hi is not None and n.hi < 0 or cur().fork(T.lt(n, const(0))):
            raise ValueError('negative shift count')

def _nonzero(n):
    if n.op == 'const':
        if T.cval(n) == 0: raise ZeroDivisionError('integer division or modulo by zero')
    elif (n.lo is None or n.lo <= 0) and (n.hi is None or n.hi >= 0):
        if cur().fork(T.eq(n, const(0))):
            raise ZeroDivisionError('integer division or modulo by zero')

SHIFT_LIMIT = 8192
def _shl(a, b):
    _nonneg(b)
    return T.shl(a, b)
def _shr(a, b):
    _nonneg(b)
    return T.shr(a, b)
def _div(a, b):
    _nonzero(b)
    return T.floordiv(a, b)
def _mod(a, b):
    _nonzero(b)
    return T.floormod(a, b)

def _binop(name, f):
    def op(self, o):
        m = N(o)
        if m is None: return NotImplemented
        return I(f(self.n, m))
    def rop(self, o):
        m = N(o)
        if m is None: return NotImplemented
        return I(f(m, self.n))
    setattr(SInt, '__%s__' % name, op)
    setattr(SInt, '__r%s__' % name, rop)
    def bop(self, o):
        m = N(o)
        if m is None: return NotImplemented
        return I(f(T.b2i(self.b), m))
    def brop(self, o):
        m = N(o)
        if m is None: return NotImplemented
        return I(f(m, T.b2i(self.b)))
    return bop, brop

def repeat(x, n):
    """text or list times an integer of no known bound"""
    if n.lo is None or n.lo < 0:
        if cur().fork(T.lt(n, const(0))): return x[:0]
    if isinstance(x, str):
        if x in ('0', '1'): return bintext(const(0) if x == '0' else T.sub(T.pow2(n), const(1)), n)
    elif len(x) == 1 and N(x[0]) is not None:
        v = N(x[0])
        return SList(T.arrconst(v), n, None, v.lo, v.hi)
    raise Unsupported('repetition of unbounded length')

def bintext(v, n):
    """the n binary digits of v (0 <= v < 2**n), n of no known bound"""
    if n.op == 'const': return fmt_int(T.low(v, n), '0%db' % T.cval(n)) if T.cval(n) else ''
    return SStr((('bin', v, n),))

def _bindigits(p, right):
    """(value, number of digits) of the binary digits a part ends (or begins) with, and the rest"""
    if isinstance(p, str):
        k = len(p)
        if right:
            i = 0
            while i < k and p[i] in '01': i += 1
            return (const(int(p[:i] or '0', 2)), const(i)), p[i:]
        i = k
        while i > 0 and p[i - 1] in '01': i -= 1
        return (const(int(p[i:] or '0', 2)), const(k - i)), p[:i]
    if p[0] == 'bin': return (p[1], p[2]), ''
    if p[0] == 'fmt' and p[1][-1] == 'b' and _fixed(p): return (p[2], const(_fixed(p))), ''
    if p[0] == 'fmt' and p[1] in ('d', 'b', '01d', '01b') and p[2].lo is not None and p[2].lo >= 0 and p[2].hi is not None and p[2].hi <= 1:
        return (p[2], const(1)), ''
    return None, p

def _binjoin(parts):
    """adjacent binary digits around a group of unknown length become one group"""
    out = list(parts)
    isbin = lambda p: type(p) is tuple and p[0] == 'bin'
    i = 0
    while i + 1 < len(out):
        p, q = out[i], out[i + 1]
        if isbin(p) or isbin(q):
            a, rest = _bindigits(p, False)
            b, tail = _bindigits(q, True)
            if a is not None and b is not None and a[1] is not const(0) and b[1] is not const(0):
                out[i:i + 2] = [x for x in (rest, ('bin', T.add(T.shl(a[0], b[1]), b[0]), T.add(a[1], b[1])), tail) if x]
                i = 0
                continue
        i += 1
    return out

class SBool(object):
    __slots__ = ('b',)
    def __init__(self, b): self.b = b
    def __repr__(self): return '<SBool %s>' % T.show(self.b)
    def __bool__(self): return cur().fork(self.b)
    def __index__(self): return 1 if cur().fork(self.b) else 0
    def __int__(self): return 1 if cur().fork(self.b) else 0
    def __hash__(self): return hash(cur().fork(self.b))
    def __neg__(self): return I(T.neg(T.b2i(self.b)))
    def __pos__(self): return I(T.b2i(self.b))
    def __invert__(self): return I(T.lin_not(T.b2i(self.b)))
    def bit_length(self): return I(T.b2i(self.b))

for _n, _f in (('add', T.add), ('sub', T.sub), ('mul', T.mul), ('lshift', _shl), ('rshift', _shr),
               ('floordiv', _div), ('mod', _mod), ('and', T.band), ('or', T.bor), ('xor', T.bxor)):
    _b, _r = _binop(_n, _f)
    if _n in ('and', 'or', 'xor'):
        def _mkb(f, intop, rintop):
            def op(self, o):
                y = NB(o)
                if y is not None: return B(f(self.b, y))
                return intop(self, o)
            def rop(self, o):
                y = NB(o)
                if y is not None: return B(f(y, self.b))
                return rintop(self, o)
            return op, rop
        _b, _r = _mkb({'and': T.land, 'or': T.lor, 'xor': T.lxor}[_n], _b, _r)
    setattr(SBool, '__%s__' % _n, _b)
    setattr(SBool, '__r%s__' % _n, _r)


_mul, _rmul = SInt.__mul__, SInt.__rmul__
def _times(f):
    def op(self, o):
        if self.n.hi is None and cur() is not None and cur().math and type(o) in (str, list): return repeat(o, self.n)
        return f(self, o)
    return op
SInt.__mul__, SInt.__rmul__ = _times(_mul), _times(_rmul)

def _cmp(name, f):
    def op(self, o):
        m = N(o)
        if m is None: return NotImplemented
        return B(f(N(self), m))
    setattr(SInt, name, op)
    setattr(SBool, name, op)
_cmp('__lt__', T.lt)
_cmp('__le__', T.le)
_cmp('__gt__', lambda a, b: T.lt(b, a))
_cmp('__ge__', lambda a, b: T.le(b, a))
_cmp('__eq__', T.eq)
_cmp('__ne__', lambda a, b: T.lnot(T.eq(a, b)))

def _fix_hash():
    SInt.__hash__ = lambda self: hash(concretize(self.n))
    SBool.__hash__ = lambda self: hash(cur().fork(self.b))
_fix_hash()

def is_sym(x):
    return type(x) in (SInt, SBool, SStr, SBytes)

# ====================================================================== text
def mkstr(parts):
    out = []
    flat = []
    for p in parts:
        if type(p) is SStr: flat.extend(p.parts)
        else: flat.append(p)
    for p in flat:
        if isinstance(p, str):
            if not p: continue
            if out and isinstance(out[-1], str): out[-1] += p
            else: out.append(p)
        else:
            out.append(p)
    if not out: return ''
    if len(out) == 1 and isinstance(out[0], str): return out[0]
    if len(out) > 1 and any(type(p) is tuple and p[0] == 'bin' for p in out): out = _binjoin(out)
    return SStr(tuple(out))

def sparts(s):
    if isinstance(s, str): return (s,) if s else ()
    return s.parts

def choice(alts):
    """alts: [(cond node, str)] mutually exclusive and exhaustive on this path"""
    alts = [(c, s) for c, s in alts if c is not T.FALSE]
    m = {}
    order = []
    for c, s in alts:
        if s in m: m[s] = T.lor(m[s], c)
        else:
            m[s] = c; order.append(s)
    if len(order) == 1: return order[0]
    return SStr((('choice', tuple((m[s], s) for s in order)),))

def parse_spec(spec):
    import re
    m = re.match(r'^(?:(.)?([<>=^]))?([-+ ]?)(#?)(0?)(\d*)([,_]?)(?:\.(\d+))?([a-zA-Z%]?)$', spec)
    if not m: raise Unsupported('format spec %r' % spec)
    fill, align, sign, alt, zero, width, comma, prec, typ = m.groups()
    if comma or prec: raise Unsupported('format spec %r' % spec)
    return fill, align, sign, alt, zero, int(width) if width else 0, typ

def fmt_int(n, spec):
    """format(int, spec) for a symbolic integer node"""
    if n.op == 'const':
        return format(n.args[0], spec)
    fill, align, sign, alt, zero, width, typ = parse_spec(spec)
    typ = typ or 'd'
    if typ == 'n': typ = 'd'
    if typ not in 'dxXobc': raise Unsupported('format type %s' % typ)
    if typ == 'c': return fmt_chr(n)
    if n.lo is not None and n.lo >= 0 or (typ != 'd' or sign) and not cur().fork(T.lt(n, const(0))):
        pre = '' if sign in ('', '-') else sign
        neg = False
    elif typ == 'd' and not sign and not zero and not width:
        return mkstr([('fmt', 'd', n)])
    elif typ == 'd' and not sign and not zero:
        body = mkstr([('fmt', 'd', n)])
        return pad(body, width, align or '>', fill or ' ')
    else:
        if not (n.hi is not None and n.hi < 0) and not cur().entails(T.lt(n, const(0))):
            if not cur().fork(T.lt(n, const(0))):
                return fmt_int_pos(n, fill, align, '' if sign in ('', '-') else sign, alt, zero, width, typ)
        n = T.neg(n)
        pre = '-'
    return fmt_int_pos(n, fill, align, pre, alt, zero, width, typ)

def fmt_chr(n):
    return choice([(T.eq(n, const(v)), chr(v)) for v in range(max(n.lo, 0), n.hi + 1)]) \
        if n.hi is not None and n.hi - n.lo < 300 else mkstr([('fmt', 'c', n)])

BASES = {'d': 10, 'x': 16, 'X': 16, 'o': 8, 'b': 2}
def ndigits(v, typ):
    return len(format(v, typ))

def fmt_int_pos(n, fill, align, pre, alt, zero, width, typ):
    if alt: pre = pre + {'x': '0x', 'X': '0X', 'o': '0o', 'b': '0b', 'd': ''}[typ]
    if zero and not align: align = '='; fill = fill or '0'
    if width and align == '=' and fill == '0':
        w = max(width - len(pre), 0)
        return mkstr([pre, digits(n, typ, w)])
    body = mkstr([pre, digits(n, typ, 0)])
    if width:
        return pad(body, width, align or '>', fill or ' ')
    return body

def digits(n, typ, w):
    """digits of n >= 0, zero filled to w"""
    if n.op == 'const':
        return format(n.args[0], '0%d%s' % (w, typ) if w else typ)
    lo = max(n.lo or 0, 0)
    dl = ndigits(lo, typ)
    dh = None if n.hi is None else ndigits(n.hi, typ)
    if dh is not None and w > dh:
        return ('0' * (w - dh)) + digits_(n, typ, dh)
    if dh is not None and dl == dh:      # fixed number of digits
        return digits_(n, typ, dh)
    if w <= dl or w <= 1:
        w = 0
    return digits_(n, typ, w)

class _Cat(object):
    pass

def digits_(n, typ, w):
    if w <= 1 and n.lo is not None and n.lo >= 0 and n.hi is not None and n.hi <= min(9, BASES[typ] - 1): typ = 'd'
    return SStr((('fmt', ('0%d%s' % (w, typ)) if w else typ, n),))

def _sadd(a, b):
    return mkstr(sparts(a) + sparts(b))

def pad(s, width, align, fill=' '):
    """pad text to a minimum width"""
    if isinstance(s, str):
        return format(s, '%s%s%d' % (fill, align, width))
    l = str_len_bounds(s)
    if l[0] is not None and l[0] >= width: return s
    if l[0] is not None and l[0] == l[1]:
        k = width - l[0]
        if align == '<': return mkstr(sparts(s) + (fill * k,))
        if align == '>': return mkstr((fill * k,) + sparts(s))
    return SStr((('pad', s, width, align, fill),))

def str_len_bounds(s):
    lo = hi = 0
    for p in sparts(s):
        if isinstance(p, str): a = b = len(p)
        elif p[0] == 'fmt':
            w = int(p[1][:-1]) if len(p[1]) > 1 else 0
            n = p[2]
            if n.lo is None or n.hi is None:
                a, b = max(w, 1), None
            elif n.lo >= 0 and p[1] != 'c':
                a, b = max(w, ndigits(n.lo, p[1][-1])), max(w, ndigits(n.hi, p[1][-1]))
            else:
                a, b = 1, max(len(format(n.lo, p[1][-1])), len(format(n.hi, p[1][-1])))
        elif p[0] == 'choice':
            a, b = min(len(x) for c, x in p[1]), max(len(x) for c, x in p[1])
        elif p[0] == 'pad':
            a, b = str_len_bounds(p[1]); a = max(a, p[2]); b = None if b is None else max(b, p[2])
        else:
            a, b = 0, None
        lo += a
        hi = None if hi is None or b is None else hi + b
    return lo, hi

def _resolve_choice(p):
    """pick one alternative by forking"""
    e = cur()
    for c, s in p[1][:-1]:
        if e.fork(c): return s
    return p[1][-1][1]

def concretize_str(s):
    if isinstance(s, str): return s
    out = ''
    for p in s.parts:
        if isinstance(p, str): out += p
        elif p[0] == 'choice': out += _resolve_choice(p)
        elif p[0] == 'bin':
            raise Unsupported('binary text of unknown length')
        elif p[0] == 'fmt': out += format(concretize(p[2]), p[1])
        elif p[0] == 'pad': out += format(concretize_str(p[1]), '%s%s%d' % (p[4], p[3], p[2]))
        elif p[0] == 'fn': out += T.FN_EVAL[p[1]](concretize(p[2], 70000))
        else: raise Unsupported('concretize text part %s' % p[0])
    return out

def _selfdelim(p, rest):
    """can the end of this part be told from what follows?"""
    if p[0] == 'fmt':
        l = str_len_bounds(SStr((p,)))
        if l[0] == l[1] and l[0] is not None: return True
    if not rest: return True
    q = rest[0]
    return isinstance(q, str) and not (q[0].isalnum() or q[0] in '+-_')

def str_eq(a, b):
    """boolean node: the two texts are equal (may fork to line them up)"""
    if isinstance(a, str) and isinstance(b, str): return T.boolc(a == b)
    pa, pb = list(sparts(a)), list(sparts(b))
    conds = []
    steps = 0
    while True:
        steps += 1
        if steps > 5000: raise Unsupported('text comparison')
        if not pa or not pb:
            rest = pa or pb
            if not rest: break
            if all(type(p) is tuple and p[0] == 'bin' for p in rest):
                conds.extend(T.eq(p[2], const(0)) for p in rest)
                break
            lb = str_len_bounds(mkstr(rest))
            if lb[0] is not None and lb[0] > 0: return T.FALSE
            if lb[1] == 0: break
            rest[:] = list(sparts(concretize_str(mkstr(rest))))
            continue
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str):
            k = min(len(x), len(y))
            if x[:k] != y[:k]: return T.FALSE
            pa[0:1] = [x[k:]] if len(x) > k else []
            pb[0:1] = [y[k:]] if len(y) > k else []
            continue
        if not isinstance(x, str) and not isinstance(y, str):
            if x[0] == y[0] == 'bin' and len(pa) == len(pb) == 1:
                conds.append(T.eq(x[1], y[1])); conds.append(T.eq(x[2], y[2])); pa.pop(0); pb.pop(0)
                continue
            if x[0] == 'bin' or y[0] == 'bin':
                if len(pa) == len(pb) == 1:
                    (gx, rx), (gy, ry) = _bindigits(x, True), _bindigits(y, True)
                    if gx and gy and not rx and not ry:
                        conds.append(T.eq(gx[0], gy[0])); conds.append(T.eq(gx[1], gy[1])); pa.pop(0); pb.pop(0)
                        continue
                raise Unsupported('comparing binary text of unknown length %s %s' % (pa[:3], pb[:3]))
            if x[0] == 'fmtw' or y[0] == 'fmtw':
                if x[:2] == y[:2] and (x[2:] == y[2:] or cur().entails(T.land(T.eq(x[2], y[2]), T.eq(x[3], y[3])))):
                    pa.pop(0); pb.pop(0)
                    continue
                raise Unsupported('comparing numbers padded to an unknown width')
            if x == y or (x[0] == y[0] == 'fmt' and x[1] == y[1] and x[2] is y[2]):
                pa.pop(0); pb.pop(0)
                continue
            if x[0] == y[0] == 'fmt' and x[1] == y[1] and _selfdelim(x, pa[1:]) and _selfdelim(y, pb[1:]):
                conds.append(T.eq(x[2], y[2])); pa.pop(0); pb.pop(0)
                continue
            if x[0] == y[0] == 'choice' and _selfdelim(x, pa[1:]) and _selfdelim(y, pb[1:]):
                cs = []
                for c1, s1 in x[1]:
                    for c2, s2 in y[1]:
                        if s1 == s2: cs.append(T.land(c1, c2))
                conds.append(T.lor(*cs)); pa.pop(0); pb.pop(0)
                continue
            if x[0] == y[0] == 'pad' and x[2:] == y[2:] and not pa[1:] == [] or \
                    (x[0] == y[0] == 'pad' and x[2:] == y[2:]):
                conds.append(str_eq(x[1], y[1])); pa.pop(0); pb.pop(0)
                continue
            if x[0] == y[0] == 'fn' and x[1] == y[1]:
                conds.append(T.eq(x[2], y[2])); pa.pop(0); pb.pop(0)
                continue
            if x[0] == y[0] == 'fmt' and 'c' not in x[1] + y[1]:
                lx, ly = _fixed(x), _fixed(y)
                if lx and ly and lx == ly and x[1][-1] == y[1][-1] and x[2].lo >= 0 and y[2].lo >= 0:
                    conds.append(T.eq(x[2], y[2])); pa.pop(0); pb.pop(0)
                    continue
                if lx and ly and lx != ly and (x if lx > ly else y)[1][-1] in 'bxo':      # one of them is longer: digit by digit
                    (pa if lx > ly else pb)[0:1] = _onedigit(x if lx > ly else y)
                    continue
        if len(pa) == len(pb) == 1 and 'bin' in (x[0], y[0]):
            (gx, rx), (gy, ry) = _bindigits(x, True), _bindigits(y, True)
            if gx and gy and not rx and not ry:
                conds.append(T.eq(gx[0], gy[0])); conds.append(T.eq(gx[1], gy[1])); pa.pop(0); pb.pop(0)
                continue
            if rx and ry == '' and isinstance(rx, str) or ry and rx == '' and isinstance(ry, str): return T.FALSE
        # no direct match: split one side into cases
        for lst in (pa, pb):
            p = lst[0]
            if not isinstance(p, str) and p[0] == 'choice':
                lst[0:1] = [_resolve_choice(p)]
                if lst[0] == '': lst.pop(0)
                break
        else:
            e = cur()
            p = x if not isinstance(x, str) else y
            lst = pa if not isinstance(x, str) else pb
            if p[0] == 'fmt' and p[1] == 'd' and (p[2].lo is None or p[2].lo < 0) and p[2].op != 'neg':
                if not e.fork(T.lt(p[2], const(0))):
                    o = y if lst is pa else x
                    if isinstance(o, str) and o[0] == '-': return T.FALSE
                else:
                    lst[0:1] = ['-', ('fmt', 'd', T.neg(p[2]))]
                    continue
            o = (pb if lst is pa else pa)[0]
            if p[0] == 'fmt' and p[1] != 'c' and isinstance(o, str) and _fixed(p) and (p[2].lo or 0) >= 0:
                l = _fixed(p)
                other = pb if lst is pa else pa
                if l > 1 and p[1][-1] in 'bxo':
                    lst[0:1] = _onedigit(p)
                    continue
                if len(o) >= l:
                    txt = o[:l]
                    try: v = int(txt, BASES[p[1][-1]])
                    except ValueError: return T.FALSE
                    if format(v, p[1]) != txt: return T.FALSE
                    conds.append(T.eq(p[2], const(v)))
                    lst.pop(0)
                    other[0:1] = [o[l:]] if len(o) > l else []
                    continue
            if p[0] == 'fmt' and isinstance(o, str) and not _fixed(p):
                import re
                m = re.match({'d': r'-?[0-9]+', 'x': r'-?[0-9a-f]+', 'X': r'-?[0-9A-F]+', 'o': r'-?[0-7]+', 'b': r'-?[01]+', 'c': '.'}[p[1][-1]], o)
                if not m: return T.FALSE
                # the digits must spell the number
                txt = m.group(0)
                full = len(txt) == len(o)
                other = pb if lst is pa else pa
                if (not full or len(other) == 1) and _selfdelim(p, lst[1:]):
                    v = int(txt, BASES[p[1][-1]])
                    if format(v, p[1]) == txt:
                        conds.append(T.eq(p[2], const(v)))
                        lst.pop(0)
                        other[0:1] = [o[len(txt):]] if not full else []
                        continue
                    return T.FALSE
            if p[0] == 'pad':
                lst[0:1] = list(sparts(_unpad(p)))
                continue
            lst[0:1] = [concretize_str(SStr((p,)))]
    return T.land(*conds)

def _fixed(p):
    l = str_len_bounds(SStr((p,)))
    return l[0] if l[0] is not None and l[0] == l[1] else 0

def _onedigit(p):
    out = []
    for c in SStr((p,)).chars(): out.extend(sparts(c))
    return out

def _unpad(p):
    """split on the length of the inner text"""
    s = p[1]
    out = []
    # resolve every variable-length piece
    for q in sparts(s):
        if isinstance(q, str): out.append(q)
        else:
            l = str_len_bounds(SStr((q,)))
            if l[0] == l[1]: out.append(q)
            elif q[0] == 'choice': out.append(_resolve_choice(q))
            elif q[0] == 'fmt': out.append(_fixlen(q))
            else: out.append(concretize_str(SStr((q,))))
    flat = []
    for q in out:
        flat.extend(sparts(q) if isinstance(q, (str, SStr)) else [q])
    return pad(mkstr(flat), p[2], p[3], p[4])

def _fixlen(q):
    e = cur()
    n = q[2]; typ = q[1][-1]
    base = BASES[typ]
    neg = ''
    if n.lo is None or n.lo < 0:
        if e.fork(T.lt(n, const(0))):
            n = T.neg(n); neg = '-'
    k = 1
    w = int(q[1][:-1]) if len(q[1]) > 1 else 0
    while n.hi is None or base ** k <= n.hi:
        if e.fork(T.lt(n, const(base ** k))): break
        k += 1
        if k > 200: raise Unsupported('length of a number')
    k = max(k, w)
    # the value has exactly k digits now
    if n.hi is None or n.hi >= base ** k:
        n = T.floormod(n, const(10 ** k)) if base == 10 else T.low(n, const(k * {2: 1, 8: 3, 16: 4}[base]))
    return mkstr([neg, ('fmt', '0%d%s' % (k, typ), n)])

class SStr(object):
    __slots__ = ('parts',)
    def __init__(self, parts): self.parts = parts
    def __repr__(self): return '<SStr %r>' % (self.parts,)
    def __str__(self): raise Unsupported('native str() of symbolic text')
    def __hash__(self): return hash(concretize_str(self))
    def __bool__(self):
        l = str_len_bounds(self)
        if l[0] and l[0] > 0: return True
        return bool(concretize_str(self))
    def __add__(self, o):
        if isinstance(o, (str, SStr)): return _sadd(self, o)
        return NotImplemented
    def __radd__(self, o):
        if isinstance(o, (str, SStr)): return _sadd(o, self)
        return NotImplemented
    def __mul__(self, k):
        if isinstance(k, int): return mkstr(sparts(self) * k)
        return NotImplemented
    __rmul__ = __mul__
    def __eq__(self, o):
        if isinstance(o, (str, SStr)): return B(str_eq(self, o))
        return NotImplemented
    def __ne__(self, o):
        if isinstance(o, (str, SStr)): return B(T.lnot(str_eq(self, o)))
        return NotImplemented
    def __lt__(self, o): return concretize_str(self) < concretize_str(o)
    def __gt__(self, o): return concretize_str(self) > concretize_str(o)
    def __le__(self, o): return concretize_str(self) <= concretize_str(o)
    def __ge__(self, o): return concretize_str(self) >= concretize_str(o)
    def __contains__(self, o):
        return concretize_str(o) in concretize_str(self)
    def chars(self):
        """list of one-character texts, when every part has a fixed length"""
        out = []
        for p in self.parts:
            if isinstance(p, str): out.extend(p); continue
            l = str_len_bounds(SStr((p,)))
            if l[0] == l[1] and p[0] == 'fmt':
                typ = p[1][-1]
                if l[0] == 1: out.append(SStr((p,))); continue
                if typ in 'bxo':
                    s = {'b': 1, 'x': 4, 'o': 3}[typ]
                    for i in range(l[0] - 1, -1, -1):
                        d = T.low(T.shr(p[2], const(i * s)), const(s))
                        out.append(digits(d, typ, 0))
                    continue
                if typ == 'd' and p[2].lo >= 0:
                    for i in range(l[0] - 1, -1, -1):
                        d = T.floormod(T.floordiv(p[2], const(10 ** i)), const(10))
                        out.append(digits(d, typ, 0))
                    continue
            if p[0] == 'choice' and l[0] == l[1]:
                for i in range(l[0]):
                    out.append(choice([(c, s[i]) for c, s in p[1]]))
                continue
            if p[0] == 'fmt' and p[1] != 'c':
                out.extend(mkstr(sparts(_fixlen(p))).chars() if isinstance(_fixlen(p), SStr) else _fixlen(p))
                continue
            if p[0] == 'pad':
                u = _unpad(p)
                out.extend(u.chars() if isinstance(u, SStr) else u)
                continue
            out.extend(concretize_str(SStr((p,))))
        return out
    def __len__(self):
        l = str_len_bounds(self)
        if l[0] == l[1]: return l[0]
        return len(self.chars())
    def __iter__(self): return iter(self.chars())
    def __getitem__(self, k):
        if isinstance(k, slice):
            # literal prefixes can be cut without splitting the rest
            if k.step is None and isinstance(k.start, int) and k.start >= 0 and k.stop is None \
                    and isinstance(self.parts[0], str) and len(self.parts[0]) >= k.start:
                return mkstr((self.parts[0][k.start:],) + self.parts[1:])
            f, l = self.parts[0], self.parts[-1]
            if k.step is None and type(k.start) in (int, type(None)) and type(k.stop) in (int, type(None)):
                a, b = k.start or 0, k.stop
                if a >= 0 and b is not None and b >= a and isinstance(f, str) and len(f) >= b: return f[a:b]
                if a >= 0 and b is not None and b < 0 and isinstance(l, str) and len(l) >= -b and (a == 0 or isinstance(f, str) and len(f) >= a):
                    ps = list(self.parts)
                    ps[-1] = l[:b]
                    if a: ps[0] = f[a:]
                    return mkstr(ps)
            c = self.chars()
            return mkstr([q for ch in c[k] for q in sparts(ch)])
        if k == 0 and isinstance(self.parts[0], str): return self.parts[0][0]
        if k == -1 and isinstance(self.parts[-1], str): return self.parts[-1][-1]
        return self.chars()[k]

# ====================================================================== bytes
def _arr_of(vals):
    a = T.arrconst(const(0))
    for i, v in enumerate(vals):
        a = T.store(a, const(i), N(v))
    return a

class SBytes(object):
    """bytearray (mutable) or bytes with symbolic contents and length"""
    __slots__ = ('arr', 'length', 'mutable')
    def __init__(self, arr, length, mutable=True):
        self.arr = arr; self.length = length; self.mutable = mutable
    @staticmethod
    def of(vals, mutable=True):
        return SBytes(_arr_of(vals), const(len(vals)), mutable)
    def __repr__(self): return '<SBytes len %s>' % T.show(self.length)
    def _set(self, arr, length=None):
        e = cur()
        if e is not None:
            e.log(self, 'attr', 'arr', self.arr)
            if length is not None: e.log(self, 'attr', 'length', self.length)
        self.arr = arr
        if length is not None: self.length = length
    def __bool__(self): return cur().fork(T.lnot(T.eq(self.length, const(0))))
    def __len__(self): return concretize(self.length)
    def slen(self): return I(self.length)
    def _index(self, k):
        n = N(k)
        e = cur()
        if n.lo is None or n.lo < 0:
            if n.op == 'const' and T.cval(n) < 0 or n.op != 'const' and e.fork(T.lt(n, const(0))):
                n = T.add(n, self.length)
                if _truth(T.lt(n, const(0))): raise IndexError('bytearray index out of range')
        if _truth(T.le(self.length, n)): raise IndexError('bytearray index out of range')
        return n
    def _bounds(self, k):
        if k.step is not None and N(k.step) is not const(1):
            raise Unsupported('stepped slice of symbolic bytes')
        def clamp(v, default):
            if v is None: return default
            n = N(v)
            if n is None:
                raise TypeError('slice indices must be integers or None or have an __index__ method')
            if n.lo is None or n.lo < 0:
                if _truth(T.lt(n, const(0))):
                    n = T.add(n, self.length)
                    if _truth(T.lt(n, const(0))): return const(0)
                    return n
            if n.op == 'const' and T.cval(n) == 0: return n
            if _truth(T.lt(self.length, n)): return self.length
            return n
        a = clamp(k.start, const(0))
        b = clamp(k.stop, self.length)
        if _truth(T.lt(b, a)): b = a
        return a, T.sub(b, a)
    def get(self, n):
        v = sel(self.arr, n)
        return v
    def __getitem__(self, k):
        if isinstance(k, slice):
            a, cnt = self._bounds(k)
            if cnt.op == 'const':
                return SBytes.of([I(sel(self.arr, T.add(a, const(i)))) for i in range(T.cval(cnt))], self.mutable)
            return SBytes(shift(self.arr, a), cnt, self.mutable)
        if N(k) is None: raise TypeError('bytearray indices must be integers or slices')
        return I(sel(self.arr, self._index(k)))
    def __setitem__(self, k, v):
        if not self.mutable: raise TypeError("'bytes' object does not support item assignment")
        if isinstance(k, slice):
            a, cnt = self._bounds(k)
            src = tobytes(v)
            if src.length.op == 'const' and cnt.op == 'const' and src.length is cnt:
                arr = self.arr
                for i in range(T.cval(cnt)):
                    arr = T.store(arr, T.add(a, const(i)), sel(src.arr, const(i)))
                self._set(arr)
                return
            if _truth(T.eq(src.length, cnt)):
                if src.length.op == 'const':
                    arr = self.arr
                    for i in range(T.cval(src.length)):
                        arr = T.store(arr, T.add(a, const(i)), sel(src.arr, const(i)))
                    self._set(arr)
                else:
                    self._set(splice(self.arr, a, src.length, src.arr))
                return
            # the length changes: old[:a] + src + old[a+cnt:]
            tail = shift(self.arr, T.sub(T.add(a, cnt), T.add(a, src.length)))
            arr = mk_piece(self.arr, a, src.length, src.arr, tail)
            self._set(arr, T.sub(T.add(self.length, src.length), cnt))
            return
        n = self._index(k)
        x = N(v)
        if x is None: raise TypeError('an integer is required')
        _byte(x)
        self._set(T.store(self.arr, n, x))
    def __iter__(self):
        i = 0
        while True:
            if _truth(T.le(self.length, const(i))): return
            yield I(sel(self.arr, const(i)))
            i += 1
    def __eq__(self, o):
        if not isinstance(o, (SBytes, bytes, bytearray)): return NotImplemented
        o = tobytes(o)
        if not _truth(T.eq(self.length, o.length)): return False
        n = concretize(self.length)
        return B(T.land(*[T.eq(sel(self.arr, const(i)), sel(o.arr, const(i))) for i in range(n)]))
    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented: return r
        return B(T.lnot(NB(r)))
    def __hash__(self):
        if self.mutable: raise TypeError("unhashable type: 'bytearray'")
        return hash(bytes(concretize(N(x)) for x in self))
    def __add__(self, o):
        if not isinstance(o, (SBytes, bytes, bytearray)): return NotImplemented
        o = tobytes(o)
        if o.length.op == 'const' and self.length.op == 'const':
            return SBytes.of([I(sel(self.arr, const(i))) for i in range(T.cval(self.length))] +
                             [I(sel(o.arr, const(i))) for i in range(T.cval(o.length))], self.mutable)
        return SBytes(splice(self.arr, self.length, o.length, o.arr), T.add(self.length, o.length), self.mutable)
    def __radd__(self, o):
        if not isinstance(o, (bytes, bytearray)): return NotImplemented
        return tobytes(o) + self
    def __contains__(self, v):
        return any(x == v for x in self)
    def append(self, v):
        x = N(v); _byte(x)
        self._set(T.store(self.arr, self.length, x), T.add(self.length, const(1)))
    def extend(self, v):
        o = tobytes(v)
        r = self + o
        self._set(r.arr, r.length)
    def __iadd__(self, v):
        if not self.mutable: return self + v
        self.extend(v)
        return self
    def copy(self): return SBytes(self.arr, self.length, self.mutable)
    def reverse(self):
        vals = list(self)[::-1]
        self._set(_arr_of(vals))
    def hex(self):
        return mkstr([q for x in self for q in sparts(fmt_int(N(x), '02x'))])

class SList(object):
    """list of integers of symbolic length, or of values made by `at` from an index"""
    __slots__ = ('arr', 'length', 'make', 'lo', 'hi')
    def __init__(self, arr, length, make=None, lo=None, hi=None):
        self.arr = arr; self.length = length; self.make = make; self.lo = lo; self.hi = hi
    def at(self, n): return self.make(n) if self.make else I(sel(self.arr, n))
    def slen(self): return I(self.length)
    def __len__(self): return concretize(self.length)
    _index = SBytes._index
    def __getitem__(self, k):
        if isinstance(k, slice): raise Unsupported('slice of a symbolic list')
        if N(k) is None: raise TypeError('list indices must be integers or slices')
        return self.at(self._index(k))
    def _put(self, n, x):
        if self.make: raise Unsupported('store into an abstract list')
        x = N(x)
        if x is None: raise Unsupported('store of an object into a symbolic list')
        if self.lo is not None and (x.lo is None or x.hi is None or x.lo < self.lo or x.hi > self.hi): raise Unsupported('item range of a symbolic list')
        e = cur()
        e.log(self, 'attr', 'arr', self.arr); e.log(self, 'attr', 'length', self.length)
        self.arr = T.store(self.arr, n, x)
    def __setitem__(self, k, v): self._put(self._index(k), v)
    def append(self, v):
        self._put(self.length, v)
        self.length = T.add(self.length, const(1))
    def extend(self, vs):
        for v in list(vs): self.append(v)
    def __iter__(self):
        i = 0
        while True:
            if _truth(T.le(self.length, const(i))): return
            yield self.at(const(i))
            i += 1

def _byte(x):
    if _truth(T.lor(T.lt(x, const(0)), T.lt(const(255), x))):
        raise ValueError('byte must be in range(0, 256)')

def _truth(b):
    if b is T.TRUE: return True
    if b is T.FALSE: return False
    return cur().fork(b)

def tobytes(v, mutable=True):
    if type(v) is SBytes: return v
    if isinstance(v, (bytes, bytearray)):
        return SBytes.of(list(v), mutable)
    if type(v) is SList and v.make is None and v.length.op != 'const' and v.lo is not None and v.lo >= 0 and v.hi is not None and v.hi <= 255:
        return SBytes(v.arr, v.length)
    vals = list(v)
    for x in vals:
        n = N(x)
        if n is None:
            ix = getattr(type(x), '__index__', None)
            if ix is None: raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
            n = N(ix(x))
        _byte(n)
    return SBytes.of([x if N(x) is not None else type(x).__index__(x) for x in vals], mutable)

# array views used by slices of symbolic length
def shift(a, off):
    if off.op == 'const' and T.cval(off) == 0: return a
    return T.mk('ashift', (a, off), a.lo, a.hi, 'arr')
def splice(dst, off, n, src):
    return T.mk('asplice', (dst, off, n, src), dst.lo, dst.hi, 'arr')
def mk_piece(dst, off, n, src, tail):
    return T.mk('apiece', (dst, off, n, src, tail), dst.lo, dst.hi, 'arr')

_base_sel = T.sel
def sel(a, i):
    if a.op == 'ashift':
        return sel(a.args[0], T.add(i, a.args[1]))
    if a.op == 'asplice':
        dst, off, n, src = a.args
        c = T.land(T.le(off, i), T.lt(i, T.add(off, n)))
        return T.ite(c, sel(src, T.sub(i, off)), sel(dst, i)) if c is not T.FALSE else sel(dst, i)
    if a.op == 'apiece':
        dst, off, n, src, tail = a.args
        return T.ite(T.lt(i, off), sel(dst, i),
                     T.ite(T.lt(i, T.add(off, n)), sel(src, T.sub(i, off)), sel(tail, i)))
    if a.op == 'store':
        e = T.eq(a.args[1], i)
        if e is T.TRUE: return a.args[2]
        r = sel(a.args[0], i)
        return r if e is T.FALSE else T.ite(e, a.args[2], r)
    if a.op == 'ite':
        return _base_sel(a, i) if not _deep(a) else T.ite(a.args[0], sel(a.args[1], i), sel(a.args[2], i))
    return _base_sel(a, i)

def _deep(a):
    return bool(T.collect([a], ('ashift', 'asplice', 'apiece')))

# ====================================================================== merging
def ite_value(c, a, b):
    """value that is a when c holds, else b; raises MergeAbort if there is none"""
    if a is b: return a
    na, nb = NB(a), NB(b)
    if na is not None and nb is not None: return B(T.ite(c, na, nb))
    na, nb = N(a), N(b)
    if na is not None and nb is not None: return I(T.ite(c, na, nb))
    if isinstance(a, Node) and isinstance(b, Node): return T.ite(c, a, b)
    if isinstance(a, str) and isinstance(b, str):
        if a == b: return a
        return choice([(c, a), (T.lnot(c), b)])
    if type(a) is type(b) and type(a) in (tuple,) and len(a) == len(b):
        return tuple(ite_value(c, x, y) for x, y in zip(a, b))
    if type(a) is type(b) and getattr(type(a), '__slots__', None) and type(a).__module__.startswith('cmdis'):
        o = object.__new__(type(a))
        for s in type(a).__slots__:
            object.__setattr__(o, s, ite_value(c, getattr(a, s), getattr(b, s)))
        cur().poison.add(id(a)); cur().poison.add(id(b))
        cur().keep.extend((a, b))
        return o
    raise E.MergeAbort()

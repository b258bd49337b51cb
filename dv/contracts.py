"""Function contracts used at call sites.

A contract gives a function's result as an expression over its arguments for a
call *shape* (the widths of its bit strings, the concrete arguments).  The first
time a shape is used the function body is verified against the contract for all
values of that shape (argument values generalised to their whole range); calls
are then replaced by the contract's result.  If the body does not meet the
contract, or the shape is not covered, the body itself is executed at the call
site: a contract can only save work, never hide a change of behaviour.
"""
import time
from . import term as T, engine as E, lift, sym as S, harness
from .term import const
from spec import arm

STATE = {'pkg': None, 'cache': {}, 'busy': set(), 'log': {}, 'enabled': True}

def pkg(): return STATE['pkg']
def is_bits(x):
    return type(x).__module__ == 'cmdis.bitstring' and type(x).__name__ == 'bitstring'

def mkbits(n, w):
    return pkg().bitstring.bitstring(S.I(n) if isinstance(n, T.Node) else n, w)

class Shape(Exception):
    """not covered by the contract"""

def generalise(args):
    """(shape key, fresh maker).  Bit strings keep their width, symbolic integers
    their interval; everything else stays concrete."""
    key = []
    anysym = False
    for a in args:
        if is_bits(a):
            w, v = a.width, a.unsigned
            if type(w) is not int: raise Shape()
            if S.is_sym(v): anysym = True
            key.append(('b', w))
        elif type(a) in (S.SInt,):
            n = a.n
            if n.lo is None or n.hi is None: raise Shape()
            anysym = True
            key.append(('i', n.lo, n.hi))
        elif type(a) is int or a is None or type(a) is str:
            key.append(('c', a))
        elif type(a) is slice:
            if any(type(x) not in (int, type(None)) for x in (a.start, a.stop, a.step)): raise Shape()
            key.append(('s', a.start, a.stop, a.step))
        elif type(a).__module__ == 'cmdis.helpers' and hasattr(a, 'name'):
            key.append(('e', a.name))
        else:
            raise Shape()
    if not anysym: raise Shape()
    return tuple(key)

def fresh_args(key, args):
    out = []
    for i, (k, a) in enumerate(zip(key, args)):
        if k[0] == 'b':
            if k[1] == 0: out.append(mkbits(0, 0))
            else: out.append(mkbits(T.var('arg%d' % i, 0, (1 << k[1]) - 1), k[1]))
        elif k[0] == 'i':
            out.append(S.I(T.var('arg%d' % i, k[1], k[2])) if k[1] != k[2] else k[1])
        else: out.append(a)
    return out

def earlier_args(key, args, seed):
    """fixed arguments of the same shape"""
    import random
    r = random.Random(seed)
    out = []
    for k, a in zip(key, args):
        if k[0] == 'b': out.append(mkbits(r.getrandbits(k[1]) if k[1] else 0, k[1]))
        elif k[0] == 'i': out.append(r.randint(k[1], k[2]))
        else: out.append(a)
    return out

class Contract(object):
    def __init__(self, qual, spec, pre=None):
        self.qual = qual; self.spec = spec; self.pre = pre

    def wrap(self, f):
        def wrapped(*args, **kw):
            e = E.cur()
            if e is not None and not kw and self.qual in e.wide and STATE['pkg'] is not None: return self.any_width(f, e, args)
            if e is None or kw or not STATE['enabled'] or STATE['pkg'] is None: return f(*args, **kw)
            try:
                key = generalise(args)
                ck = (self.qual, key)
                if ck in STATE['busy']: return f(*args)
                st = STATE['cache'].get(ck)
                if st is None: st = self.verify(f, ck, key, args)
                if not st['ok']: return f(*args)
                h = harness.Sym(pkg(), e)
                r = self.spec(h, *args)
            except Shape:
                return f(*args)
            e.stats.contracts_used[self.qual] = e.stats.contracts_used.get(self.qual, 0) + 1
            if st['shared'] or st['alias']:
                # the real result may be a shared object or one of the arguments: writing to
                # any of them from here on is refused (the task is then redone without contracts)
                for x in (r if isinstance(r, tuple) else (r,)) + (tuple(args) if st['alias'] else ()):
                    if is_bits(x):
                        e.poison.add(id(x)); e.keep.append(x)
            return r
        wrapped.__name__ = getattr(f, '__name__', 'f')
        wrapped.__wrapped__ = f
        wrapped.__qualname__ = getattr(f, '__qualname__', wrapped.__name__)
        return wrapped

    def any_width(self, f, e, args):
        """a contract over every width: proved by the tasks it names, on the current source, before it is used"""
        spec, tasks = WIDE[self.qual]
        h = harness.Sym(pkg(), e)
        try:
            for a in args:
                if is_bits(a): need(e.entails(S.NB(lift.truthv(h.and_(a.width >= 0, a.mask == (1 << a.width) - 1, 0 <= a.unsigned, a.unsigned <= a.mask)))))
            r, shape = spec(h, *args)
            if not self.proved(tasks(shape), e): return f(*args)
        except Shape: return f(*args)
        e.stats.contracts_used[self.qual] = e.stats.contracts_used.get(self.qual, 0) + 1
        for x in (r,) + tuple(args):       # the real result may be shared or an argument: no writes from here on
            if is_bits(x): e.poison.add(id(x)); e.keep.append(x)
        return r

    def proved(self, ids, outer):
        for i in ids:
            ck = ('wide', i)
            st = STATE['cache'].get(ck)
            if st is None:
                t = harness.TASKS[i]
                on, STATE['enabled'] = STATE['enabled'], False
                e = E.Engine('contract ' + i, timeout_ms=10000, deadline=min(filter(None, [outer.deadline, time.time() + 60])), math=True)
                try:
                    e.run(lambda: t.fn(harness.Sym(pkg(), e), *t.args), lambda: harness.used_before(pkg(), t))
                    st = not e.failures and e.stats.obligations > 0
                except (E.Budget, T.Unsupported, harness.Unfit): st = False
                except Exception: st = False
                finally:
                    STATE['enabled'] = on
                    E._current[0] = outer
                STATE['cache'][ck] = st
                STATE['log'][self.qual + ' every width: ' + i] = dict(ok=st, why='', obligations=e.stats.obligations, discharged=e.stats.discharged, solver_s=e.stats.solver_s)
                outer.stats.contract_obls += e.stats.discharged
                outer.stats.solver_s += e.stats.solver_s
                outer.stats.queries += e.stats.queries
            if not st: return False
        return True

    def verify(self, f, ck, key, args):
        STATE['busy'].add(ck)
        st = {'ok': False, 'shared': False, 'alias': False, 'why': ''}
        name = '%s%r' % (self.qual, key)
        outer = E.cur()
        e = E.Engine('contract ' + name, timeout_ms=10000, deadline=min(filter(None, [outer.deadline, time.time() + 60])))
        def body():
            h = harness.Sym(pkg(), e)
            a = fresh_args(key, args)
            want = self.spec(h, *a)
            try:
                got = f(*a)
            except Exception as x:
                e.check('no exception (%s)' % type(x).__name__, T.FALSE)
                return
            self.compare(h, e, 'result', got, want, a, st)
            b = fresh_args(key, args)
            for i, (x, y) in enumerate(zip(a, b)):
                if is_bits(x):
                    h.check('arg%d kept' % i, h.and_(x.unsigned == y.unsigned, x.width == y.width))
        def first():
            for seed in (1, 2):
                try: f(*earlier_args(key, args, seed))
                except Exception as x:
                    if type(x).__module__.startswith('dv.'): raise
        try:
            e.run(body, first)
            st['ok'] = not e.failures and e.stats.obligations > 0 and not st['why']
            if e.failures: st['why'] = e.failures[0].name
        except (E.Budget, T.Unsupported) as x:
            st['why'] = '%s: %s' % (type(x).__name__, x)
        finally:
            STATE['busy'].discard(ck)
        STATE['cache'][ck] = st
        STATE['log'][name] = dict(ok=st['ok'], why=st['why'], obligations=e.stats.obligations,
                                  discharged=e.stats.discharged, solver_s=e.stats.solver_s)
        outer.stats.contract_obls += e.stats.discharged
        outer.stats.solver_s += e.stats.solver_s
        outer.stats.queries += e.stats.queries
        return st

    def compare(self, h, e, name, got, want, args, st):
        if isinstance(want, tuple):
            if not isinstance(got, tuple) or len(got) != len(want):
                e.check(name + ' is a tuple of %d' % len(want), T.FALSE); return
            for i, (g, w) in enumerate(zip(got, want)):
                self.compare(h, e, '%s.%d' % (name, i), g, w, args, st)
            return
        if is_bits(want):
            if not is_bits(got):
                e.check(name + ' is a bit string', T.FALSE); return
            if any(got is a for a in args):
                st['alias'] = True
            if not fresh(got): st['shared'] = True
            h.check(name + ' width', got.width == want.width)
            h.check(name + ' value', got.unsigned == want.unsigned)
            return
        if isinstance(want, (str, S.SStr)):
            if not isinstance(got, (str, S.SStr)):
                e.check(name + ' is text', T.FALSE); return
            e.check(name, S.str_eq(got, want)); return
        if S.N(got) is None or S.NB(want) is not None and S.NB(got) is None:
            e.check(name + ' type', T.FALSE); return
        h.check(name, got == want)

def fresh(x):
    for m in pkg().modules.values():
        for v in vars(m).values():
            if v is x: return False
    return True

def contract(qual):
    def deco(spec):
        lift.CONTRACTS[qual] = Contract(qual, spec)
        return spec
    return deco

def need(c):
    if not c: raise Shape()

def V(b):
    return b.unsigned

BS = 'bitstring:bitstring.'
@contract(BS + 'signed')
def _(h, x):
    w = x.width
    need(w >= 2)
    return arm.sint(V(x), w)

@contract(BS + 'bit_count')
def _(h, x): return h.popcount(V(x))

@contract(BS + 'is_zero_bit')
def _(h, x): return mkbits(S.N(h.ite(V(x) == 0, 1, 0)), 1)

@contract(BS + 'is_ones_bit')
def _(h, x): return mkbits(S.N(h.ite(V(x) == arm.mask(x.width), 1, 0)), 1)

@contract(BS + '__getitem__')
def _(h, x, k):
    w = x.width
    if type(k) is slice:
        a, b, s = k.indices(w)
        need(s == 1)
        n = max(b - a, 0)
        return mkbits(S.N(arm.low(V(x) >> a, n)), n)
    need(type(k) is int and -w <= k < w)
    return mkbits(S.N((V(x) >> (k % w)) & 1), 1)

@contract(BS + 'sign_extend')
def _(h, x, n):
    need(type(n) is int and n > x.width and x.width >= 1)
    return mkbits(S.N(arm.low(arm.sint(V(x), x.width), n)), n)

@contract('helpers:AddWithCarry')
def _(h, x, y, c):
    need(is_bits(x) and is_bits(y) and is_bits(c) and x.width == y.width >= 2 and c.width == 1)
    r, co, ov = arm.add_with_carry(h, V(x), V(y), V(c), x.width)
    return mkbits(S.N(r), x.width), mkbits(S.N(co), 1), mkbits(S.N(ov), 1)

SR = {'SRType_None': None, 'SRType_LSL': arm.LSL, 'SRType_LSR': arm.LSR, 'SRType_ASR': arm.ASR, 'SRType_ROR': arm.ROR,
      'SRType_RRX': arm.RRX}

@contract('helpers:Shift_C')
def _(h, x, typ, n, c):
    need(hasattr(typ, 'name') and typ.name in SR and is_bits(x) and is_bits(c) and c.width == 1 and x.width == 32)
    t = SR[typ.name]
    need(not (t == arm.RRX and type(n) is not int))
    need(type(n) is not int)     # concrete distances are executed directly
    r, co = arm.shift_c(h, V(x), t, n, V(c), x.width)
    return mkbits(S.N(r), x.width), mkbits(S.N(co), 1)

@contract('helpers:ThumbExpandImm_C')
def _(h, imm12, c):
    need(imm12.width == 12 and c.width == 1)
    r, co = arm.thumb_expand_imm_c(h, V(imm12), V(c))
    return mkbits(S.N(r), 32), mkbits(S.N(co), 1)

# contracts over every width: (result, shape) from the arguments, and the tasks that prove a shape
def wide_slice(h, x, k):
    need(type(k) is slice and k.step is None)
    w = x.width
    def clamp(a, default):
        if a is None: return default
        if h.split(a < 0): return 0 if h.split(a + w < 0) else a + w
        return w if h.split(a > w) else a
    lo, hi = clamp(k.start, 0), clamp(k.stop, w)
    n = hi - lo if h.split(lo < hi) else 0
    r = mkbits(0, 0) if type(n) is int and n == 0 else mkbits(S.N((V(x) >> lo) & ((1 << n) - 1)), n)
    return r, ('a' if k.start is not None else '-') + ('b' if k.stop is not None else '-')

def wide_sign_extend(h, x, n):
    e, w = E.cur(), x.width
    need(e.entails(S.NB(lift.truthv(h.and_(w >= 1, n >= w)))))
    if h.split(n == w): return x, None
    if h.split(V(x) >= (1 << (w - 1))): return mkbits(S.N(V(x) + (1 << n) - (1 << w)), n), None
    return mkbits(S.N(V(x)), n), None

WIDE = {
    BS + '__getitem__': (wide_slice, lambda s: ['slice.all.' + s]),
    BS + 'sign_extend': (wide_sign_extend, lambda s: ['sign_extend.all']),
}

class ReglistFormat(Contract):
    """ReglistOperand.format: verified for every 16-bit list by evaluating the
    body on each of them (a finite domain, decided exhaustively)."""
    def wrap(self, f):
        def format(self_, formatter):
            e = E.cur()
            if e is None or STATE['pkg'] is None or not STATE['enabled']: return f(self_, formatter)
            try: b = self_._reglist
            except AttributeError: return f(self_, formatter)
            if not is_bits(b) or type(b.width) is not int or b.width != 16 or not S.is_sym(b.unsigned) \
                    or set(vars(self_)) != {'_reglist'}:
                return f(self_, formatter)
            st = STATE['cache'].get(self.qual)
            if st is None: st = self.verify(f, type(self_), e)
            if not st: return f(self_, formatter)
            e.stats.contracts_used[self.qual] = e.stats.contracts_used.get(self.qual, 0) + 1
            return S.SStr((('fn', 'reglist', S.N(b.unsigned)),))
        format.__wrapped__ = f
        return format
    def verify(self, f, cls, e):
        t = time.time()
        ok = True
        n = 0
        E._current[0] = None
        try:
            class F(object):
                def add_comment(self, c): raise AssertionError()
            for v in range(65536):
                o = object.__new__(cls)
                o._reglist = pkg().bitstring.bitstring(v, 16)
                n += 1
                try: r = f(o, F())
                except Exception: r = None
                if r != harness.reglist_text(v) or o._reglist.unsigned != v:
                    ok = False; break
        finally:
            E._current[0] = e
        STATE['cache'][self.qual] = ok
        STATE['log'][self.qual] = dict(ok=ok, why='', obligations=n, discharged=n if ok else n - 1, solver_s=0.0, enumerated=True)
        e.stats.contract_obls += n
        return ok

lift.CONTRACTS['formatter:ReglistOperand.format'] = ReglistFormat('formatter:ReglistOperand.format', None)
harness.install_fns()

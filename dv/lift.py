"""Run-time support for the rewritten source: the Python operations whose native
form cannot carry symbolic values."""
import builtins, operator, collections, functools, types, re, os, sys, traceback
import six
from . import term as T
from . import engine as E
from .engine import cur
from .term import Unsupported, const
from .sym import (SInt, SBool, SStr, SBytes, SList, I, B, N, NB, mkstr, sparts, fmt_int, pad, choice, concretize,
                  concretize_str, is_sym, ite_value, str_eq, tobytes, str_len_bounds, BASES, parse_spec)

class UNB(object):
    def __repr__(self): return '<unbound>'
UNB = UNB()

_INTERNAL = (E.PathEnd, E.Restart, E.Budget, E.MergeAbort, Unsupported)

# ------------------------------------------------------------------ truth
def truthv(x):
    """bool or SBool"""
    t = type(x)
    if t is bool or t is SBool: return x
    if t is SInt: return B(T.lnot(T.eq(x.n, const(0))))
    if x is None: return False
    if t is SStr:
        if len(x.parts) == 1 and type(x.parts[0]) is tuple and x.parts[0][0] == 'bin': return B(T.lnot(T.eq(x.parts[0][2], const(0))))
        return bool(x)
    if t is SBytes or t is SList: return B(T.lnot(T.eq(x.length, const(0))))
    if isinstance(x, (int, str, list, tuple, dict, set, bytes, bytearray, float)): return bool(x)
    m = getattr(t, '__bool__', None)
    if m is not None:
        r = m(x)
        if type(r) is SBool or type(r) is bool: return r
        if type(r) is SInt: raise TypeError('__bool__ should return bool, returned int')
        raise TypeError('__bool__ should return bool, returned %s' % type(r).__name__)
    m = getattr(t, '__len__', None)
    if m is not None:
        return truthv(m(x))
    return True

def truth(x):
    v = truthv(x)
    if v is True or v is False: return v
    return cur().fork(v.b)

def not_(x):
    v = truthv(x)
    if type(v) is SBool: return B(T.lnot(v.b))
    return not v

def and_(*fs):
    for f in fs[:-1]:
        v = f()
        if not truth(v): return v
    return fs[-1]()

def or_(*fs):
    for f in fs[:-1]:
        v = f()
        if truth(v): return v
    return fs[-1]()

def chain(first, *rest):
    """a < b < c: rest = (op, thunk), ..."""
    left = first
    n = len(rest)
    for k, (op, th) in enumerate(rest):
        right = th()
        r = CMP[op](left, right)
        if k == n - 1: return r
        if not truth(r): return r
        left = right

def is_(a, b): return unlift(a) is unlift(b)
def is_not(a, b): return unlift(a) is not unlift(b)
def unlift(x):
    return x

def contains(item, coll):
    t = type(coll)
    if t in (list, tuple, set, frozenset):
        if N(item) is not None and (is_sym(item) or any(is_sym(v) for v in coll)):
            out = []
            for v in coll:
                m = N(v)
                if m is not None: out.append(T.eq(N(item), m))
                elif v is not None and not isinstance(v, str):
                    if truth(item == v): return True
            return B(T.lor(*out))
        if type(item) is SStr or any(type(v) is SStr for v in coll):
            out = []
            for v in coll:
                if isinstance(v, (str, SStr)): out.append(str_eq(item, v))
            return B(T.lor(*out))
        if t in (set, frozenset): return item in coll
        for v in coll:
            if v is item or truth(v == item): return True
        return False
    if isinstance(coll, range):
        n = N(item)
        if n is None: return item in coll
        if n.op == 'const': return T.cval(n) in coll
        return B(T.lor(*[T.eq(n, const(v)) for v in coll])) if coll.step != 1 else \
            B(T.land(T.le(const(coll.start), n), T.lt(n, const(coll.stop))))
    if isinstance(coll, dict):
        if assoc(coll, item): return findkey(coll, item) is not E.MISSING
        if type(item) in (SInt, SBool):
            return B(T.lor(*[T.eq(N(item), N(k)) for k in coll if N(k) is not None]))
        if type(item) is SStr:
            return B(T.lor(*[str_eq(item, k) for k in coll if isinstance(k, str)]))
        return item in coll
    if isinstance(coll, str):
        if type(item) is SStr: item = concretize_str(item)
        return item in coll
    if t is SStr:
        if isinstance(item, str) and item and not set(item) & DIGITS and only_literal(coll, item):
            return any(isinstance(p, str) and item in p for p in coll.parts)
        return coll.__contains__(item)
    if t is SRange:
        n = N(item)
        return B(T.land(T.le(coll.start, n), T.lt(n, coll.stop)))
    if isinstance(coll, (type({}.keys()), type({}.values()))):
        return contains(item, list(coll))
    m = getattr(t, '__contains__', None)
    if m is not None:
        return truthv(m(coll, item))
    for v in coll:
        if v is item or truth(v == item): return True
    return False

def not_contains(item, coll): return not_(contains(item, coll))

CMP = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq,
       '!=': operator.ne, 'in': contains, 'not in': not_contains, 'is': is_, 'is not': is_not}

def compare(op, a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op in ('==', '!='):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b): return op == '!='
        r = []
        for x, y in zip(a, b):
            v = truthv(compare('==', x, y))
            if v is False: return op == '!='
            r.append(NB(v))
        v = B(T.land(*r))
        return v if op == '==' else not_(v)
    return CMP[op](a, b)

def ifexp(c, fa, fb):
    """a if c else b, joined when the two values have a common representation"""
    v = truthv(c)
    if v is True: return fa()
    if v is False: return fb()
    m = cond(v, True)
    if m is True: return fa()
    if m is False: return fb()
    m.start()
    try:
        a = fa()
        m.midv(a)
        b = fb()
        return m.endv(b)
    except BaseException as e:
        m.exc(e)

def iterable(x):
    """what a for loop iterates over"""
    t = type(x)
    if t.__module__.startswith('cmdis') and not hasattr(t, '__iter__') and hasattr(t, '__getitem__'):
        return _seqiter(x)
    return x

def _seqiter(x):
    i = 0
    while True:
        try: v = x[i]
        except IndexError: return
        yield v
        i += 1

# ------------------------------------------------------------------ attribute / item stores
def setattr_(o, name, v):
    e = cur()
    if e is not None:
        if isinstance(o, types.ModuleType) or isinstance(o, type):
            e.log(o, 'attr', name, o.__dict__.get(name, E.MISSING))
        else:
            d = getattr(type(o), name, None)
            if isinstance(d, property):
                setattr(o, name, v)
                return
            try: old = object.__getattribute__(o, name)
            except AttributeError: old = E.MISSING
            if d is not None and old is d: old = E.MISSING
            if hasattr(o, '__dict__') and name not in o.__dict__ and not _slot(o, name): old = E.MISSING
            e.log(o, 'attr', name, old)
    setattr(o, name, v)

def _slot(o, name):
    return isinstance(getattr(type(o), name, None), types.MemberDescriptorType)

def delattr_(o, name):
    e = cur()
    if e is not None:
        e.log(o, 'attr', name, getattr(o, name))
    delattr(o, name)

def _lookup(keys, vals, key, missing):
    """value for symbolic integer key among concrete keys"""
    e = cur()
    n = N(key)
    cand = [(k, v) for k, v in zip(keys, vals)
            if N(k) is not None and T.eq(n, N(k)) is not T.FALSE]
    hit = T.lor(*[T.eq(n, N(k)) for k, v in cand])
    inr = n.lo is not None and n.hi is not None and len(cand) == n.hi - n.lo + 1
    if not inr and not e.known(hit) is True:
        if not truth(B(hit)): missing()
    if all(N(v) is not None for k, v in cand) and not any(type(v) in (bool, SBool) for k, v in cand):
        r = N(cand[-1][1])
        for k, v in reversed(cand[:-1]):
            r = T.ite(T.eq(n, N(k)), N(v), r)
        return I(r)
    if all(isinstance(v, str) for k, v in cand):
        return choice([(T.eq(n, N(k)), v) for k, v in cand])
    same = cand[0][1]
    if all(v is same for k, v in cand): return same
    for k, v in cand[:-1]:
        if e.fork(T.eq(n, N(k))): return v
    return cand[-1][1]

def getitem(o, k):
    t = type(o)
    if t in (list, tuple) or isinstance(o, (list, tuple)) and type(o).__getitem__ in (list.__getitem__, tuple.__getitem__):
        if type(k) in (SInt, SBool):
            n = N(k)
            if n.lo is None or n.lo < 0:
                if E.cur().fork(T.lt(n, const(0))): n = T.add(n, const(len(o)))
            def miss(): raise IndexError('list index out of range' if isinstance(o, list) else 'tuple index out of range')
            return _lookup(range(len(o)), o, I(n), miss) if len(o) else miss()
        if isinstance(k, slice): k = cslice(k, len(o))
        elif not isinstance(k, int): k = index_(k)
        return o[k]
    if isinstance(o, dict) and type(o).__getitem__ is dict.__getitem__:
        if assoc(o, k):
            kk = findkey(o, k)
            if kk is not E.MISSING: return o[kk]
            f = getattr(o, '__missing__', None)
            if f is None: raise KeyError(k)
            if not symkey(k): kk = k
            else: kk = SKey(k); SYMD[id(o)] = o
            cur().log(o, 'ditem', kk, E.MISSING)
            return f(kk)
        if type(k) in (SInt, SBool):
            def miss():
                f = getattr(type(o), '__missing__', None)
                if f is not None:
                    kk = concretize_any(k)
                    cur().log(o, 'ditem', kk, E.MISSING)
                    raise _Found(f(o, kk))
                raise KeyError(k)
            try:
                return _lookup(list(o.keys()), list(o.values()), k, miss) if o else miss()
            except _Found as f:
                return f.v
        if type(k) is SStr:
            for kk in list(o.keys()):
                if isinstance(kk, str) and truth(k == kk): return o[kk]
            raise KeyError(k)
        if type(k) is tuple and any(is_sym(x) for x in k):
            k = tuple(concretize_any(x) for x in k)
        if cur() is not None and hasattr(type(o), '__missing__') and k not in o:
            cur().log(o, 'ditem', k, E.MISSING)
        return o[k]
    if t is str:
        if isinstance(k, slice): k = cslice(k)
        elif type(k) is SInt:
            n = k.n
            if n.lo is None or n.lo < 0:
                if E.cur().fork(T.lt(n, const(0))): n = T.add(n, const(len(o)))
            def miss(): raise IndexError('string index out of range')
            return _lookup(range(len(o)), list(o), I(n), miss) if len(o) else miss()
        return o[k]
    if t in (bytes, bytearray) and (is_sym(k) or isinstance(k, slice) and any(is_sym(x) for x in (k.start, k.stop, k.step))):
        return tobytes(o)[k]
    if t is range and is_sym(k):
        return o.start + k * o.step
    return o[k]

class SKey(object):
    """a symbolic dictionary key; every other key of that dictionary is different on this path"""
    __slots__ = ('key',)
    def __init__(self, key): self.key = key
SYMD = {}         # id of a dictionary that was given symbolic keys

def symkey(k):
    return is_sym(k) or type(k) is tuple and any(symkey(x) for x in k)

def eqkey(a, b):
    if type(a) is SKey: a = a.key
    if type(b) is SKey: b = b.key
    if a is b: return True
    if type(a) is tuple or type(b) is tuple:
        return type(a) is type(b) and len(a) == len(b) and all(eqkey(x, y) for x, y in zip(a, b))
    x, y = N(a), N(b)
    if x is not None or y is not None: return x is not None and y is not None and truth(B(T.eq(x, y)))
    if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
        return isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and truth(B(str_eq(a, b)))
    return truth(a == b)

def findkey(o, k):
    """the stored key equal to k, or MISSING (forks on equality)"""
    if not symkey(k):
        if k in o: return k
        for kk in list(o):
            if type(kk) is SKey and eqkey(kk, k): return kk
        return E.MISSING
    for kk in list(o):
        if eqkey(kk, k): return kk
    return E.MISSING

def assoc(o, k):
    return id(o) in SYMD or type(k) is tuple and symkey(k)

class _Found(Exception):
    def __init__(self, v): self.v = v

def concretize_any(x):
    if type(x) in (SInt, SBool): return concretize(N(x))
    if type(x) is SStr: return concretize_str(x)
    return x

def cslice(k, n=None):
    if n is not None and k.step is None:
        # bounds of a sequence of known length: only 0..n tell apart
        def bound(x):
            if not is_sym(x): return x
            if truth(x < 0):
                x = x + n
                if truth(x < 0): return 0
            if truth(x >= n): return n
            for v in range(n):
                if truth(x == v): return v
            raise E.PathEnd()
        return slice(bound(k.start), bound(k.stop), None)
    return slice(*[concretize_any(x) if is_sym(x) else x for x in (k.start, k.stop, k.step)])

def index_(k):
    m = getattr(type(k), '__index__', None)
    if m is None: return k
    r = m(k)
    return concretize(r.n) if type(r) is SInt else r

def setitem(o, k, v):
    e = cur()
    t = type(o)
    if t is list:
        if isinstance(k, slice):
            if e is not None: e.log(o, 'whole', None, list(o))
            o[cslice(k)] = v
            return
        k = concretize_any(k)
        if not isinstance(k, int): k = index_(k)
        if e is not None and -len(o) <= k < len(o): e.log(o, 'item', k, o[k])
        o[k] = v
        return
    if isinstance(o, dict):
        if assoc(o, k):
            kk = findkey(o, k)
            if kk is E.MISSING: kk = SKey(k) if symkey(k) else k
            SYMD[id(o)] = o
            if e is not None: e.log(o, 'ditem', kk, o.get(kk, E.MISSING))
            o[kk] = v
            return
        if type(k) is SInt:
            for kk in list(o.keys()):
                if N(kk) is not None and truth(k == kk):
                    if e is not None: e.log(o, 'ditem', kk, o[kk])
                    o[kk] = v
                    return
            SYMD[id(o)] = o
            k = SKey(k)
            if e is not None: e.log(o, 'ditem', k, E.MISSING)
            o[k] = v
            return
        if is_sym(k): k = concretize_any(k)
        if e is not None: e.log(o, 'ditem', k, o.get(k, E.MISSING))
        o[k] = v
        return
    if isinstance(o, bytearray):
        if any(is_sym(x) for x in (k, v)) or isinstance(v, SBytes) or isinstance(k, slice) and any(is_sym(x) for x in (k.start, k.stop)):
            raise Unsupported('symbolic store into a native bytearray')
        if e is not None: e.log(o, 'whole', None, bytes(o))
        o[k] = v
        return
    o[k] = v

def delitem(o, k):
    e = cur()
    if e is not None and isinstance(o, (list, dict, bytearray)):
        e.log(o, 'whole', None, o.copy())
    if is_sym(k): k = concretize_any(k)
    del o[k]

def iop(op, a, b):
    if type(a) is list and op == '+=':
        e = cur()
        if e is not None: e.log(a, 'whole', None, list(a))
        a += b
        return a
    if type(a) is SList and op == '+=':
        a.extend(b)
        return a
    if op == '%=' and isinstance(a, (str, SStr)):
        return mod(a, b)
    return IOPS[op](a, b)
IOPS = {'+=': operator.iadd, '-=': operator.isub, '*=': operator.imul, '//=': operator.ifloordiv,
        '%=': operator.imod, '<<=': operator.ilshift, '>>=': operator.irshift, '&=': operator.iand,
        '|=': operator.ior, '^=': operator.ixor, '**=': operator.ipow, '/=': operator.itruediv}

# ------------------------------------------------------------------ text formatting
def has_sym(x):
    if is_sym(x): return True
    if isinstance(x, (tuple, list)): return any(has_sym(v) for v in x)
    if isinstance(x, dict): return any(has_sym(v) for v in x.values())
    return x is not None and type(x).__module__.startswith('cmdis')

def str_(x=''):
    t = type(x)
    if t in (str, SStr): return x
    if t is SInt: return fmt_int(x.n, 'd')
    if t is SBool: return 'True' if cur().fork(x.b) else 'False'
    if isinstance(x, str): return str(x)
    m = t.__str__
    if m is object.__str__: return repr_(x)
    if t.__module__.startswith('cmdis') and not issubclass(t, BaseException): return m(x)
    return str(x) if not isinstance(x, (list, tuple, dict)) else repr_(x)

def repr_(x):
    t = type(x)
    if t in (SInt, SBool): return str_(x)
    if t is SStr: return repr(concretize_str(x))
    if t is list: return mkstr(['['] + _sep([repr_(v) for v in x]) + [']'])
    if t is tuple:
        return mkstr(['('] + _sep([repr_(v) for v in x]) + [',)' if len(x) == 1 else ')'])
    if t.__module__.startswith('cmdis'): return t.__repr__(x)
    return repr(x)

def _sep(xs, s=', '):
    out = []
    for i, x in enumerate(xs):
        if i: out.append(s)
        out.extend(sparts(x))
    return out

def as_int(x, what='an integer'):
    """the integer a %d style conversion uses"""
    t = type(x)
    if t in (SInt, SBool, int, bool) : return x
    if isinstance(x, int): return int(x)
    m = getattr(t, '__index__', None)
    if m is None: m = getattr(t, '__int__', None)
    if m is None or isinstance(x, (str, SStr)):
        raise TypeError('%d format: a number is required, not ' + t.__name__)
    return m(x)

_PCT = re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])')
def mod(a, b):
    if isinstance(a, str):
        if not has_sym(b): return a % b
        return percent(a, b)
    if isinstance(a, SStr): return percent(concretize_str(a), b)
    return a % b

def percent(fmt, args):
    out = []
    pos = 0
    single = not isinstance(args, tuple)
    vals = [args] if single else list(args)
    k = 0
    for m in _PCT.finditer(fmt):
        if '%' in fmt[pos:m.start()]: raise Unsupported('format string %r' % fmt)
        out.append(fmt[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%': out.append('%'); continue
        if prec: raise Unsupported('precision in %r' % fmt)
        wide = None
        if width == '*':
            wide = N(vals[k])
            if wide is not None and wide.op != 'const' and cur() is not None and cur().math and wide.lo is not None and wide.lo >= 0 and flags == '0' and conv in 'xo':
                k += 1
                v = vals[k]; k += 1
                if N(v) is None or N(v).lo is None or N(v).lo < 0: raise Unsupported('number padded to an unknown width')
                out.append(('fmtw', conv, N(v), wide))
                continue
            width = concretize_any(vals[k]); k += 1
            if width < 0: flags += '-'; width = -width
        w = int(width) if width else 0
        if key is not None: v = args[key]
        else:
            if k >= len(vals): raise TypeError('not enough arguments for format string')
            v = vals[k]; k += 1
        if conv in 'di':
            v = as_int(v); typ = 'd'
        elif conv in 'xXo':
            if type(v) not in (SInt, SBool) and not isinstance(v, int):
                f = getattr(type(v), '__index__', None)
                if f is None: raise TypeError('%x format: an integer is required')
                v = f(v)
            typ = conv
        elif conv == 'u':
            v = as_int(v); typ = 'd'
        elif conv in 'sr':
            s = str_(v) if conv == 's' else repr_(v)
            if w: s = pad(s, w, '<' if '-' in flags else '>')
            out.extend(sparts(s))
            continue
        elif conv == 'c':
            out.extend(sparts(v if isinstance(v, (str, SStr)) else chr_(v)))
            continue
        else:
            raise Unsupported('conversion %%%s' % conv)
        spec = ''
        sign = '+' if '+' in flags else ' ' if ' ' in flags else ''
        alt = '#' if '#' in flags else ''
        if '-' in flags:
            s = fmt_int(N(v), sign + alt + typ)
            if w: s = pad(s, w, '<')
        elif '0' in flags:
            s = fmt_int(N(v), sign + alt + ('0%d' % w if w else '') + typ)
        else:
            s = fmt_int(N(v), sign + alt + typ)
            if w: s = pad(s, w, '>')
        out.extend(sparts(s))
    if '%' in fmt[pos:]: raise ValueError('incomplete format')
    out.append(fmt[pos:])
    if not single and k < len(vals): raise TypeError('not all arguments converted during string formatting')
    return mkstr(out)

def format_(v, spec=''):
    spec = concretize_any(spec)
    t = type(v)
    if t is SInt or t is SBool and spec: return fmt_int(N(v), spec) if spec else str_(v)
    if t is SBool: return str_(v)
    if t is SStr:
        if not spec: return v
        fill, align, sign, alt, zero, width, typ = parse_spec(spec)
        return pad(v, width, align or '<', fill or ' ') if width else v
    if t.__module__.startswith('cmdis') and not issubclass(t, BaseException):
        if t.__format__ is object.__format__:
            if spec: raise TypeError('unsupported format string passed to %s.__format__' % t.__name__)
            return str_(v)
        return t.__format__(v, spec)
    if isinstance(v, (list, tuple)) and has_sym(v): return str_(v)
    return format(v, spec)

def str_format(fmt, args, kw):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None: continue
        m = re.match(r'^([^.\[]*)(.*)$', field)
        head, rest = m.groups()
        if head == '':
            v = args[auto]; auto += 1
        elif head.isdigit(): v = args[int(head)]
        else: v = kw[head]
        while rest:
            mm = re.match(r'^\.(\w+)|^\[([^\]]*)\]', rest)
            if not mm: raise Unsupported('format field %r' % field)
            if mm.group(1): v = getattr(v, mm.group(1))
            else:
                kx = mm.group(2)
                v = getitem(v, int(kx) if kx.isdigit() else kx)
            rest = rest[mm.end():]
        if conv == 's': v = str_(v)
        elif conv == 'r': v = repr_(v)
        elif conv: raise Unsupported('conversion !%s' % conv)
        if spec and '{' in spec:
            spec = str_format(spec, args[auto:] if False else args, kw)
        out.extend(sparts(format_(v, spec)))
    return mkstr(out)

def fstr(*parts):
    """parts: text or (value, conversion, spec)"""
    out = []
    for p in parts:
        if isinstance(p, str): out.append(p); continue
        v, conv, spec = p
        if conv == ord('s'): v = str_(v)
        elif conv == ord('r'): v = repr_(v)
        out.extend(sparts(format_(v, spec)))
    return mkstr(out)

# ------------------------------------------------------------------ builtins
def len_(x):
    t = type(x)
    if t is SBytes: return x.slen()
    if t is SStr:
        l = str_len_bounds(x)
        if l[0] != l[1] and any(type(p) is tuple and p[0] == 'bin' for p in x.parts):
            r = 0
            for p in x.parts: r = r + (I(p[2]) if type(p) is tuple and p[0] == 'bin' else len_(mkstr([p])))
            return r
        return l[0] if l[0] == l[1] else len(x)
    if t.__module__.startswith('cmdis') and not isinstance(x, tuple):
        m = getattr(t, '__len__', None)
        if m is None: raise TypeError("object of type '%s' has no len()" % t.__name__)
        r = m(x)
        if type(r) is SInt:
            if truth(r < 0): raise ValueError('__len__() should return >= 0')
            return r
        if not isinstance(r, int): raise TypeError("'%s' object cannot be interpreted as an integer" % type(r).__name__)
        if r < 0: raise ValueError('__len__() should return >= 0')
        return r
    if t is SRange: return loops.count(x)
    if t is SList: return x.slen()
    return len(x)

def int_(x=0, base=None, **kw):
    if 'base' in kw: base = kw['base']
    t = type(x)
    if base is not None:
        if t is SStr: return int_text(x, concretize_any(base))
        return int(x, concretize_any(base))
    if t in (SInt,): return x
    if t is SBool: return I(T.b2i(x.b))
    if t is SStr: return int_text(x, 10)
    if t.__module__.startswith('cmdis'):
        m = getattr(t, '__int__', None) or getattr(t, '__index__', None)
        if m is None: raise TypeError("int() argument must be a string, a bytes-like object or a number, not '%s'" % t.__name__)
        return m(x)
    return int(x)

def int_whole(s, base):
    """int(text, base) of one number with sign and prefix, else None"""
    if type(s) is not SStr: return None
    ps = list(sparts(structural(s, 'strip', (), {}) or s))
    sign = 1
    if ps and isinstance(ps[0], str) and ps[0][:1] in '+-':
        if ps[0][0] == '-': sign = -1
        ps[0] = ps[0][1:]
        if not ps[0]: ps.pop(0)
        if len(ps) == 1 and not isinstance(ps[0], str) and (ps[0][2].lo is None or ps[0][2].lo < 0): return None
    typ = {10: 'd', 16: 'xX', 2: 'b', 8: 'o'}.get(base)
    if base == 0: typ = 'd'
    if ps and isinstance(ps[0], str) and base in (0, 16, 2, 8):
        t = {'0x': 'xX', '0b': 'b', '0o': 'o'}.get(ps[0].lower())
        if t is None or base != 0 and t != typ: return None
        typ = t
        ps.pop(0)
        if len(ps) == 1 and not isinstance(ps[0], str) and (ps[0][2].lo is None or ps[0][2].lo < 0): return None
    if len(ps) != 1 or isinstance(ps[0], str) or ps[0][0] != 'fmt' or typ is None or ps[0][1][-1] not in typ: return None
    if base == 0 and typ == 'd' and len(ps[0][1]) > 1: return None     # zero filled decimals are not numbers
    return I(ps[0][2]) if sign == 1 else -I(ps[0][2])

def _truthn(c): return c is T.TRUE or c is not T.FALSE and cur().fork(c)
def int_text(s, base):
    """int(text, base) when every piece is a digit group"""
    if type(s) is SStr and any(type(p) is tuple and p[0] == 'bin' for p in s.parts):
        if base != 2 or len(s.parts) != 1: raise Unsupported('number in text of unknown length')
        if _truthn(T.eq(s.parts[0][2], const(0))): raise ValueError("invalid literal for int() with base 2: ''")
        return I(s.parts[0][1])
    if base == 0 or type(s) is SStr:
        r = int_whole(s, base)
        if r is not None: return r
    if base == 0: return int(concretize_str(s), 0)
    v = const(0)
    for p in s.chars():
        if isinstance(p, str):
            if not p.isalnum(): return int(concretize_str(s), base)
            d = const(int(p, base))
        else:
            q = p.parts[0]
            if q[0] == 'fmt' and q[1][-1] != 'c':
                d = q[2]
                if d.hi >= base and not cur().entails(T.lt(d, const(base))): return int(concretize_str(s), base)
            elif q[0] == 'choice':
                d = None
                for c, a in reversed(q[1]):
                    dv = const(int(a, base))
                    d = dv if d is None else T.ite(c, dv, d)
            else: return int(concretize_str(s), base)
        v = T.add(T.scale(v, base), d) if base & (base - 1) else T.bor(T.shl(v, const(base.bit_length() - 1)), d)
    return I(v)

def bool_(x=False): return truthv(x)
def hex_(x): return fmt_int(N(as_index(x)), '#x')
def oct_(x): return fmt_int(N(as_index(x)), '#o')
def bin_(x): return fmt_int(N(as_index(x)), '#b')
def as_index(x):
    if type(x) in (SInt, SBool) or isinstance(x, int): return x
    m = getattr(type(x), '__index__', None)
    if m is None: raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
    return m(x)
def chr_(x):
    if type(x) in (SInt, SBool):
        from .sym import fmt_chr
        return fmt_chr(N(x))
    return chr(x)
def ord_(x):
    if type(x) is SStr:
        p = x.parts
        if len(p) == 1 and p[0][0] == 'choice':
            r = None
            for c, s in reversed(p[0][1]):
                if len(s) != 1: raise TypeError('ord() expected a character')
                r = const(ord(s)) if r is None else T.ite(c, const(ord(s)), r)
            return I(r)
        if len(p) == 1 and p[0][0] == 'fmt' and p[0][1] in ('b', 'o', 'd') and p[0][2].hi is not None and p[0][2].hi < 10:
            return I(T.add(p[0][2], const(48)))
        return ord(concretize_str(x))
    return ord(x)

class SHash(object):
    """hash of symbolic content: equal content gives equal hashes, nothing else is known"""
    def __init__(self, v): self.v = v
    def __eq__(self, o):
        if isinstance(o, SHash): return hash_same(self.v, o.v)
        raise Unsupported('comparing a symbolic hash with a number')
    def __ne__(self, o): return not_(self == o)
    def __hash__(self): raise Unsupported('hash of a hash')
    def __xor__(self, o): return SHash(('^', self.v, o.v if isinstance(o, SHash) else o))
    def __rxor__(self, o): return SHash(('^', o, self.v))
    def __add__(self, o): return SHash(('+', self.v, o.v if isinstance(o, SHash) else o))
    def __mul__(self, o): return SHash(('*', self.v, o.v if isinstance(o, SHash) else o))
    def __and__(self, o): return SHash(('&', self.v, o.v if isinstance(o, SHash) else o))

def hash_same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        r = True
        for x, y in zip(a, b):
            z = hash_same(x, y)
            r = B(T.land(NB(r), NB(z)))
        return r
    return truthv(a == b)

def hash_(x):
    t = type(x)
    if t in (SStr, SInt, SBool): return SHash(x if t is not SBool else I(T.b2i(x.b)))
    if t in (str, int, bool) and cur() is not None: return SHash(x if t is not bool else int(x))
    if t is tuple and cur() is not None:
        return SHash(tuple(h.v if isinstance(h, SHash) else h for h in [hash_(v) for v in x]))
    if t.__module__.startswith('cmdis') and not isinstance(x, (type, tuple)) and t.__hash__ is not object.__hash__:
        if t.__hash__ is None: raise TypeError("unhashable type: '%s'" % t.__name__)
        return t.__hash__(x)
    return hash(x)

def abs_(x): return abs(x)
def pow_(a, b, m=None):
    if is_sym(a) or is_sym(b): return a ** b
    return pow(a, b) if m is None else pow(a, b, m)
def divmod_(a, b): return (a // b, mod(a, b)) if is_sym(a) or is_sym(b) else divmod(a, b)

def _minmax(name, native, pick):
    def f(*a, **kw):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not any(is_sym(x) for x in xs) or kw:
            if kw.get('key') is not None and any(is_sym(x) for x in xs): raise Unsupported('min/max with key')
            return native(xs, **kw)
        if all(N(x) is not None for x in xs):
            r = N(xs[0])
            e = cur()
            for x in xs[1:]:
                c = pick(N(x), r)
                if e is not None and e.math and c.op not in ('true', 'false'):
                    if e.entails(c): c = T.TRUE
                    elif e.entails(T.lnot(c)): c = T.FALSE
                r = T.ite(c, N(x), r)
            return I(r)
        return native(xs)
    return f
min_ = _minmax('min', min, lambda x, r: T.lt(x, r))
max_ = _minmax('max', max, lambda x, r: T.lt(r, x))

def any_(it):
    for x in it:
        if truth(x): return True
    return False
def all_(it):
    for x in it:
        if not truth(x): return False
    return True
def sum_(it, start=0):
    r = start
    for x in it: r = r + x
    return r

class SRange(object):
    """range with symbolic bounds and a constant positive step"""
    def __init__(self, start, stop, step=1): self.start = start; self.stop = stop; self.step = step
    def __iter__(self):
        i = self.start
        while True:
            c = T.lt(i, self.stop)
            if c is T.FALSE or (c is not T.TRUE and not cur().fork(c)): return
            yield I(i)
            i = T.add(i, const(self.step))
    def __reversed__(self):
        if self.step != 1: raise Unsupported('reversed stepped range')
        i = T.sub(self.stop, const(1))
        while True:
            c = T.le(self.start, i)
            if c is T.FALSE or (c is not T.TRUE and not cur().fork(c)): return
            yield I(i)
            i = T.sub(i, const(1))

class SRangeDown(object):
    def __init__(self, start, stop): self.start = start; self.stop = stop
    def __iter__(self):
        i = self.start
        while True:
            c = T.lt(self.stop, i)
            if c is T.FALSE or (c is not T.TRUE and not cur().fork(c)): return
            yield I(i)
            i = T.sub(i, const(1))

def range_(*a):
    a = [as_index(x) if N(x) is None else x for x in a]
    if not any(type(x) in (SInt, SBool) for x in a): return range(*a)
    if len(a) == 1: return SRange(const(0), N(a[0]))
    st = a[2] if len(a) > 2 else 1
    if type(st) is SInt: st = concretize(st.n)
    if st == 1: return SRange(N(a[0]), N(a[1]))
    if type(st) is int and st > 1: return SRange(N(a[0]), N(a[1]), st)
    if st == -1: return SRangeDown(N(a[0]), N(a[1]))
    return range(*[concretize_any(x) for x in a])

class SEnum(object):
    """enumerate() of something of symbolic length"""
    def __init__(self, it, start): self.it = it; self.start = start
    def __iter__(self):
        k = self.start
        for x in self.it:
            yield k, x
            k = k + 1

def enumerate_(it, start=0):
    if type(it) in (SBytes, SList, SRange): return SEnum(it, start)
    return enumerate__(it, start)
def enumerate__(it, start):
    k = start
    for x in it:
        yield k, x
        k = k + 1

def reversed_(x):
    if isinstance(x, (SStr,)):
        p = x.parts[0]
        if len(x.parts) == 1 and type(p) is tuple and p[0] == 'bin' and p[2].op != 'const':
            # digits of a number, lowest first
            return SList(None, p[2], lambda n: bintext(T.low(T.shr(p[1], n), const(1)), const(1)))
        return reversed(x.chars())
    if isinstance(x, SBytes): return reversed(list(x))
    if isinstance(x, SRange) and x.step == 1: return SRangeDown(T.sub(x.stop, const(1)), T.sub(x.start, const(1)))
    if isinstance(x, SRange): return x.__reversed__()
    t = type(x)
    if t.__module__.startswith('cmdis') and hasattr(t, '__len__') and hasattr(t, '__getitem__') and not hasattr(t, '__reversed__') and not isinstance(x, (tuple, list)):
        n = concretize_any(len_(x))
        return (x[i] for i in range(n - 1, -1, -1))
    return reversed(x)

def type_(*a):
    if len(a) != 1: return type(*a)
    x = a[0]
    t = type(x)
    if t is SInt: return int
    if t is SBool: return bool
    if t is SStr: return str
    if t is SBytes: return bytearray if x.mutable else bytes
    if t is SList: return list
    if t in (SRange, SRangeDown): return range
    return t

def isinstance_(x, ts):
    t = type_(x)
    if t is type(x): return isinstance(x, ts)
    if isinstance(ts, tuple): return any(isinstance_(x, q) for q in ts)
    try: return issubclass(t, ts)
    except TypeError: return isinstance(x, ts)

def bytearray_(*a, **kw):
    if cur() is None:
        return bytearray(*a, **kw)
    if kw or len(a) > 1: return tobytes(bytearray(*a, **kw))
    if not a: return SBytes.of([])
    x = a[0]
    if type(x) is SBytes: return x.copy() if x.mutable else SBytes(x.arr, x.length, True)
    if type(x) in (SInt, SBool) or isinstance(x, int):
        n = N(x)
        if truth(B(T.lt(n, const(0)))): raise ValueError('negative count')
        return SBytes(T.arrconst(const(0)), n, True)
    if isinstance(x, (str, SStr)): raise TypeError('string argument without an encoding')
    t = tobytes(x)
    if t.length.op != 'const': return SBytes(t.arr, t.length, True)
    return SBytes.of(_items(t), True)

def _items(t):
    return [I(T_sel(t.arr, const(i))) for i in range(T.cval(t.length))]
from .sym import sel as T_sel, bintext

def bytes_(*a, **kw):
    if cur() is None: return bytes(*a, **kw)
    if a and type(a[0]).__module__.startswith('cmdis') and hasattr(type(a[0]), '__bytes__'):
        return type(a[0]).__bytes__(a[0])
    b = bytearray_(*a, **kw)
    return SBytes(b.arr, b.length, False)

def getattr_(o, name, *d):
    if type(name) is SStr: name = concretize_str(name)
    return getattr(o, name, *d)
def print_(*a, **kw):
    e = cur()
    if e is None:
        return print(*a, **kw)
    f = kw.get('file')
    if f is sys.stderr: return None
    if f is not None and f is not sys.stdout: raise Unsupported('print to a file')
    sep = kw.get('sep', ' '); end = kw.get('end', '\n')
    out = []
    for i, x in enumerate(a):
        if i: out.append(sep)
        out.extend(sparts(str_(x)))
    out.append(end if end is not None else '\n')
    e.notes.append(('print', mkstr(out)))
def sorted_(it, **kw): return sorted(it, **kw)
def tuple_(*a): return tuple(*a)
def list_(*a): return list(*a)
def map_(f, *its):
    return (call(f, *xs) for xs in zip(*its))
def filter_(f, it):
    return (x for x in it if truth(x if f is None else call(f, x)))
def iter_(x, *s): return iter(x, *s)
def callable_(x): return callable(x)
def slice_(*a): return slice(*a)
def reduce_(f, it, *init):
    c = loops.loop('functools.reduce', 0, ('acc',), it) if init and type(it) in (SList, SBytes) else None
    if c is not None:
        acc = init[0]
        acc, = c.head(lambda: acc)
        if truth(c.more()):
            acc = call(f, acc, c.item())
            c.back(lambda: acc)
        return acc
    it = iter(it)
    if init: acc = init[0]
    else:
        try: acc = next(it)
        except StopIteration: raise TypeError('reduce() of empty sequence with no initial value')
    for x in it: acc = call(f, acc, x)
    return acc

LIFT = {len: len_, int: int_, bool: bool_, str: str_, repr: repr_, hex: hex_, oct: oct_, bin: bin_, chr: chr_,
        ord: ord_, hash: hash_, pow: pow_, divmod: divmod_, min: min_, max: max_, any: any_, all: all_,
        sum: sum_, range: range_, enumerate: enumerate_, reversed: reversed_, type: type_,
        isinstance: isinstance_, bytearray: bytearray_, bytes: bytes_, getattr: getattr_, setattr: setattr_,
        delattr: delattr_, print: print_, format: format_, map: map_, filter: filter_,
        functools.reduce: reduce_, operator.not_: not_, operator.truth: truthv, operator.contains: lambda a, b: contains(b, a),
        operator.mod: mod, operator.getitem: getitem, operator.index: as_index,
        operator.is_: is_, operator.setitem: setitem, traceback.print_exc: lambda *a, **kw: None}

SKIP = (types.FunctionType, types.MethodType)

_LRU = type(functools.lru_cache(None)(len))
_CACHES = {}
def cached_call(f, a, kw):
    c = _CACHES.get(id(f))
    if c is None: c = _CACHES[id(f)] = (f, {})
    c = c[1]
    k = (a, tuple(sorted(kw.items())))
    if cur() is None: return f(*a, **kw)
    if contains(k, c): return getitem(c, k)
    r = call(f.__wrapped__, *a, **kw)
    setitem(c, k, r)
    return r

class CachedProperty(object):
    """functools.cached_property whose store can be taken back"""
    def __init__(self, func): self.func = func; self.attrname = None; self.__doc__ = func.__doc__
    def __set_name__(self, owner, name): self.attrname = name
    def __get__(self, o, owner=None):
        if o is None: return self
        d = o.__dict__
        if self.attrname in d: return d[self.attrname]
        v = self.func(o)
        if cur() is not None: cur().log(d, 'ditem', self.attrname, E.MISSING)
        d[self.attrname] = v
        return v
functools.cached_property = CachedProperty

def call(f, *a, **kw):
    t = type(f)
    if t is _LRU: return cached_call(f, a, kw)
    if t is types.MethodType and type(f.__func__) is _LRU: return cached_call(f.__func__, (f.__self__,) + a, kw)
    if t in SKIP: return f(*a, **kw)
    try: g = LIFT.get(f)
    except TypeError: g = None
    if g is not None: return g(*a, **kw)
    if t is types.BuiltinMethodType and f.__self__ is not None and not isinstance(f.__self__, types.ModuleType):
        return callm(f.__self__, f.__name__, *a, **kw)
    return f(*a, **kw)

MUT = {list: {'append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'sort', 'clear', '__setitem__', '__delitem__', '__iadd__'},
       dict: {'update', 'pop', 'popitem', 'setdefault', 'clear', '__setitem__', '__delitem__'},
       set: {'add', 'remove', 'discard', 'pop', 'update', 'clear'},
       bytearray: {'append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'clear'}}

def callm(o, name, *a, **kw):
    t = type(o)
    if o is sys.stdout and cur() is not None:
        if name == 'write': return print_(*a, end='')
        return None
    if o is sys.stderr and cur() is not None: return None
    if t is str:
        return strm(o, name, a, kw)
    if t is SStr:
        return strm(o, name, a, kw)
    if t is list or t is set or isinstance(o, dict) or t is bytearray:
        base = dict if isinstance(o, dict) else t
        if name in MUT[base]:
            e = cur()
            if e is not None:
                if e.guards and base is not bytearray: pass
                e.log(o, 'whole', None, (o.copy() if base is not bytearray else bytes(o)))
        if base is dict and a and name in ('get', 'setdefault', 'pop', '__contains__', '__getitem__') and (assoc(o, a[0]) or symkey(a[0])):
            kk = findkey(o, a[0]) if assoc(o, a[0]) or name in ('setdefault', 'pop') else None
            if kk is not None:
                if name == '__contains__': return kk is not E.MISSING
                if name == '__getitem__': return getitem(o, a[0])
                if kk is not E.MISSING: return o[kk] if name != 'pop' else o.pop(kk)
                if name == 'pop':
                    if len(a) > 1: return a[1]
                    raise KeyError(a[0])
                d = a[1] if len(a) > 1 else kw.get('default')
                if name == 'setdefault': setitem(o, a[0], d)
                return d
        if base is dict and id(o) in SYMD and name in ('items', 'keys', '__iter__', 'popitem', 'copy', 'update'):
            if name == 'items': return [(k.key if type(k) is SKey else k, v) for k, v in o.items()]
            if name in ('keys', '__iter__'): return [k.key if type(k) is SKey else k for k in o]
            if any(type(k) is SKey for k in o): raise Unsupported('dict.%s with symbolic keys' % name)
        if base is dict and name in ('get', 'setdefault', 'pop') and a and is_sym(a[0]):
            if name == 'get':
                if truth(contains(a[0], o)): return getitem(o, a[0])
                return a[1] if len(a) > 1 else kw.get('default')
            a = (concretize_any(a[0]),) + a[1:]
        if t is list and name in ('index', 'count', 'remove') and a:
            if name == 'count': return sum_([1 for x in o if truth(x == a[0])])
        if t is list and name == 'pop' and a and is_sym(a[0]): a = (concretize_any(a[0]),)
        if t is bytearray and any(is_sym(x) for x in a):
            raise Unsupported('symbolic value into a native bytearray')
        return getattr(o, name)(*a, **kw)
    if t is slice and name == 'indices':
        return slice_indices(o, a[0])
    if o is int and name == 'from_bytes':
        return int_from_bytes(*a, **kw)
    if o is str and name == 'join': return strm(a[0], 'join', a[1:], kw)
    if t is type(str.join) and False: pass
    if t is range and name in ('index', 'count') and is_sym(a[0]):
        raise Unsupported('range.' + name)
    return call(getattr(o, name), *a, **kw) if t not in SKIP else getattr(o, name)(*a, **kw)

def int_from_bytes(b, byteorder='big', signed=False):
    if signed: raise Unsupported('signed from_bytes')
    xs = [N(x) for x in tobytes(b)]
    if byteorder != 'little': xs = xs[::-1]
    r = const(0)
    for i, x in enumerate(xs): r = T.bor(r, T.shl(x, const(8 * i)))
    return I(r)

def slice_indices(s, length):
    vals = (s.start, s.stop, s.step, length)
    if not any(is_sym(x) or (x is not None and not isinstance(x, int)) for x in vals):
        return s.indices(length)
    def ix(x):
        if x is None: return None
        if N(x) is not None: return x
        m = getattr(type(x), '__index__', None)
        if m is None: raise TypeError('slice indices must be integers or None or have an __index__ method')
        return m(x)
    start, stop, step = ix(s.start), ix(s.stop), ix(s.step)
    step = 1 if step is None else step
    if truth(step == 0): raise ValueError('slice step cannot be zero')
    negstep = truth(step < 0)
    lower = -1 if negstep else 0
    upper = length - 1 if negstep else length
    def clamp(v, default):
        if v is None: return default
        if truth(v < 0):
            v = v + length
            if truth(v < lower): return lower
            return v
        if truth(v > upper): return upper
        return v
    return (clamp(start, upper if negstep else lower), clamp(stop, lower if negstep else upper), step)

def genexp(it, f):
    """(f(x) for x in it), f an expression without calls"""
    if type(it) is SList and it.length.op != 'const': return SList(None, it.length, lambda n: f(it.at(n)))
    return (f(x) for x in it)

def strm(o, name, a, kw):
    if name == 'join' and o == '' and type(a[0]) is SList:
        c = loops.loop('str.join', 0, ('acc',), a[0])
        if c is not None:
            acc = ''
            acc, = c.head(lambda: acc)
            if truth(c.more()):
                x = c.item()
                if not isinstance(x, (str, SStr)): raise TypeError('sequence item: expected str instance, %s found' % type(x).__name__)
                acc = mkstr(sparts(acc) + sparts(x))
                c.back(lambda: acc)
            return acc
    if name == 'join':
        xs = list(a[0])
        for x in xs:
            if not isinstance(x, (str, SStr)):
                raise TypeError('sequence item: expected str instance, %s found' % type(x).__name__)
        return mkstr([q for i, x in enumerate(xs) for q in ((sparts(o) if i else ()) + sparts(x))])
    if name == 'format' and isinstance(o, str):
        if not has_sym(a) and not has_sym(kw): return o.format(*a, **kw)
        return str_format(o, a, kw)
    if type(o) is str and not has_sym(a): return getattr(o, name)(*a, **kw)
    if name in ('ljust', 'rjust', 'center', 'zfill'):
        w = concretize_any(a[0])
        if name == 'zfill':
            ps = sparts(o)
            if len(ps) == 1 and not isinstance(ps[0], str) and ps[0][0] == 'fmt' and ps[0][2].lo is not None and ps[0][2].lo >= 0:
                return fmt_int(ps[0][2], '0%d%s' % (w, ps[0][1][-1]))
            return pad(o, w, '>', '0')
        return pad(o, w, {'ljust': '<', 'rjust': '>', 'center': '^'}[name], a[1] if len(a) > 1 else ' ')
    if name == 'startswith' and len(a) == 1 and isinstance(a[0], str):
        ps = sparts(o)
        if ps and isinstance(ps[0], str) and len(ps[0]) >= len(a[0]): return ps[0].startswith(a[0])
    if name == 'endswith' and len(a) == 1 and isinstance(a[0], str):
        ps = sparts(o)
        if ps and isinstance(ps[-1], str) and len(ps[-1]) >= len(a[0]): return ps[-1].endswith(a[0])
    if name in ('rstrip', 'strip', 'lstrip') and a and isinstance(a[0], str):
        # nothing to strip when the ends are digits outside the set
        ps = sparts(o)
        def safe(p, end):
            if isinstance(p, str): return p[end] not in a[0]
            return p[0] == 'fmt' and not (set(a[0]) & set('0123456789abcdef-+'))
        if (name == 'lstrip' or safe(ps[-1], -1)) and (name == 'rstrip' or safe(ps[0], 0)): return o
    if name == 'count' and len(a) == 1 and isinstance(a[0], str) and len(a[0]) == 1:
        n = const(0)
        for ch in (o.chars() if isinstance(o, SStr) else o):
            n = T.add(n, T.b2i(str_eq(ch, a[0])))
        return I(n)
    if name in ('upper', 'lower'):
        out = []
        for p in sparts(o):
            if isinstance(p, str): out.append(getattr(p, name)())
            elif p[0] == 'choice': out.extend(sparts(choice([(c, getattr(s, name)()) for c, s in p[1]])))
            elif p[0] == 'fmt' and p[1][-1] in 'dob': out.append(p)
            elif p[0] == 'fmt' and p[1][-1] in 'xX': out.append(('fmt', p[1][:-1] + ('X' if name == 'upper' else 'x'), p[2]))
            else: out.append(getattr(concretize_str(SStr((p,))), name)())
        return mkstr(out)
    r = structural(o, name, a, kw)
    if r is not None: return r
    o2 = concretize_str(o)
    return getattr(o2, name)(*[concretize_any(x) for x in a], **kw)

DIGITS = set('0123456789abcdefABCDEF+-xobXOB')
def part_free(p, chars):
    """no character of this piece is one of these"""
    if isinstance(p, str): return not set(p) & chars
    if p[0] == 'fmt': return p[1][-1] != 'c' and not chars & DIGITS
    if p[0] == 'choice': return all(x and not set(x) & chars for c, x in p[1])
    if p[0] == 'pad': return p[4] not in chars and all(part_free(q, chars) for q in sparts(p[1]))
    if p[0] == 'fn' and p[1] == 'reglist': return not chars & set('{},-rspcl0123456789')
    return False
def only_literal(o, chars):
    """these characters occur in literal pieces only"""
    return all(isinstance(p, str) or part_free(p, set(chars)) for p in sparts(o))
SPACE = ' \t\n\r\x0b\x0c'
def structural(o, name, a, kw):
    """methods that look for characters no number contains: only literal pieces matter"""
    if kw or type(o) is not SStr or any(type(x) is SStr for x in a): return None
    if name == 'isspace' or name in ('split', 'strip', 'lstrip', 'rstrip') and (not a or a[0] is None): chars = SPACE
    elif a and isinstance(a[0], str): chars = a[0]
    else: chars = ''
    if not only_literal(o, chars): return None
    ps = list(o.parts)
    if name in ('strip', 'lstrip', 'rstrip'):
        cs = a[0] if a and a[0] is not None else None
        if cs is not None and set(cs) & DIGITS: return None
        if name != 'rstrip' and isinstance(ps[0], str):
            ps[0] = ps[0].lstrip(cs)
        if name != 'lstrip' and isinstance(ps[-1], str): ps[-1] = ps[-1].rstrip(cs)
        return mkstr(ps)
    if name == 'replace' and len(a) == 2 and isinstance(a[0], str) and a[0] and not set(a[0]) & DIGITS:
        return mkstr([p.replace(a[0], a[1]) if isinstance(p, str) else p for p in ps])
    if name in ('split', 'partition', 'rpartition', 'find', 'index', 'count', 'startswith', 'endswith', 'splitlines'):
        if name == 'split' and len(a) <= 1 and (not a or a[0] is None):
            out, cur_ = [], []
            for p in ps:
                if not isinstance(p, str): cur_.append(p); continue
                for k, ch in enumerate(p):
                    if ch.isspace():
                        if cur_: out.append(mkstr(cur_)); cur_ = []
                    else: cur_.append(ch)
            if cur_: out.append(mkstr(cur_))
            return out
        if name == 'split' and len(a) == 1 and isinstance(a[0], str) and len(a[0]) == 1 and a[0] not in DIGITS:
            out, cur_ = [], []
            for p in ps:
                if not isinstance(p, str): cur_.append(p); continue
                bits = p.split(a[0])
                cur_.append(bits[0])
                for b in bits[1:]: out.append(mkstr(cur_)); cur_ = [b]
            out.append(mkstr(cur_))
            return out
        if name == 'partition' and isinstance(a[0], str) and len(a[0]) == 1 and a[0] not in DIGITS:
            for i, p in enumerate(ps):
                if isinstance(p, str) and a[0] in p:
                    x, y, z = p.partition(a[0])
                    return mkstr(ps[:i] + [x]), y, mkstr([z] + ps[i + 1:])
            return o, '', ''
        if name in ('startswith', 'endswith') and len(a) == 1 and isinstance(a[0], str) and len(a[0]) == 1 and a[0] not in DIGITS:
            p = ps[0 if name == 'startswith' else -1]
            return isinstance(p, str) and getattr(p, name)(a[0])
    if name in ('isspace', 'isalpha', 'isidentifier') and any(not isinstance(p, str) for p in ps): return False
    return None

def caught():
    """a handler of the code under test must not swallow the engine's own trouble"""
    x = sys.exc_info()[1]
    if cur() is not None: internal(x)
def internal(x):
    if isinstance(x, (RecursionError, MemoryError)): raise Unsupported('%s in the engine' % type(x).__name__)
    if isinstance(x, (AssertionError, NotImplementedError)):
        tb = x.__traceback__
        while tb is not None and tb.tb_next is not None: tb = tb.tb_next
        if tb is not None and os.path.dirname(os.path.abspath(tb.tb_frame.f_code.co_filename)) == HERE: raise Unsupported('engine error %r' % x)
HERE = os.path.dirname(os.path.abspath(__file__))

# ------------------------------------------------------------------ if merging
class Merge(object):
    """Both branches of an if are executed under a guard and their effects joined."""
    def __init__(self, c):
        self.c = c
        e = cur()
        self.e = e
        self.made = []
        self.mark = len(e.heap)
        self.d = len(e.decisions) if False else e.pos - 1
        e.guards.append(c)
    def start(self, *thunks):
        self.v0 = snap(thunks)
    def _collect(self):
        """final values written since the mark, then roll back"""
        e = self.e
        fin = {}
        for obj, kind, key, old in e.heap[self.mark:]:
            if kind == 'whole':
                self.fail()
            k = (id(obj), kind, key)
            if k not in fin: fin[k] = (obj, kind, key, old)
        out = {}
        for k, (obj, kind, key, old) in fin.items():
            out[k] = (obj, kind, key, old, getv(obj, kind, key))
        for obj, kind, key, old in reversed(e.heap[self.mark:]):
            E.undo(obj, kind, key, old)
        del e.heap[self.mark:]
        # objects created in this branch are not shared with the other one: keep them whole
        for k in [k for k, v in out.items() if v[1] == 'attr' and v[3] is E.MISSING and blank(v[0])]:
            obj, kind, key, old, val = out.pop(k)
            self.made.append((obj, kind, key, val))
        return out
    def mid(self, *thunks):
        self.v1 = snap(thunks)
        if not hasattr(self, 'v0') or len(self.v0) != len(self.v1): self.v0 = [UNB] * len(self.v1)
        self.h1 = self._collect()
        g = self.e.guards.pop()
        assert g is self.c
        self.e.guards.append(T.lnot(self.c))
        return self.v0
    def end(self, *thunks):
        e = self.e
        v2 = snap(thunks)
        h2 = self._collect()
        e.guards.pop()
        c = self.c
        for obj, kind, key, v in self.made:
            if v is E.MISSING: continue
            e.log(obj, kind, key, E.MISSING)
            putv(obj, kind, key, v)
        try:
            for k in list(self.h1) + [k for k in h2 if k not in self.h1]:
                obj, kind, key, old = (self.h1.get(k) or h2[k])[:4]
                a = self.h1[k][4] if k in self.h1 else old
                b = h2[k][4] if k in h2 else old
                if a is E.MISSING or b is E.MISSING: self.fail()
                v = ite_value(c, a, b)
                e.log(obj, kind, key, old)
                putv(obj, kind, key, v)
            out = []
            for a, b in zip(self.v1, v2):
                if a is UNB or b is UNB:
                    out.append(UNB)
                else:
                    out.append(ite_value(c, a, b))
            return out
        except E.MergeAbort:
            self.fail()
    def midv(self, a):
        self.mid(lambda: a)
    def endv(self, b):
        return self.end(lambda: b)[0]
    def fail(self):
        """turn this merge into an ordinary fork and start the path again"""
        e = self.e
        d = e.decisions[self.d]
        assert d.kind == 'merge'
        d.val = 'fork'
        del e.decisions[self.d + 1:]
        raise E.Restart()
    def exc(self, x):
        if isinstance(x, (E.Restart, E.Budget)): raise x
        self.fail()

def snap(thunks):
    out = []
    for t in thunks:
        try: out.append(t())
        except NameError: out.append(UNB)
    return out

def blank(o):
    """has no attribute of its own (yet)"""
    if isinstance(o, (type, types.ModuleType)): return False
    if getattr(o, '__dict__', None): return False
    for c in type(o).__mro__:
        sl = c.__dict__.get('__slots__', ())
        for n in ((sl,) if isinstance(sl, str) else sl):
            if n in ('__dict__', '__weakref__'): continue
            try:
                object.__getattribute__(o, n)
                return False
            except AttributeError: pass
    return True

def getv(obj, kind, key):
    if kind == 'attr':
        try: return object.__getattribute__(obj, key)
        except AttributeError: return E.MISSING
    if kind == 'ditem': return obj.get(key, E.MISSING)
    return obj[key]

def putv(obj, kind, key, v):
    if kind == 'attr':
        try: object.__setattr__(obj, key, v)
        except (AttributeError, TypeError): setattr(obj, key, v)
    else: obj[key] = v

def cond(x, mergeable):
    """condition of an if: True/False, or a Merge when both branches are to be joined"""
    v = truthv(x)
    if v is True or v is False: return v
    e = cur()
    if not mergeable: return e.fork(v.b)
    k = e.known(v.b)
    if k is not None: return k
    if e.pos < len(e.decisions):
        d = e.decisions[e.pos]
        e.pos += 1
        assert d.kind == 'merge', d.kind
        if d.val == 'fork': return e.fork(v.b)
        if d.val == 'T': return True
        if d.val == 'F': return False
        return Merge(v.b)
    gc, ngc = v.b, T.lnot(v.b)
    for g in e.guards:
        gc = T.land(g, gc); ngc = T.land(g, ngc)
    if e.sat(gc, quick=True) == 'unsat': val = 'F'
    elif e.sat(ngc, quick=True) == 'unsat': val = 'T'
    else: val = 'merge'
    e.decisions.append(E.Decision('merge', val, []))
    e.pos += 1
    if val == 'merge': return Merge(v.b)
    return val == 'T'

# ------------------------------------------------------------------ function contracts
from . import loops
loop = loops.loop

CONTRACTS = {}
def fn(qual):
    """innermost decorator of every function of the package"""
    def deco(f):
        c = CONTRACTS.get(qual)
        if c is None: return f
        return c.wrap(f)
    return deco

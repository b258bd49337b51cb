"""Mechanical extraction of the code under verification.

The package sources are read from /repo on every run, parsed, and rewritten
operator by operator: each Python construct whose native form insists on
concrete operands (truth tests, subscripts, stores, %-formatting, calls of
built-ins) becomes a call of the function of dv.lift with the same meaning.  No
statement of the source is dropped or replaced, and no source text is assumed.
"""
import ast, os, sys, types, copy
from . import lift, loops
from .term import Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'cmdis'

CMPNAME = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=',
           ast.In: 'in', ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}
AUG = {ast.Add: '+=', ast.Sub: '-=', ast.Mult: '*=', ast.FloorDiv: '//=', ast.Mod: '%=', ast.LShift: '<<=',
       ast.RShift: '>>=', ast.BitAnd: '&=', ast.BitOr: '|=', ast.BitXor: '^=', ast.Pow: '**=', ast.Div: '/='}

def name(n): return ast.Name(id=n, ctx=ast.Load())
def dv(attr): return ast.Attribute(value=name('_dv'), attr=attr, ctx=ast.Load())
def call(attr, *args): return ast.Call(func=dv(attr), args=list(args), keywords=[])
def lam(body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
def cst(v): return ast.Constant(value=v)

class _Stop(ast.NodeVisitor):
    """does a statement list contain control transfers or scope constructs?"""
    BAD = (ast.Return, ast.Break, ast.Continue, ast.Raise, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal,
           ast.FunctionDef, ast.ClassDef, ast.Try, ast.With, ast.Assert, ast.Delete, ast.While, ast.For,
           ast.Import, ast.ImportFrom, ast.NamedExpr, ast.Await)
    def __init__(self): self.bad = False
    def generic_visit(self, n):
        if isinstance(n, self.BAD): self.bad = True
        ast.NodeVisitor.generic_visit(self, n)

def bad(stmts):
    s = _Stop()
    for x in stmts: s.visit(x)
    return s.bad

def assigned(stmts):
    out = []
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                pass
    return out

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort', 'update', 'add', 'popleft', 'appendleft'}

def mutated(stmts):
    """names of variables whose object the statements change in place"""
    out = []
    for s in stmts:
        for n in ast.walk(s):
            q = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS: q = n.func.value
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)): q = n.value
            if isinstance(q, ast.Name) and q.id not in out: out.append(q.id)
    return out

def local_names(fn):
    """variables of the function itself (not of functions within it)"""
    a = fn.args
    out = set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y])
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)): continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out.add(n.id)
        todo.extend(ast.iter_child_nodes(n))
    return out

def has_yield(n):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Await)) for x in ast.walk(n))

class Rewrite(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.scope = []           # names
        self.kinds = []           # 'f' or 'c'
        self.loop = [0]
        self.tmp = 0
        self.nloops = {}
        self.nonlocals = [set()]
        self.globs = [set()]
        self.locals = [set()]

    def temp(self):
        self.tmp += 1
        return '_dvt%d' % self.tmp

    def infn(self): return bool(self.kinds) and self.kinds[-1] == 'f'

    def mangle(self, n):
        if n.startswith('__') and not n.endswith('__'):
            for k, s in zip(reversed(self.kinds), reversed(self.scope)):
                if k == 'c':
                    return '_%s%s' % (s.lstrip('_'), n)
        return n

    # ---- scopes
    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        qual = '%s:%s' % (self.module, '.'.join(self.scope + [n.name]))
        self.scope.append(n.name); self.kinds.append('f'); self.loop.append(0)
        nl, gl = set(), set()
        for x in ast.walk(n):
            if isinstance(x, (ast.Global, ast.Nonlocal)): nl.update(x.names)
            if isinstance(x, ast.Global): gl.update(x.names)
        self.nonlocals.append(nl); self.globs.append(gl)
        self.locals.append(local_names(n) - nl)
        n.body = self.stmts(n.body)
        self.locals.pop()
        self.nonlocals.pop(); self.globs.pop(); self.loop.pop(); self.kinds.pop(); self.scope.pop()
        n.decorator_list = n.decorator_list + [call('fn', cst(qual))]
        n.returns = None
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs: a.annotation = None
        return n
    def visit_AsyncFunctionDef(self, n): raise Unsupported('async function')
    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(b) for b in n.bases]
        self.scope.append(n.name); self.kinds.append('c'); self.loop.append(0)
        n.body = self.stmts(n.body)
        self.loop.pop(); self.kinds.pop(); self.scope.pop()
        return n
    def visit_Lambda(self, n):
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        self.kinds.append('f'); self.scope.append('<lambda>'); self.loop.append(0)
        n.body = self.visit(n.body)
        self.kinds.pop(); self.scope.pop(); self.loop.pop()
        return n

    def stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None: continue
            if isinstance(r, list): out.extend(r)
            else: out.append(r)
        return out

    # ---- statements
    def visit_AnnAssign(self, n):
        if n.value is None: return ast.Pass()
        return self.visit(ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n))

    def simple(self, t):
        if isinstance(t, ast.Name): return t.id not in self.globs[-1]
        if isinstance(t, (ast.Tuple, ast.List)): return all(self.simple(e) for e in t.elts)
        if isinstance(t, ast.Starred): return self.simple(t.value)
        return False

    def store(self, t, value):
        """statements storing expression value into target t"""
        if self.simple(t):
            return [ast.Assign(targets=[t], value=value)]
        if isinstance(t, ast.Name):         # declared global: a write to the module, undone after the path
            return [ast.Expr(call('setitem', ast.Call(func=name('globals'), args=[], keywords=[]), cst(t.id), value))]
        if isinstance(t, ast.Attribute):
            return [ast.Expr(call('setattr_', self.visit(t.value), cst(self.mangle(t.attr)), value))]
        if isinstance(t, ast.Subscript):
            return [ast.Expr(call('setitem', self.visit(t.value), self.key(t.slice), value))]
        if isinstance(t, (ast.Tuple, ast.List)):
            pre, post, elts = [], [], []
            for e in t.elts:
                if self.simple(e): elts.append(e)
                else:
                    star = isinstance(e, ast.Starred)
                    q = self.temp()
                    x = ast.Name(id=q, ctx=ast.Store())
                    elts.append(ast.Starred(value=x, ctx=ast.Store()) if star else x)
                    post.extend(self.store(e.value if star else e, name(q)))
            return [ast.Assign(targets=[ast.Tuple(elts=elts, ctx=ast.Store())], value=value)] + post
        raise Unsupported('assignment target')

    def visit_Assign(self, n):
        v = self.visit(n.value)
        if len(n.targets) == 1:
            return self.store(n.targets[0], v)
        q = self.temp()
        out = [ast.Assign(targets=[ast.Name(id=q, ctx=ast.Store())], value=v)]
        for t in n.targets: out.extend(self.store(t, name(q)))
        return out

    def visit_AugAssign(self, n):
        op = AUG.get(type(n.op))
        if op is None: raise Unsupported('augmented assignment')
        v = self.visit(n.value)
        t = n.target
        if isinstance(t, ast.Name):
            return self.store(ast.Name(id=t.id, ctx=ast.Store()), call('iop', cst(op), name(t.id), v))
        if isinstance(t, ast.Attribute):
            q = self.temp()
            return [ast.Assign(targets=[ast.Name(id=q, ctx=ast.Store())], value=self.visit(t.value)),
                    ast.Expr(call('setattr_', name(q), cst(self.mangle(t.attr)),
                                  call('iop', cst(op), ast.Attribute(value=name(q), attr=t.attr, ctx=ast.Load()), v)))]
        if isinstance(t, ast.Subscript):
            q, k = self.temp(), self.temp()
            return [ast.Assign(targets=[ast.Name(id=q, ctx=ast.Store())], value=self.visit(t.value)),
                    ast.Assign(targets=[ast.Name(id=k, ctx=ast.Store())], value=self.key(t.slice)),
                    ast.Expr(call('setitem', name(q), name(k),
                                  call('iop', cst(op), call('getitem', name(q), name(k)), v)))]
        raise Unsupported('augmented target')

    def visit_Delete(self, n):
        out = []
        for t in n.targets:
            if isinstance(t, ast.Name): out.append(ast.Delete(targets=[t]))
            elif isinstance(t, ast.Attribute): out.append(ast.Expr(call('delattr_', self.visit(t.value), cst(self.mangle(t.attr)))))
            elif isinstance(t, ast.Subscript): out.append(ast.Expr(call('delitem', self.visit(t.value), self.key(t.slice))))
            else: raise Unsupported('del')
        return out

    def visit_Assert(self, n):
        exc = ast.Call(func=name('AssertionError'), args=[self.visit(n.msg)] if n.msg else [], keywords=[])
        return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=call('truth', self.visit(n.test))),
                      body=[ast.Raise(exc=exc, cause=None)], orelse=[])

    def visit_If(self, n):
        merge = self.infn() and self.loop[-1] > 0 and not bad(n.body) and not bad(n.orelse) \
            and len(n.body) + len(n.orelse) <= 12
        vs = assigned(n.body + n.orelse) if merge else []
        if any(v in self.nonlocals[-1] for v in vs): merge = False
        test = self.visit(n.test)
        if not merge:
            n.test = call('truth', test)
            n.body = self.stmts(n.body)
            n.orelse = self.stmts(n.orelse)
            return n
        body = self.stmts(n.body)
        orelse = self.stmts(n.orelse)
        c = self.temp()
        snap = [lam(name(v)) for v in vs]
        def setvars(method):
            val = ast.Call(func=ast.Attribute(value=name(c), attr=method, ctx=ast.Load()), args=copy.deepcopy(snap), keywords=[])
            if not vs: return [ast.Expr(val)]
            out = [ast.Assign(targets=[ast.Tuple(elts=[ast.Name(id=v, ctx=ast.Store()) for v in vs], ctx=ast.Store())], value=val)]
            for v in vs:
                out.append(ast.If(test=ast.Compare(left=name(v), ops=[ast.Is()], comparators=[dv('UNB')]),
                                  body=[ast.Delete(targets=[ast.Name(id=v, ctx=ast.Del())])], orelse=[]))
            return out
        handler = ast.ExceptHandler(type=name('BaseException'), name='_dve',
                                    body=[ast.Expr(ast.Call(func=ast.Attribute(value=name(c), attr='exc', ctx=ast.Load()),
                                                            args=[name('_dve')], keywords=[]))])
        both = [ast.Expr(ast.Call(func=ast.Attribute(value=name(c), attr='start', ctx=ast.Load()),
                                  args=copy.deepcopy(snap), keywords=[])),
                ast.Try(body=copy.deepcopy(body) + setvars('mid') + copy.deepcopy(orelse) + setvars('end'),
                        handlers=[handler], orelse=[], finalbody=[])]
        def cmpis(v): return ast.Compare(left=name(c), ops=[ast.Is()], comparators=[cst(v)])
        return [ast.Assign(targets=[ast.Name(id=c, ctx=ast.Store())], value=call('cond', test, cst(True))),
                ast.If(test=cmpis(True), body=body,
                       orelse=[ast.If(test=cmpis(False), body=orelse or [ast.Pass()], orelse=both)])]

    def contract(self, n):
        """(function, position) of a loop that has a contract"""
        q = '%s:%s' % (self.module, '.'.join(self.scope))
        k = self.nloops.get(q, 0)
        self.nloops[q] = k + 1
        return (q, k) if (q, k) in loops.WANT else None

    def cut(self, key, names, it, test, pre, body, orelse, orig, mutated_=()):
        """the loop with its contract, when a task has it active; else as written"""
        loops.FOUND.add(key)
        names = [v for v in names if not v.startswith('_dvt')]
        names += [v for v in mutated_ if v not in names and v in self.locals[-1] and v != 'self']
        if 'self' not in names and any(isinstance(x, ast.Name) and x.id == 'self' for b in body for x in ast.walk(b)): names = names + ['self']
        c = self.temp()
        snap = [lam(name(v)) for v in names]
        def meth(m, *a): return ast.Call(func=ast.Attribute(value=name(c), attr=m, ctx=ast.Load()), args=list(a), keywords=[])
        head = []
        if names:
            head.append(ast.Assign(targets=[ast.Tuple(elts=[ast.Name(id=v, ctx=ast.Store()) for v in names], ctx=ast.Store())], value=meth('head', *copy.deepcopy(snap))))
            for v in names:
                head.append(ast.If(test=ast.Compare(left=name(v), ops=[ast.Is()], comparators=[dv('UNB')]),
                                   body=[ast.Delete(targets=[ast.Name(id=v, ctx=ast.Del())])], orelse=[]))
        else: head.append(ast.Expr(meth('head')))
        once = ast.For(target=ast.Name(id=self.temp(), ctx=ast.Store()), iter=ast.Tuple(elts=[cst(0)], ctx=ast.Load()),
                       body=copy.deepcopy(pre(meth) + body), orelse=[ast.Expr(meth('back', *copy.deepcopy(snap)))])
        cutl = head + [ast.If(test=test if test is not None else meth('more'), body=[once], orelse=copy.deepcopy(orelse))]
        return [ast.Assign(targets=[ast.Name(id=c, ctx=ast.Store())],
                           value=call('loop', cst(key[0]), cst(key[1]), ast.Tuple(elts=[cst(v) for v in names], ctx=ast.Load()), it)),
                ast.If(test=ast.Compare(left=name(c), ops=[ast.Is()], comparators=[cst(None)]), body=[orig], orelse=cutl)]

    def visit_While(self, n):
        key = self.contract(n)
        names, muts = assigned(n.body), mutated(n.body)
        n.test = call('truth', self.visit(n.test))
        self.loop[-1] += 1
        n.body = self.stmts(n.body)
        self.loop[-1] -= 1
        n.orelse = self.stmts(n.orelse)
        if key: return self.cut(key, names, cst(None), copy.deepcopy(n.test), lambda m: [], n.body, n.orelse, n, muts)
        return n

    def visit_For(self, n):
        key = self.contract(n)
        names, muts = assigned([n]), mutated(n.body)
        n.iter = call('iterable', self.visit(n.iter))
        pre = []
        if not self.simple(n.target):
            q = self.temp()
            pre = self.store(n.target, name(q))
            n.target = ast.Name(id=q, ctx=ast.Store())
        self.loop[-1] += 1
        n.body = pre + self.stmts(n.body)
        self.loop[-1] -= 1
        n.orelse = self.stmts(n.orelse)
        if key:
            q = self.temp()
            it, n.iter = n.iter, name(q)
            return [ast.Assign(targets=[ast.Name(id=q, ctx=ast.Store())], value=it)] + \
                self.cut(key, names, name(q), None, lambda m: [ast.Assign(targets=[copy.deepcopy(n.target)], value=m('item'))], n.body, n.orelse, n, muts)
        return n

    def visit_ExceptHandler(self, n):
        if n.type is None: n.type = name('Exception')
        else: n.type = self.visit(n.type)
        n.body = [ast.Expr(call('caught'))] + self.stmts(n.body)
        return n
    def visit_Try(self, n):
        n.body = self.stmts(n.body)
        n.handlers = [self.visit(h) for h in n.handlers]
        n.orelse = self.stmts(n.orelse)
        n.finalbody = self.stmts(n.finalbody)
        return n
    def visit_With(self, n):
        for it in n.items: it.context_expr = self.visit(it.context_expr)
        n.body = self.stmts(n.body)
        return n
    def visit_Match(self, n): raise Unsupported('match statement')

    # ---- expressions
    def key(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: cst(None) if x is None else self.visit(x)
            return call('slice_', f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self.key(e) for e in s.elts], ctx=ast.Load())
        return self.visit(s)
    def visit_Subscript(self, n):
        if not isinstance(n.ctx, ast.Load): return n
        return call('getitem', self.visit(n.value), self.key(n.slice))
    def visit_BinOp(self, n):
        l, r = self.visit(n.left), self.visit(n.right)
        if isinstance(n.op, ast.Mod): return call('mod', l, r)
        n.left, n.right = l, r
        return n
    def visit_UnaryOp(self, n):
        n.operand = self.visit(n.operand)
        if isinstance(n.op, ast.Not): return call('not_', n.operand)
        return n
    def visit_BoolOp(self, n):
        vals = [self.visit(v) for v in n.values]
        if not self.infn():
            n.values = [call('truth', v) if not isinstance(v, ast.Constant) else v for v in vals[:-1]] + vals[-1:]
            n.values = vals
            return n
        if any(has_yield(v) for v in vals): raise Unsupported('yield in a boolean operation')
        return call('and_' if isinstance(n.op, ast.And) else 'or_', *[lam(v) for v in vals])
    def visit_IfExp(self, n):
        t, a, b = self.visit(n.test), self.visit(n.body), self.visit(n.orelse)
        if self.infn() and not has_yield(a) and not has_yield(b) and (
                isinstance(n.body, ast.Constant) and isinstance(n.orelse, ast.Constant) or self.loop[-1] > 0):
            return call('ifexp', t, lam(a), lam(b))
        n.test, n.body, n.orelse = call('truth', t), a, b
        return n
    def visit_Compare(self, n):
        l = self.visit(n.left)
        rs = [self.visit(r) for r in n.comparators]
        if len(rs) == 1:
            op = n.ops[0]
            if isinstance(op, ast.In): return call('contains', l, rs[0])
            if isinstance(op, ast.NotIn): return call('not_contains', l, rs[0])
            if isinstance(op, ast.Is): return call('is_', l, rs[0])
            if isinstance(op, ast.IsNot): return call('is_not', l, rs[0])
            return call('compare', cst(CMPNAME[type(op)]), l, rs[0])
        args = [l]
        for op, r in zip(n.ops, rs):
            args.append(ast.Tuple(elts=[cst(CMPNAME[type(op)]), lam(r)], ctx=ast.Load()))
        return call('chain', *args)
    def visit_Call(self, n):
        n.args = [self.visit(a) for a in n.args]
        for k in n.keywords: k.value = self.visit(k.value)
        f = n.func
        if isinstance(f, ast.Name):
            if f.id in ('super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec'): return n
            return ast.Call(func=dv('call'), args=[f] + n.args, keywords=n.keywords)
        if isinstance(f, ast.Attribute):
            return ast.Call(func=dv('callm'), args=[self.visit(f.value), cst(self.mangle(f.attr))] + n.args, keywords=n.keywords)
        return ast.Call(func=dv('call'), args=[self.visit(f)] + n.args, keywords=n.keywords)
    def visit_JoinedStr(self, n):
        return call('fstr', *self.fparts(n))
    def fparts(self, n):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant): out.append(v)
            else:
                spec = cst('') if v.format_spec is None else call('fstr', *self.fparts(v.format_spec))
                out.append(ast.Tuple(elts=[self.visit(v.value), cst(v.conversion), spec], ctx=ast.Load()))
        return out
    def comp(self, n, *elts):
        self.kinds.append('f'); self.scope.append('<comp>'); self.loop.append(1)
        for i, g in enumerate(n.generators):
            g.iter = call('iterable', self.visit(g.iter))
            g.ifs = [call('truth', self.visit(c)) for c in g.ifs]
        for e in elts: setattr(n, e, self.visit(getattr(n, e)))
        self.kinds.pop(); self.scope.pop(); self.loop.pop()
        return n
    def visit_ListComp(self, n): return self.comp(n, 'elt')
    visit_SetComp = visit_ListComp
    def visit_GeneratorExp(self, n):
        g = n.generators[0]
        simple = all(isinstance(x, (ast.expr_context, ast.operator, ast.Name, ast.Constant, ast.BinOp)) for x in ast.walk(n.elt))
        if len(n.generators) == 1 and not g.ifs and not g.is_async and isinstance(g.target, ast.Name) and simple:
            name = g.target.id
            n = self.comp(n, 'elt')
            f = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=name)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=n.elt)
            return call('genexp', n.generators[0].iter, f)
        return self.comp(n, 'elt')
    def visit_DictComp(self, n): return self.comp(n, 'key', 'value')
    def visit_NamedExpr(self, n):
        n.value = self.visit(n.value)
        return n

def rewrite(src, path, module):
    tree = ast.parse(src, path)
    r = Rewrite(module)
    tree.body = r.stmts(tree.body)
    ast.fix_missing_locations(tree)
    return tree

class Package(object):
    """one freshly extracted copy of the package"""
    def __init__(self, repo=None, only=None, extra=()):
        self.repo = repo or REPO
        self.modules = {}
        self.functions = {}
        self.load(extra)

    def load(self, extra):
        import collections, collections.abc
        for a in ('Sequence', 'Mapping', 'Iterable', 'MutableSequence', 'Callable', 'Hashable', 'Sized', 'Container', 'Iterator'):
            if not hasattr(collections, a): setattr(collections, a, getattr(collections.abc, a))
        for m in [k for k in sys.modules if k == PKG or k.startswith(PKG + '.')]:
            del sys.modules[m]
        d = os.path.join(self.repo, PKG)
        finder = _Finder(self, d)
        sys.meta_path.insert(0, finder)
        try:
            import importlib
            importlib.import_module(PKG)
            for f in sorted(os.listdir(d)):
                if f.endswith('.py') and f not in ('__init__.py', '__main__.py', '_version.py', 'setup.py'):
                    importlib.import_module(PKG + '.' + f[:-3])
        finally:
            sys.meta_path.remove(finder)
        for k, m in list(sys.modules.items()):
            if k.startswith(PKG + '.'): self.modules[k[len(PKG) + 1:]] = m
            elif k == PKG: self.modules[''] = m
    def __getattr__(self, n):
        if n == 'console' and 'console' not in self.__dict__['modules']: self.load_console()
        try: return self.__dict__['modules'][n]
        except KeyError: raise AttributeError(n)
    def load_console(self):
        from . import console, engine as E
        try: path, src = console.source(self.repo)
        except (OSError, ValueError) as x: raise Unsupported('console: %s' % x)
        cur, E._current[0] = E._current[0], None
        try:
            m = types.ModuleType(PKG + '.__main__')
            m.__dict__['_dv'] = lift
            m.__file__ = path
            try: tree = rewrite(src, path, '__main__')
            except SyntaxError as x: raise Unsupported('console: %s' % x)
            exec(compile(tree, path, 'exec'), m.__dict__)
        finally: E._current[0] = cur
        self.modules['console'] = m

class _Finder(object):
    def __init__(self, pkg, d): self.pkg = pkg; self.d = d
    def find_spec(self, fullname, path=None, target=None):
        import importlib.machinery
        if fullname == PKG:
            return importlib.machinery.ModuleSpec(fullname, _Loader(os.path.join(self.d, '__init__.py'), ''), is_package=True)
        if fullname.startswith(PKG + '.'):
            n = fullname[len(PKG) + 1:]
            p = os.path.join(self.d, *n.split('.'))
            if os.path.isdir(p):
                return importlib.machinery.ModuleSpec(fullname, _Loader(os.path.join(p, '__init__.py'), n), is_package=True)
            p += '.py'
            if n == '_version': return importlib.machinery.ModuleSpec(fullname, _Loader(None, n))
            if os.path.exists(p): return importlib.machinery.ModuleSpec(fullname, _Loader(p, n))
        return None

class _Loader(object):
    def __init__(self, path, module): self.path = path; self.module = module
    def create_module(self, spec): return None
    def exec_module(self, mod):
        if self.path is None:
            mod.version = mod.__version__ = '0'
            return
        with open(self.path, encoding='utf-8') as f: src = f.read()
        mod.__dict__['_dv'] = lift
        mod.__file__ = self.path
        try:
            tree = rewrite(src, self.path, self.module)
        except SyntaxError as e:
            raise Unsupported('cannot parse %s: %s' % (self.path, e))
        exec(compile(tree, self.path, 'exec'), mod.__dict__)

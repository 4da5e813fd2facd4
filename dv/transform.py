"""Mechanical transformation of the repository's source, redone on every run.

The text that runs is the repository's own AST; only these rewrites are made:
  * `if`, conditional expressions, `and`/`or`/`not` and comparison chains are routed
    through the runtime so that a symbolic condition explores both sides;
  * `for` loops are routed through the runtime so that a loop over a symbolic
    range is summarised from one generic iteration (inductive closed form);
  * float literals become exact decimal rationals and `/` becomes exact division;
  * attribute stores and native container mutation are logged;
  * numpy / math names are bound to the symbolic shim; other imports of the
    package are transformed in the same way, everything else is imported as is.
Concrete values take the ordinary Python path through the same statements.
"""
import ast, sys, os, types, builtins, importlib

REPO = os.environ.get('DV_REPO', '/repo')
PKG = 'gravity_toolkit'
MUT = {'append', 'extend', 'insert', 'update', 'pop', 'remove', 'sort', 'clear', 'popitem', 'setdefault', 'add', 'discard', 'reverse'}

def assigned(nodes):
    """names bound by the statements (not inside nested functions)"""
    out = []
    def tgt(n):
        if isinstance(n, ast.Name):
            if n.id not in out: out.append(n.id)
        elif isinstance(n, (ast.Tuple, ast.List)):
            for e in n.elts: tgt(e)
        elif isinstance(n, ast.Starred): tgt(n.value)
    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            if n.name not in out: out.append(n.name)
        def visit_ClassDef(self, n): pass
        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n): pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
        def visit_Assign(self, n):
            for x in n.targets: tgt(x)
            self.visit(n.value)
        def visit_AugAssign(self, n): tgt(n.target); self.visit(n.value)
        def visit_AnnAssign(self, n): tgt(n.target)
        def visit_For(self, n): tgt(n.target); self.generic_visit(n)
        def visit_With(self, n):
            for i in n.items:
                if i.optional_vars is not None: tgt(i.optional_vars)
            self.generic_visit(n)
        def visit_NamedExpr(self, n): tgt(n.target)
        def visit_ExceptHandler(self, n):
            self.generic_visit(n)
        def visit_Import(self, n):
            for a in n.names:
                x = (a.asname or a.name).split('.')[0]
                if x not in out: out.append(x)
        visit_ImportFrom = visit_Import
    v = V()
    for n in nodes: v.visit(n)
    return [x for x in out if not x.startswith('_dv_')]

def has_jump(nodes, loop_ok=False):
    """return/yield/raise, or break/continue that leaves these statements"""
    class V(ast.NodeVisitor):
        r = False; d = 0
        def visit_FunctionDef(self, n): pass
        def visit_Lambda(self, n): pass
        def visit_ClassDef(self, n): pass
        def visit_Return(self, n): self.r = True
        def visit_Raise(self, n): self.r = True
        def visit_Yield(self, n): self.r = True
        def visit_YieldFrom(self, n): self.r = True
        def visit_Break(self, n):
            if self.d == 0: self.r = True
        def visit_Continue(self, n):
            if self.d == 0: self.r = True
        def visit_For(self, n):
            self.d += 1; self.generic_visit(n); self.d -= 1
        visit_While = visit_For
    v = V()
    for n in nodes: v.visit(n)
    return v.r

def has_return(nodes):
    class V(ast.NodeVisitor):
        r = False
        def visit_FunctionDef(self, n): pass
        def visit_Lambda(self, n): pass
        def visit_Return(self, n): self.r = True
        def visit_Yield(self, n): self.r = True
    v = V()
    for n in nodes: v.visit(n)
    return v.r

def E(src): return ast.parse(src, mode='eval').body
def ST(src): return ast.parse(src).body
def call(fn, *args):
    return ast.Call(func=ast.Attribute(value=ast.Name(id='_dv_', ctx=ast.Load()), attr=fn, ctx=ast.Load()), args=list(args), keywords=[])
def lam(body): return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
def name(x, ctx=None): return ast.Name(id=x, ctx=ctx or ast.Load())

class T(ast.NodeTransformer):
    def __init__(self, fname):
        self.n = 0; self.fname = fname; self.infunc = 0; self.src = None
    def uid(self):
        self.n += 1; return self.n
    def site(self, node): return '%s:%d' % (self.fname, node.lineno)
    # ---- expressions
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(call('lit', ast.Constant(value=repr(n.value)), n), n)
        if isinstance(n.value, complex):
            return ast.copy_location(call('clit', ast.Constant(value=repr(n.value.imag))), n)
        return n
    def visit_JoinedStr(self, n):
        # format specs hold constants that must stay strings
        for v in n.values:
            if isinstance(v, ast.FormattedValue): v.value = self.visit(v.value)
        return n
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div): return ast.copy_location(call('div', n.left, n.right), n)
        if isinstance(n.op, ast.Pow): return ast.copy_location(call('pow', n.left, n.right), n)
        if isinstance(n.op, ast.Mod) and not isinstance(n.left, ast.Constant):
            return ast.copy_location(call('mod', n.left, n.right), n)
        return n
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Div,)):
            return ast.copy_location(ast.Assign(targets=[n.target], value=call('idiv_', name(n.target.id), n.value)), n)
        if isinstance(n.target, ast.Attribute):
            pass
        return n
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        f = 'and_' if isinstance(n.op, ast.And) else 'or_'
        return ast.copy_location(call(f, *[lam(v) for v in n.values]), n)
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not): return ast.copy_location(call('not_', n.operand), n)
        return n
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            if isinstance(n.ops[0], (ast.In, ast.NotIn)):
                r = call('in_', n.left, n.comparators[0])
                if isinstance(n.ops[0], ast.NotIn): r = call('not_', r)
                return ast.copy_location(r, n)
            return n
        # a < b < c
        parts = []; left = n.left
        names = []
        items = [n.left] + n.comparators
        params = ['_dv_c%d' % i for i in range(len(items))]
        for i, op in enumerate(n.ops):
            parts.append(lam(ast.Compare(left=name(params[i]), ops=[op], comparators=[name(params[i + 1])])))
        body = call('and_', *parts)
        fn = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in params], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
        return ast.copy_location(ast.Call(func=fn, args=items, keywords=[]), n)
    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.copy_location(call('ifexp', n.test, lam(n.body), lam(n.orelse)), n)
    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].ifs and not n.generators[0].is_async:
            g = n.generators[0]
            if isinstance(g.target, ast.Name): params = [g.target.id]; star = False
            elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                params = [e.id for e in g.target.elts]; star = True
            else: return n
            fn = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in params], kwonlyargs=[], kw_defaults=[], defaults=[]), body=n.elt)
            return ast.copy_location(call('listcomp', fn, g.iter, ast.Constant(value=star)), n)
        return n
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
            n.func.value = call('mutated', n.func.value)
        if isinstance(n.func, ast.Name) and n.func.id == 'bool' and len(n.args) == 1 and not n.keywords: return call('tobool', *n.args)
        return n
    # ---- statements
    def visit_FunctionDef(self, n):
        self.infunc += 1
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        n.body = self.block(n.body)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        self.infunc -= 1
        return n
    def visit_Lambda(self, n):
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.body = self.visit(n.body)
        return n
    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None: continue
            out.extend(r if isinstance(r, list) else [r])
        return out or [ast.Pass()]
    def visit_Assign(self, n):
        n.value = self.visit(n.value)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            tg = n.targets[0]
            return ast.copy_location(ast.Expr(value=call('setattr_', self.visit(tg.value), ast.Constant(value=tg.attr), n.value)), n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            tg = n.targets[0]
            tg.value = call('stored', self.visit(tg.value)); tg.slice = self.visit(tg.slice)
            return n
        if any(self._hasattr(x) for x in n.targets):
            u = '_dv_t%d' % self.uid()
            res = [ast.Assign(targets=[name(u, ast.Store())], value=n.value)]
            for tg in n.targets:
                res += self._destruct(tg, name(u))
            return [ast.copy_location(x, n) for x in res]
        n.targets = [self.visit(x) for x in n.targets]
        return n
    def _hasattr(self, tg):
        return any(isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store) for x in ast.walk(tg))
    def _destruct(self, tg, val):
        if isinstance(tg, (ast.Tuple, ast.List)):
            u = ['_dv_t%d' % self.uid() for _ in tg.elts]
            res = [ast.Assign(targets=[ast.Tuple(elts=[name(x, ast.Store()) for x in u], ctx=ast.Store())], value=val)]
            for e, x in zip(tg.elts, u): res += self._destruct(e, name(x))
            return res
        if isinstance(tg, ast.Attribute):
            return [ast.Expr(value=call('setattr_', self.visit(tg.value), ast.Constant(value=tg.attr), val))]
        if isinstance(tg, ast.Subscript):
            tg.value = call('stored', self.visit(tg.value)); tg.slice = self.visit(tg.slice)
        return [ast.Assign(targets=[tg], value=val)]
    def capture(self, names_):
        return ast.Tuple(elts=[call('get', lam(name(x))) for x in names_], ctx=ast.Load())
    def restore(self, names_, value):
        if not names_:
            return [ast.Expr(value=value)]
        return [ast.Assign(targets=[ast.Tuple(elts=[name(x, ast.Store()) for x in names_], ctx=ast.Store())], value=value)]
    def visit_If(self, n):
        if not self.infunc:
            return self.generic_visit_stmt(n)
        vs = assigned(n.body + n.orelse)
        jump = has_jump(n.body + n.orelse)
        test = self.visit(n.test)
        body = self.block(n.body); orelse = self.block(n.orelse) if n.orelse else []
        if jump:
            n.test = call('fork', test); n.body = body; n.orelse = orelse
            return n
        h = '_dv_h%d' % self.uid()
        site = self.site(n)
        res = [ast.Assign(targets=[name(h, ast.Store())], value=call('If', test, ast.Constant(value=site), ast.Constant(value=False)))]
        inner = []
        if vs: inner += self.restore(vs, ast.Call(func=E('%s.start' % h), args=[self.capture(vs)], keywords=[]))
        else: inner += ST('%s.start(())' % h)
        inner.append(ast.If(test=E('%s.take()' % h), body=body, orelse=orelse))
        inner.append(ast.Expr(value=ast.Call(func=E('%s.end' % h), args=[self.capture(vs)], keywords=[])))
        res.append(ast.While(test=E('%s.more()' % h), body=inner, orelse=[]))
        if vs: res += self.restore(vs, E('%s.result()' % h))
        return [ast.copy_location(x, n) for x in res]
    def generic_visit_stmt(self, n):
        n.test = self.visit(n.test); n.body = self.block(n.body); n.orelse = self.block(n.orelse) if n.orelse else []
        return n
    def visit_For(self, n):
        it = self.visit(n.iter)
        body_src = n.body
        vs = assigned([ast.Assign(targets=[n.target], value=ast.Constant(value=0))] + n.body)
        ret = has_return(n.body)
        body = self.block(n.body); orelse = self.block(n.orelse) if n.orelse else []
        tgt = n.target
        if not self.infunc:
            n.iter = it; n.body = body; n.orelse = orelse
            return n
        h = '_dv_h%d' % self.uid()
        res = [ast.Assign(targets=[name(h, ast.Store())], value=call('Loop', it, ast.Constant(value=self.site(n))))]
        conc = ast.For(target=tgt, iter=E('%s.it' % h), body=body, orelse=orelse)
        if ret or orelse:
            symb = ST("raise _dv_.Unsupported('return or else in a symbolic loop at %s')" % self.site(n))
        else:
            inner = []
            inner += self.restore(vs, ast.Call(func=E('%s.enter' % h), args=[self.capture(vs)], keywords=[]))
            inner.append(ast.Assign(targets=[tgt], value=E('%s.item()' % h)))
            inner += body
            inner.append(ast.Expr(value=ast.Call(func=E('%s.leave' % h), args=[self.capture(vs)], keywords=[])))
            symb = [ast.While(test=E('%s.more()' % h), body=inner, orelse=[])]
            symb += self.restore(vs, E('%s.result()' % h))
        res.append(ast.If(test=E('%s.conc' % h), body=[conc], orelse=symb))
        return [ast.copy_location(x, n) for x in res]
    def visit_While(self, n):
        n.test = call('fork', self.visit(n.test)); n.body = self.block(n.body); n.orelse = self.block(n.orelse) if n.orelse else []
        return n
    def visit_Try(self, n):
        n.body = self.block(n.body); n.orelse = self.block(n.orelse) if n.orelse else []
        n.finalbody = self.block(n.finalbody) if n.finalbody else []
        for h in n.handlers: h.body = self.block(h.body)
        return n
    def visit_With(self, n):
        for i in n.items: i.context_expr = self.visit(i.context_expr)
        n.body = self.block(n.body)
        return n
    def visit_Assert(self, n):
        n.test = call('fork', self.visit(n.test)); return n
    def visit_Module(self, n):
        n.body = self.block(n.body); return n
    def visit_ClassDef(self, n):
        n.body = self.block(n.body); return n
    def visit_Delete(self, n): return n

def transform_source(src, fname):
    tree = ast.parse(src)
    tree = T(fname).visit(tree)
    ast.fix_missing_locations(tree)
    return tree

# ---- module loading -----------------------------------------------------------------------
class Loader:
    def __init__(self, dv, shims, repo=None):
        self.dv = dv; self.shims = shims; self.mods = {}; self.repo = repo or REPO
        self.real = {PKG + '.version'}
        self.overrides = {}      # qualified function name -> replacement
        self.loaded_src = {}
    def path(self, nm):
        p = os.path.join(self.repo, *nm.split('.'))
        if os.path.isdir(p): return os.path.join(p, '__init__.py'), True
        return p + '.py', False
    def load(self, nm):
        if nm in self.mods: return self.mods[nm]
        if nm in self.real:
            m = importlib.import_module(nm)
            self.mods[nm] = m; return m
        p, pkg = self.path(nm)
        if pkg and not os.path.exists(p) and nm != PKG:
            # a folder of programs
            m = types.ModuleType(nm); m.__path__ = [os.path.dirname(p)]; self.mods[nm] = m
            return m
        if not os.path.exists(p): raise ModuleNotFoundError(nm)
        m = types.ModuleType(nm)
        m.__file__ = p; m.__package__ = nm if pkg else nm.rpartition('.')[0]
        if pkg: m.__path__ = [os.path.dirname(p)]
        self.mods[nm] = m
        if nm == PKG:
            # the package __init__ only re-exports names: resolved lazily
            m.__getattr__ = lambda a: self._pkgattr(a)
            m.__dict__['__version__'] = 'x'
            return m
        with open(p, encoding='utf8') as f: src = f.read()
        self.loaded_src[nm] = src
        tree = transform_source(src, os.path.relpath(p, self.repo))
        code = compile(tree, p, 'exec')
        b = dict(builtins.__dict__)
        b['__import__'] = self.imp
        b.update(self.dv.builtins())
        m.__dict__['__builtins__'] = b
        m.__dict__['_dv_'] = self.dv
        exec(code, m.__dict__)
        return m
    def _pkgattr(self, a):
        # names re-exported by the package win over submodules of the same name
        init = open(os.path.join(self.repo, PKG, '__init__.py'), encoding='utf8').read()
        for st in ast.parse(init).body:
            if isinstance(st, ast.ImportFrom) and st.module and st.module.startswith(PKG):
                for al in st.names:
                    if (al.asname or al.name) == a and st.module == PKG: return self.load(PKG + '.' + al.name)
                    if (al.asname or al.name) == a: return getattr(self.load(st.module), al.name)
        if not a.startswith('_'):
            try: return self.load(PKG + '.' + a)
            except ModuleNotFoundError: pass
        raise AttributeError(a)
    def imp(self, nm, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals.get('__package__', '').split('.')
            base = base[:len(base) - level + 1]
            nm = '.'.join(base + ([nm] if nm else []))
        root = nm.split('.')[0]
        if root in self.shims:
            full = self.shims.get(nm)
            if full is None:
                full = self.shims[root]
                for part in nm.split('.')[1:]: full = getattr(full, part)
            return full if fromlist else self.shims[root]
        if root in (PKG, "scripts"):
            m = self.load(nm)
            # make submodules reachable from the package
            parts = nm.split('.')
            for i in range(1, len(parts)):
                par = self.load('.'.join(parts[:i]))
                if i > 1 or root != PKG: setattr(par, parts[i], self.load('.'.join(parts[:i + 1])))
            if fromlist:
                for f in fromlist:
                    if f == '*' or hasattr(m, f): continue
                    try: setattr(m, f, self.load(nm + '.' + f))
                    except ModuleNotFoundError: pass
                return m
            return self.load(root)
        return builtins.__import__(nm, globals, locals, fromlist, level)

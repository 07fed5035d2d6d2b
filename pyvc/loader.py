"""loads the real modules of /repo for verification.

Mechanical transformation applied to each module on every run:
  * `for` loops get a second, contract-cutting form used only when the iterable is a symbolic
    (unknown-length) container; with a concrete iterable the original statement runs unchanged;
  * list comprehensions / generator expressions over symbolic containers go through the same rule;
  * imports of numpy/math resolve to shims (real numpy on concrete values), pylab/matplotlib to inert stubs;
  * the builtins float,int,min,max,sum,len,range,isinstance,sorted,any,all,round,bin are shims with the same
    meaning extended to symbolic values; print is silenced;
  * the compiled extension pacal.bary_interp is not loaded (the pure Python fallback is used).
Nothing else is dropped or changed.
"""
import ast, sys, os, types, importlib, importlib.util, importlib.abc, builtins, copy
from . import core, npshim, loops
from .core import Num, SBool, Unsupported

REPO = os.environ.get('PYVC_REPO', '/repo')

class Inert:
    def __call__(self, *a, **k): return Inert()
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return Inert()
    def __iter__(self): return iter(())

class InertModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__') and n != '__all__': raise AttributeError(n)
        if n == '__all__': return []
        return Inert()

# ---------------------------------------------------------------- AST transformation
def assigned_names(nodes):
    out = []
    class V(ast.NodeVisitor):
        def add(self, n):
            if n not in out: out.append(n)
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)): self.add(n.id)
        def visit_FunctionDef(self, n): self.add(n.name)
        def visit_ClassDef(self, n): self.add(n.name)
        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n): pass
        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp
        def visit_Import(self, n):
            for a in n.names: self.add((a.asname or a.name).split('.')[0])
        visit_ImportFrom = visit_Import
        def visit_ExceptHandler(self, n):
            if n.name: self.add(n.name)
            self.generic_visit(n)
    for x in nodes: V().visit(x)
    return out

def contains(nodes, types_, stop=(ast.FunctionDef, ast.Lambda, ast.ClassDef)):
    for x in nodes:
        todo = [x]
        while todo:
            y = todo.pop()
            if isinstance(y, types_): return True
            for c in ast.iter_child_nodes(y):
                if isinstance(c, stop): continue
                todo.append(c)
    return False

class BodyRewrite(ast.NodeTransformer):
    """break/continue/return of the loop body -> return codes"""
    def __init__(self): self.depth = 0
    def visit_FunctionDef(self, n): return n
    def visit_Lambda(self, n): return n
    def visit_ClassDef(self, n): return n
    def _loop(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n
    visit_For = visit_While = _loop
    def _code(self, n, name, val=None):
        call = ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()), name, ast.Load()), [val] if val is not None else [], [])
        return ast.copy_location(ast.Return(call), n)
    def visit_Break(self, n):
        return n if self.depth else self._code(n, 'c_break')
    def visit_Continue(self, n):
        return n if self.depth else self._code(n, 'c_continue')
    def visit_Return(self, n):
        return self._code(n, 'c_return', n.value if n.value is not None else ast.Constant(None))

class Xf(ast.NodeTransformer):
    def __init__(self):
        self.fstack = []
        self.k = 0
    def visit_FunctionDef(self, n):
        info = {'nonlocals': set(), 'globals': set(), 'needbind': set()}
        for x in ast.walk(n):
            if isinstance(x, ast.Global): info['globals'].update(x.names)
        self.fstack.append(info)
        self.generic_visit(n)
        self.fstack.pop()
        if info['needbind']:
            names = sorted(info['needbind'])
            own_nonlocal = set()
            for x in n.body:
                if isinstance(x, ast.Nonlocal): own_nonlocal.update(x.names)
            names = [m for m in names if m not in own_nonlocal]
            if names:
                st = ast.If(ast.Constant(False), [ast.Assign([ast.Name(m, ast.Store())], ast.Constant(None)) for m in names], [])
                k = 0
                while k < len(n.body) and (isinstance(n.body[k], (ast.Nonlocal, ast.Global)) or isinstance(n.body[k], ast.Expr) and isinstance(n.body[k].value, ast.Constant)):
                    k += 1
                n.body.insert(k, ast.copy_location(st, n.body[0]))
        return n
    def visit_ClassDef(self, n):
        self.fstack.append(None)
        self.generic_visit(n)
        self.fstack.pop()
        return n
    def visit_Lambda(self, n):
        self.fstack.append(None)
        self.generic_visit(n)
        self.fstack.pop()
        return n
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
            call = ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()), 'is_none', ast.Load()), [n.left], [])
            r = call if isinstance(n.ops[0], ast.Is) else ast.UnaryOp(ast.Not(), call)
            return ast.fix_missing_locations(ast.copy_location(r, n))
        return n
    def visit_For(self, n):
        self.generic_visit(n)
        if not self.fstack or self.fstack[-1] is None: return n
        info = self.fstack[-1]
        if info['globals']: return n
        if contains(n.body, (ast.Yield, ast.YieldFrom, ast.Await)): return n
        self.k += 1
        k = self.k
        names = assigned_names([n.target] + n.body)
        names = [m for m in names if not m.startswith('__vc')]
        info['needbind'].update(names)
        itn = '__vc_it%d' % k
        body = [BodyRewrite().visit(copy.deepcopy(s)) for s in n.body]
        flat = []
        for s in body: flat.append(s)
        src_names = names
        def mk(s):
            return ast.parse(s).body
        new = []
        new += mk("%s = __vc__.iter(None)" % itn)
        new[0].value.args = [n.iter]
        cond_true = []
        f = mk("def __vc_body%d(__vc_e%d):\n    pass" % (k, k))[0]
        if names: f.body = mk("def q():\n  nonlocal %s" % ', '.join(names))[0].body
        else: f.body = []
        asg = ast.Assign([n.target], ast.Name('__vc_e%d' % k, ast.Load()))
        f.body = f.body + [asg] + flat + mk("def q():\n  return __vc__.c_normal()")[0].body
        cond_true.append(f)
        g = "def __vc_get%d():\n    __o = {}\n" % k
        for m in names:
            g += "    try: __o[%r] = %s\n    except NameError: pass\n" % (m, m)
        g += "    return __o\n"
        cond_true += mk(g)
        s = "def __vc_set%d(__n, __v):\n" % k
        if names: s += "    nonlocal %s\n" % ', '.join(names)
        for m in names: s += "    if __n == %r: %s = __v\n" % (m, m)
        s += "    return None\n"
        cond_true += mk(s)
        cond_true += mk("__vc_r%d = __vc__.symloop(%r, %s, __vc_body%d, __vc_get%d, __vc_set%d, %r, __file__)" % (k, n.lineno, itn, k, k, k, names))
        cond_true += mk("def q():\n  if __vc_r%d.returned: return __vc_r%d.value" % (k, k))[0].body
        if n.orelse:
            t = mk("if not __vc_r%d.broken:\n  pass" % k)[0]
            t.body = copy.deepcopy(n.orelse)
            cond_true.append(t)
        orig = ast.For(n.target, ast.Name(itn, ast.Load()), n.body, n.orelse)
        top = mk("if __vc__.issym(%s):\n  pass\nelse:\n  pass" % itn)[0]
        top.body = cond_true
        top.orelse = [orig]
        res = [new[0], top]
        for r in res:
            ast.copy_location(r, n)
            for x in ast.walk(r):
                if not hasattr(x, 'lineno') and isinstance(x, (ast.stmt, ast.expr, ast.arg)):
                    x.lineno = n.lineno; x.col_offset = 0; x.end_lineno = n.lineno; x.end_col_offset = 0
        return res
    def visit_While(self, n):
        ok = self.fstack and self.fstack[-1] is not None and not n.orelse and not contains(n.body, (ast.Yield, ast.YieldFrom, ast.Await)) and not self.fstack[-1]['globals']
        if not ok:
            self.generic_visit(n)
            return n
        self.k += 1
        loop = ast.parse("for __vc_w%d in __vc__.forever():\n  if not x: break" % self.k).body[0]
        loop.body[0].test.operand = copy.deepcopy(n.test)
        loop.body += copy.deepcopy(n.body)
        ast.copy_location(loop, n); ast.fix_missing_locations(loop)
        new = self.visit_For(loop)
        self.generic_visit(n)
        top = ast.parse("if __vc__.while_rule():\n  pass\nelse:\n  pass").body[0]
        top.body = new if isinstance(new, list) else [new]
        top.orelse = [n]
        ast.copy_location(top, n)
        for x in ast.walk(top):
            if not hasattr(x, 'lineno') and isinstance(x, (ast.stmt, ast.expr, ast.arg)):
                x.lineno = n.lineno; x.col_offset = 0; x.end_lineno = n.lineno; x.end_col_offset = 0
        return top
    def _comp(self, n, kind):
        self.generic_visit(n)
        if len(n.generators) != 1 or n.generators[0].is_async or not self.fstack or self.fstack[-1] is None and False: return n
        g = n.generators[0]
        if contains([n], (ast.NamedExpr,)): return n
        # __vc__.comp(kind, iterable, lambda T: elt, lambda T: cond)
        if isinstance(g.target, ast.Name):
            args = ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, [])
        elif isinstance(g.target, ast.Tuple) and all(isinstance(t, ast.Name) for t in g.target.elts):
            args = ast.arguments([], [ast.arg(t.id) for t in g.target.elts], None, [], [], None, [])
        else:
            return n
        star = isinstance(g.target, ast.Tuple)
        cond = ast.BoolOp(ast.And(), g.ifs) if len(g.ifs) > 1 else (g.ifs[0] if g.ifs else ast.Constant(True))
        call = ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()), 'comp', ast.Load()),
                        [ast.Constant(kind), g.iter, ast.Lambda(args, n.elt), ast.Lambda(copy.deepcopy(args), cond), ast.Constant(star)], [])
        # keep the original lazily: only used when the iterable is symbolic
        return ast.copy_location(call, n)
    def visit_ListComp(self, n): return self._comp(n, 'list')
    def visit_GeneratorExp(self, n): return self._comp(n, 'gen')

def transform(src, path):
    tree = ast.parse(src, path)
    tree = Xf().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec')

# ---------------------------------------------------------------- builtins
def _len(x):
    if isinstance(x, npshim.LazyArr): return x.n
    if isinstance(x, loops.SymSeq): return x.length()
    return builtins.len(x)
def _range(*a):
    if builtins.any(isinstance(v, Num) for v in a):
        st, en, step = (0, a[0], 1) if builtins.len(a) == 1 else (a[0], a[1], a[2] if builtins.len(a) > 2 else 1)
        return loops.SymRange(st, en, step)
    return builtins.range(*a)
def _min(*a, **k):
    if builtins.len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, npshim.LazyArr): raise Unsupported("min of symbolic array")
        if isinstance(x, loops.SymSeq): raise Unsupported("min over symbolic sequence")
        a = list(x)
    if k: return builtins.min(*a, **k)
    if not builtins.any(isinstance(v, Num) for v in a): return builtins.min(a)
    m = a[0]
    for v in a[1:]: m = npshim.smin(m, v)
    return m
def _max(*a, **k):
    if builtins.len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, (npshim.LazyArr, loops.SymSeq)): raise Unsupported("max over symbolic sequence")
        a = list(x)
    if k: return builtins.max(*a, **k)
    if not builtins.any(isinstance(v, Num) for v in a): return builtins.max(a)
    m = a[0]
    for v in a[1:]: m = npshim.smax(m, v)
    return m
def _sum(x, start=0):
    if isinstance(x, loops.SymSeq): return x.vc_sum() + start
    if isinstance(x, npshim.LazyArr): return npshim.H['sum'](x) + start
    return builtins.sum(x, start)
_map = {}
def _isinstance(x, c):
    def fx(t):
        if t is npshim.FloatShim: return float
        if t is npshim.IntShim: return int
        return t
    if isinstance(c, tuple): c = tuple(fx(t) for t in c)
    else: c = fx(c)
    cs = c if isinstance(c, tuple) else (c,)
    import numpy as np, numbers
    if isinstance(x, Num):
        if x.is_int:
            return builtins.any(t in (int, numbers.Integral, numbers.Real, numbers.Number, object, np.integer, Num) for t in cs)
        return builtins.any(t in (float, numbers.Real, numbers.Number, object, np.floating, np.float64, Num) for t in cs)
    if isinstance(x, npshim.LazyArr) and builtins.any(t is np.ndarray for t in cs): return True
    if isinstance(x, loops.SymSeq) and builtins.any(t is list for t in cs): return True
    return builtins.isinstance(x, c)
def _sorted(x, **k):
    if isinstance(x, loops.SymSeq): raise Unsupported("sorted over symbolic sequence")
    return builtins.sorted(x, **k)
def _any(x):
    if isinstance(x, npshim.LazyArr): return x.any()
    if isinstance(x, loops.SymSeq): return x.vc_any()
    return builtins.any(x)
def _all(x):
    if isinstance(x, npshim.LazyArr): return x.all()
    if isinstance(x, loops.SymSeq): return x.vc_all()
    return builtins.all(x)
def _bin(x):
    return loops.BinStr(x) if isinstance(x, Num) else builtins.bin(x)
def _round(x, *a):
    if isinstance(x, Num): raise Unsupported("round")
    return builtins.round(x, *a)
def _enumerate(x, start=0):
    if isinstance(x, loops.SymSeq): return loops.enum(x, start)
    return builtins.enumerate(x, start)
def _zip(*a, **k):
    if builtins.any(isinstance(v, (loops.SymSeq, npshim.LazyArr)) for v in a): return loops.zip_(*a)
    return builtins.zip(*a, **k)
def _list(*a):
    if a and isinstance(a[0], loops.SymSeq): return a[0]
    return builtins.list(*a)
def _print(*a, **k): return None

class ListShim(list):
    def __new__(cls, *a):
        if a and isinstance(a[0], loops.SymSeq): return a[0]
        return builtins.list(*a)

def make_builtins():
    d = dict(builtins.__dict__)
    d.update(float=npshim.FloatShim, int=npshim.IntShim, len=_len, range=_range, min=_min, max=_max, sum=_sum,
             isinstance=_isinstance, sorted=_sorted, any=_any, all=_all, round=_round, bin=_bin, enumerate=_enumerate, zip=_zip,
             print=_print, __vc__=loops.VC)
    real_import = builtins.__import__
    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            root = name.split('.')[0]
            if root == 'numpy':
                if not fromlist: return npshim.NP
                m = npshim.NP
                for p in name.split('.')[1:]: m = getattr(m, p)
                return m
            if root == 'math': return npshim.MATH
            if root in ('pylab', 'matplotlib', 'mpl_toolkits'):
                m = InertModule(name)
                return m
            if name == 'scipy.special':
                m = SCISP
                if fromlist: return m
        return real_import(name, globals, locals, fromlist, level)
    d['__import__'] = imp
    return d

def _scisp():
    import scipy.special as sp
    from . import mathfn
    m = types.ModuleType('scipy.special')
    for n in dir(sp):
        if n.startswith('__'): continue
        v = getattr(sp, n)
        if callable(v) and not isinstance(v, type):
            hd = {'gamma': mathfn.gamma, 'gammaln': mathfn.gammaln, 'beta': mathfn.beta_fn}.get(n)
            def mkw(v, hd, n):
                def w(*a, **k):
                    if builtins.any(npshim.has_sym(x) for x in a):
                        if hd: return hd(*a)
                        raise Unsupported("scipy.special.%s on symbolic values" % n)
                    return v(*a, **k)
                return w
            v = mkw(v, hd, n)
        setattr(m, n, v)
    return m
SCISP = None

class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name.split('.')[0] != 'pacal': return None
        if name == 'pacal.bary_interp': return None
        p = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            spec = importlib.util.spec_from_loader(name, self, origin=os.path.join(p, '__init__.py'), is_package=True)
            spec.submodule_search_locations = ['/nonexistent-pyvc']
            return spec
        if os.path.exists(p + '.py'):
            return importlib.util.spec_from_loader(name, self, origin=p + '.py')
        return None
    def create_module(self, spec): return None
    def exec_module(self, module):
        path = module.__spec__.origin
        with open(path) as f: src = f.read()
        code = transform(src, path)
        module.__file__ = path
        module.__dict__['__builtins__'] = BUILTINS
        exec(code, module.__dict__)

BUILTINS = None
def install():
    global BUILTINS, SCISP
    if BUILTINS is not None: return
    SCISP = _scisp()
    BUILTINS = make_builtins()
    sys.meta_path.insert(0, Finder())
    sys.dont_write_bytecode = True

def load(name):
    install()
    return importlib.import_module(name)

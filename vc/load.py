"""Load a module of /repo for symbolic execution.

The module source is read on every run and rewritten mechanically:
  * float and complex literals become exact numbers;
  * a/b, a**b, a//b, a%b and their augmented forms call the exact versions
    (so that int/int is a rational number, not a float);
  * `for` statements get a second form used when the range is symbolic (the
    body as a closure; `continue` becomes return);
  * list comprehensions over one name get a second form used when the range
    is symbolic (element and condition as closures);
  * comparison chains, boolean operators, if and while are untouched: they
    branch through the truth value of symbolic conditions;
  * imports of numpy/scipy/newt are redirected to the shims / to other modules
    loaded the same way; matplotlib, cadquery, stl become recording stubs;
  * print is dropped.  Docstrings and comments disappear.  Nothing else.
"""
import ast
import builtins
import os
import types
from fractions import Fraction as Q

from . import ex as E
from .ex import Ex, Unsupported, to_ex
from . import ctx as C
from . import sarr as A
from . import kept as K

REPO = os.environ.get('VC_REPO', '/repo')
MUT = {'append', 'extend', 'insert', 'pop', 'update', 'remove', 'add', 'sort',
       'fill', 'resize', 'setdefault', 'clear', 'write'}


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_Constant(self, node):
        if isinstance(node.value, float) or isinstance(node.value, complex):
            return call('_vc_num', ast.copy_location(ast.Constant(node.value), node))
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        f = {ast.Div: '_vc_div', ast.Pow: '_vc_pow', ast.FloorDiv: '_vc_fdiv',
             ast.Mod: '_vc_mod'}.get(type(node.op))
        if f:
            return ast.copy_location(call(f, node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        f = {ast.Div: '_vc_idiv', ast.Pow: '_vc_ipow', ast.FloorDiv: '_vc_fdiv',
             ast.Mod: '_vc_mod'}.get(type(node.op))
        if not f:
            return node
        load = load_of(node.target)
        return ast.copy_location(
            ast.Assign([node.target], call(f, load, node.value)), node)

    def visit_ListComp(self, node, deep=True):
        if deep:
            self.generic_visit(node)
        g = node.generators[0]
        if len(node.generators) != 1 or not isinstance(g.target, ast.Name) or g.is_async:
            return node

        def fn(e):
            return ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), ast_copy(e))
        cond = ast.Constant(None)
        if g.ifs:
            cond = fn(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), list(g.ifs)))
        it = g.iter
        plain = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg('_vc_seq')], kwonlyargs=[], kw_defaults=[], defaults=[]),
                           ast.ListComp(node.elt, [ast.comprehension(g.target, ast.Name('_vc_seq', ast.Load()), g.ifs, 0)]))
        return ast.copy_location(call('_vc_comp', it, fn(node.elt), cond, plain), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if len(node.args) == 1 and isinstance(node.args[0], ast.GeneratorExp):
            g = node.args[0]
            node.args[0] = self.visit_ListComp(ast.copy_location(ast.ListComp(g.elt, g.generators), g), False)
        return node

    def visit_While(self, node):
        f = counting(node)
        if f is None:
            self.generic_visit(node)
            return node
        out = []
        for s in f:
            r = self.visit(s)
            out += r if isinstance(r, list) else [r]
        return out

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and any(isinstance(x, ast.Starred) for x in node.elts):
            parts = [ast.Tuple([ast.Constant(isinstance(x, ast.Starred)), x.value if isinstance(x, ast.Starred) else x], ast.Load())
                     for x in node.elts]
            return ast.copy_location(call('_vc_star', *parts), node)
        return node

    def visit_JoinedStr(self, node):
        return ast.copy_location(ast.Constant('f-string'), node)

    def visit_For(self, node):
        self.generic_visit(node)
        return self.loop(node)

    def loop(self, node):
        if node.orelse or not loop_ok(node):
            return node
        self.n += 1
        k = self.n
        names = sorted(assigned(node))
        body = [ast.Assign([node.target], ast.Name(f'_vc_v{k}', ast.Load()))]
        body += [Cont().visit(ast_copy(s)) for s in node.body]
        inner = []
        if names:
            inner.append(ast.Nonlocal(names))
        fb = funcdef(f'_vc_body{k}', [f'_vc_v{k}'], inner+body)
        get = [ast.Assign([ast.Name('_vc_d', ast.Store())], ast.Dict([], []))]
        for x in names:
            get.append(ast.Try(
                body=[ast.Assign([ast.Subscript(ast.Name('_vc_d', ast.Load()),
                                                ast.Constant(x), ast.Store())],
                                 ast.Name(x, ast.Load()))],
                handlers=[ast.ExceptHandler(ast.Name('NameError', ast.Load()), None,
                                            [ast.Pass()])], orelse=[], finalbody=[]))
        get.append(ast.Return(ast.Name('_vc_d', ast.Load())))
        fg = funcdef(f'_vc_get{k}', [], get)
        put = list(inner)
        for x in names:
            put.append(ast.If(
                ast.Compare(ast.Constant(x), [ast.In()], [ast.Name('_vc_d', ast.Load())]),
                [ast.Assign([ast.Name(x, ast.Store())],
                            ast.Subscript(ast.Name('_vc_d', ast.Load()), ast.Constant(x), ast.Load()))],
                [ast.Try(body=[ast.Delete([ast.Name(x, ast.Del())])],
                         handlers=[ast.ExceptHandler(ast.Name('NameError', ast.Load()), None, [ast.Pass()])],
                         orelse=[], finalbody=[])]))
        if not names:
            put = [ast.Pass()]
        fp = funcdef(f'_vc_put{k}', ['_vc_d'], put)
        it = ast.Assign([ast.Name(f'_vc_it{k}', ast.Store())], node.iter)
        node.iter = ast.Name(f'_vc_it{k}', ast.Load())
        run = ast.Expr(call('_vc_loop', ast.Name(f'_vc_it{k}', ast.Load()),
                            ast.Name(f'_vc_body{k}', ast.Load()),
                            ast.Name(f'_vc_get{k}', ast.Load()),
                            ast.Name(f'_vc_put{k}', ast.Load())))
        test = call('_vc_issym', ast.Name(f'_vc_it{k}', ast.Load()))
        return [it, ast.If(test, [fb, fg, fp, run], [node])]


WN = [0]


def counting(node):
    """`while k < n: ...; k += 1` as a for loop, when that is what it is"""
    t = node.test
    if node.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)
                           and isinstance(t.ops[0], (ast.Lt, ast.LtE)) and len(node.body) > 1):
        return None
    k, last, body = t.left.id, node.body[-1], node.body[:-1]

    def one(e):
        return isinstance(e, ast.Constant) and type(e.value) is int and e.value == 1

    def isk(e):
        return isinstance(e, ast.Name) and e.id == k
    step = (isinstance(last, ast.AugAssign) and isk(last.target) and isinstance(last.op, ast.Add) and one(last.value)) or (
        isinstance(last, ast.Assign) and len(last.targets) == 1 and isk(last.targets[0]) and isinstance(last.value, ast.BinOp)
        and isinstance(last.value.op, ast.Add) and ((isk(last.value.left) and one(last.value.right)) or (one(last.value.left) and isk(last.value.right))))
    if not step:
        return None
    hi = t.comparators[0]
    used = set()
    for n in ast.walk(hi):
        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id == 'len' or
                                            isinstance(n.func, ast.Attribute) and n.func.attr == 'shape'):
            return None
        if isinstance(n, ast.Name):
            used.add(n.id)
    if k in used:
        return None
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in used | {k}:
                return None
            if isinstance(n, (ast.Break, ast.Continue, ast.Return, ast.Yield)):
                return None
            # a method call may change the length that is tested
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    n.func.value.id in used - {'np', 'numpy'}:
                return None
    WN[0] += 1
    a, b = f'_vc_lo{WN[0]}', f'_vc_hi{WN[0]}'
    src = f'{a} = {k}\n{b} = 0\nfor {k} in range({a}, {b}):\n    pass\nif {a} < {b}:\n    {k} = {b}'
    out = ast.parse(src).body
    out[1].value = hi if isinstance(t.ops[0], ast.Lt) else ast.BinOp(hi, ast.Add(), ast.Constant(1))
    out[2].body = body
    return [ast.copy_location(x, node) for x in out]


class Cont(ast.NodeTransformer):
    """continue -> return, in the loop's own body only"""
    def visit_Continue(self, node):
        return ast.Return(None)

    def visit_For(self, node):
        return node

    def visit_While(self, node):
        return node

    def visit_FunctionDef(self, node):
        return node

    def visit_If(self, node):
        # the rewritten inner loops live in an If; leave plain loops alone
        self.generic_visit(node)
        return node


def ast_copy(n):
    import copy
    return copy.deepcopy(n)


def call(f, *a):
    return ast.Call(ast.Name(f, ast.Load()), list(a), [])


def load_of(t):
    t = ast_copy(t)
    t.ctx = ast.Load()
    return t


def funcdef(name, args, body):
    return ast.FunctionDef(
        name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in args],
                                      kwonlyargs=[], kw_defaults=[], defaults=[]),
        body=body, decorator_list=[], type_params=[])


def assigned(node):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and not n.id.startswith('_vc_'):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            if n.name.startswith('_vc_'):
                for s in n.body:
                    self.visit(s)

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_Lambda = visit_ListComp
    for s in [node.target]+node.body:
        V().visit(s)
    return out


def loop_ok(node):
    """no break/return/yield leaving the loop, no mutation of plain containers"""
    ok = [True]

    class V(ast.NodeVisitor):
        def __init__(self):
            self.depth = 0

        def visit_Return(self, n):
            if n.value is not None:
                ok[0] = False

        def visit_Yield(self, n):
            ok[0] = False

        def visit_Break(self, n):
            if self.depth == 0:
                ok[0] = False

        def visit_For(self, n):
            self.depth += 1
            self.generic_visit(n)
            self.depth -= 1
        visit_While = visit_For

        def visit_FunctionDef(self, n):
            if n.name.startswith('_vc_body'):
                return
            if not n.name.startswith('_vc_'):
                ok[0] = False

        def visit_Call(self, n):
            if isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                ok[0] = False
            self.generic_visit(n)

        def visit_Attribute(self, n):
            if isinstance(n.ctx, ast.Store):
                ok[0] = False
            self.generic_visit(n)
    for s in node.body:
        V().visit(s)
    return ok[0]


# ------------------------------------------------------------- exact operators
def num(v):
    x = to_ex(v)
    return x


def plain(v):
    return isinstance(v, (int, Q)) and not isinstance(v, bool)


def div(a, b):
    if isinstance(a, C.Cond):
        a = C.cond_to_int(a)
    if plain(a) and plain(b):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return to_ex(Q(a)/Q(b))
    return a/b


def pow_(a, b):
    if isinstance(b, (A.SArr, A.FArr)) or isinstance(a, (A.SArr, A.FArr)):
        return a**b
    if plain(a) and isinstance(b, int) and b >= 0:
        return a**b
    return E.power(to_ex(a), E.to_exp(b))


def fdiv(a, b):
    if plain(a) and plain(b):
        return a//b
    if isinstance(a, (Ex, int, Q)) and isinstance(b, (Ex, int, Q)):
        return C.floordiv(a, b)
    return a//b


def mod_(a, b):
    if isinstance(a, str):
        return a
    if plain(a) and plain(b):
        return a % b
    if isinstance(a, (Ex, int, Q)) and isinstance(b, (Ex, int, Q)):
        return C.mod(a, b)
    return a % b


def idiv(a, b):
    if isinstance(a, A.SArr):
        a /= b
        return a
    return div(a, b)


def ipow(a, b):
    if isinstance(a, A.SArr):
        a **= b
        return a
    return pow_(a, b)


def issym(it):
    return isinstance(it, A.SymRange) or A.seq_of(it) is not None


def v_int(x=0, *a):
    if isinstance(x, Ex):
        if x.is_const():
            return int(x.cval())
        if C.is_int_ex(x):
            return x
        raise Unsupported('int() of a symbolic real')
    if isinstance(x, str) and not a:
        from . import textfile
        v = textfile.value(x)
        if v is not None:
            if not C.is_int_ex(v):
                raise ValueError('invalid literal for int()')
            return v
    return builtins.int(x, *a)


def v_float(x=0.0):
    if isinstance(x, str):
        from . import textfile
        v = textfile.value(x)
        return to_ex(Q(x.strip())) if v is None else v
    return to_ex(x)


def v_complex(re=0, im=0):
    if isinstance(re, str):
        return builtins.complex(re)
    return to_ex(re)+to_ex(im)*E.I


def v_abs(x):
    if isinstance(x, Ex):
        return C.absolute(x)
    return builtins.abs(x)


def v_len(x):
    if isinstance(x, A.SArr):
        return x.shape[0]
    if isinstance(x, A.SymList):
        return x.n
    if isinstance(x, A.FArr):
        return K.count_of(x)
    return builtins.len(x)


def v_sum(x, start=0):
    if isinstance(x, A.SArr):
        return A.asum(x, 0)+start
    return builtins.sum(x, start)


def v_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    from . import shim
    for k in ts:
        if k is v_complex:
            k = builtins.complex
        if k in (v_float, builtins.float) and isinstance(x, Ex):
            return True
        if k in (v_int, builtins.int) and isinstance(x, Ex) and C.is_int_ex(x):
            return True
        if k is shim.NP.ndarray and isinstance(x, A.SArr):
            return True
        if isinstance(k, type) and builtins.isinstance(x, k):
            return True
    return False


def star(*parts):
    """[a, *b, ...]"""
    if not any(s and A.seq_of(x) is not None for s, x in parts):
        out = []
        for s, x in parts:
            out += list(x) if s else [x]
        return out
    from . import shim
    r = shim.NP.concatenate([x if s else A.asarr([x]) for s, x in parts])
    base = r.snap()
    return K.Listed(r.shape, base, r.kind)


def v_round(x, n=None):
    if isinstance(x, Ex) and not x.is_const():
        raise Unsupported('round of a symbolic value')
    return to_ex(builtins.round(x.cval() if isinstance(x, Ex) else x, n))


def v_print(*a, **k):
    return None


def base_globals():
    b = dict(vars(builtins))
    b.update(range=A.vrange, enumerate=A.v_enumerate, zip=A.v_zip, reversed=A.v_reversed, int=v_int, abs=v_abs, len=v_len, print=v_print,
             sum=v_sum, isinstance=v_isinstance, float=v_float, complex=v_complex, round=v_round)
    return {'__builtins__': b, '_vc_num': num, '_vc_div': div, '_vc_pow': pow_,
            '_vc_fdiv': fdiv, '_vc_mod': mod_, '_vc_idiv': idiv, '_vc_ipow': ipow,
            '_vc_loop': A.do_loop, '_vc_comp': K.comp, '_vc_issym': issym, '_vc_star': star}


CUT = {}
CODE = {}        # (path, text) -> compiled form


LIVE = []           # every loader made since it was cleared


class Loader:
    """modules of the tree under REPO, rewritten; contracts replace callees"""

    def __init__(self, contracts=None, cut=()):
        LIVE.append(self)
        self.cut = cut                       # 'module.function' to be cut at the loop (loops.py)
        self.mods = {}
        self.contracts = contracts or {}     # 'module.function' -> callable
        self.used = set()

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        from . import shim
        root = name.split('.')[0]
        if root == 'newt':
            parts = name.split('.')
            pkg = self.pkg()
            if len(parts) > 1:
                m = self.load(parts[1])
                setattr(pkg, parts[1], m)
                return m if fromlist else pkg
            if fromlist:
                for f in fromlist:
                    setattr(pkg, f, self.load(f))
            return pkg
        r = shim.module(name, fromlist)
        if r is not None:
            return r
        return builtins.__import__(name, globals, locals, fromlist, level)

    def pkg(self):
        if not hasattr(self, '_pkg'):
            self._pkg = types.SimpleNamespace()
        return self._pkg

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(REPO, 'newt', name+'.py')
        with open(path) as f:
            src = f.read()
        cuts = tuple(c.split('.')[1] for c in self.cut if c.split('.')[0] == name)
        code = CODE.get((path, src, cuts))
        if code is None:
            tree = ast.parse(src, path)
            if cuts:
                from . import loops
                CUT[path, src, cuts] = {c: (loops.split if c.endswith('*') else loops.cut)(tree, c.rstrip('*'))[1] for c in cuts}
            tree = Rewrite().visit(tree)
            ast.fix_missing_locations(tree)
            code = CODE[path, src, cuts] = compile(tree, path, 'exec')
        m = types.ModuleType('newt.'+name)
        g = m.__dict__
        g.update(base_globals())
        g['__builtins__'] = dict(g['__builtins__'])
        g['__builtins__']['__import__'] = self.imp
        g['__file__'] = path
        self.mods[name] = m
        exec(code, g)
        if cuts:
            g['_vc_cut'] = CUT[path, src, cuts]
        for k, f in self.contracts.items():
            mod, fn = k.rsplit('.', 1)
            if mod == name and fn in g:
                g[fn] = f
        return m

"""Cut a function at its outermost loop: what comes before it, its test or
sequence, one round of its body and what comes after it become functions from
and to the local variables (a dict).  Loop invariants are then stated over
arbitrary local variables.  The pieces are the statements of the source.

A variable that the invariant does not mention is Stale: any use of its value
from an earlier round is refused, so the invariant names the whole state."""
import ast

from .ex import Unsupported, Structure


class Stale:
    def __init__(self, name):
        self.__dict__['name'] = name

    def _no(self, *a, **k):
        raise Unsupported(f'{self.__dict__["name"]} carries a value from an earlier round of the loop')

    __getattr__ = __setattr__ = __getitem__ = __setitem__ = __call__ = __iter__ = __len__ = __bool__ = __eq__ = __ne__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __str__ = _no
    __iadd__ = __isub__ = __imul__ = __neg__ = __float__ = __int__ = __index__ = __contains__ = __pow__ = __mod__ = _no
    __hash__ = None


def stored(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.Import, ast.ImportFrom)):
                out.update(a.asname or a.name for a in getattr(n, 'names', []))
                if isinstance(n, ast.FunctionDef):
                    out.add(n.name)
    return out


def restore(names):
    """name = _env['name'] for those present"""
    out = []
    for x in sorted(names):
        out += ast.parse(f'if {x!r} in _vc_env:\n    {x} = _vc_env[{x!r}]').body
    return out


def define(name, args, body):
    f = ast.parse(f'def {name}({args}): pass').body[0]
    f.body = body
    return f


def cut(tree, fname):
    """adds _vc_pre_f, _vc_head_f, _vc_round_f, _vc_post_f to the module"""
    f = next((n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name == fname), None)
    if f is None:
        raise Structure(f'no function {fname}')
    body = f.body
    at = [i for i, s in enumerate(body) if isinstance(s, (ast.For, ast.While))]
    if len(at) != 1 or body[at[0]].orelse:
        raise Structure(f'{fname} has not exactly one outermost loop')
    loop = body[at[0]]
    params = [a.arg for a in f.args.args]
    names = stored(body) | set(params)
    for s in body[:at[0]]+loop.body:
        for n in ast.walk(s):
            if isinstance(n, ast.Return):
                raise Structure(f'{fname} returns before the end')
    back = ast.parse('return dict(locals())').body
    pre = ast.FunctionDef(name='_vc_pre_'+fname, args=f.args, body=body[:at[0]]+back, decorator_list=[], type_params=[])
    head = define('_vc_head_'+fname, '_vc_env', restore(names)+[ast.Return(loop.test if isinstance(loop, ast.While) else loop.iter)])
    once = ast.parse('for _vc_once in (0,):\n    pass\nelse:\n    return dict(locals(), _vc_flow="next")\nreturn dict(locals(), _vc_flow="break")').body
    first = []
    if isinstance(loop, ast.For):
        a = ast.parse('x = _vc_item').body[0]
        a.targets = [loop.target]
        first = [a]
    once[0].body = first+loop.body
    rnd = define('_vc_round_'+fname, '_vc_env, _vc_item=None', restore(names)+once)
    post = define('_vc_post_'+fname, '_vc_env', restore(names)+(body[at[0]+1:] or [ast.Pass()]))
    import copy
    tree.body += [copy.deepcopy(n) for n in (pre, head, rnd, post)]
    return names, stored(loop.body)


def flat(body):
    """`if c: ... return x else: rest` as `if c: ... return x` and the rest"""
    out = []
    for s in body:
        if isinstance(s, ast.If) and s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)):
            rest, t = s.orelse, ast.If(s.test, s.body, [])
            out.append(ast.copy_location(t, s))
            out += flat(rest)
        else:
            out.append(s)
    return out


def split(tree, fname, path=()):
    """the function at all its outermost loops: _vc_seg0_f from the arguments
    and _vc_seg<i>_f from the local variables, up to the next loop (the last
    one gives the result), _vc_head<i>_f and _vc_body<i>_f.  A body is split
    in turn: _vc_seg0_<i>_f and so on."""
    import copy
    f = next((n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name == fname), None)
    if f is None:
        raise Structure(f'no function {fname}')
    params = [a.arg for a in f.args.args]
    names = stored(f.body) | set(params)
    made = []
    inloop = {}

    def pieces(stmts, tag, first):
        """first: the FunctionDef frame of segment 0"""
        stmts = flat(stmts)
        at = [i for i, s in enumerate(stmts) if isinstance(s, (ast.For, ast.While))]
        lo = 0
        for k, i in enumerate(at+[len(stmts)]):
            seg = stmts[lo:i]
            lo = i+1
            for s in seg if k else []:
                if i < len(stmts) and any(isinstance(n, ast.Return) for n in ast.walk(s)):
                    raise Structure(f'{fname} returns between loops')
            tail = ast.parse('return dict(locals())').body if i < len(stmts) or tag else []
            if k == 0:
                g = first(seg+tail)
            else:
                g = define(f'_vc_seg{k}_{tag}{fname}', '_vc_env', restore(names)+seg+tail or [ast.Pass()])
            made.append(g)
            if i == len(stmts):
                continue
            loop = stmts[i]
            for s in loop.body:
                for n in ast.walk(s):
                    if isinstance(n, (ast.Return, ast.Break, ast.Continue)):
                        raise Structure(f'{fname} leaves a loop')
            if loop.orelse or isinstance(loop, ast.While):
                raise Structure(f'{fname} has another kind of loop')
            made.append(define(f'_vc_head{k}_{tag}{fname}', '_vc_env', restore(names)+[ast.Return(loop.iter)]))
            a = ast.parse('x = _vc_item').body[0]
            a.targets = [loop.target]
            t2 = f'{k}_{tag}'
            inloop[t2.rstrip('_')] = stored([loop])
            pieces([a]+loop.body, t2, lambda b, t2=t2: define(f'_vc_seg0_{t2}{fname}', '_vc_env, _vc_item=None', restore(names)+b))
    pieces(f.body, '', lambda b: ast.FunctionDef(name='_vc_seg0_'+fname, args=f.args, body=b, decorator_list=[], type_params=[]))
    tree.body += [copy.deepcopy(n) for n in made]
    return names, inloop


def env(mod, fname, e, keep):
    """local variables at the start of a round: those of e, and Stale ones"""
    return {k: (Stale(k) if k in mod._vc_cut[fname] and k not in keep else v) for k, v in
            {**{k: None for k in mod._vc_cut[fname]}, **e}.items()}


def inner(mod, fname, tag, e, keep=()):
    """env() for the loop `tag` of a function that was split"""
    s = mod._vc_cut[fname+'*'][tag]
    return {k: (Stale(k) if k in s and k not in keep else v) for k, v in {**{k: None for k in s}, **e}.items()}


def local(e, *names):
    """the variables that an invariant speaks of"""
    for n in names:
        if n not in e:
            raise Structure(f'no variable {n}')


class Done(Exception):
    """the path that executes one arbitrary round of a loop ends here"""


class Invariant:
    """Proof rule for loops whose rounds use what earlier rounds stored.

        with loops.Invariant(find) as inv: out = inv.run(lambda: f(*args))

    find(depth, rng, env) -> [(array, state, name)] with state(k) the contents,
    as a function of the index, when round k of the range starts; env are the
    variables of the loop body.  Each loop over a symbolic range, by depth of
    nesting, is replaced by
        the state at the first round is the invariant's              (checked)
        an arbitrary round takes state k to state k+1, stores in no
        other array, and uses no variable of an earlier round        (checked)
        after the loop the state is the invariant's, at the end."""

    def __init__(self, find, zero=None):
        self.find = find
        self.zero = zero            # decides x == 0 for contents
        self.depth = 0
        self.ran = set()

    def __enter__(self):
        from . import sarr
        sarr.LOOP_RULE.append(self)
        return self

    def __exit__(self, *a):
        from . import sarr
        sarr.LOOP_RULE.pop()

    def check(self, what, arr, state):
        from .contracts.common import same_array
        from .sums import prove_zero
        for nm, ok in same_array(arr, arr.shape, lambda *q: state(list(q)), self.zero or prove_zero):
            if not ok:
                raise Structure(f'invariant of loop {self.depth}, {what}: {nm}')

    def __call__(self, rng, body, get, put):
        from . import sarr as A
        from .ctx import CTX, mk_cmp
        from .ex import to_ex
        env = {}
        for x, c in zip(body.__code__.co_freevars, body.__closure__ or ()):
            try:
                env[x] = c.cell_contents
            except ValueError:
                pass
        lo, hi = to_ex(rng.lo), to_ex(rng.hi)
        if not CTX.decide(mk_cmp('lt', lo-hi)):
            return
        spec = self.find(self.depth, rng, env)
        for a, st, nm in spec:
            if a.parent is not None:
                raise Structure('a view')
            self.check(f'{nm} at the start', a, st(lo))

        def havoc(k):
            for a, st, nm in spec:
                for lp in A.LOOPS:
                    lp.note_write(a)
                a.set_state(([], st(k), None))
        old = get()
        names = set(old) | {n for n in body.__code__.co_freevars if not isinstance(env.get(n), A.SArr) and n in old}
        self.depth += 1
        try:
            which = CTX.fresh('path', 'nat')
            if CTX.decide(mk_cmp('eq', which)):
                k = CTX.fresh('round', 'nat')
                CTX.assume(mk_cmp('le', lo-k))
                CTX.assume(mk_cmp('lt', k-hi))
                havoc(k)
                put({n: Stale(n) for n in names})
                lp = A.Loop()
                A.LOOPS.append(lp)
                try:
                    body(k)
                finally:
                    A.LOOPS.pop()
                if set(lp.written) - {id(a) for a, _, _ in spec}:
                    raise Structure('the loop stores in another array')
                now = get()
                for n in names:
                    if isinstance(old.get(n), A.SArr) and now.get(n) is not old[n]:
                        raise Structure('an array is replaced')
                for a, st, nm in spec:
                    self.check(f'{nm} after a round', a, st(k+1))
                self.ran.add(self.depth)
                raise Done()
            havoc(hi)
            put({n: Stale(n) for n in names})
        finally:
            self.depth -= 1

    def run(self, thunk):
        """thunk's obligations; [] on the path that ends in a round"""
        try:
            return thunk()
        except Done:
            return [(f'round of loop {self.depth+1}', True)]

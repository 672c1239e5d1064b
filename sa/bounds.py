"""Array accesses past the end: affine index analysis of loops.

Every function is walked once with names bound to affine expressions over array sizes (`len(x)`, `x.size`, `x.shape[k]`, sizes given to
np.empty and the like) and, for loop counters, to the range they run through.  An element access whose largest index is an affine
expression is compared with the size of that axis: size - 1 - index >= 0 is proven inside; a largest index that is the size plus a
constant that is not negative is past the end in every non-empty run of the loop, and reported when no condition guards the access.
Anything else (indices from data, searches, conditions) is left open.
"""
import ast

MAKERS = {"empty", "zeros", "ones", "full", "empty_like", "zeros_like", "ones_like", "full_like", "arange"}


class Lin:
    """integer affine expression over size symbols"""
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = {k: v for k, v in c.items() if v}

    def __add__(self, o):
        d = dict(self.c)
        for k, v in o.c.items():
            d[k] = d.get(k, 0) + v
        return Lin(d)

    def scale(self, n):
        return Lin({k: v * n for k, v in self.c.items()})

    def __sub__(self, o):
        return self + o.scale(-1)

    def const(self):
        return self.c.get(1, 0) if all(k == 1 for k in self.c) else None

    def __str__(self):
        return " + ".join(("%s" % k if v == 1 else "%d*%s" % (v, k)) if k != 1 else str(v) for k, v in sorted(self.c.items(), key=str)) or "0"


def num(n):
    return Lin({1: n})


def sym(s):
    return Lin({s: 1})


class Var:
    """a loop counter between two affine bounds (inclusive)"""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class Arr:
    def __init__(self, dims):
        self.dims = dims


class Report:
    def __init__(self, text, where, fn):
        self.text, self.where, self.fn = text, where, fn


class Checker:
    def __init__(self, prog, sizes=None):
        self.prog = prog
        self.sizes = sizes or {}
        self.reports = []
        self.functions = []
        self.proven = self.open = 0

    def run(self, module):
        mod = self.prog.modules[module]
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.FunctionDef):
                Walk(self, mod, n).go()
        return self


class Walk:
    def __init__(self, ck, mod, fn):
        self.ck, self.mod, self.fn = ck, mod, fn
        self.qual = mod.name + "." + fn.name
        self.dead = False

    def go(self):
        fn = self.fn
        self.ck.functions.append(self.qual)
        env = {}
        sizes = self.ck.sizes.get(self.qual, {})
        for p in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs:
            if p.arg in sizes:
                env[p.arg] = Arr([sym(s) if isinstance(s, str) else num(s) for s in sizes[p.arg]])
            else:
                env[p.arg] = ("param", p.arg)
        # names given a value more than once are not followed, except through straight-line code
        self.block(fn.body, env, ())

    # ---- values
    def lin(self, e, env):
        """Lin or Var of an integer expression, or None"""
        if isinstance(e, ast.Constant) and type(e.value) is int:
            return num(e.value)
        if isinstance(e, ast.Name):
            v = env.get(e.id)
            if isinstance(v, tuple) and v[0] == "param" and e.id == v[1]:
                return sym(e.id)         # some fixed number, should it be one
            return v if isinstance(v, (Lin, Var)) else None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.lin(e.operand, env)
            return None if v is None else neg(v)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            a, b = self.lin(e.left, env), self.lin(e.right, env)
            if a is None or b is None:
                return None
            if isinstance(a, Var) and isinstance(b, Var):
                return None              # may be related
            return plus(a, b if isinstance(e.op, ast.Add) else neg(b))
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
            a, b = self.lin(e.left, env), self.lin(e.right, env)
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Lin) and x.const() is not None and y is not None:
                    n = x.const()
                    if isinstance(y, Var):
                        return Var(y.lo.scale(n), y.hi.scale(n)) if n >= 0 else Var(y.hi.scale(n), y.lo.scale(n))
                    return y.scale(n)
            return None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "int":
            return self.fresh("int")     # one whole number, not known which
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1:
            return self.dim(e.args[0], 0, env)
        if isinstance(e, ast.Attribute) and e.attr == "size":
            a = self.arr(e.value, env)
            if isinstance(a, Arr) and len(a.dims) == 1:
                return a.dims[0]
            return self.dim(e.value, "size", env)
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == "shape" and isinstance(e.slice, ast.Constant) and type(e.slice.value) is int and e.slice.value >= 0:
            return self.dim(e.value.value, e.slice.value, env)
        return None

    def arr(self, e, env):
        if isinstance(e, ast.Name):
            return env.get(e.id)
        return None

    def dim(self, e, k, env):
        a = self.arr(e, env)
        if isinstance(a, Arr):
            if k == "size":
                return a.dims[0] if len(a.dims) == 1 else None
            return a.dims[k] if k < len(a.dims) else None
        if isinstance(a, tuple) and a[0] == "param":
            return sym("%s.%s" % (a[1], k if k == "size" else "shape[%d]" % k))
        return None

    def fresh(self, what):
        self.nfresh += 1
        return sym("%s#%d" % (what, self.nfresh))

    nfresh = 0

    def value(self, e, env):
        if isinstance(e, ast.Name) and isinstance(env.get(e.id), tuple):
            return env[e.id]
        v = self.lin(e, env)
        if v is not None:
            return v
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, ast.Call):
            f = e.func
            name = f.attr if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("np", "numpy") else None
            if name == "linspace" and len(e.args) == 3:
                p = self.plain(e.args[2], env)
                return Arr([p]) if p is not None else None
            if name in MAKERS and e.args:
                if name.endswith("_like"):
                    a = self.value(e.args[0], env)
                    if isinstance(a, Arr):
                        return Arr(list(a.dims))
                    if isinstance(a, tuple) and a[0] == "param":
                        return a
                    return None
                s = e.args[0]
                if name == "arange":
                    return Arr([self.plain(s, env)]) if len(e.args) == 1 else None
                if isinstance(s, (ast.Tuple, ast.List)):
                    return Arr([self.plain(x, env) for x in s.elts])
                p = self.plain(s, env)
                return Arr([p]) if p is not None else None
            if isinstance(f, ast.Attribute) and f.attr == "copy" and not e.args:
                return self.value(f.value, env)
        if isinstance(e, ast.Attribute) and e.attr == "shape":
            a = self.arr(e.value, env)
            if isinstance(a, Arr):
                return ("shape", a, None)
            if isinstance(a, tuple) and a[0] == "param":
                return ("shape", a, e.value.id)
        return None

    def plain(self, e, env):
        v = self.lin(e, env)
        return v if isinstance(v, Lin) else None

    # ---- statements; guards: names that conditions around the current point mention
    def block(self, body, env, guards):
        g = set(guards)
        for s in body:
            self.stmt(s, env, frozenset(g))
            if leaves(s):
                g.add("*")        # what follows may not be reached
        return env

    def stmt(self, s, env, guards):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            env.pop(s.name, None)
            return
        if isinstance(s, ast.Assign):
            self.exprs(s.value, env, guards)
            for t in s.targets:
                self.exprs(t, env, guards)
            v = self.value(s.value, env)
            for t in s.targets:
                self.assign(t, s.value, v, env)
            return
        if isinstance(s, ast.AugAssign):
            self.exprs(s.value, env, guards)
            self.exprs(s.target, env, guards)
            if isinstance(s.target, ast.Name):
                old = env.get(s.target.id)
                d = self.lin(s.value, env)
                if isinstance(old, Lin) and isinstance(d, Lin) and isinstance(s.op, (ast.Add, ast.Sub)):
                    env[s.target.id] = plus(old, d if isinstance(s.op, ast.Add) else neg(d))
                elif not (isinstance(old, (Arr, tuple))):
                    env[s.target.id] = None
            return
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.exprs(s.value, env, guards)
                self.assign(s.target, s.value, self.value(s.value, env), env)
            return
        if isinstance(s, ast.If):
            self.exprs(s.test, env, guards)
            g = guards | {"*"}
            a, b = dict(env), dict(env)
            self.block(s.body, a, g)
            self.block(s.orelse, b, g)
            for k in set(a) | set(b):
                x, y = a.get(k), b.get(k)
                num_ = any(isinstance(z, Lin) or isinstance(z, tuple) and z[0] == "param" for z in (x, y))
                env[k] = x if same(x, y) else self.fresh(k) if num_ else None
            return
        if isinstance(s, ast.For):
            self.exprs(s.iter, env, guards)
            r = self.counted(s.iter, env)        # the range is settled before the loop runs
            self.forget(s.body + s.orelse, env)
            inner = dict(env)
            for x in ast.walk(s.target):
                if isinstance(x, ast.Name):
                    inner[x.id] = None
            if r is not None and isinstance(s.target, ast.Name):
                inner[s.target.id] = r
            c = s.iter
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "enumerate" and len(c.args) == 1 and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
                n = self.dim(c.args[0], 0, env)
                if isinstance(n, Lin):
                    inner[s.target.elts[0].id] = Var(num(0), n - num(1))
            self.block(s.body, inner, guards)
            for x in ast.walk(s.target):
                if isinstance(x, ast.Name):
                    env[x.id] = None
            self.block(s.orelse, env, guards | {"*"})
            return
        if isinstance(s, ast.While):
            self.forget(s.body + s.orelse, env)
            self.exprs(s.test, env, guards | {"*"})
            self.block(s.body, dict(env), guards | {"*"})
            return
        if isinstance(s, (ast.With, ast.Try)) or s.__class__.__name__ in ("TryStar", "AsyncWith"):
            for f in ("body", "orelse", "finalbody"):
                b = getattr(s, f, None)
                if b:
                    self.block(b, env, guards | ({"*"} if not isinstance(s, ast.With) else set()))
            for h in getattr(s, "handlers", []) or []:
                self.block(h.body, dict(env), guards | {"*"})
            if not isinstance(s, ast.With):
                self.forget([s], env)
            return
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.exprs(c, env, guards)
            elif isinstance(c, ast.stmt):
                self.forget([s], env)
                return

    def forget(self, body, env):
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    env[x.id] = None

    def assign(self, t, e, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            names = [x for x in t.elts if isinstance(x, ast.Name)]
            if isinstance(v, tuple) and v[0] == "shape" and len(names) == len(t.elts):
                for k, x in enumerate(names):
                    env[x.id] = (v[1].dims[k] if k < len(v[1].dims) else None) if isinstance(v[1], Arr) else sym("%s.shape[%d]" % (v[1][1], k))
            elif isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) == len(t.elts):
                vs = [self.value(x, env) for x in e.elts]
                for x, w in zip(t.elts, vs):
                    self.assign(x, None, w, env)
            else:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        env[x.id] = None

    def counted(self, e, env):
        """range a loop counter runs through"""
        if not (isinstance(e, ast.Call) and not e.keywords and (isinstance(e.func, ast.Name) and e.func.id in ("range", "prange") or isinstance(e.func, ast.Attribute) and e.func.attr == "prange")):
            return None
        a = [self.lin(x, env) for x in e.args]
        if len(a) > 1 and a[0] is None:
            a[0] = self.fresh("start")
        if any(x is None for x in a):
            return None
        if len(a) == 1:
            a = [num(0)] + a
        step = 1
        if len(a) == 3:
            step = a[2].const() if isinstance(a[2], Lin) else None
            if step not in (1, -1):
                return None
        lo, hi = a[0], a[1]
        if step == 1:
            lo_ = lo.lo if isinstance(lo, Var) else lo
            hi_ = hi.hi if isinstance(hi, Var) else hi
            return Var(lo_, hi_ - num(1))
        lo_ = hi.lo if isinstance(hi, Var) else hi
        hi_ = lo.hi if isinstance(lo, Var) else lo
        return Var(lo_ + num(1), hi_)

    # ---- accesses
    def exprs(self, e, env, guards):
        if e is None:
            return
        if isinstance(e, (ast.IfExp,)):
            self.exprs(e.test, env, guards)
            self.exprs(e.body, env, guards | {"*"})
            self.exprs(e.orelse, env, guards | {"*"})
            return
        if isinstance(e, ast.BoolOp):
            self.exprs(e.values[0], env, guards)
            for x in e.values[1:]:
                self.exprs(x, env, guards | {"*"})
            return
        if isinstance(e, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(e, ast.Subscript):
            self.access(e, env, guards)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.exprs(c, env, guards)
            elif isinstance(c, ast.keyword):
                self.exprs(c.value, env, guards)

    def access(self, e, env, guards):
        if not isinstance(e.value, ast.Name):
            return
        a = env.get(e.value.id)
        idx = list(e.slice.elts) if isinstance(e.slice, ast.Tuple) else [e.slice]
        if any(isinstance(x, (ast.Starred,)) or isinstance(x, ast.Constant) and x.value in (Ellipsis, None) and not isinstance(x.value, int) for x in idx):
            return
        for k, x in enumerate(idx):
            if isinstance(x, ast.Slice):
                continue
            v = self.lin(x, env)
            if v is None:
                self.open += 0
                self.ck.open += 1
                continue
            size = None
            if isinstance(a, Arr) and k < len(a.dims):
                size = a.dims[k]
            elif isinstance(a, tuple) and a[0] == "param":
                size = sym("%s.shape[%d]" % (a[1], k))
            if size is None:
                self.ck.open += 1
                continue
            hi = v.hi if isinstance(v, Var) else v
            over = [(hi - size).const()]
            if isinstance(a, tuple) and len(idx) == 1:
                over.append((hi - sym("%s.size" % a[1])).const())
            over = [o for o in over if o is not None]
            if not over:
                self.ck.open += 1
            elif over[0] < 0:
                self.ck.proven += 1
            elif guards:
                self.ck.open += 1
            else:
                self.ck.reports.append(Report("%s reaches index %s, the size of that axis%s" % (ast.unparse(e), hi, " plus %d" % over[0] if over[0] else ""),
                                              "%s:%d (%s)" % (self.mod.path[len(self.ck.prog.root):].lstrip("/"), e.lineno, self.qual), self.qual))

    open = 0


def neg(v):
    return Var(v.hi.scale(-1), v.lo.scale(-1)) if isinstance(v, Var) else v.scale(-1)


def plus(a, b):
    if isinstance(a, Var):
        return Var(a.lo + b, a.hi + b)
    if isinstance(b, Var):
        return Var(b.lo + a, b.hi + a)
    return a + b


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        return a.c == b.c
    return False


def leaves(s, inloop=False):
    """may the statement leave the block it is in?"""
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        return False
    if isinstance(s, (ast.Return, ast.Raise, ast.Assert)):
        return True
    if isinstance(s, (ast.Break, ast.Continue)):
        return not inloop
    loop = inloop or isinstance(s, (ast.For, ast.While))
    return any(leaves(x, loop) for x in ast.iter_child_nodes(s) if isinstance(x, (ast.stmt, ast.ExceptHandler)))

"""Element types: abstract interpretation over the numeric types that values may have.

Every value is described by the set of element types it may have, one for each path.  Branches whose test is decided by types and constants
are pruned.  Reported: a value stored where its type does not fit (a float in an integer array, a double in a single, an index in a narrower
integer), a float used as an index, size or range; everything the interpretation does not know is unknown and never reported.
"""
import ast

INTS = {"i1": 1, "i2": 2, "i4": 4, "i8": 8, "u1": 1, "u2": 2, "u4": 4, "u8": 8}
FLOATS = {"f2": 2, "f4": 4, "f8": 8, "pf": 8}
NAMES = {"int": "i8", "float": "f8", "bool": "b", "int64": "i8", "int_": "i8", "intp": "i8", "int32": "i4", "intc": "i4", "int16": "i2", "int8": "i1", "uint8": "u1", "uint16": "u2", "uint32": "u4", "uint64": "u8",
         "float64": "f8", "float_": "f8", "double": "f8", "float32": "f4", "single": "f4", "float16": "f2", "half": "f2", "bool_": "b", "f8": "f8", "f4": "f4", "i8": "i8", "i4": "i4", "i2": "i2", "i1": "i1", "d": "f8",
         "f": "f4", "longlong": "i8"}


class D:
    """a number or an array of numbers; arr: True/False/None (not known)"""

    def __init__(self, kinds, arr=None):
        self.k, self.arr = frozenset(kinds if not isinstance(kinds, str) else (kinds,)), arr

    def __repr__(self):
        return "D(%s,%s)" % ("/".join(sorted(self.k)), self.arr)


class C:
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "C(%r)" % (self.v,)


class Dt:
    """a type used as a value (x.dtype, np.float64)"""

    def __init__(self, kinds):
        self.k = frozenset(kinds)

    def __repr__(self):
        return "Dt(%s)" % "/".join(sorted(self.k))


class Tup:
    def __init__(self, xs):
        self.xs = list(xs)

    def __repr__(self):
        return "T%r" % (self.xs,)


class Dic:
    def __init__(self, d):
        self.d = d

    def __repr__(self):
        return "{%s}" % ",".join("%s:%r" % kv for kv in sorted(self.d.items(), key=str))


class Fn:
    def __init__(self, mod, node, env):
        self.mod, self.node, self.env = mod, node, env

    def __repr__(self):
        return "Fn(%s.%s%s)" % (self.mod.name, getattr(self.node, "name", "lambda%d" % self.node.lineno), "" if self.env is None else "@%d" % id(self.node))


class Ext:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "E(%s)" % self.name


class Mod(Ext):
    pass


class Bound:
    def __init__(self, obj, attr):
        self.obj, self.attr = obj, attr

    def __repr__(self):
        return "B(%r.%s)" % (self.obj, self.attr)


UNK = "?"
SAME = {"reshape", "ravel", "flatten", "copy", "transpose", "squeeze", "swapaxes", "repeat", "take", "roll", "flip", "moveaxis", "broadcast_to", "sort", "ascontiguousarray", "expand_dims", "tile", "diff", "max", "min", "amax", "amin",
        "nanmax", "nanmin", "abs", "absolute", "fliplr", "flipud", "unique", "compress", "delete", "asfortranarray", "atleast_1d", "atleast_2d", "take_along_axis", "diag", "rollaxis", "squeeze", "round", "negative", "square", "cumsum", "cumprod",
        "nancumsum", "item", "conj", "real", "triu", "tril", "rot90", "clip", "append", "insert", "ptp", "partition"}
ADD = {"sum", "nansum", "prod", "nanprod", "dot", "vdot", "inner", "outer", "trapezoid", "bincount_w"}
FLT = {"sqrt", "exp", "log", "log10", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "arctan2", "tanh", "sinh", "cosh", "mean", "nanmean", "std", "var", "median", "nanmedian", "average", "hypot", "deg2rad", "radians", "rad2deg",
       "linspace", "geomspace", "logspace", "interp", "divide", "true_divide", "degrees", "cbrt", "expm1", "log1p", "nanstd", "nanvar", "gradient", "percentile", "quantile"}
KEEP = {"ceil", "floor", "rint", "trunc", "fix"}
BOOL = {"isnan", "isfinite", "isinf", "any", "all", "logical_and", "logical_or", "logical_not", "isclose", "allclose", "array_equal", "shares_memory", "may_share_memory", "less", "greater", "equal", "not_equal", "less_equal", "greater_equal",
        "isin", "in1d", "signbit", "iscomplexobj", "logical_xor", "isrealobj"}
IDX = {"argmax", "argmin", "argsort", "searchsorted", "flatnonzero", "nonzero", "where1", "count_nonzero", "ravel_multi_index", "nanargmax", "nanargmin", "digitize", "lexsort", "size", "ndim", "bincount", "argwhere"}
PROMOTE = {"add", "subtract", "multiply", "maximum", "minimum", "fmax", "fmin", "concatenate", "stack", "hstack", "vstack", "column_stack", "dstack", "mod", "remainder", "floor_divide", "power", "where", "append", "matmul", "cross", "r_",
           "nan_to_num", "copysign"}


def fits(x, v):
    """a value of type v in an array of elements x"""
    if v == "b" or x == v or x in ("?", "o"):
        return True
    if x == "b":
        return False
    if v == "pi":
        return True
    if x in INTS:
        return v in INTS and INTS[v] <= INTS[x]
    if x in FLOATS:
        if v == "pf":
            return True
        return v in INTS or v in FLOATS and FLOATS[v] <= FLOATS[x]
    return True


def promote(a, b, div=False):
    if UNK in (a, b):
        return UNK
    if div:
        a, b = ("f8" if x in INTS or x == "b" else "pf" if x == "pi" else x for x in (a, b))
    if a == b:
        return a
    s = {a, b}
    if "pf" in s:
        o = (s - {"pf"}).pop()
        return o if o in FLOATS and o != "f4" and o != "f2" else "pf" if o == "pi" else UNK if o in FLOATS else "f8"
    if "pi" in s:
        o = (s - {"pi"}).pop()
        return "i8" if o == "b" else o
    if "b" in s:
        return (s - {"b"}).pop()
    if "f8" in s:
        return "f8"
    if s & {"f4", "f2"}:
        return UNK if any(x in INTS for x in s) else "f4"
    return max(s, key=lambda x: INTS.get(x, 0)) if all(x in INTS for x in s) else UNK


def join(a, b):
    if a is b or repr(a) == repr(b):
        return a
    if isinstance(a, C) and num(a) is not None:
        a = num(a)
    if isinstance(b, C) and num(b) is not None:
        b = num(b)
    if isinstance(a, D) and isinstance(b, D):
        return D(a.k | b.k, a.arr if a.arr == b.arr else None)
    if isinstance(a, Dt) and isinstance(b, Dt):
        return Dt(a.k | b.k)
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.xs) == len(b.xs):
        return Tup([join(x, y) for x, y in zip(a.xs, b.xs)])
    if isinstance(a, Dic) and isinstance(b, Dic):
        return Dic({k: join(a.d.get(k, UNK), b.d.get(k, UNK)) if k in a.d and k in b.d else a.d.get(k, b.d.get(k)) for k in set(a.d) | set(b.d)})
    return UNK


def num(v):
    if isinstance(v, D):
        return v
    if isinstance(v, C):
        if isinstance(v.v, bool):
            return D("b", False)
        if isinstance(v.v, int):
            return D("pi", False)
        if isinstance(v.v, float):
            return D("pf", False)
    return None


def conv(t):
    """what a Python or NumPy scalar becomes inside an array"""
    return {"pi": "i8", "pf": "f8"}.get(t, t)


class Types:
    DEPTH = 14

    def __init__(self, prog):
        self.prog = prog
        self.reports = {}
        self.memo = {}
        self.active = []
        self.functions = set()
        self.stores = self.indices = self.calls = 0
        self.steps = 0

    # ---- reports
    def report(self, node, text, mod):
        w = "%s:%d" % (mod.path[len(self.prog.root):].lstrip("/"), node.lineno)
        self.reports.setdefault((w, text), list(self.active))

    def store(self, node, x, v, mod, what="an array"):
        v = num(v)
        if not isinstance(x, D) or v is None or x.arr is False:
            return
        self.stores += 1
        if UNK in x.k or UNK in v.k:
            xs, vs = x.k - {UNK}, v.k - {UNK}
            if UNK in v.k or not vs:
                return
        else:
            xs, vs = x.k, v.k
        bad = None
        for a in sorted(xs):
            if vs and all(not fits(a, b) for b in vs):
                bad = (a, sorted(vs)[0])
        if UNK not in x.k:
            for b in sorted(vs):
                if xs and all(not fits(a, b) for a in xs):
                    bad = (sorted(xs)[0], b)
        if bad:
            self.report(node, "%s of %s is given %s" % (what, TEXT.get(bad[0], bad[0]), TEXT.get(bad[1], bad[1])), mod)

    def index(self, node, v, mod, what="an index"):
        v = num(v)
        if v is None:
            return
        self.indices += 1
        if v.k and v.k <= set(FLOATS):
            self.report(node, "%s is %s" % (what, TEXT[sorted(v.k)[0]]), mod)

    # ---- functions
    def call_fn(self, f, args, kw, star=False, dstar=None):
        n = f.node
        a = n.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        sig = signature(n) if isinstance(n, ast.FunctionDef) else None
        if sig is not None and not star and not kw:
            ins = sig[0][:len(args)]
            if len(sig[0]) < len(pos) or sig[1]:
                return Tup([D(k, None) for k in sig[1]]) if len(sig[1]) > 1 else D(sig[1][0], None) if sig[1] else UNK
        dv = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        dv.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in pos + [x.arg for x in a.kwonlyargs]:
            env[p] = UNK if star or dstar is UNK and p not in dv else self.ev(dv[p], {}, f.mod) if p in dv else UNK
        if not star:
            for p, v in zip(pos, args):
                env[p] = v
        extra = {}
        for k, v in kw.items():
            if k in env:
                env[k] = v
            else:
                extra[k] = v
        if a.vararg:
            env[a.vararg.arg] = UNK if star else Tup(args[len(pos):])
        if a.kwarg:
            env[a.kwarg.arg] = Dic(extra) if dstar is not UNK else UNK
        if isinstance(n, ast.Lambda):
            e = dict(f.env or {})
            e.update(env)
            return self.ev(n.body, e, f.mod)
        key = (id(n), repr(sorted(env.items(), key=lambda kv: kv[0])), repr(sorted((f.env or {}).items(), key=lambda kv: kv[0])) if f.env is not None else "")
        if key in self.memo:
            return self.memo[key]
        name = f.mod.name + "." + n.name
        if len(self.active) > self.DEPTH or self.active.count(name) > 1:
            return UNK
        self.memo[key] = UNK
        self.functions.add(name)
        self.active.append(name)
        e = dict(f.env or {})
        e.update(env)
        rets = []
        try:
            end = self.block(n.body, e, f.mod, rets)
        finally:
            self.active.pop()
        if end:
            rets.append(C(None))
        r = rets[0] if rets else UNK
        for x in rets[1:]:
            r = join(r, x)
        self.memo[key] = r
        return r

    def block(self, body, env, mod, rets):
        for s in body:
            if not self.stmt(s, env, mod, rets):
                return False
        return True

    def stmt(self, s, env, mod, rets):
        self.steps += 1
        if self.steps > 400000:
            raise RuntimeError("too many steps")
        if isinstance(s, ast.FunctionDef):
            env[s.name] = Fn(mod, s, env)
        elif isinstance(s, ast.Return):
            rets.append(self.ev(s.value, env, mod) if s.value is not None else C(None))
            return False
        elif isinstance(s, ast.Raise):
            return False
        elif isinstance(s, (ast.Break, ast.Continue)):
            env.setdefault("%exits", []).append(dict(env))
            return False
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env, mod)
            for t in s.targets:
                self.bind(t, v, env, mod)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env, mod), env, mod)
        elif isinstance(s, ast.AugAssign):
            old = self.ev(s.target, env, mod)
            v = self.binop(s.op, old, self.ev(s.value, env, mod))
            if isinstance(s.target, ast.Name):
                if isinstance(old, D) and old.arr is True:
                    self.store(s, old, v, mod)
                    v = old
                env[s.target.id] = v
            else:
                self.bind(s.target, v, env, mod)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env, mod)
        elif isinstance(s, ast.If):
            v = self.ev(s.test, env, mod)
            t = truth(v)
            if t is True:
                return self.block(s.body, env, mod, rets)
            if t is False:
                return self.block(s.orelse, env, mod, rets)
            a, b = dict(env), dict(env)
            refine(s.test, a, b)
            x, y = self.block(s.body, a, mod, rets), self.block(s.orelse, b, mod, rets)
            typed = ondtype(s.test)
            ends = [e for e, ok in ((a, x), (b, y)) if ok]
            self.exits(env, a, b)
            if not ends:
                return False
            if len(ends) == 1:
                env.update(ends[0])
                for k in ends[0]:
                    if typed and repr(env[k]) != repr(ends[0][k]):
                        env[k] = UNK
            else:
                for k in set(a) | set(b):
                    if k != "%exits":
                        p, q = a.get(k, UNK), b.get(k, UNK)
                        env[k] = p if k in a and k not in b else q if k in b and k not in a else UNK if typed and repr(p) != repr(q) else join(p, q)
        elif isinstance(s, (ast.For, ast.While)):
            self.loop(s, env, mod, rets)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, env, mod)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, UNK, env, mod)
            return self.block(s.body, env, mod, rets)
        elif isinstance(s, ast.Try):
            b = dict(env)
            ok = self.block(s.body, b, mod, rets)
            ends = [b] if ok else []
            for h in s.handlers:
                e = dict(env)
                if h.name:
                    e[h.name] = UNK
                if self.block(h.body, e, mod, rets):
                    ends.append(e)
            if not ends:
                return False
            for k in set().union(*ends):
                if k != "%exits":
                    v = ends[0].get(k, UNK)
                    for e in ends[1:]:
                        v = join(v, e[k]) if k in e else v
                    env[k] = v
            if ok and s.orelse and not self.block(s.orelse, env, mod, rets):
                return False
            return self.block(s.finalbody, env, mod, rets)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for x in s.names:
                env[(x.asname or x.name).split(".")[0]] = Mod(x.name if x.asname else x.name.split(".")[0]) if isinstance(s, ast.Import) else UNK
        return True

    def exits(self, env, *es):
        for e in es:
            if "%exits" in e and e["%exits"] is not env.get("%exits"):
                env.setdefault("%exits", []).extend(x for x in e["%exits"] if x not in env["%exits"])

    def loop(self, s, env, mod, rets):
        items = None
        if isinstance(s, ast.For):
            it = self.ev(s.iter, env, mod)
            items = elements(it)
        outer = env.pop("%exits", None)
        if isinstance(items, list) and len(items) <= 8:
            for x in items:
                self.bind(s.target, x, env, mod)
                e = dict(env)
                ends = [e] if self.block(s.body, e, mod, rets) else []
                ends += e.pop("%exits", []) if "%exits" in e else []
                for k in set().union(*ends) if ends else ():
                    if k == "%exits":
                        continue
                    v = None
                    for q in ends:
                        if k in q:
                            v = q[k] if v is None else join(v, q[k])
                    env[k] = v
        else:
            for _ in range(3):
                if isinstance(s, ast.For):
                    self.bind(s.target, items if items is not None else UNK, env, mod)
                else:
                    if truth(self.ev(s.test, env, mod)) is False:
                        break
                before = repr(sorted(env.items(), key=lambda kv: kv[0]))
                e = dict(env)
                ends = [e] if self.block(s.body, e, mod, rets) else []
                ends += e.get("%exits", [])
                for q in ends:
                    for k in q:
                        if k != "%exits":
                            env[k] = join(env[k], q[k]) if k in env else q[k]
                if repr(sorted(env.items(), key=lambda kv: kv[0])) == before:
                    break
        if outer is not None:
            env["%exits"] = outer
        if s.orelse:
            self.block(s.orelse, env, mod, rets)

    def bind(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = v.xs if isinstance(v, Tup) else [v.el] * len(t.elts) if isinstance(v, Lst) else None
            if xs is not None and len(xs) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, xs):
                    self.bind(x, y, env, mod)
            else:
                el = D(v.k, None) if isinstance(v, D) else UNK
                for x in t.elts:
                    self.bind(x.value if isinstance(x, ast.Starred) else x, UNK if isinstance(x, ast.Starred) else el, env, mod)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env, mod)
            i = self.ev(t.slice, env, mod)
            if isinstance(b, Dic):
                if isinstance(i, C) and isinstance(t.value, ast.Name) and t.value.id in env:
                    env[t.value.id] = Dic(dict(b.d, **{str(i.v): v})) if isinstance(i.v, str) else UNK
                return
            if isinstance(b, D):
                self.check_index(t, i, mod)
                self.store(t, b, v, mod)
        elif isinstance(t, ast.Attribute):
            self.ev(t.value, env, mod)

    def check_index(self, node, i, mod):
        for x in i.xs if isinstance(i, Tup) else [i]:
            self.index(node, x, mod)

    # ---- expressions
    def name(self, n, env, mod):
        if n in env:
            return env[n]
        r = self.prog.resolve(mod.name, n)
        if r is None:
            if n in ("int", "float", "bool"):
                return Ext("builtins." + n)
            return Ext("builtins." + n)
        return self.resolved(r, n)

    def resolved(self, r, n):
        if r[0] == "func":
            return Fn(r[1], r[2], None)
        if r[0] == "mod":
            return Mod(r[1])
        if r[0] == "ext":
            return Ext(r[1])
        if r[0] == "value":
            return self.ev(r[2], {}, r[1])
        return UNK

    def ev(self, e, env, mod):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e, env, mod)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env, mod)
        return UNK

    def e_Constant(self, e, env, mod):
        return C(e.value)

    def e_Name(self, e, env, mod):
        return self.name(e.id, env, mod)

    def e_Tuple(self, e, env, mod):
        xs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env, mod)
                if not isinstance(v, Tup):
                    return UNK
                xs += v.xs
            else:
                xs.append(self.ev(x, env, mod))
        return Tup(xs)

    e_List = e_Tuple

    def e_Dict(self, e, env, mod):
        d = {}
        for k, v in zip(e.keys, e.values):
            x = self.ev(v, env, mod)
            if k is None:
                if not isinstance(x, Dic):
                    return UNK
                d.update(x.d)
            else:
                kk = self.ev(k, env, mod)
                if not isinstance(kk, C):
                    return UNK
                d[str(kk.v)] = x
        return Dic(d)

    def e_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        if isinstance(e.op, ast.Not):
            t = truth(v)
            return C(not t) if t is not None else D("b", False)
        if isinstance(v, C) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool) and isinstance(e.op, ast.USub):
            return C(-v.v)
        n = num(v)
        return D(n.k, n.arr) if n is not None else UNK

    def binop(self, op, a, b):
        if isinstance(a, C) and isinstance(b, C) and isinstance(a.v, str) and isinstance(b.v, str) and isinstance(op, ast.Add):
            return C(a.v + b.v)
        if isinstance(op, ast.Add) and isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.xs + b.xs)
        x, y = num(a), num(b)
        if x is None or y is None:
            return UNK
        div = isinstance(op, ast.Div)
        if isinstance(op, ast.Pow) and any(k in INTS or k == "pi" for k in y.k | x.k) and not any(k in ("f8", "pf") for k in x.k | y.k):
            ks = {k if k in INTS else UNK for k in x.k} if y.k <= {"pi"} else {UNK}
        else:
            ks = {promote(p, q, div) for p in x.k for q in y.k}
        arr = True if True in (x.arr, y.arr) else False if x.arr is False and y.arr is False else None
        return D(ks, arr)

    def e_BinOp(self, e, env, mod):
        return self.binop(e.op, self.ev(e.left, env, mod), self.ev(e.right, env, mod))

    def e_BoolOp(self, e, env, mod):
        last, sure = None, True
        for x in e.values:
            v = self.ev(x, env, mod)
            t = truth(v)
            if t is (False if isinstance(e.op, ast.And) else True):
                return v if sure else C(t) if isinstance(v, C) and isinstance(v.v, bool) else UNK if not isinstance(v, C) else C(bool(t))
            if t is None:
                sure = False
            last = v
        return last if sure else UNK

    def e_IfExp(self, e, env, mod):
        t = truth(self.ev(e.test, env, mod))
        if t is True:
            return self.ev(e.body, env, mod)
        if t is False:
            return self.ev(e.orelse, env, mod)
        a, b = dict(env), dict(env)
        refine(e.test, a, b)
        p, q = self.ev(e.body, a, mod), self.ev(e.orelse, b, mod)
        return UNK if ondtype(e.test) and repr(p) != repr(q) else join(p, q)

    def e_Compare(self, e, env, mod):
        vs = [self.ev(e.left, env, mod)] + [self.ev(c, env, mod) for c in e.comparators]
        if len(vs) == 2:
            a, b, op = vs[0], vs[1], e.ops[0]
            if isinstance(op, (ast.Is, ast.IsNot)) and any(isinstance(x, C) and x.v is None for x in vs):
                o = b if isinstance(a, C) and a.v is None else a
                if isinstance(o, C):
                    r = o.v is None
                elif o is UNK:
                    return D("b", False)
                else:
                    r = False
                return C(r if isinstance(op, ast.Is) else not r)
            if isinstance(a, C) and isinstance(b, C):
                try:
                    return C(bool({ast.Eq: lambda: a.v == b.v, ast.NotEq: lambda: a.v != b.v, ast.In: lambda: a.v in b.v, ast.NotIn: lambda: a.v not in b.v, ast.Lt: lambda: a.v < b.v, ast.Gt: lambda: a.v > b.v, ast.LtE: lambda: a.v <= b.v,
                                   ast.GtE: lambda: a.v >= b.v}[type(op)]()))
                except Exception:
                    return D("b", False)
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(a, C):
                if isinstance(b, Dic):
                    return C((str(a.v) in b.d) == isinstance(op, ast.In))
                if isinstance(b, Tup) and all(isinstance(x, C) for x in b.xs):
                    return C((a.v in [x.v for x in b.xs]) == isinstance(op, ast.In))
            if isinstance(a, Dt) and isinstance(b, (Dt, Ext, C)) and isinstance(op, (ast.Eq, ast.NotEq)):
                k = dtype_of(b)
                if k is not None and len(a.k) == 1 and len(k) == 1 and UNK not in a.k:
                    return C((conv(list(a.k)[0]) == list(k)[0]) == isinstance(op, ast.Eq))
        n = [num(v) for v in vs]
        arr = None if None in n else True if any(x.arr for x in n) else False if all(x.arr is False for x in n) else None
        return D("b", arr)

    def e_Subscript(self, e, env, mod):
        b = self.ev(e.value, env, mod)
        i = self.ev(e.slice, env, mod)
        if isinstance(b, Tup):
            if isinstance(i, C) and isinstance(i.v, int) and -len(b.xs) <= i.v < len(b.xs):
                return b.xs[i.v]
            if isinstance(e.slice, ast.Slice):
                try:
                    g = [None if x is None else self.ev(x, env, mod).v for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                    return Tup(b.xs[slice(*g)])
                except Exception:
                    return UNK
            r = b.xs[0] if b.xs else UNK
            for x in b.xs[1:]:
                r = join(r, x)
            return r
        if isinstance(b, Dic):
            return b.d.get(str(i.v), UNK) if isinstance(i, C) else UNK
        if isinstance(b, D):
            self.check_index(e, i, mod)
            return D({conv(k) for k in b.k}, True if isinstance(e.slice, ast.Slice) and b.arr else None)
        return UNK

    def e_Slice(self, e, env, mod):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.index(x, self.ev(x, env, mod), mod, "the bound of a slice")
        return UNK

    def e_Lambda(self, e, env, mod):
        return Fn(mod, e, env)

    def e_NamedExpr(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        env[e.target.id] = v
        return v

    def e_JoinedStr(self, e, env, mod):
        out = ""
        for x in e.values:
            v = self.ev(x.value, env, mod) if isinstance(x, ast.FormattedValue) else self.ev(x, env, mod)
            if not (isinstance(v, C) and isinstance(v.v, str)):
                out = None
            elif out is not None:
                out += v.v
        return C(out) if out is not None else UNK

    def comp(self, e, env, mod):
        if len(e.generators) != 1:
            for g in e.generators:
                self.ev(g.iter, env, mod)
            return UNK
        g = e.generators[0]
        it = elements(self.ev(g.iter, env, mod))
        inner = dict(env)
        if isinstance(it, list):
            out = []
            for x in it:
                self.bind(g.target, x, inner, mod)
                ts = [truth(self.ev(c, inner, mod)) for c in g.ifs]
                if any(t is False for t in ts):
                    continue
                v = self.ev(e.elt, inner, mod)
                if any(t is None for t in ts):
                    out = None
                if out is not None:
                    out.append(v)
            return Tup(out) if out is not None else UNK
        self.bind(g.target, it if it is not None else UNK, inner, mod)
        v = self.ev(e.elt, inner, mod)
        return Lst(v) if isinstance(v, D) else UNK

    e_ListComp = e_GeneratorExp = comp

    def e_DictComp(self, e, env, mod):
        inner = dict(env)
        for g in e.generators:
            it = elements(self.ev(g.iter, inner, mod))
            self.bind(g.target, UNK if it is None or isinstance(it, list) else it, inner, mod)
        self.ev(e.value, inner, mod)
        return UNK

    def e_Attribute(self, e, env, mod):
        b = self.ev(e.value, env, mod)
        a = e.attr
        if isinstance(b, Ext):
            full = b.name + "." + a
            if isinstance(b, Mod) and b.name in self.prog.modules:
                r = self.prog.resolve(b.name, a)
                return self.resolved(r, a) if r else Ext(full) if a in ("__getattribute__", "__getattr__") else UNK
            if full in ("numpy.nan", "numpy.inf", "numpy.pi", "numpy.e", "math.pi", "math.inf", "math.nan", "numpy.NaN"):
                return D("pf", False)
            return Ext(full)
        if isinstance(b, D):
            if a == "dtype":
                return Dt(b.k)
            if a in ("T", "flat", "real", "values", "data"):
                return D(b.k, True)
            if a in ("size", "ndim"):
                return D("pi", False)
            if a == "shape":
                return Lst(D("pi", False))
            return Bound(b, a)
        if isinstance(b, Dt) and a == "kind":
            ks = {"f" if k in FLOATS else "b" if k == "b" else "i" if k in INTS or k == "pi" else UNK for k in b.k}
            return C(ks.pop()) if len(ks) == 1 and UNK not in ks else UNK
        if b is UNK:
            return D("pi", False) if a in ("size", "ndim", "nnz") else UNK
        return Bound(b, a)

    def e_Call(self, e, env, mod):
        self.calls += 1
        f = self.ev(e.func, env, mod)
        args, star = [], False
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env, mod)
                if isinstance(v, Tup):
                    args += v.xs
                else:
                    star = True
            else:
                args.append(self.ev(x, env, mod))
        kw, dstar = {}, None
        for k in e.keywords:
            v = self.ev(k.value, env, mod)
            if k.arg is None:
                if isinstance(v, Dic):
                    kw.update(v.d)
                else:
                    dstar = UNK
            else:
                kw[k.arg] = v
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, star, dstar)
        if isinstance(f, Ext):
            return self.ext(e, f.name, args, kw, star, env, mod)
        if isinstance(f, Bound):
            return self.method(e, f.obj, f.attr, args, kw, env, mod)
        return UNK

    def method(self, e, o, a, args, kw, env, mod):
        if isinstance(o, Dic):
            if a in ("get", "pop", "setdefault") and args and isinstance(args[0], C):
                return o.d.get(str(args[0].v), args[1] if len(args) > 1 else C(None))
            if a == "items":
                return Tup([Tup([C(k), v]) for k, v in o.d.items()])
            if a == "values":
                return Tup(list(o.d.values()))
            if a == "keys":
                return Tup([C(k) for k in o.d])
            if a == "copy":
                return o
            if a == "update" and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name):
                n = e.func.value.id
                env[n] = Dic(dict(o.d, **(args[0].d if args and isinstance(args[0], Dic) else {}), **kw)) if not args or isinstance(args[0], Dic) else UNK
                return C(None)
            return UNK
        if isinstance(o, Tup):
            if a == "index":
                return D("pi", False)
            return UNK
        if isinstance(o, C):
            return UNK if a not in ("lower", "strip", "upper") or not isinstance(o.v, str) else C(getattr(o.v, a)())
        if isinstance(o, D):
            if a == "astype":
                k = dtype_of(args[0] if args else kw.get("dtype", UNK))
                if k is not None:
                    self.narrow(e, o, k, mod)
                    return D(k, o.arr)
                return D(UNK)
            if a == "fill":
                self.store(e, D(o.k, True), args[0] if args else UNK, mod)
                return C(None)
            if a in BOOL:
                return D("b")
            if a in IDX:
                return D("i8")
            if a in ("mean", "std", "var"):
                return D({k if k in FLOATS else "f8" if k in INTS or k == "b" else UNK for k in o.k})
            if a in ADD:
                return D({"i8" if k in INTS or k == "b" else k for k in o.k})
            if a in ("reshape", "ravel", "flatten", "copy", "transpose", "squeeze", "swapaxes", "repeat", "roll", "sort", "take"):
                return D(o.k, True)
            if a in SAME:
                return D(o.k)
        return UNK

    def narrow(self, e, o, k, mod):
        for a in sorted(k):
            if a in ("f4", "f2") and o.k and o.k <= {"f8", "pf"} or a in INTS and INTS[a] < 8 and o.k and o.k <= {"i8"}:
                self.report(e, "%s is cast to %s" % (TEXT[sorted(o.k)[0]], TEXT.get(a, a)), mod)

    def ext(self, e, n, args, kw, star, env, mod):
        short = n.rsplit(".", 1)[-1]
        if star:
            return UNK
        a0 = args[0] if args else UNK
        if n.startswith("builtins."):
            return self.builtin(e, short, args, kw, env, mod)
        if n == "importlib.import_module" or n.endswith(".import_module"):
            return Mod(a0.v) if isinstance(a0, C) and a0.v in self.prog.modules else UNK
        if short in ("__getattribute__", "__getattr__"):
            base = n[:-len(short) - 1]
            if base in self.prog.modules and isinstance(a0, C):
                r = self.prog.resolve(base, a0.v)
                return self.resolved(r, a0.v) if r else UNK
            return UNK
        if n.split(".")[0] == "math":
            return D("pi" if short in ("ceil", "floor", "trunc", "comb", "gcd") else "b" if short.startswith("is") else "pf", False)
        if n.split(".")[0] not in ("numpy",):
            return UNK
        if short in NAMES and short not in ("int", "float", "bool", "d", "f"):
            x = num(a0)
            if x is not None:
                self.narrow(e, x, {NAMES[short]}, mod)
            return D(NAMES[short], False if x is None or x.arr is False else None)
        dt = kw.get("dtype")
        if short in ("empty", "zeros", "ones", "full", "empty_like", "zeros_like", "ones_like", "full_like", "array", "asarray", "require", "arange", "ascontiguousarray", "fromiter", "linspace", "asanyarray", "prod", "sum", "cumsum", "eye", "identity"):
            if dt is None:
                at = {"empty": 1, "zeros": 1, "ones": 1, "full": 2, "empty_like": 1, "zeros_like": 1, "ones_like": 1, "full_like": 2, "array": 1, "asarray": 1, "require": 1, "fromiter": 1, "ascontiguousarray": 1}.get(short)
                dt = args[at] if at is not None and len(args) > at else None
                if isinstance(dt, C) and dt.v is None:
                    dt = None
            if dt is not None:
                k = dtype_of(dt)
                x = num(a0) if short in ("array", "asarray", "require", "ascontiguousarray", "asanyarray") else None
                if k is not None and x is not None:
                    self.narrow(e, x, k, mod)
                if k is not None and short in ("full", "full_like") and len(args) > 1:
                    self.store(e, D(k, True), args[1], mod, "np.%s" % short)
                return D({conv(q) for q in k}, True if short not in ("prod", "sum") else None) if k is not None else D(UNK, True)
        if short in ("empty", "zeros", "ones", "full"):
            for x in a0.xs if isinstance(a0, Tup) else [a0]:
                self.index(e, x, mod, "a size")
            if short != "full":
                return D("f8", True)
            v = num(args[1] if len(args) > 1 else kw.get("fill_value", UNK))
            return D({conv(k) for k in v.k} if v is not None else UNK, True)
        if short in ("empty_like", "zeros_like", "ones_like", "full_like"):
            x = num(a0)
            r = D({conv(k) for k in x.k}, True) if x is not None else D(UNK, True)
            if short == "full_like" and len(args) > 1:
                self.store(e, r, args[1], mod, "np.full_like")
            return r
        if short in ("eye", "identity"):
            return D("f8", True)
        if short == "arange":
            ks = [num(x) for x in args]
            if all(k is not None and k.k <= set(INTS) | {"pi", "b"} for k in ks):
                return D("i8", True)
            return D("f8" if any(k is not None and k.k <= set(FLOATS) for k in ks) else UNK, True)
        if short in ("array", "asarray", "asanyarray", "ascontiguousarray", "require"):
            v = a0
            if isinstance(v, Tup):
                return self.promoted(v.xs, True)
            if isinstance(v, Lst):
                return D({conv(k) for k in v.el.k}, True)
            v = num(v)
            return D({conv(k) for k in v.k}, True) if v is not None else UNK
        if short in BOOL:
            x = num(a0)
            return D("b", False if short in ("array_equal", "allclose", "shares_memory", "may_share_memory") else x.arr if x is not None and short.startswith("is") else None)
        if short == "isscalar":
            if isinstance(a0, C):
                return C(isinstance(a0.v, (int, float, str)))
            if isinstance(a0, D) and a0.arr is not None:
                return C(not a0.arr)
            return C(False) if isinstance(a0, (Tup, Dic, Fn)) else D("b", False)
        if short == "where" and len(args) == 1 or short in IDX:
            return UNK if short in ("nonzero", "where", "argwhere") else D("i8") if short != "bincount" or len(args) < 2 and "weights" not in kw else D("f8", True)
        if short == "where" and len(args) == 3:
            return self.promoted(args[1:], None)
        if short in FLT:
            xs = [num(x) for x in args] or [None]
            if short in ("linspace", "geomspace", "logspace"):
                return D("f8", True)
            if any(x is None for x in xs[:1]):
                return D(UNK)
            return D({"f8" if k in INTS or k in ("pi", "pf", "b") else k for k in xs[0].k}, xs[0].arr)
        if short in KEEP:
            x = num(a0)
            return D({"f8" if k in INTS or k in ("pi", "pf") else k for k in x.k}, x.arr) if x is not None else D(UNK)
        if short in ADD:
            x = num(a0)
            return D({"i8" if k in INTS or k == "b" else k for k in x.k}) if x is not None else D(UNK)
        if short in PROMOTE:
            if short in ("concatenate", "stack", "hstack", "vstack", "column_stack", "dstack"):
                return self.promoted(a0.xs, True) if isinstance(a0, Tup) else D(a0.el.k, True) if isinstance(a0, Lst) else D(UNK, True)
            return self.promoted(args, None)
        if short in SAME:
            x = num(a0)
            return D(x.k, x.arr if short not in ("reshape", "roll", "broadcast_to", "tile", "repeat", "flip", "moveaxis") else True) if x is not None else D(UNK)
        if short == "copyto":
            if isinstance(a0, D) and len(args) > 1:
                self.store(e, a0, args[1], mod)
            return C(None)
        if short == "issubdtype" and len(args) == 2 and isinstance(a0, Dt) and isinstance(args[1], Ext):
            fam = args[1].name.rsplit(".", 1)[-1]
            ok = {"integer": set(INTS) | {"pi"}, "signedinteger": set(INTS) | {"pi"}, "floating": set(FLOATS), "inexact": set(FLOATS), "number": set(INTS) | set(FLOATS) | {"pi"}, "float64": {"f8", "pf"}, "int64": {"i8", "pi"}, "bool_": {"b"}}.get(fam)
            if ok is not None and UNK not in a0.k:
                if a0.k <= ok:
                    return C(True)
                if not a0.k & ok:
                    return C(False)
            return D("b", False)
        if short in ("result_type", "promote_types"):
            ks = [x.k if isinstance(x, (D, Dt)) else dtype_of(x) if isinstance(x, (Ext, C)) and dtype_of(x) else num(x).k if num(x) is not None else {UNK} for x in args]
            out = {conv(k) for k in ks[0]} if ks else {UNK}
            for k in ks[1:]:
                out = {promote(conv(p), conv(q)) for p in out for q in k}
            return Dt(out)
        if short == "dtype" and args:
            k = dtype_of(a0)
            return Dt(k) if k is not None else UNK
        return UNK

    def promoted(self, xs, arr):
        ks = None
        for x in xs:
            if isinstance(x, Tup):
                x = self.promoted(x.xs, True)
            n = num(x)
            if n is None:
                return D(UNK, arr)
            ks = set(n.k) if ks is None else {promote(p, q) for p in ks for q in n.k}
        return D({conv(k) for k in ks or {"f8"}}, arr)

    def builtin(self, e, n, args, kw, env, mod):
        a0 = args[0] if args else UNK
        if n == "range":
            for x in args:
                self.index(e, x, mod, "the bound of a range")
            return Lst(D("pi", False))
        if n == "len":
            return D("pi", False)
        if n in ("int", "float", "bool"):
            if isinstance(a0, C) and isinstance(a0.v, (int, float)):
                return C({"int": int, "float": float, "bool": bool}[n](a0.v)) if a0.v == a0.v and abs(a0.v) != float("inf") else D("pf", False)
            return D({"int": "pi", "float": "pf", "bool": "b"}[n], False)
        if n in ("min", "max", "sum", "abs", "round", "pow"):
            if len(args) == 1 and n in ("abs",):
                return num(a0) or UNK
            if n == "round":
                return D("pi", False) if len(args) == 1 else num(a0) or UNK
            if len(args) == 1 or n not in ("min", "max"):
                return UNK
            xs = [num(x) for x in args]
            if any(x is None for x in xs):
                return UNK
            return D(frozenset().union(*(x.k for x in xs)), False)
        if n == "isinstance" and len(args) == 2:
            return self.isinstance(args[0], args[1])
        if n == "callable":
            return C(isinstance(a0, (Fn, Ext, Bound))) if a0 is not UNK else D("b", False)
        if n == "hasattr" and len(args) == 2 and isinstance(args[1], C):
            if isinstance(a0, D) and a0.arr is not False:
                return C(args[1].v in ("dtype", "shape", "ndim", "size", "copy", "reshape", "T", "data", "flat", "real")) if args[1].v in ("values", "dims", "dtype", "shape", "ndim", "size", "name", "attrs", "coords", "sel", "isel", "toarray") else D("b", False)
            if isinstance(a0, (C, D, Tup, Dic)) and args[1].v in ("values", "dims") and not isinstance(a0, Dic):
                return C(False)
            return D("b", False)
        if n in ("tuple", "list"):
            return a0 if isinstance(a0, (Tup, Lst)) else Tup([]) if not args else UNK
        if n == "dict":
            if not args:
                return Dic(kw)
            return Dic(dict(a0.d, **kw)) if isinstance(a0, Dic) else UNK
        if n == "zip":
            els = [elements(x) for x in args]
            if els and all(isinstance(x, list) for x in els):
                return Tup([Tup(t) for t in zip(*els)])
            if els and all(x is not None for x in els):
                return Lst(Tup([(x[0] if x else UNK) if isinstance(x, list) else x for x in els])) if not any(isinstance(x, list) and len({repr(q) for q in x}) > 1 for x in els) else UNK
            return UNK
        if n == "enumerate":
            x = elements(a0)
            return Tup([Tup([C(i), v]) for i, v in enumerate(x)]) if isinstance(x, list) else Lst(Tup([D("pi", False), x if x is not None else UNK]))
        if n == "getattr" and len(args) >= 2 and isinstance(args[1], C) and isinstance(a0, Ext) and a0.name in self.prog.modules:
            r = self.prog.resolve(a0.name, args[1].v)
            return self.resolved(r, args[1].v) if r else UNK
        if n == "map" and len(args) == 2 and isinstance(args[0], Fn):
            x = elements(args[1])
            if isinstance(x, list):
                return Tup([self.call_fn(args[0], [v], {}) for v in x])
        if n in ("any", "all"):
            if isinstance(a0, Tup):
                ts = [truth(x) for x in a0.xs]
                stop = n == "any"
                if stop in ts:
                    return C(stop)
                if None not in ts:
                    return C(not stop)
            return D("b", False)
        return UNK

    def isinstance(self, v, t):
        if isinstance(t, Tup):
            rs = [self.isinstance(v, x) for x in t.xs]
            if any(isinstance(r, C) and r.v for r in rs):
                return C(True)
            return C(False) if all(isinstance(r, C) for r in rs) else D("b", False)
        if not isinstance(t, Ext) or v is UNK:
            return D("b", False)
        n = t.name.rsplit(".", 1)[-1]
        if n == "ndarray":
            return C(v.arr) if isinstance(v, D) and v.arr is not None else D("b", False) if isinstance(v, D) else C(False)
        if n in ("tuple", "list"):
            return C(False) if isinstance(v, (D, C, Dic, Fn)) else C(n == "tuple") if isinstance(v, Tup) else D("b", False)
        if n == "dict":
            return C(isinstance(v, Dic)) if not isinstance(v, Bound) else D("b", False)
        if n == "str":
            return C(isinstance(v, C) and isinstance(v.v, str))
        if n == "DataArray":
            return C(False)
        if n in ("int", "float"):
            if isinstance(v, C):
                return C(isinstance(v.v, {"int": int, "float": float}[n]))
            if isinstance(v, D) and v.arr is True:
                return C(False)
            if isinstance(v, D) and v.arr is False and v.k == {"pi"}:
                return C(n == "int")
            return D("b", False) if isinstance(v, D) else C(False)
        return D("b", False)


class Lst:
    """any number of elements of one kind"""

    def __init__(self, el):
        self.el = el

    def __repr__(self):
        return "L(%r)" % (self.el,)


TEXT = {"i8": "64-bit integers", "i4": "32-bit integers", "i2": "16-bit integers", "i1": "8-bit integers", "f8": "double precision", "f4": "single precision", "f2": "half precision", "pf": "a float", "pi": "an integer", "b": "booleans"}


def elements(v):
    if isinstance(v, Tup):
        return list(v.xs)
    if isinstance(v, Lst):
        return v.el
    if isinstance(v, D):
        return D({conv(k) for k in v.k}, None)
    if isinstance(v, Dic):
        return [C(k) for k in v.d]
    return None


def truth(v):
    if isinstance(v, C):
        return bool(v.v)
    if isinstance(v, Tup):
        return bool(v.xs)
    if isinstance(v, (Fn, Ext)):
        return True
    return None


def dtype_of(v):
    if isinstance(v, Dt):
        return v.k
    if isinstance(v, Ext):
        k = NAMES.get(v.name.rsplit(".", 1)[-1])
        return frozenset((k,)) if k else None
    if isinstance(v, C) and isinstance(v.v, str) and v.v.lstrip("<>=") in NAMES:
        return frozenset((NAMES[v.v.lstrip("<>=")],))
    return None


def refine(test, a, b):
    """`x is None` tests: on one side x is None"""
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
        if isinstance(test.ops[0], ast.Is):
            a[test.left.id] = C(None)
        elif isinstance(test.ops[0], ast.IsNot):
            b[test.left.id] = C(None)


def ondtype(test):
    """the test looks at types: what depends on it is not known"""
    return any(isinstance(n, ast.Attribute) and n.attr in ("dtype", "kind", "itemsize") or isinstance(n, ast.Name) and n.id in ("isinstance", "type") or isinstance(n, ast.Attribute) and n.attr in ("issubdtype", "can_cast", "isscalar", "isreal") for n in ast.walk(test))


def signature(fn):
    """numba signature of a guvectorize/vectorize kernel: (input kinds, output kinds)"""
    for d in fn.decorator_list:
        if isinstance(d, ast.Call) and getattr(d.func, "attr", getattr(d.func, "id", "")) == "guvectorize" and len(d.args) == 2 and isinstance(d.args[0], (ast.List, ast.Tuple)) and isinstance(d.args[1], ast.Constant):
            lay = d.args[1].value.replace(" ", "")
            if "->" not in lay:
                return None
            nin = lay.split("->")[0].count("(")
            s = d.args[0].elts
            if len(s) != 1:
                return None
            s = s[0].args if isinstance(s[0], ast.Call) else s[0].elts if isinstance(s[0], ast.Tuple) else None
            if s is None:
                return None
            ks = []
            for x in s:
                while isinstance(x, ast.Subscript):
                    x = x.value
                ks.append(NAMES.get(getattr(x, "attr", getattr(x, "id", "")), UNK))
            return ks[:nin], ks[nin:]
    return None

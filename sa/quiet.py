"""Which statements that print (or write files) can run under given options.

A public function is walked with chosen options bound to constants; tests that these decide prune the paths, calls of the package are
followed with their arguments bound, and each remaining print is reported with the call chain.  A print that is left standing behind a
test on a value computed from the options in a way the walk does not evaluate is not a finding but an open question.
"""
import ast

WRITES = {"savetxt", "save", "savez", "savez_compressed", "tofile", "to_netcdf", "to_zarr", "to_csv", "to_pickle", "to_parquet", "dump", "write_text", "write_bytes"}
OSWRITES = {"remove", "unlink", "rename", "replace", "mkdir", "makedirs", "rmdir", "removedirs", "system", "popen", "putenv", "chdir", "kill", "rmtree", "move", "copy", "copyfile", "copytree", "run", "Popen",
            "call", "check_call", "check_output"}
OTHER, TAINT, KW, PRINT = "other", "taint", "kw", "print"


class C:
    """a value whose truth is known; opt: it comes from an option"""
    __slots__ = ("v", "opt")

    def __init__(self, v, opt=False):
        self.v, self.opt = v, opt

    def __eq__(self, o):
        return isinstance(o, C) and self.v == o.v and type(self.v) is type(o.v) and self.opt == o.opt

    def __hash__(self):
        return hash((repr(self.v), self.opt))


class Local:
    def __init__(self, node, env):
        self.node, self.env = node, env


class Finding:
    def __init__(self, text, where, via, sure, loop):
        self.text, self.where, self.via, self.sure, self.loop = text, where, via, sure, loop


class Walker:
    DEPTH = 12

    def __init__(self, prog, options):
        self.prog, self.options = prog, options
        self.found = {}
        self.seen = set()
        self.functions = set()
        self.calls = 0
        self.chain = []
        self.loop = 0

    def entry(self, mod, fn):
        env = {}
        a = fn.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            env[x.arg] = C(self.options[x.arg], True) if x.arg in self.options else OTHER
        if a.vararg:
            env[a.vararg.arg] = TAINT
        if a.kwarg:
            env[a.kwarg.arg] = KW
        self.function(mod, fn, env, False)
        return self

    def function(self, mod, fn, env, guard):
        key = (id(fn), guard, self.loop > 0, tuple(sorted((k, v if isinstance(v, str) else repr((v.v, v.opt)) if isinstance(v, C) else id(v)) for k, v in env.items())))
        if key in self.seen or len(self.chain) > self.DEPTH:
            return
        self.seen.add(key)
        self.functions.add(mod.name + "." + fn.name)
        self.chain.append(fn.name)
        old = getattr(self, "mod", None)
        self.mod = mod
        try:
            self.block(fn.body, env, guard)
        finally:
            self.mod = old
            self.chain.pop()

    def record(self, node, text, guard):
        w = "%s:%d" % (self.mod.path[len(self.prog.root):].lstrip("/"), node.lineno)
        f = self.found.get((w, text))
        if f is None or guard is False and not f.sure:
            self.found[w, text] = Finding(text, w, list(self.chain), not guard, self.loop > 0)

    # ---- statements: returns (goes on, guard of what follows)
    def block(self, body, env, guard):
        for s in body:
            on, guard = self.stmt(s, env, guard)
            if not on:
                return False, guard
        return True, guard

    def stmt(self, s, env, guard):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            env[s.name] = Local(s, env)
            return True, guard
        if isinstance(s, (ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)):
            return True, guard
        if isinstance(s, ast.If):
            self.visit(s.test, env, guard)
            t = truth(self.ev(s.test, env))
            if t is True:
                return self.block(s.body, env, guard)
            if t is False:
                return self.block(s.orelse, env, guard)
            g = guard or t == TAINT
            a, b = dict(env), dict(env)
            x, gx = self.block(s.body, a, g)
            y, gy = self.block(s.orelse, b, g)
            env.update(merge(a, b, x, y, t == TAINT))
            if not x and not y:
                return False, guard
            left = t == TAINT and (not x or not y or any(isinstance(z, (ast.Return, ast.Continue, ast.Break, ast.Raise)) for q in s.body + s.orelse for z in ast.walk(q)))
            return True, guard or left
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.visit(s.iter, env, guard)
                self.bind(s.target, TAINT if self.ev(s.iter, env) in (TAINT, KW) else OTHER, env)
                t = None
            else:
                self.visit(s.test, env, guard)
                t = truth(self.ev(s.test, env))
                if t is False:
                    return self.block(s.orelse, env, guard)
            g = guard or t == TAINT
            for _ in range(2):
                e = dict(env)
                self.loop += 1
                _, gb = self.block(s.body, e, g)
                self.loop -= 1
                env.update(merge(env, e, True, True, False))
                g = g or gb
            self.block(s.orelse, env, g)
            return True, guard
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.visit(i.context_expr, env, guard)
            return self.block(s.body, env, guard)
        if isinstance(s, ast.Try):
            e = dict(env)
            on, g = self.block(s.body, env, guard)
            for h in s.handlers:
                b = dict(e)
                self.block(h.body, b, guard)
                env.update(merge(env, b, True, True, False))
                on = True
            if s.orelse and on:
                on, g = self.block(s.orelse, env, g)
            if s.finalbody:
                o2, g = self.block(s.finalbody, env, g)
                on = on and o2
            return on, g
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.visit(c, env, guard)
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
                    for x, y in zip(t.elts, [self.ev(y, env) for y in s.value.elts]):
                        self.bind(x, y, env)
                else:
                    self.bind(t, v, env)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.bind(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            env[s.target.id] = mix([env.get(s.target.id, OTHER), self.ev(s.value, env)])
        elif isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return False, guard
        return True, guard

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, TAINT if tainted(v) else OTHER, env)
        elif isinstance(t, (ast.Subscript, ast.Attribute)) and tainted(v):
            b = t.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name) and env.get(b.id) is not KW:
                env[b.id] = TAINT

    # ---- values
    def ev(self, e, env):
        if isinstance(e, ast.Constant):
            return C(e.value)
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id == "print":
                return PRINT
            r = self.prog.resolve(self.mod.name, e.id)
            if r and r[0] == "value":
                if isinstance(r[2], ast.Constant):
                    return C(r[2].value)
                if isinstance(r[2], ast.Name) and r[2].id == "print":
                    return PRINT
            return OTHER
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.ev(e.operand, env)
            t = truth(v)
            return C(not t, tainted(v)) if t in (True, False) else TAINT if tainted(v) else OTHER
        if isinstance(e, ast.BoolOp):
            last, taint = None, False
            for x in e.values:
                v = self.ev(x, env)
                t = truth(v)
                taint = taint or tainted(v)
                if t is (False if isinstance(e.op, ast.And) else True):
                    return C(t, taint) if not isinstance(v, C) else C(v.v, taint)
                last = v if last is None or t in (True, False) and last is not TAINT and last is not OTHER else TAINT if TAINT in (last, v) else OTHER
            return last
        if isinstance(e, ast.IfExp):
            t = truth(self.ev(e.test, env))
            if t in (True, False):
                return self.ev(e.body if t else e.orelse, env)
            a, b = self.ev(e.body, env), self.ev(e.orelse, env)
            return a if a == b else TAINT if t == TAINT or tainted(a) or tainted(b) else OTHER
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ev(e.left, env), self.ev(e.comparators[0], env)
            if isinstance(a, C) and isinstance(b, C):
                op = e.ops[0]
                try:
                    r = {ast.Is: lambda: a.v is b.v, ast.IsNot: lambda: a.v is not b.v, ast.Eq: lambda: a.v == b.v, ast.NotEq: lambda: a.v != b.v, ast.Lt: lambda: a.v < b.v, ast.LtE: lambda: a.v <= b.v,
                         ast.Gt: lambda: a.v > b.v, ast.GtE: lambda: a.v >= b.v}[type(op)]()
                    return C(bool(r), a.opt or b.opt)
                except Exception:
                    pass
            if isinstance(a, C) and isinstance(e.ops[0], (ast.In, ast.NotIn)) and b is KW:
                return C(isinstance(e.ops[0], ast.In), True) if a.v in self.options else OTHER
            return mix([a, b])
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and f.attr in ("get", "pop", "setdefault", "__getitem__") and e.args and self.ev(f.value, env) is KW:
                k = self.ev(e.args[0], env)
                if isinstance(k, C) and isinstance(k.v, str):
                    return C(self.options[k.v], True) if k.v in self.options else OTHER
                return TAINT
            if isinstance(f, ast.Attribute) and f.attr == "copy" and self.ev(f.value, env) is KW:
                return KW
            if isinstance(f, ast.Name) and f.id == "dict" and len(e.args) == 1 and self.ev(e.args[0], env) is KW:
                return KW
            if isinstance(f, ast.Name) and f.id in ("bool", "int") and len(e.args) == 1:
                v = self.ev(e.args[0], env)
                return v if isinstance(v, C) else mix([v])
            return mix([self.ev(x, env) for x in e.args] + [self.ev(k.value, env) for k in e.keywords] + ([self.ev(f.value, env)] if isinstance(f, ast.Attribute) else []))
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, env)
            if b is KW:
                k = self.ev(e.slice, env)
                if isinstance(k, C) and isinstance(k.v, str):
                    return C(self.options[k.v], True) if k.v in self.options else OTHER
                return TAINT
            return mix([b, self.ev(e.slice, env)])
        if isinstance(e, ast.Dict):
            vs = [self.ev(v, env) for v in e.values]
            return KW if KW in [v for k, v in zip(e.keys, vs) if k is None] else mix(vs)
        if isinstance(e, ast.Lambda):
            return Local(e, env)
        if isinstance(e, ast.NamedExpr):
            return self.ev(e.value, env)
        return mix([self.ev(c, env) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)])

    # ---- calls in an expression
    def visit(self, e, env, guard):
        if isinstance(e, ast.IfExp):
            self.visit(e.test, env, guard)
            t = truth(self.ev(e.test, env))
            if t is not False:
                self.visit(e.body, env, guard or t == TAINT)
            if t is not True:
                self.visit(e.orelse, env, guard or t == TAINT)
            return
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                self.visit(x, env, guard)
                t = truth(self.ev(x, env))
                if t is (False if isinstance(e.op, ast.And) else True):
                    return
                guard = guard or t == TAINT
            return
        if isinstance(e, ast.Lambda):
            return
        if isinstance(e, ast.NamedExpr) and isinstance(e.target, ast.Name):
            self.visit(e.value, env, guard)
            env[e.target.id] = self.ev(e.value, env)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.visit(c, env, guard)
            elif isinstance(c, ast.keyword):
                self.visit(c.value, env, guard)
            elif isinstance(c, ast.comprehension):
                self.visit(c.iter, env, guard)
        if isinstance(e, ast.Call):
            self.call(e, env, guard)

    def call(self, e, env, guard):
        self.calls += 1
        f = e.func
        if isinstance(f, ast.Attribute):
            base = ast.unparse(f.value)
            if f.attr in ("write", "writelines") and base in ("sys.stdout", "sys.stderr", "sys.__stdout__", "stdout", "stderr"):
                self.record(e, "%s.%s" % (base, f.attr), guard)
            elif f.attr in WRITES and not (f.attr in ("save", "dump") and base.split(".")[0] not in ("np", "numpy", "json", "pickle", "joblib", "yaml")) or f.attr in OSWRITES and base.split(".")[0] in ("os", "shutil", "subprocess"):
                self.record(e, "write: %s.%s" % (base, f.attr), guard)
            r = self.prog.resolve(self.mod.name, f.value.id) if isinstance(f.value, ast.Name) and f.value.id not in env else None
            if r and r[0] == "mod" and r[1] in self.prog.modules:
                r = self.prog.resolve(r[1], f.attr)
                if r and r[0] == "func":
                    self.enter(r[1], r[2], e, env, guard)
            return
        if isinstance(f, ast.Name):
            v = self.ev(f, env)
            if v is PRINT:
                self.record(e, "print", guard)
            elif isinstance(v, Local):
                if isinstance(v.node, ast.Lambda):
                    inner = dict(v.env)
                    for x in v.node.args.args:
                        inner[x.arg] = OTHER
                    if id(v.node) not in [i for i in getattr(self, "lams", ())]:
                        self.lams = getattr(self, "lams", []) + [id(v.node)]
                        self.visit(v.node.body, inner, guard)
                        self.lams.pop()
                else:
                    self.enter(self.mod, v.node, e, env, guard, v.env)
            elif f.id == "open" and f.id not in env:
                m = e.args[1] if len(e.args) > 1 else next((k.value for k in e.keywords if k.arg == "mode"), None)
                if m is not None and not (isinstance(m, ast.Constant) and isinstance(m.value, str) and not set(m.value) & set("wax+")):
                    self.record(e, "write: open", guard)
            elif f.id not in env:
                r = self.prog.resolve(self.mod.name, f.id)
                if r and r[0] == "func":
                    self.enter(r[1], r[2], e, env, guard)

    def enter(self, mod, fn, e, env, guard, outer=None):
        if not isinstance(fn, ast.FunctionDef):
            return
        a = fn.args
        inner = dict(outer) if outer is not None else {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        for n, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            inner[n] = C(d.value) if isinstance(d, ast.Constant) else OTHER
        given = set()
        if any(isinstance(x, ast.Starred) for x in e.args):
            for n in pos:
                inner[n] = mix([self.ev(x, env) for x in e.args])
        else:
            for n, x in zip(pos, e.args):
                inner[n] = self.ev(x, env)
                given.add(n)
        open_ = False
        for k in e.keywords:
            if k.arg is None:
                open_ = open_ or self.ev(k.value, env) in (KW, TAINT)
            else:
                inner[k.arg] = self.ev(k.value, env)
                given.add(k.arg)
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if open_ and n not in given:
                inner[n] = C(self.options[n], True) if n in self.options else OTHER
            inner.setdefault(n, OTHER)
        if a.vararg:
            inner[a.vararg.arg] = mix([self.ev(x, env) for x in e.args])
        if a.kwarg:
            inner[a.kwarg.arg] = KW if open_ else TAINT if any(tainted(self.ev(k.value, env)) for k in e.keywords) else OTHER
        self.function(mod, fn, inner, guard)


def truth(v):
    if isinstance(v, C):
        return bool(v.v)
    if v is PRINT or isinstance(v, Local):
        return True
    return TAINT if v in (TAINT, KW) else None


def tainted(v):
    return v in (TAINT, KW) if isinstance(v, str) else isinstance(v, C) and v.opt


def mix(vs):
    return TAINT if any(tainted(v) for v in vs) else OTHER


def merge(a, b, x, y, taint):
    if not x:
        return b
    if not y:
        return a
    out = {}
    for k in set(a) | set(b):
        u, v = a.get(k, OTHER), b.get(k, OTHER)
        out[k] = u if u is v or u == v else TAINT if taint or tainted(u) or tainted(v) else OTHER
    return out

"""Names, calls and unpackings that cannot succeed.

A forward dataflow analysis of every function of the package (nested ones and module bodies included), on the syntax tree:
  unbound   a name is read that nothing in its scopes binds, or a local variable is read where no path has given it a value yet
  import    a name is imported from, or an attribute read of, a module of the package that has no such name
  call      a call of a function of the package leaves out a required argument, gives too many, or one it does not have
  unpack    the values a function of the package returns are unpacked into another number of names, whichever return is taken
Nothing is reported for code that cannot be reached, for callees that are not known, or where names may come from elsewhere
(star imports from outside, exec, locals()).
"""
import ast
import builtins

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__path__", "__loader__", "__builtins__", "WindowsError", "__class__"}
FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


class Report:
    def __init__(self, rule, text, where, fn):
        self.rule, self.text, self.where, self.fn = rule, text, where, fn


def params(a):
    return a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])


def pattern_names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


def match_names(p):
    out = set()
    for x in ast.walk(p):
        for f in ("name", "rest"):
            if isinstance(x, (ast.MatchAs, ast.MatchStar, ast.MatchMapping)) and getattr(x, f, None):
                out.add(getattr(x, f))
    return out


def bound_in(body):
    """names the statements (not nested scopes) may bind"""
    out, glob, nonl = set(), set(), set()

    def expr(e):
        if e is None or isinstance(e, FN + COMP) and not isinstance(e, COMP):
            return
        if isinstance(e, ast.NamedExpr) and isinstance(e.target, ast.Name):
            out.add(e.target.id)
        for c in ast.iter_child_nodes(e):
            if not isinstance(c, FN):
                expr(c)

    def go(b):
        for s in b:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(s.name)
                continue
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    out.add((a.asname or a.name).split(".")[0])
            elif isinstance(s, ast.Global):
                glob.update(s.names)
            elif isinstance(s, ast.Nonlocal):
                nonl.update(s.names)
            elif isinstance(s, ast.Match):
                for c in s.cases:
                    out.update(match_names(c.pattern))
                    go(c.body)
            elif isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
                for h in s.handlers:
                    if h.name:
                        out.add(h.name)
                    go(h.body)
            for f, v in ast.iter_fields(s):
                for x in v if isinstance(v, list) else [v]:
                    if isinstance(x, ast.expr):
                        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.AsyncFor)) and f in ("targets", "target"):
                            out.update(pattern_names(x))
                        expr(x)
                    elif isinstance(x, ast.withitem):
                        expr(x.context_expr)
                        if x.optional_vars is not None:
                            out.update(pattern_names(x.optional_vars))
            for f in ("body", "orelse", "finalbody"):
                v = getattr(s, f, None)
                if isinstance(v, list):
                    go(v)
    go(body)
    return out - glob - nonl, glob


class Checker:
    def __init__(self, prog):
        self.prog = prog
        self.reports = []
        self.functions = []
        self.names = self.calls = self.unpacks = 0

    def report(self, rule, text, mod, node, fn):
        self.reports.append(Report(rule, text, "%s:%d (%s)" % (mod.path[len(self.prog.root):].lstrip("/"), getattr(node, "lineno", 0), fn), fn))

    # ---------------------------------------------------------------- program
    def run(self, module):
        mod = self.prog.modules[module]
        top, _ = bound_in(mod.tree.body)
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Global):
                top |= set(n.names)
        self.open = False
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.ImportFrom):
                base = mod._base(n)
                if any(a.name == "*" for a in n.names):
                    self.open = True
                elif base in self.prog.modules and self.closed(base):
                    for a in n.names:
                        if self.prog.resolve(base, a.name) is None and a.name not in BUILTINS and base + "." + a.name not in self.prog.modules and not self.defines(base, a.name):
                            self.report("import", "%s has no %s" % (base, a.name), mod, n, mod.name)
            elif isinstance(n, ast.Name) and n.id in ("exec", "locals", "globals", "vars") or isinstance(n, ast.Attribute) and n.attr == "__dict__":
                self.open = True
        self.mod, self.top = mod, top
        self.scope(mod.tree.body, [], [], mod.name, set(), None)
        return self

    def closed(self, base):
        m = self.prog.modules[base]
        if any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(m.tree)):
            return False
        return "__getattr__" not in m.names

    def defines(self, base, name):
        t = self.prog.modules[base].tree
        return name in bound_in(t.body)[0] or any(isinstance(n, ast.Global) and name in n.names for n in ast.walk(t))

    # ---------------------------------------------------------------- scopes
    def scope(self, body, pars, outer, qual, classnames, node):
        """outer: list of (all names bound in an enclosing function scope)"""
        local, glob = bound_in(body)
        local |= {p.arg for p in pars}
        self.functions.append(qual)
        fr = Frame(self, local, glob, outer, qual, node)
        may = {p.arg for p in pars}
        fr.block(body, may)
        # nested scopes are entered at any time after their definition
        for d in fr.nested:
            if isinstance(d, ast.ClassDef):
                self.scope(d.body, [], outer + ([local] if node is not None else []), qual + "." + d.name, set(), d)
            elif isinstance(d, ast.Lambda):
                self.scope([ast.copy_location(ast.Expr(d.body), d)], params(d.args), outer + ([local] if node is not None else []), qual + ".<lambda>", set(), d)
            else:
                self.scope(d.body, params(d.args), outer + ([local] if node is not None else []), qual + "." + d.name, set(), d)


class Frame:
    def __init__(self, ck, local, glob, outer, qual, node):
        self.ck, self.local, self.glob, self.outer, self.qual, self.node = ck, local, glob, outer, qual, node
        self.nested = []
        self.rebound = {}
        self.top = node is None

    # ---- names
    def read(self, name, node, may, comp):
        ck = self.ck
        ck.names += 1
        if any(name in c for c in comp):
            return
        if name in self.local and name not in self.glob:
            if may is not None and name not in may:
                if isinstance(self.node, ast.ClassDef) or self.top:
                    if name in BUILTINS or self.top and ck.open or isinstance(self.node, ast.ClassDef):
                        return
                ck.report("unbound", "%s is read before anything gives it a value" % name, ck.mod, node, self.qual)
            return
        if any(name in o for o in self.outer) or name in ck.top or name in BUILTINS or ck.open:
            return
        ck.report("unbound", "nothing binds the name %s" % name, ck.mod, node, self.qual)

    def expr(self, e, may, comp=()):
        if e is None or may is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.read(e.id, e, may, comp)
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x is not None]:
                self.expr(d, may, comp)
            if comp:
                pars = params(e.args)
                self.ck.scope([ast.copy_location(ast.Expr(e.body), e)], pars, self.outer + [self.local] + list(comp), self.qual + ".<lambda>", set(), e)
            else:
                self.nested.append(e)
            return
        if isinstance(e, COMP):
            inner = set()
            for k, g in enumerate(e.generators):
                self.expr(g.iter, may, comp + (inner,) if k else comp)
                inner |= pattern_names(g.target)
                for c in g.ifs:
                    self.expr(c, may, comp + (inner,))
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(x, may, comp + (inner,))
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, may, comp)
            may.add(e.target.id)
            return
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                self.expr(x, may, comp)
            return
        if isinstance(e, ast.Attribute) and isinstance(e.value, (ast.Name, ast.Attribute)):
            self.attribute(e, comp)
        if isinstance(e, ast.Call):
            self.call(e, comp)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, may, comp)
            elif isinstance(c, ast.keyword):
                self.expr(c.value, may, comp)
            elif isinstance(c, ast.Slice):
                self.expr(c, may, comp)

    # ---- statements: may = names that some path to here has bound (None: cannot be reached)
    def block(self, body, may):
        for s in body:
            if may is None:
                return None
            may = self.stmt(s, may)
        return may

    def join(self, *ms):
        ms = [m for m in ms if m is not None]
        return set().union(*ms) if ms else None

    def bind(self, t, may, comp=()):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                may.add(x.id)
        if isinstance(t, (ast.Subscript, ast.Attribute)):
            self.expr(t.value, may)
            if isinstance(t, ast.Subscript):
                self.expr(t.slice, may)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x.value if isinstance(x, ast.Starred) else x, may)

    def stmt(self, s, may):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                self.expr(d, may)
            self.nested.append(s)
            may.add(s.name)
            return may
        if isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases:
                self.expr(d, may)
            self.nested.append(s)
            may.add(s.name)
            return may
        if isinstance(s, ast.Return):
            self.expr(s.value, may)
            return None
        if isinstance(s, ast.Raise):
            self.expr(s.exc, may)
            self.expr(s.cause, may)
            return None
        if isinstance(s, ast.Assign):
            self.expr(s.value, may)
            for t in s.targets:
                self.unpack(t, s.value)
                self.bind(t, may)
            return may
        if isinstance(s, ast.AugAssign):
            self.expr(s.value, may)
            if isinstance(s.target, ast.Name):
                self.read(s.target.id, s.target, may, ())
            self.bind(s.target, may)
            return may
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value, may)
                self.bind(s.target, may)
            return may
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                may.add((a.asname or a.name).split(".")[0])
            return may
        if isinstance(s, ast.If):
            self.expr(s.test, may)
            a = self.block(s.body, set(may))
            b = self.block(s.orelse, set(may))
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter, may)
            inner = set(may) | bound_in(s.body)[0]
            self.bind(s.target, inner)
            self.top or isinstance(self.node, ast.ClassDef) or self.first(s.body, set(may) | pattern_names(s.target))
            self.loops(s.body, inner)
            out = set(may) | inner
            return self.join(self.block(s.orelse, set(out)) if s.orelse else out, out)
        if isinstance(s, ast.While):
            inner = set(may)
            self.expr(s.test, inner)
            self.top or isinstance(self.node, ast.ClassDef) or self.first(s.body, set(inner))
            inner |= bound_in(s.body)[0]
            self.loops(s.body, inner)
            if isinstance(s.test, ast.Constant) and s.test.value and not self.breaks(s.body):
                return None
            return self.join(self.block(s.orelse, set(inner)) if s.orelse else inner, inner)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, may)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, may)
            out = self.block(s.body, may)
            return out if out is not None else set(may) if self.suppresses(s) else None
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            before = set(may)
            body = self.block(s.body, set(may))
            part = before | bound_in(s.body)[0]
            outs = []
            for h in s.handlers:
                m = set(part)
                self.expr(h.type, m)
                if h.name:
                    m.add(h.name)
                outs.append(self.block(h.body, m))
            if body is not None and s.orelse:
                body = self.block(s.orelse, body)
            out = self.join(body, *outs)
            if s.finalbody:
                f = self.block(s.finalbody, set(out or set()) | part)
                return None if f is None else (set(out) | f if out is not None else None)
            return out
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.read(t.id, t, may, ())
                    may = may - {t.id}
                else:
                    self.bind(t, may)
            return may
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.Match):
            self.expr(s.subject, may)
            outs = [set(may)]
            for c in s.cases:
                m = set(may) | match_names(c.pattern)
                self.expr(c.guard, m)
                outs.append(self.block(c.body, m))
            return self.join(*outs)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.expr(c, may)
        return may

    def loops(self, body, inner):
        # a name bound anywhere in the body may come from an earlier iteration
        self.block(body, set(inner))

    def first(self, body, may):
        """What every passage through the body reads, the first time it gets there: only what stands before the loop or above in the body can have given it a value."""
        for s in body:
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr, ast.Return)):
                es = [s.value] + (s.targets if isinstance(s, ast.Assign) else [s.target] if not isinstance(s, (ast.Expr, ast.Return)) else [])
            elif isinstance(s, (ast.If, ast.While)):
                es = [s.test]
            elif isinstance(s, ast.For):
                es = [s.iter]
            elif isinstance(s, ast.With):
                es = [i.context_expr for i in s.items]
            else:
                es = []
            if any(isinstance(x, ast.NamedExpr) for x in ast.walk(s)):
                return
            for e in es:
                for n in self.always(e):
                    if n.id in self.local and n.id not in self.glob and n.id not in may:
                        self.ck.report("unbound", "%s is read in the loop before anything gives it a value" % n.id, self.ck.mod, n, self.qual)
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                n = s.target
                if n.id in self.local and n.id not in self.glob and n.id not in may:
                    self.ck.report("unbound", "%s is read in the loop before anything gives it a value" % n.id, self.ck.mod, n, self.qual)
            may |= bound_in([s])[0]
            if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                return
            if isinstance(s, ast.If) and s.orelse and all(isinstance(b[-1], (ast.Return, ast.Raise, ast.Break, ast.Continue)) for b in (s.body, s.orelse)):
                return

    def always(self, e):
        """names read whenever the expression is evaluated"""
        if e is None or isinstance(e, (ast.Lambda,) + COMP):
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                yield e
            return
        if isinstance(e, ast.BoolOp):
            yield from self.always(e.values[0])
            return
        if isinstance(e, ast.IfExp):
            yield from self.always(e.test)
            return
        if isinstance(e, ast.Compare):
            for c in [e.left] + e.comparators[:1]:
                yield from self.always(c)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                yield from self.always(c)
            elif isinstance(c, ast.keyword):
                yield from self.always(c.value)

    @staticmethod
    def breaks(body):
        def go(b):
            for s in b:
                if isinstance(s, ast.Break):
                    return True
                if isinstance(s, (ast.For, ast.While)):
                    if go(s.orelse):
                        return True
                    continue
                if isinstance(s, FN + (ast.ClassDef,)):
                    continue
                for f in ("body", "orelse", "finalbody"):
                    v = getattr(s, f, None)
                    if isinstance(v, list) and go(v):
                        return True
                for h in getattr(s, "handlers", []) or []:
                    if go(h.body):
                        return True
                for c in getattr(s, "cases", []) or []:
                    if go(c.body):
                        return True
            return False
        return go(body)

    @staticmethod
    def suppresses(s):
        return any(isinstance(x, ast.Attribute) and x.attr == "suppress" or isinstance(x, ast.Name) and x.id == "suppress" for i in s.items for x in ast.walk(i.context_expr))

    # ---- what names stand for
    def target(self, e, comp):
        """package object an expression stands for: a result of Program.resolve, or ('func', module, node) of a nested function"""
        if isinstance(e, ast.Name):
            if any(e.id in c for c in comp):
                return None
            if e.id in self.local and not self.top:
                return self.nestedfn(e.id)
            if any(e.id in o for o in self.outer):
                return None
            if self.count(self.ck.mod, e.id) != 1:
                return None
            r = self.ck.prog.resolve(self.ck.mod.name, e.id)
            return r
        if isinstance(e, ast.Attribute):
            b = self.target(e.value, comp)
            if b is not None and b[0] == "mod" and b[1] in self.ck.prog.modules:
                m = self.ck.prog.modules[b[1]]
                if self.count(m, e.attr) > 1:
                    return None
                return self.ck.prog.resolve(b[1], e.attr)
            return None
        return None

    @staticmethod
    def count(mod, name):
        return len(mod.redefs.get(name, ()))

    def nestedfn(self, name):
        """a nested function whose name is bound once"""
        if not isinstance(self.node, FN) or isinstance(self.node, ast.Lambda):
            return None
        defs = [x for x in ast.walk(self.node) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x is not self.node and x.name == name]
        others = sum(1 for x in ast.walk(self.node) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del))
                     or isinstance(x, ast.alias) and (x.asname or x.name).split(".")[0] == name or isinstance(x, ast.ClassDef) and x.name == name
                     or isinstance(x, ast.ExceptHandler) and x.name == name)
        if any(p.arg == name for p in params(self.node.args)) or others or len(defs) != 1:
            return None
        return ("func", self.ck.mod, defs[0])

    def attribute(self, e, comp):
        b = self.target(e.value, comp)
        if b is not None and b[0] == "mod" and b[1] in self.ck.prog.modules and isinstance(e.ctx, ast.Load):
            if self.ck.closed(b[1]) and self.ck.prog.resolve(b[1], e.attr) is None and not self.ck.defines(b[1], e.attr) and not e.attr.startswith("__"):
                self.ck.report("import", "%s has no %s" % (b[1], e.attr), self.ck.mod, e, self.qual)

    # ---- calls
    def call(self, e, comp):
        r = self.target(e.func, comp)
        if r is None or r[0] != "func" or not isinstance(r[2], ast.FunctionDef):
            return
        fn = r[2]
        kind = plain(self.ck.prog, r[1], fn)
        if kind is None:
            return
        self.ck.calls += 1
        a = fn.args
        name = fn.name
        star = any(isinstance(x, ast.Starred) for x in e.args)
        kw = [k.arg for k in e.keywords]
        npos = sum(1 for x in e.args if not isinstance(x, ast.Starred))
        pos = [p.arg for p in a.posonlyargs + a.args]
        if kind == "gufunc":
            n = layout_inputs(fn)
            if n is not None and not star and None not in kw and not (n <= npos <= len(pos)):
                self.ck.report("call", "%s takes %d arrays, %d given" % (name, n, npos), self.ck.mod, e, self.qual)
            return
        if npos > len(pos) and not a.vararg:
            self.ck.report("call", "%s takes %d positional arguments, %d given" % (name, len(pos), npos), self.ck.mod, e, self.qual)
            return
        ok = set(p.arg for p in a.args + a.kwonlyargs)
        for k in kw:
            if k is not None and k not in ok and not a.kwarg:
                self.ck.report("call", "%s has no argument %s" % (name, k), self.ck.mod, e, self.qual)
                return
            if k is not None and k in pos[:npos] and k in ok and not star:
                self.ck.report("call", "%s is given %s twice" % (name, k), self.ck.mod, e, self.qual)
                return
        if star or None in kw:
            return
        need = pos[:len(pos) - len(a.defaults)]
        missing = [p for k, p in enumerate(need) if k >= npos and p not in kw] + [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and p.arg not in kw]
        if missing:
            self.ck.report("call", "%s is called without its argument %s" % (name, missing[0]), self.ck.mod, e, self.qual)

    # ---- unpackings
    def unpack(self, t, v):
        if not isinstance(t, (ast.Tuple, ast.List)) or any(isinstance(x, ast.Starred) for x in t.elts):
            return
        n = len(t.elts)
        if isinstance(v, (ast.Tuple, ast.List)):
            self.ck.unpacks += 1
            if not any(isinstance(x, ast.Starred) for x in v.elts) and len(v.elts) != n:
                self.ck.report("unpack", "%d values for %d names" % (len(v.elts), n), self.ck.mod, t, self.qual)
            return
        if isinstance(v, ast.Call):
            r = self.target(v.func, ())
            if r is None or r[0] != "func" or not isinstance(r[2], ast.FunctionDef) or plain(self.ck.prog, r[1], r[2]) != "plain":
                return
            sizes = returned(r[2])
            self.ck.unpacks += 1
            if sizes is not None and n not in sizes:
                self.ck.report("unpack", "%s returns %s values, %d names for them" % (r[2].name, " or ".join(str(x) for x in sorted(sizes)), n), self.ck.mod, t, self.qual)


def plain(prog, mod, fn):
    """how a function is called: as written ('plain'), through a generalised ufunc ('gufunc'), or not known (None)"""
    import compiled
    ck = compiled.Checker(prog)
    out = "plain"
    for d in fn.decorator_list:
        c = ck.compiler(mod, d, [])
        if c is None:
            n = ck.dotted(mod, d.func if isinstance(d, ast.Call) else d, [])
            if n in ("functools.lru_cache", "functools.cache"):
                continue
            return None
        if c[0] == "guvectorize":
            out = "gufunc"
        elif c[0] == "vectorize":
            return None
    return out


def layout_inputs(fn):
    for d in fn.decorator_list:
        if isinstance(d, ast.Call):
            for x in list(d.args) + [k.value for k in d.keywords]:
                if isinstance(x, ast.Constant) and isinstance(x.value, str) and "->" in x.value:
                    return x.value.split("->")[0].count("(")
    return None


def returned(fn):
    """numbers of values the function may return, when every return says so"""
    out = set()

    def go(b):
        for s in b:
            if isinstance(s, FN + (ast.ClassDef,)):
                continue
            if isinstance(s, ast.Return):
                if not isinstance(s.value, ast.Tuple) or any(isinstance(x, ast.Starred) for x in s.value.elts):
                    return False
                out.add(len(s.value.elts))
            for f in ("body", "orelse", "finalbody"):
                v = getattr(s, f, None)
                if isinstance(v, list) and not go(v):
                    return False
            for h in getattr(s, "handlers", []) or []:
                if not go(h.body):
                    return False
            for c in getattr(s, "cases", []) or []:
                if not go(c.body):
                    return False
        return True
    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)) or not go(fn.body) or not out:
        return None
    return out

"""What compilation may change: options, signatures and layouts given to numba, and loops run in parallel.

A rule-based analysis of the syntax tree: every function of the package that is compiled (by decorator, by an alias
of a decorator, or by calling one) is found, the options and signatures given are evaluated as constants, and
  fast-math    no option lets the compiler assume that NaN or infinity do not occur (NaN marks missing data);
  precision    explicit signatures include one in which every floating number is double precision, and data
               parameters are not declared integers;
  layout       a generalised ufunc's core dimensions are those of the documented shapes, up to their names;
  race         iterations of a parallel loop write to places of their own, or accumulate.
"""
import ast
import re

COMPILERS = {"numba.njit", "numba.jit", "numba.vectorize", "numba.guvectorize", "numba.cfunc", "numba.generated_jit", "numba.jit_module",
             "numba.core.decorators.njit", "numba.core.decorators.jit", "numba.np.ufunc.vectorize", "numba.np.ufunc.guvectorize"}
NARROW = {"f4", "float32", "f2", "float16", "half", "single", "complex64", "c8"}
DOUBLE = {"f8", "float64", "double", "float_", "f16", "float128"}
INTS = {"i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "intp", "uintp", "int_", "uint", "intc",
        "b1", "boolean", "bool_", "byte", "short", "long_", "longlong"}
UNSAFE = {"fast", "nnan", "ninf"}
# generalised ufuncs of the documentation: shapes, and which parameters are data (f) or integers (i)
LAYOUTS = {
    "neutralocean.ppinterp.lib.valid_range": ("(n)->(),()", "fii"),
    "neutralocean.ppinterp.linear._linear_coeffs": ("(n),(n),(m)->(n,m)", "fffF"),
    "neutralocean.ppinterp.linear.linear_interp": ("(),(n),(n),()->()", "fffif"),
    "neutralocean.ppinterp.linear.linear_interp_two": ("(),(n),(n),(n),()->(),()", "ffffiff"),
    "neutralocean.ppinterp.pchip._pchip_coeffs": ("(n),(n),(m)->(n,m)", "fffF"),
    "neutralocean.ppinterp.pchip._pchip_interp": ("(),(n),(n),()->()", "fffif"),
    "neutralocean.ppinterp.pchip._pchip_interp_two": ("(),(n),(n),(n),()->(),()", "ffffiff"),
    "neutralocean.ppinterp.ppinterp.ppval": ("(),(n),(n,m),()->()", "fffif"),
    "neutralocean.ppinterp.ppinterp.ppval_two": ("(),(n),(n,m),(n,m),()->(),()", "ffffiff"),
}
SCALARS = {
    "neutralocean.eos.jmdfwg06.rho": "fff", "neutralocean.eos.jmdfwg06.rho_s_t": "fff", "neutralocean.eos.jmdfwg06.rho_p": "fff",
    "neutralocean.eos.jmd95.rho": "fff", "neutralocean.eos.jmd95.rho_s_t": "fff", "neutralocean.eos.jmd95.rho_p": "fff",
    "neutralocean.eos.gswc.rho": "fff", "neutralocean.eos.gswc.rho_s_t": "fff", "neutralocean.eos.gswc.rho_p": "fff",
}


class Unknown(Exception):
    pass


class Report:
    def __init__(self, rule, text, where, fn):
        self.rule, self.text, self.where, self.fn = rule, text, where, fn


class Checker:
    def __init__(self, prog):
        self.prog = prog
        self.reports = []
        self.unknown = []
        self.functions = []
        self.signatures = 0
        self.loops = 0

    # ---------------------------------------------------------------- names
    def dotted(self, mod, e, scopes, depth=0):
        """the library object an expression names, if it does"""
        if depth > 12:
            return None
        if isinstance(e, ast.Name):
            for s in reversed(scopes):
                if e.id in s:
                    v = s[e.id]
                    return self.dotted(mod, v, [], depth + 1) if isinstance(v, ast.AST) else v
            r = self.prog.resolve(mod.name, e.id)
            if r is None:
                return None
            if r[0] in ("ext", "mod"):
                return r[1]
            if r[0] == "value":
                return self.dotted(r[1], r[2], [], depth + 1)
            return None
        if isinstance(e, ast.Attribute):
            b = self.dotted(mod, e.value, scopes, depth + 1)
            if b is None:
                return None
            if b in self.prog.modules:
                r = self.prog.resolve(b, e.attr)
                if r is None:
                    return None
                if r[0] in ("ext", "mod"):
                    return r[1]
                if r[0] == "value":
                    return self.dotted(r[1], r[2], [], depth + 1)
                return None
            return b + "." + e.attr
        return None

    def value(self, mod, e, scopes, depth=0):
        """constant an expression stands for"""
        if depth > 12:
            raise Unknown()
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, (ast.Set, ast.List, ast.Tuple)):
            return [self.value(mod, x, scopes, depth + 1) for x in e.elts]
        if isinstance(e, ast.Dict):
            return {self.value(mod, k, scopes, depth + 1): self.value(mod, v, scopes, depth + 1) for k, v in zip(e.keys, e.values)}
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset", "tuple", "list") and len(e.args) <= 1 and not e.keywords:
            return self.value(mod, e.args[0], scopes, depth + 1) if e.args else []
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "dict" and not e.args:
            return {k.arg: self.value(mod, k.value, scopes, depth + 1) for k in e.keywords}
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.value(mod, e.operand, scopes, depth + 1)
        d = self.lookup(mod, e, scopes)
        if d is not None:
            return self.value(d[0], d[1], [], depth + 1)
        raise Unknown()

    def lookup(self, mod, e, scopes):
        if isinstance(e, ast.Name):
            for s in reversed(scopes):
                if e.id in s:
                    return (mod, s[e.id]) if isinstance(s[e.id], ast.AST) else None
            r = self.prog.resolve(mod.name, e.id)
            if r is not None and r[0] == "value":
                return r[1], r[2]
        if isinstance(e, ast.Attribute):
            b = self.dotted(mod, e.value, scopes)
            if b in self.prog.modules:
                r = self.prog.resolve(b, e.attr)
                if r is not None and r[0] == "value":
                    return r[1], r[2]
        return None

    def compiler(self, mod, e, scopes, depth=0):
        """(compiler, [(positional arguments, keywords, module, scopes)]) an expression stands for, or None"""
        if depth > 8:
            return None
        d = self.dotted(mod, e, scopes)
        if d in COMPILERS:
            return d.rsplit(".", 1)[1], []
        if isinstance(e, ast.Call):
            c = self.compiler(mod, e.func, scopes, depth + 1)
            if c is not None:
                return c[0], c[1] + [(e.args, e.keywords, mod, scopes)]
            if self.dotted(mod, e.func, scopes) == "functools.partial" and e.args:
                c = self.compiler(mod, e.args[0], scopes, depth + 1)
                if c is not None:
                    return c[0], c[1] + [(e.args[1:], e.keywords, mod, scopes)]
            return None
        if isinstance(e, (ast.Name, ast.Attribute)):
            v = self.lookup(mod, e, scopes)
            if v is not None and not isinstance(v[1], (ast.Name,)) or v is not None and isinstance(v[1], ast.Name):
                return self.compiler(v[0], v[1], [], depth + 1)
        return None

    # ---------------------------------------------------------------- program
    def run(self, module):
        mod = self.prog.modules[module]
        self.visit(mod, mod.tree.body, [], module)
        return self

    def visit(self, mod, body, scopes, qual):
        local = {}
        for n in body:
            self.statement(mod, n, scopes + [local] if scopes else scopes, qual, local)

    def statement(self, mod, n, scopes, qual, local):
        if isinstance(n, ast.FunctionDef):
            q = qual + "." + n.name
            for d in n.decorator_list:
                c = self.compiler(mod, d, scopes)
                if c is not None:
                    self.compiled(mod, n, c, q, d.lineno)
            inner = {a.arg: None for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}
            loc = {}
            for s in n.body:
                self.statement(mod, s, scopes + [inner, loc], q, loc)
            return
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            local[n.targets[0].id] = n.value if n.targets[0].id not in local else None
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.stmt):
                self.statement(mod, x, scopes, qual, local)
            else:
                for y in ast.walk(x):
                    if isinstance(y, ast.Call):
                        self.applied(mod, y, scopes, qual)

    def applied(self, mod, call, scopes, qual):
        """njit(...)(function)"""
        c = self.compiler(mod, call.func, scopes)
        if c is None or not call.args:
            return
        a = call.args[0]
        r = self.prog.resolve(mod.name, a.id) if isinstance(a, ast.Name) else None
        if isinstance(a, ast.Lambda):
            self.compiled(mod, None, c, qual + ".<lambda>", call.lineno)
        elif r is not None and r[0] == "func":
            self.compiled(r[1], r[2], c, r[1].name + "." + r[2].name, call.lineno, extra=call.keywords)
        elif isinstance(a, ast.Name) and any(a.id in s for s in scopes):
            self.compiled(mod, None, c, qual + "." + a.id, call.lineno, extra=call.keywords)

    # ---------------------------------------------------------------- rules
    def report(self, rule, text, mod, line, fn):
        self.reports.append(Report(rule, text, "%s:%d (%s)" % (mod.path[len(self.prog.root):].lstrip("/"), line, fn), fn))

    def compiled(self, mod, node, c, qual, line, extra=()):
        kind, applications = c
        self.functions.append(qual)
        positional, options = [], {}
        for args, kws, m, sc in applications + ([((), extra, mod, [])] if extra else []):
            positional += [(m, a, sc) for a in args]
            for k in kws:
                if k.arg is not None:
                    options[k.arg] = (m, k.value, sc)
                else:
                    try:
                        v = k.value
                        z = self.lookup(m, v, sc)
                        if z is not None:
                            m2, v = z
                        else:
                            m2 = m
                        if isinstance(v, ast.Dict):
                            for kk, vv in zip(v.keys, v.values):
                                options[self.value(m2, kk, [])] = (m2, vv, [])
                        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "dict":
                            for kk in v.keywords:
                                options[kk.arg] = (m2, kk.value, [])
                        else:
                            raise Unknown()
                    except Unknown:
                        self.unknown.append("options of %s" % qual)
        if "fastmath" in options:
            try:
                v = self.value(*options["fastmath"])
                flags = {k for k, x in v.items() if x} if isinstance(v, dict) else set(v) if isinstance(v, list) else {"fast"} if v is True or v == 1 else {v} if isinstance(v, str) else set()
                bad = flags & UNSAFE
                if bad:
                    self.report("fast-math", "compiled with fastmath (%s): the compiler may assume that NaN and infinity, which mark missing data, do not occur" % ", ".join(sorted(bad)), mod, line, qual)
            except Unknown:
                self.unknown.append("fastmath of %s" % qual)
        self.signature(mod, node, kind, positional, options, qual, line)
        if node is not None and "parallel" in options:
            try:
                if self.value(*options["parallel"]):
                    self.parallel(mod, node, qual)
            except Unknown:
                self.unknown.append("parallel of %s" % qual)

    # signatures
    def types(self, m, e, sc, depth=0):
        """flat list of (kind, rank) of the types in a type expression; kind f, F (narrow), i, ?"""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return self.parse(e.value)
        z = self.lookup(m, e, sc) if isinstance(e, (ast.Name, ast.Attribute)) else None
        if z is not None and depth < 8:
            return self.types(z[0], z[1], [], depth + 1)
        if isinstance(e, ast.Call):
            fn = self.dotted(m, e.func, sc) or ""
            if fn.endswith(("typeof", "Tuple", "UniTuple", "Array", "void")):
                return [("?", 0)] if not e.args else [("?", 0)]
            ret = self.types(m, e.func, sc, depth + 1)
            out = []
            for a in e.args:
                out += self.types(m, a, sc, depth + 1)
            return [("ret",) + tuple(r) for r in ret] + out
        if isinstance(e, ast.Subscript):
            b = self.types(m, e.value, sc, depth + 1)
            s = e.slice
            rank = len(s.elts) if isinstance(s, ast.Tuple) else 1
            return [(k, rank) for k, _ in b]
        if isinstance(e, (ast.Tuple, ast.List)):
            out = []
            for a in e.elts:
                out += self.types(m, a, sc, depth + 1)
            return out
        d = self.dotted(m, e, sc)
        if d is not None and d.startswith("numba"):
            return [(self.kind(d.rsplit(".", 1)[1]), 0)]
        return [("?", 0)]

    def narrow_ints(self, s):
        """per parameter: is it declared an integer of one or two bytes?"""
        m, e, sc = s
        z = self.lookup(m, e, sc) if isinstance(e, (ast.Name, ast.Attribute)) else None
        if z is not None:
            m, e, sc = z[0], z[1], []
        es = e.args if isinstance(e, ast.Call) else e.elts if isinstance(e, (ast.Tuple, ast.List)) else []
        out = []
        for x in es:
            while isinstance(x, ast.Subscript):
                x = x.value
            d = (self.dotted(m, x, sc) or "").rsplit(".", 1)[-1]
            out.append(d in ("i1", "i2", "u1", "u2", "int8", "int16", "uint8", "uint16", "b1", "boolean", "bool_", "byte", "short", "ushort"))
        return out

    @staticmethod
    def kind(n):
        return "F" if n in NARROW else "f" if n in DOUBLE else "i" if n in INTS else "?"

    def parse(self, s):
        out = []
        m = re.match(r"^\s*([A-Za-z_0-9]+)?(\[[^\]]*\])?\s*\((.*)\)\s*$", s)
        body = s
        if m:
            if m.group(1):
                out.append(("ret", self.kind(m.group(1)), 0))
            body = m.group(3)
        for x in re.finditer(r"([A-Za-z_][A-Za-z_0-9]*)\s*(\[[^\]]*\])?", body):
            out.append((self.kind(x.group(1)), x.group(2).count(":") if x.group(2) else 0))
        return out

    def signature(self, mod, node, kind, positional, options, qual, line):
        sigs = []
        layout = None
        for i, (m, a, sc) in enumerate(positional):
            z = self.lookup(m, a, sc) if isinstance(a, (ast.Name, ast.Attribute)) else None
            if z is not None:
                m, a, sc = z[0], z[1], []
            if kind == "guvectorize" and (i == 1 or isinstance(a, ast.Constant) and isinstance(a.value, str) and "->" in a.value):
                try:
                    layout = self.value(m, a, sc)
                except Unknown:
                    self.unknown.append("layout of %s" % qual)
                continue
            if i == 0:
                if isinstance(a, (ast.List, ast.Tuple)) and kind in ("vectorize", "guvectorize") or isinstance(a, ast.List):
                    sigs += [(m, x, sc) for x in a.elts]
                else:
                    sigs.append((m, a, sc))
        if "signature" in options:
            try:
                layout = self.value(*options["signature"]) if kind == "guvectorize" else layout
            except Unknown:
                self.unknown.append("layout of %s" % qual)
        flat = []
        for s in sigs:
            t = self.types(*s)
            self.signatures += 1
            flat.append(t)
        if flat:
            ks = [{(x[1] if x[0] == "ret" else x[0]) for x in t} for t in flat]
            if all("F" in k for k in ks):
                self.report("precision", "every signature given is single precision", mod, line, qual)
            if qual in LAYOUTS and not any(x[0] == "?" for t in flat for x in t):
                n = layoutcount(LAYOUTS[qual][0])
                for t in flat:
                    ps = [x for x in t if x[0] != "ret"]
                    names = self.narrow_ints(sigs[flat.index(t)])
                    if len(ps) == len(LAYOUTS[qual][1]) == len(names) and any(z for z, w in list(zip(names, LAYOUTS[qual][1]))[n:] if w == "i"):
                        self.report("precision", "an index is returned as an integer too narrow for the number of data", mod, line, qual)
            want = LAYOUTS[qual][1].lower() if qual in LAYOUTS else SCALARS.get(qual)
            if want:
                good = bad = None
                for t in flat:
                    ps = [x for x in t if x[0] != "ret"]
                    if len(ps) != len(want) or any(x[0] == "?" for x in ps):
                        good = True
                        continue
                    wrong = [i for i, (x, w) in enumerate(zip(ps, want)) if w == "f" and x[0] == "i"]
                    rets = [x for x in t if x[0] == "ret" and x[1] == "i"]
                    if wrong or rets:
                        bad = wrong or [-1]
                    else:
                        good = True
                if bad and not good:
                    name = "the result" if bad[0] < 0 else "parameter %d" % (bad[0] + 1)
                    self.report("precision", "%s, a real number, is declared an integer" % name, mod, line, qual)
        if layout is not None and qual in LAYOUTS and isinstance(layout, str):
            a, b = canonical(layout), canonical(LAYOUTS[qual][0])
            if a is None:
                self.unknown.append("layout of %s" % qual)
            elif len(a[0]) == len(b[0]) and len(a[1]) == len(b[1]) and a != b:
                self.report("layout", "core dimensions %s are not those of the documented shapes, %s: inputs whose sizes disagree are accepted or proper ones refused" % (layout, LAYOUTS[qual][0]), mod, line, qual)

    # parallel loops
    def parallel(self, mod, node, qual):
        for loop in ast.walk(node):
            if not isinstance(loop, ast.For) or not isinstance(loop.iter, ast.Call):
                continue
            d = self.dotted(mod, loop.iter.func, [])
            if d not in ("numba.prange", "numba.misc.special.prange") or not isinstance(loop.target, ast.Name):
                continue
            self.loops += 1
            i = loop.target.id
            stores = {}
            own = set()
            for x in ast.walk(loop):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    stores.setdefault(x.id, x.lineno)
            fresh = self.definitely_first(loop.body)
            written = {}       # array: [(axis, index) that belongs to the iteration] of each write
            aliases = {}       # names that stand for a piece of another array
            for x in ast.walk(loop):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id in fresh:
                    v = self.place(x.value)
                    if v is not None and v[0] not in fresh and v[0] != i:
                        aliases.setdefault(x.targets[0].id, []).append(v)
            for x in ast.walk(loop):
                targets = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else []
                flat = []
                for t in targets:
                    flat += list(ast.walk(t)) if isinstance(t, (ast.Tuple, ast.List)) else [t]
                for t in flat:
                    if not isinstance(t, ast.Subscript):
                        continue
                    q = self.place(t)
                    if q is None:
                        continue
                    base, idx = q
                    if base in fresh:
                        for b2, idx2 in aliases.get(base, ()):
                            if not any(self.separates(y, i, loop, fresh) for y in idx2):
                                self.report("race", "iterations of the parallel loop write %s, a piece of %s that is not theirs alone" % (ast.unparse(t), b2), mod, t.lineno, qual)
                        continue       # a value of this iteration
                    own = [(k, ast.dump(y)) for k, y in enumerate(idx) if self.separates(y, i, loop, fresh)]
                    if not own:
                        self.report("race", "iterations of the parallel loop write %s at a place that is not theirs alone" % ast.unparse(t), mod, t.lineno, qual)
                    else:
                        written.setdefault(base, []).append((own, t))
            for x in ast.walk(loop):
                if not (isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load)):
                    continue
                q = self.place(x)
                if q is None or q[0] not in written or len(q[1]) < 1:
                    continue
                at = [(k, ast.dump(y)) for k, y in enumerate(q[1])]
                for own, t in written[q[0]]:
                    if not any(o in at for o in own) and isinstance(x.value, ast.Name):
                        self.report("race", "iterations of the parallel loop read %s, which others write (%s)" % (ast.unparse(x), ast.unparse(t)), mod, x.lineno, qual)
                        break
            for nm, line in stores.items():
                if nm == i or nm in fresh:
                    continue
                if not self.reduction(loop, nm):
                    self.report("race", "%s is carried from one iteration of the parallel loop to the next" % nm, mod, line, qual)

    @staticmethod
    def place(t):
        """(name, indices) of a piece of a named array"""
        idx = []
        while isinstance(t, ast.Subscript):
            k = t.slice
            idx = (list(k.elts) if isinstance(k, ast.Tuple) else [k]) + idx
            t = t.value
        return (t.id, idx) if isinstance(t, ast.Name) and (idx or isinstance(t.ctx, ast.Load)) else None

    def separates(self, y, i, loop, fresh):
        """index expressions that differ between iterations: i, i + c, c - i, k*i + c with constants"""
        names = {x.id for x in ast.walk(y) if isinstance(x, ast.Name)}
        if names != {i}:
            return i in names and isinstance(y, ast.BinOp) and isinstance(y.op, (ast.Add, ast.Sub)) and not (names - {i}) & set(fresh) and self.once(y, i)
        if isinstance(y, ast.Name):
            return True
        return isinstance(y, (ast.BinOp, ast.UnaryOp)) and all(isinstance(x, (ast.BinOp, ast.UnaryOp, ast.Name, ast.Constant, ast.Add, ast.Sub, ast.Mult, ast.USub, ast.Load)) for x in ast.walk(y)) and self.once(y, i)

    @staticmethod
    def once(y, i):
        return sum(1 for x in ast.walk(y) if isinstance(x, ast.Name) and x.id == i) == 1

    def definitely_first(self, body):
        """names given a value in the straight-line part of the body before they are read"""
        read, out = set(), set()

        def reads(e):
            return {x.id for x in ast.walk(e) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}

        def go(b, out):
            for s in b:
                if isinstance(s, ast.Assign):
                    read.update(reads(s.value) - out)
                    for t in s.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name):
                                if isinstance(x.ctx, ast.Store):
                                    if x.id not in read:
                                        out.add(x.id)
                                elif x.id not in out:
                                    read.add(x.id)
                elif isinstance(s, ast.AugAssign):
                    read.update(({s.target.id} if isinstance(s.target, ast.Name) else reads(s.target)) | reads(s.value) - out)
                elif isinstance(s, ast.If):
                    read.update(reads(s.test) - out)
                    a, b2 = set(out), set(out)
                    go(s.body, a)
                    go(s.orelse, b2)
                    out |= a & b2
                    out |= {x for x in (a | b2) if x not in read and not any(x in reads(z) for z in body if z.lineno > s.end_lineno)}
                elif isinstance(s, (ast.For, ast.While)):
                    if isinstance(s, ast.For):
                        read.update(reads(s.iter) - out)
                        inner = out | {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
                    else:
                        read.update(reads(s.test) - out)
                        inner = set(out)
                    go(s.body, inner)
                    out |= {x for x in inner if x not in read and not any(x in reads(z) for z in body if z.lineno > s.end_lineno)}
                else:
                    for x in ast.iter_child_nodes(s):
                        if isinstance(x, ast.expr):
                            read.update(reads(x) - out)
        go(body, out)
        return out

    def reduction(self, loop, nm):
        """every use of the name in the loop accumulates into it with one operation"""
        ops = set()
        for x in ast.walk(loop):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == nm:
                ops.add({ast.Sub: "Add", ast.Div: "Mult"}.get(type(x.op), type(x.op).__name__))
                if any(isinstance(y, ast.Name) and y.id == nm for y in ast.walk(x.value)):
                    return False
            elif isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in x.targets):
                v = x.value
                if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Mult)) and isinstance(v.left, ast.Name) and v.left.id == nm:
                    ops.add(type(v.op).__name__)
                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("min", "max") and any(isinstance(a, ast.Name) and a.id == nm for a in v.args):
                    ops.add(v.func.id)
                else:
                    return False
        return len(ops) == 1


def layoutcount(layout):
    """number of inputs of a layout"""
    return len(re.findall(r"\(", layout.split("->")[0]))


def canonical(layout):
    """core dimensions with their names replaced by order of appearance"""
    s = layout.replace(" ", "")
    if not re.fullmatch(r"(\([A-Za-z0-9_,?]*\),?)*->(\([A-Za-z0-9_,?]*\),?)*", s):
        return None
    names = {}
    out = []
    for side in s.split("->"):
        gs = []
        for g in re.findall(r"\(([^)]*)\)", side):
            gs.append(tuple(names.setdefault(x, len(names)) for x in g.split(",") if x))
        out.append(tuple(gs))
    return tuple(out)

#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the whole package, to test that the checks stay quiet.

refactor.py KIND SRC DST      write SRC/neutralocean rewritten by KIND to DST/neutralocean
refactor.py --list
The checks do not use this file.
"""
import ast, copy, os, shutil, sys

KINDS = {}


def kind(f):
    KINDS[f.__name__] = f
    return f


def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            yield n


def blocks(fn):
    """statement lists inside a function (not nested functions)"""
    st = [fn]
    while st:
        x = st.pop()
        for f in ("body", "orelse", "finalbody"):
            b = getattr(x, f, None)
            if isinstance(b, list):
                yield x, f, b
                st.extend(s for s in b if not isinstance(s, (ast.FunctionDef, ast.ClassDef)))


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def local_names(fn):
    out = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    gl = {g for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for g in x.names}
    return out - gl - {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}


class Renamer(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        n.id = self.m.get(n.id, n.id)
        return n


@kind
def rename(tree):
    for fn in list(tree.body):
        if isinstance(fn, ast.FunctionDef):
            inner = {x.name for x in ast.walk(fn) if isinstance(x, ast.FunctionDef)}
            Renamer({n: "loc_" + n for n in local_names(fn) - inner}).visit(fn)
    return tree


@kind
def noop(tree):
    for fn in list(functions(tree)):
        for owner, f, b in list(blocks(fn)):
            k = 1 if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
            if b:
                b.insert(k, ast.parse("_unused_ = None").body[0] if owner is fn else ast.Pass())
    return tree


@kind
def flip_compare(tree):
    F = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in F:
                return ast.Compare(n.comparators[0], [F[type(n.ops[0])]()], [n.left])
            return n
    return V().visit(tree)


@kind
def swap_branches(tree):
    class V(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
                return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
            return n

        def visit_IfExp(self, n):
            self.generic_visit(n)
            return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
    return V().visit(tree)


@kind
def augassign(tree):
    """x += y  ->  x = x + y for names only bound to scalars by a literal, or loop counters"""
    for fn in functions(tree):
        scal = {}
        for x in ast.walk(fn):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                scal.setdefault(x.targets[0].id, []).append(isinstance(x.value, ast.Constant))

        class V(ast.NodeTransformer):
            def visit_AugAssign(self, n):
                if isinstance(n.target, ast.Name) and all(scal.get(n.target.id, [False])):
                    return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
                return n
        V().visit(fn)
    return tree


@kind
def commute(tree):
    """a * b -> b * a, a + b -> b + a, where both are numeric-looking (no strings, lists, tuples)"""
    class V(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            bad = (ast.List, ast.Tuple, ast.JoinedStr, ast.ListComp)
            if isinstance(n.op, (ast.Add, ast.Mult)):
                for s in ast.walk(n):
                    if isinstance(s, bad) or isinstance(s, ast.Constant) and isinstance(s.value, str):
                        return n
                    if isinstance(s, ast.Name) and s.id in ("msg", "shape", "pad", "name", "fcn_name", "filename", "eos", "suffix", "fname"):
                        return n
                    if isinstance(s, ast.Attribute) and s.attr in ("shape", "name", "dims"):
                        return n
                n.left, n.right = n.right, n.left
            return n
    return V().visit(tree)


@kind
def for_to_while(tree):
    cnt = [0]

    def conv(b):
        out = []
        for s in b:
            for f in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, f, None), list):
                    setattr(s, f, conv(getattr(s, f)))
            if (isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range"
                    and isinstance(s.target, ast.Name) and not s.orelse and not any(isinstance(x, ast.Continue) for x in ast.walk(s))
                    and len(s.iter.args) < 3):
                cnt[0] += 1
                it, hi = "it_%d" % cnt[0], "hi_%d" % cnt[0]
                a = s.iter.args
                lo = ast.Constant(0) if len(a) == 1 else a[0]
                out += [ast.Assign([ast.Name(it, ast.Store())], lo), ast.Assign([ast.Name(hi, ast.Store())], a[-1])]
                body = [ast.Assign([s.target], ast.Name(it, ast.Load()))] + s.body + [ast.parse("%s += 1" % it).body[0]]
                out.append(ast.While(ast.parse("%s < %s" % (it, hi), mode="eval").body, body, []))
            else:
                out.append(s)
        return out
    for fn in functions(tree):
        fn.body = conv(fn.body)
    return tree


@kind
def early_return_to_else(tree):
    """if c: ...return; rest  ->  if c: ...return  else: rest"""
    for fn in functions(tree):
        for owner, f, b in list(blocks(fn)):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(b):
                    s.orelse = b[i + 1:]
                    del b[i + 1:]
                    break
    return tree


@kind
def else_to_early(tree):
    """if c: ..return else: rest -> if c: ..return; rest"""
    for fn in functions(tree):
        for owner, f, b in list(blocks(fn)):
            i = 0
            while i < len(b):
                s = b[i]
                if isinstance(s, ast.If) and s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 == len(b):
                    b.extend(s.orelse)
                    s.orelse = []
                i += 1
    return tree


@kind
def single_return(tree):
    """return expr -> name = expr; return name"""
    class V(ast.NodeTransformer):
        def visit_Return(self, n):
            if n.value is None or isinstance(n.value, ast.Name):
                return n
            return [ast.Assign([ast.Name("result_", ast.Store())], n.value), ast.Return(ast.Name("result_", ast.Load()))]
    return V().visit(tree)


@kind
def split_tuple(tree):
    """a, b = x, y -> t0 = x; t1 = y; a = t0; b = t1"""
    class V(ast.NodeTransformer):
        def visit_Assign(self, n):
            if len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple) and len(n.value.elts) == len(n.targets[0].elts) and not any(isinstance(x, ast.Starred) for x in n.value.elts + n.targets[0].elts):
                k = range(len(n.value.elts))
                return [ast.Assign([ast.Name("tup%d_" % i, ast.Store())], n.value.elts[i]) for i in k] + [ast.Assign([n.targets[0].elts[i]], ast.Name("tup%d_" % i, ast.Load())) for i in k]
            return n
    for fn in functions(tree):
        V().visit(fn)
    return tree


@kind
def demorgan(tree):
    class V(ast.NodeTransformer):
        def visit_BoolOp(self, n):
            self.generic_visit(n)
            op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.values]))

        # only in conditions: elsewhere and/or return operands
        def generic_visit(self, n):
            return ast.NodeTransformer.generic_visit(self, n)

    class W(ast.NodeTransformer):
        def visit_If(self, n):
            ast.NodeTransformer.generic_visit(self, n)
            n.test = V().visit(n.test)
            return n

        def visit_While(self, n):
            ast.NodeTransformer.generic_visit(self, n)
            n.test = V().visit(n.test)
            return n
    return W().visit(tree)


@kind
def nest_and(tree):
    """if a and b: X -> if a: if b: X"""
    class V(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
                inner = n.body
                for v in reversed(n.test.values):
                    inner = [ast.If(v, inner, [])]
                return inner[0]
            return n
    return V().visit(tree)


@kind
def temps(tree):
    """name every call argument that is itself an arithmetic expression (evaluated just before the statement)"""
    cnt = [0]

    def conv(b):
        out = []
        for s in b:
            for f in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, f, None), list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, f, conv(getattr(s, f)))
            if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None:
                pre = []

                def tmp(e):
                    cnt[0] += 1
                    nm = "tmp_%d" % cnt[0]
                    pre.append(ast.Assign([ast.Name(nm, ast.Store())], e))
                    return ast.Name(nm, ast.Load())
                v = s.value
                if isinstance(v, ast.Call):
                    v.args = [tmp(a) if isinstance(a, ast.BinOp) else a for a in v.args]
                elif isinstance(v, ast.BinOp):
                    if not isinstance(v.left, (ast.Name, ast.Constant)):
                        v.left = tmp(v.left)
                out += pre
            out.append(s)
        return out
    for fn in functions(tree):
        fn.body = conv(fn.body)
    return tree


def used_after(stmts):
    return set().union(*[names(s, ast.Load) for s in stmts]) if stmts else set()


@kind
def extract_tail(tree, which=0):
    """move the last k statements of each top-level function into a new helper with the names it reads as parameters"""
    new = []
    for fn in tree.body:
        new.append(fn)
        if not isinstance(fn, ast.FunctionDef) or len(fn.body) < 4:
            continue
        decs = [ast.unparse(d) for d in fn.decorator_list]
        if any("vectorize" in d for d in decs):
            continue
        k = max(2, len(fn.body) // 2)
        tail = fn.body[-k:]
        if any(isinstance(x, (ast.FunctionDef, ast.Yield, ast.Global, ast.Nonlocal, ast.Lambda)) for s in tail for x in ast.walk(s)):
            continue
        if any(isinstance(x, (ast.FunctionDef, ast.Import, ast.ImportFrom)) for s in fn.body for x in ast.walk(s)):
            continue
        loc = local_names(fn) | {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
        assigned = set().union(*[names(s, ast.Store) for s in fn.body[:-k]]) | {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
        reads = sorted((used_after(tail)) & loc & assigned)
        h = ast.FunctionDef(name="%s_rest_" % fn.name, args=ast.arguments(posonlyargs=[], args=[ast.arg(r) for r in reads], kwonlyargs=[], kw_defaults=[], defaults=[]),
                            body=tail, decorator_list=[copy.deepcopy(d) for d in fn.decorator_list if "njit" in ast.unparse(d)], type_params=[])
        if any("njit" in d for d in decs):
            h.decorator_list = [ast.parse("nb.njit", mode="eval").body]
        fn.body[-k:] = [ast.Return(ast.Call(ast.Name(h.name, ast.Load()), [ast.Name(r, ast.Load()) for r in reads], []))]
        new.insert(len(new) - 1, h)
    tree.body = new
    return tree


@kind
def extract_loop_body(tree):
    """for-loop bodies without break/continue/return that only store into arrays become helpers"""
    new = []
    for fn in tree.body:
        new.append(fn)
        if not isinstance(fn, ast.FunctionDef):
            continue
        njit = any("njit" in ast.unparse(d) for d in fn.decorator_list)
        if fn.decorator_list and not njit or any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for s in fn.body for x in ast.walk(s)):
            continue
        loc = local_names(fn) | {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
        for s in ast.walk(fn):
            if isinstance(s, ast.For) and not any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield)) for b in s.body for x in ast.walk(b)):
                st = set().union(*[names(b, ast.Store) for b in s.body])
                rest = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)]
                inside = {id(x) for b in s.body for x in ast.walk(b)}
                if any(x.id in st and id(x) not in inside for x in rest):
                    continue
                # names carried between iterations
                first = s.body[0]
                if any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) for b in s.body for x in ast.walk(b)):
                    continue
                reads = sorted(((used_after(s.body) & loc) - st) | (names(s.target, ast.Store) & used_after(s.body)))
                seen = set()
                ok = True
                for b in s.body:
                    if isinstance(b, ast.Assign):
                        if (names(b.value, ast.Load) & st) - seen:
                            ok = False
                        seen |= names(b, ast.Store)
                    elif (names(b, ast.Load) & st) - seen - names(b, ast.Store):
                        ok = False
                if not ok:
                    continue
                h = ast.FunctionDef(name="%s_step_" % fn.name, args=ast.arguments(posonlyargs=[], args=[ast.arg(r) for r in reads], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                    body=s.body, decorator_list=[ast.parse("nb.njit", mode="eval").body] if njit else [], type_params=[])
                s.body = [ast.Expr(ast.Call(ast.Name(h.name, ast.Load()), [ast.Name(r, ast.Load()) for r in reads], []))]
                new.insert(len(new) - 1, h)
                break
    tree.body = new
    return tree


@kind
def reorder(tree):
    """swap neighbouring assignments of names where neither reads or writes the other's names and neither calls anything but pure numpy"""
    PURE = {"np.zeros", "np.full", "np.empty", "np.isnan", "len", "np.sqrt", "np.isfinite", "np.ones", "np.abs", "np.arange"}

    def pure(s):
        if not (isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets)):
            return False
        return all(ast.unparse(x.func) in PURE for x in ast.walk(s.value) if isinstance(x, ast.Call)) and not any(isinstance(x, (ast.Subscript, ast.Yield)) for x in ast.walk(s.value))
    for fn in functions(tree):
        for owner, f, b in list(blocks(fn)):
            i = 0
            while i + 1 < len(b):
                x, y = b[i], b[i + 1]
                if pure(x) and pure(y):
                    if not (names(x, ast.Store) & names(y)) and not (names(y, ast.Store) & names(x)):
                        b[i], b[i + 1] = y, x
                        i += 2
                        continue
                i += 1
    return tree


@kind
def ternary_to_if(tree):
    class V(ast.NodeTransformer):
        def visit_Assign(self, n):
            if isinstance(n.value, ast.IfExp):
                e = n.value
                return ast.If(e.test, [ast.Assign(copy.deepcopy(n.targets), e.body)], [ast.Assign(copy.deepcopy(n.targets), e.orelse)])
            return n

        def visit_Return(self, n):
            if isinstance(n.value, ast.IfExp):
                e = n.value
                return ast.If(e.test, [ast.Return(e.body)], [ast.Return(e.orelse)])
            return n
    for fn in functions(tree):
        V().visit(fn)
    return tree


@kind
def if_to_ternary(tree):
    class V(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if len(n.body) == 1 and len(n.orelse) == 1:
                a, b = n.body[0], n.orelse[0]
                if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and len(a.targets) == 1 and ast.unparse(a.targets[0]) == ast.unparse(b.targets[0]) and isinstance(a.targets[0], ast.Name):
                    return ast.Assign(a.targets, ast.IfExp(n.test, a.value, b.value))
                if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                    return ast.Return(ast.IfExp(n.test, a.value, b.value))
            return n
    for fn in functions(tree):
        V().visit(fn)
    return tree


@kind
def listcomp_to_loop(tree):
    cnt = [0]
    for fn in functions(tree):
        for owner, f, b in list(blocks(fn)):
            out = []
            for s in b:
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id not in names(s.value):
                    g = s.value.generators[0]
                    cnt[0] += 1
                    nm = s.targets[0].id
                    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), "append", ast.Load()), [s.value.elt], []))]
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    out += [ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
                else:
                    out.append(s)
            b[:] = out
    return tree


@kind
def neg_cond_continue(tree):
    """for ...: if c: BODY (last statement)  ->  for ...: if not c: continue; BODY"""
    for fn in functions(tree):
        for x in ast.walk(fn):
            if isinstance(x, (ast.For,)) and x.body and isinstance(x.body[-1], ast.If) and not x.body[-1].orelse:
                s = x.body[-1]
                x.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Continue()], [])] + s.body
    return tree


@kind
def kw_to_locals(tree):
    """numeric literals of each function named at its top"""
    for fn in functions(tree):
        lits = {}

        class V(ast.NodeTransformer):
            def visit_Constant(self, n):
                if isinstance(n.value, float) and n.value == n.value:
                    lits.setdefault(repr(n.value), "lit%d_" % len(lits))
                    return ast.Name(lits[repr(n.value)], ast.Load())
                return n

            def visit_FunctionDef(self, n):
                return n
        fn.body = [V().visit(s) for s in fn.body]
        k = 1 if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        fn.body[k:k] = [ast.parse("%s = %s" % (n, r)).body[0] for r, n in lits.items()]
    return tree


@kind
def sub_to_neg(tree):
    """a - b -> -b + a  (exact in floating point)"""
    class V(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Sub) and not any(isinstance(x, ast.Call) and ast.unparse(x.func) in ("set", "list") for x in ast.walk(n)):
                return ast.BinOp(ast.UnaryOp(ast.USub(), n.right), ast.Add(), n.left)
            return n
    for fn in functions(tree):
        V().visit(fn)
    return tree


@kind
def chain_and(tree):
    """a <= b <= c -> a <= b and b <= c"""
    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 2:
                return ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]), ast.Compare(copy.deepcopy(n.comparators[0]), [n.ops[1]], [n.comparators[1]])])
            return n
    return V().visit(tree)


@kind
def while_true(tree):
    """while c: B -> while True: if not c: break; B"""
    for fn in functions(tree):
        for x in ast.walk(fn):
            if isinstance(x, ast.While) and not x.orelse and not (isinstance(x.test, ast.Constant)):
                x.body.insert(0, ast.If(ast.UnaryOp(ast.Not(), x.test), [ast.Break()], []))
                x.test = ast.Constant(True)
    return tree


def apply(kinds, src, dst):
    shutil.rmtree(os.path.join(dst, "neutralocean"), ignore_errors=True)
    shutil.copytree(os.path.join(src, "neutralocean"), os.path.join(dst, "neutralocean"), ignore=shutil.ignore_patterns("__pycache__"))
    for d, _, fs in os.walk(os.path.join(dst, "neutralocean")):
        if d.endswith(("tests", "examples")):
            continue
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                tree = ast.parse(open(p).read())
                for k in kinds:
                    tree = KINDS[k](tree)
                    ast.fix_missing_locations(tree)
                open(p, "w").write(ast.unparse(tree) + "\n")


if __name__ == "__main__":
    if sys.argv[1] == "--list":
        print(" ".join(KINDS))
    else:
        apply(sys.argv[1].split("+"), sys.argv[2], sys.argv[3])

"""Would the code be the reference but for one operation?

An undecided comparison is repeated with one call taken away (an operation that changes every value that is not special, such as rounding
or a narrower precision) or replaced by one that never agrees with it on all inputs.  When the graphs are then equal, that one call is the difference.
"""
import ast
import copy

import loader

ERASE = {"round", "around", "rint", "trunc", "fix", "float32", "float16", "half", "single", "round_"}
ALIAS = {"geomspace": "linspace", "logspace": "linspace", "linspace": "geomspace", "floor": "ceil", "ceil": "floor", "sin": "cos", "cos": "sin", "argmax": "argmin", "argmin": "argmax",
         "max": "min", "min": "max", "nanmax": "nanmin", "nanmin": "nanmax", "nanargmax": "nanargmin", "nanargmin": "nanargmax", "nanmedian": "nanmean", "median": "mean", "prod": "sum", "log10": "log", "log": "log10", "cumprod": "cumsum"}
NARROW = {"float32", "float16", "half", "single", "f4", "f2"}
WHOLE = {"ceil", "floor", "len", "int", "argmax", "argmin", "searchsorted", "sum", "size", "shape"}
MOST = 8


def opname(n):
    f = n.func
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""


def isnp(n):
    return isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("np", "numpy", "math")


def change(n):
    """the call with the operation taken away or replaced, and what was done; None when it is not one of those"""
    op = opname(n)
    if op == "astype" and isinstance(n.func, ast.Attribute) and n.args:
        a = n.args[0]
        d = a.attr if isinstance(a, ast.Attribute) else a.value if isinstance(a, ast.Constant) else ""
        return (n.func.value, "without astype(%s)" % d) if d in NARROW else None
    if op in ERASE:
        x = n.args[0] if isnp(n) or isinstance(n.func, ast.Name) else n.func.value
        if not (isnp(n) or isinstance(n.func, ast.Name)) and isinstance(x, ast.Name) and x.id in ("np", "numpy", "math"):
            return None
        if isnp(n) and not n.args or isinstance(n.func, ast.Name) and (not n.args or op != "round"):
            return None
        if isinstance(x, ast.Constant) or any(isinstance(y, ast.Call) and opname(y) in WHOLE for y in [x]) or op == "round" and isinstance(n.func, ast.Name) and len(n.args) == 1:
            return None
        return x, "without %s" % op
    if op in ALIAS and isnp(n) and not (op == "linspace" and len(n.args) < 3):
        m = copy.deepcopy(n)
        m.func.attr = ALIAS[op]
        return m, "with %s instead of %s" % (ALIAS[op], op)
    return None


def variants(prog, functions, alien):
    """(program, description) for each single change in the named functions"""
    names = {f.rsplit(".", 1)[0] for f in functions}
    k = 0
    for mn in sorted(names):
        mod = prog.modules.get(mn)
        if mod is None:
            continue
        want = {f.rsplit(".", 1)[1] for f in functions if f.rsplit(".", 1)[0] == mn}
        spots = []
        for fn in ast.walk(mod.tree):
            if isinstance(fn, ast.FunctionDef) and fn.name in want:
                spots += [(c.lineno, c.col_offset, c.end_col_offset, c.end_lineno) for c in ast.walk(fn) if isinstance(c, ast.Call) and (opname(c) in alien or opname(c) == "astype") and change(c)]
        for s in sorted(set(spots)):
            k += 1
            if k > MOST:
                return
            done = []

            class Tr(ast.NodeTransformer):
                def visit_Call(self, n):
                    hit = (n.lineno, n.col_offset, n.end_col_offset, n.end_lineno) == s and not done
                    if hit:
                        c = change(n)
                        if c:
                            done.append(c[1])
                            return c[0]
                    return self.generic_visit(n)
            tree = Tr().visit(ast.parse(mod.src))
            if not done:
                continue
            p = copy.copy(prog)
            p.modules = dict(prog.modules)
            p.modules[mn] = loader.Module(mn, mod.path, ast.unparse(ast.fix_missing_locations(tree)))
            yield p, done[0], "%s:%d" % (mod.path[len(prog.root):].lstrip("/"), s[0])

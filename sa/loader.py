"""Parse the package (no execution) and resolve names statically."""
import ast
import os


def drop_idle(fn):
    """remove statements that do nothing: pass, bare constants, and constants given to names that are never read"""
    read = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store)}
    read |= {g for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for g in x.names}
    read |= {x.target.id for x in ast.walk(fn) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
    reflective = any(isinstance(x, ast.Name) and x.id in ("locals", "vars", "eval", "exec") for x in ast.walk(fn))

    def idle(s):
        if isinstance(s, ast.Pass):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return True
        return (not reflective and isinstance(s, (ast.Assign, ast.AnnAssign)) and (s.value is None or isinstance(s.value, ast.Constant))
                and all(isinstance(t, ast.Name) and t.id not in read for t in (s.targets if isinstance(s, ast.Assign) else [s.target])))
    for x in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(x, f, None)
            if isinstance(b, list) and any(idle(s) for s in b):
                doc = b[:1] if x is fn and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str) else []
                keep = doc + [s for s in b[len(doc):] if not idle(s)]
                if not keep and f == "body":
                    keep = [ast.copy_location(ast.Pass(), b[-1])]
                setattr(x, f, keep)


class Module:
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.tree = ast.parse(src, filename=path)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.FunctionDef):
                drop_idle(n)
        self.is_pkg = path.endswith("__init__.py")
        self.names = {}       # top-level name -> ("func", node) | ("import", mod, attr) | ("value", expr node) | ("class", node)
        self.redefs = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._set(n.name, ("func", n))
            elif isinstance(n, ast.ClassDef):
                self._set(n.name, ("class", n))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self._set(a.asname, ("module", a.name))
                    else:
                        self._set(a.name.split(".")[0], ("module", a.name.split(".")[0]))
            elif isinstance(n, ast.ImportFrom):
                base = self._base(n)
                for a in n.names:
                    self._set(a.asname or a.name, ("import", base, a.name))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self._set(t.id, ("value", n.value))
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for k, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self._set(e.id, ("value", ast.copy_location(
                                    ast.Subscript(value=n.value, slice=ast.Constant(k), ctx=ast.Load()), n)))
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self._set(n.target.id, ("value", n.value))
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                for b in ("body", "orelse", "finalbody"):
                    self._scan(getattr(n, b, []) or [])
                for hd in getattr(n, "handlers", []):
                    pass

    def _set(self, name, v):
        self.redefs.setdefault(name, []).append(v)
        self.names[name] = v

    def _base(self, n):
        if n.level == 0:
            return n.module
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (n.level - 1)]
        return ".".join(parts + ([n.module] if n.module else []))


class Program:
    def __init__(self, root="/repo", package="neutralocean", extra_dirs=()):
        self.root = root
        self.modules = {}
        self.errors = []
        base = os.path.join(root, package)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d not in ("__pycache__", "tests", "examples"))
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    self.add(rel, p)

    def add(self, name, path):
        with open(path, encoding="utf8") as fh:
            src = fh.read()
        self.modules[name] = Module(name, path, src)
        return self.modules[name]

    def resolve(self, modname, name, depth=0):
        """-> ("func", Module, node) | ("value", Module, node) | ("ext", dotted) | ("mod", dotted) | None"""
        if depth > 20:
            return None
        m = self.modules.get(modname)
        if m is None:
            return ("ext", modname + "." + name)
        e = m.names.get(name)
        if e is None:
            sub = modname + "." + name
            if sub in self.modules:
                return ("mod", sub)
            return None
        k = e[0]
        if k in ("func", "value", "class"):
            return (k, m, e[1])
        if k == "module":
            return ("mod", e[1])
        if k == "import":
            if e[1] in self.modules or e[1] + "." + e[2] in self.modules:
                if e[1] in self.modules:
                    r = self.resolve(e[1], e[2], depth + 1)
                    if r is not None:
                        return r
                if e[1] + "." + e[2] in self.modules:
                    return ("mod", e[1] + "." + e[2])
                return None
            return ("ext", e[1] + "." + e[2])

    def func(self, dotted):
        mod, name = dotted.rsplit(".", 1)
        r = self.resolve(mod, name)
        return r if r and r[0] == "func" else None

    def all_functions(self):
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef):
                    yield m, n

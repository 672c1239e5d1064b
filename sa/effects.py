"""Effects and hidden state, by abstract interpretation of the syntax tree.

Every public function is interpreted abstractly with calls expanded (memo on function and
abstract arguments).  An abstract value records which *labelled* objects it may be, or be a
view of (`own`), and which it may contain (`parts`).  Labels are the arguments of the public
function ("arg:S"), module-level objects ("module:m.X"), mutable defaults ("default:f.x"),
results of memoised factories ("cached:f") and their local objects.  A write through a value
with a label is an effect on the labelled object, reported with the statement that does it.
Nothing of the analysed program is run.
"""
import ast
import re

VIEW_FUNCS = {"asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "require", "broadcast_to", "moveaxis", "rollaxis", "swapaxes", "transpose", "reshape", "ravel",
              "squeeze", "atleast_1d", "atleast_2d", "atleast_3d", "expand_dims", "flip", "flipud", "fliplr", "real", "imag", "diagonal", "asarray_chkfinite", "as_strided",
              "sliding_window_view", "rot90"}
VIEW_METHODS = {"view", "reshape", "ravel", "squeeze", "transpose", "swapaxes", "isel", "sel", "to_numpy", "diagonal", "rename", "set_index", "drop_vars", "getfield", "newbyteorder", "__array__"}
VIEW_ATTRS = {"T", "values", "data", "flat", "real", "imag", "base", "attrs", "coords", "indices", "indptr", "mT", "variable", "variables", "encoding"}
PART_METHODS = {"get", "items", "values", "keys", "pop", "popitem", "setdefault"}
MUTATORS = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "sort", "reverse", "update", "setdefault", "fill", "itemset", "put", "resize", "partition", "byteswap",
            "add", "discard", "setflags", "setdiag", "eliminate_zeros", "sum_duplicates", "sort_indices", "__setitem__", "__delitem__", "__iadd__", "intersection_update",
            "difference_update", "symmetric_difference_update", "appendleft", "popleft", "setfield"}
ARR_MUT_FUNCS = {"copyto": 0, "put": 0, "place": 0, "putmask": 0, "fill_diagonal": 0, "put_along_axis": 0, "shuffle": 0, "heapify": 0, "heappush": 0, "insort": 0}
SCALAR_CTORS = {"int", "float", "bool", "str", "len", "range", "abs", "isinstance", "hasattr", "callable", "print", "type", "repr", "hash", "id", "round", "complex", "bytes", "format"}
EMPTY = frozenset()


class _None:
    def __repr__(self):
        return "NONE"


NONE = _None()          # the constant None (const=None means: not a known constant)


class Fn:
    """a function of the package together with the frame it closes over"""
    __slots__ = ("node", "mod", "frame", "qual")

    def __init__(self, node, mod, frame, qual):
        self.node, self.mod, self.frame, self.qual = node, mod, frame, qual

    def __eq__(self, o):
        return isinstance(o, Fn) and self.node is o.node and self.frame is o.frame

    def __hash__(self):
        return hash((id(self.node), id(self.frame)))


class KwEnt(dict):
    """keyword arguments of a public function: any name may be there"""

    def get(self, k, d=None):
        if k in self.keys():
            return dict.get(self, k)
        if isinstance(k, str):
            lab = frozenset(["arg:" + k])
            return V(lab, lab, shallow=True)
        return d

    def __contains__(self, k):
        return isinstance(k, str) or dict.__contains__(self, k)

    def __getitem__(self, k):
        return self.get(k)


def cp(ent):
    return KwEnt(ent) if isinstance(ent, KwEnt) else dict(ent)


class V:
    """own: labels this object may be or share memory with; parts: labels reachable inside it; fns: package functions it may be;
    tup: elementwise values of a tuple/list; ent: entries of a dict by key; clock: depends on the time; elem: taken by position (may be a scalar);
    idx: usable as a basic index; const: a constant key"""
    __slots__ = ("own", "parts", "fns", "tup", "ent", "clock", "elem", "idx", "const", "shallow", "ext", "pat", "_k")

    def __init__(self, own=EMPTY, parts=EMPTY, fns=EMPTY, tup=None, ent=None, clock=False, elem=False, idx=False, const=None, shallow=False, ext=None, pat=None):
        self.pat = pat
        self.own, self.parts, self.fns, self.tup, self.ent = own, parts, fns, tup, ent
        self.clock, self.elem, self.idx, self.const, self.shallow, self.ext = clock, elem, idx, const, shallow, ext
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (self.own, self.parts, self.fns, None if self.tup is None else tuple(v.key() for v in self.tup),
                       None if self.ent is None else (isinstance(self.ent, KwEnt),) + tuple(sorted((repr(k), v.key()) for k, v in self.ent.items())),
                       self.clock, self.elem, self.idx, repr(self.const), self.shallow, self.ext, self.pat)
        return self._k

    def with_(self, **kw):
        d = {k: getattr(self, k) for k in ("own", "parts", "fns", "tup", "ent", "clock", "elem", "idx", "const", "shallow", "ext", "pat")}
        d.update(kw)
        return V(**d)

    def reach(self):
        out = self.own | self.parts
        for v in self.tup or ():
            out |= v.reach()
        for v in (self.ent or {}).values():
            out |= v.reach()
        return out

    def anyfns(self):
        out = self.fns
        for v in self.tup or ():
            out |= v.anyfns()
        for v in (self.ent or {}).values():
            out |= v.anyfns()
        return out

    def anyclock(self):
        return self.clock or any(v.anyclock() for v in self.tup or ()) or any(v.anyclock() for v in (self.ent or {}).values())


BOT = V()
INT = V(idx=True)


def strpat(v):
    """a pattern every string this value may be matches"""
    if isinstance(v.const, str):
        return re.escape(v.const)
    return v.pat or ".*"


def join(a, b):
    if a is b or b is None:
        return a
    if a is None:
        return b
    if a.key() == b.key():
        return a
    tup = ent = None
    parts = a.parts | b.parts
    if a.tup is not None and b.tup is not None and len(a.tup) == len(b.tup):
        tup = tuple(join(x, y) for x, y in zip(a.tup, b.tup))
    else:
        for x in (a, b):
            for v in x.tup or ():
                parts |= v.reach()
    if a.ent is not None and b.ent is not None:
        ent = {k: join(a.ent.get(k), b.ent.get(k)) for k in list(a.ent) + [k for k in b.ent.keys() if k not in a.ent.keys()]}
        if isinstance(a.ent, KwEnt) or isinstance(b.ent, KwEnt):
            ent = KwEnt(ent)
    elif (a.ent is None) != (b.ent is None) and (a if a.ent is None else b).key() == BOT.key():
        ent = a.ent if a.ent is not None else b.ent
    else:
        for x in (a, b):
            for v in (x.ent or {}).values():
                parts |= v.reach()
    fns = a.fns | b.fns
    if tup is None and (a.tup is not None or b.tup is not None):
        fns |= a.anyfns() | b.anyfns()
    return V(a.own | b.own, parts, fns, tup, ent, a.clock or b.clock, a.elem or b.elem, a.idx and b.idx, a.const if type(a.const) is type(b.const) and a.const == b.const else None, a.shallow or b.shallow,
             a.ext if a.ext == b.ext else None, "(?:%s|%s)" % (strpat(a), strpat(b)) if a.key() != b.key() and len(strpat(a)) + len(strpat(b)) < 200 and (strpat(a) != ".*" and strpat(b) != ".*") else None)


def join_env(a, b):
    if a is None:
        return b
    if b is None:
        return a
    out = dict(a)
    for k, v in b.items():
        out[k] = join(out[k], v) if k in out else v
    return out


def same_env(a, b):
    return a is not None and b is not None and a.keys() == b.keys() and all(a[k].key() == b[k].key() for k in a)


class Frame:
    """variables of one activation; kept for closures"""

    def __init__(self, parent=None, tag=""):
        self.parent, self.tag = parent, tag
        self.seen = {}            # join of all values ever bound (what closures may see)
        self.cached = parent.cached if parent else None

    def lookup(self, name):
        f = self
        while f is not None:
            if name in f.seen:
                return f.seen[name]
            f = f.parent
        return None


class Report:
    __slots__ = ("rule", "label", "where", "text", "via")

    def __init__(self, rule, label, where, text, via=()):
        self.rule, self.label, self.where, self.text, self.via = rule, label, where, text, tuple(via)


class Loop:
    def __init__(self):
        self.brk = None
        self.cont = None


class Analyser:
    MAXDEPTH = 14

    def __init__(self, prog):
        self.prog = prog
        self.reports = {}
        self.notes = {}
        self.memo = {}
        self.stack = []
        self.inlined = set()
        self.sites = 0
        self.writes = 0
        self.modvals = {}
        self.arrays = {}           # entry label -> True when a whole-name augmented assignment would write it
        self.cachevals = {}
        self.quiet = 0
        self.stack_ids = []
        self.curmod = None
        self.decos = {}

    # ------------------------------------------------------------------ reporting
    def where(self, node):
        fr = self.stack[-1] if self.stack else None
        mod = self.curmod
        return "%s:%d (%s)" % (mod.path.replace(self.prog.root.rstrip("/") + "/", ""), getattr(node, "lineno", 0), fr or "module")

    def report(self, rule, label, node, text):
        k = (rule, label, self.where(node))
        if k not in self.reports:
            self.reports[k] = Report(rule, label, self.where(node), text, self.stack)

    def write(self, v, node, how, aug=False):
        self.writes += 1
        for lab in sorted(v.own):
            if lab.startswith("arg:"):
                if aug and (v.elem or not self.arrays.get(lab, False)):
                    continue
                self.report("argument", lab, node, how)
            elif lab.startswith("default:"):
                if aug and v.elem:
                    continue
                self.report("default", lab, node, how)
            elif lab.startswith("module:"):
                if aug and (v.elem or v.shallow):
                    continue
                self.report("module-state", lab, node, how)
            elif lab.startswith("cached:"):
                if aug and v.elem:
                    continue
                self.report("cached", lab, node, how)
            elif lab.startswith("cell:"):
                if aug and v.elem:
                    continue
                self.report("cell", lab, node, how)

    # ------------------------------------------------------------------ names
    def lookup(self, name, env, frame, node):
        if name in env:
            return env[name]
        f = frame.parent if frame is not None else None
        while f is not None:
            if name in f.seen:
                v = f.seen[name]
                if f.cached and not v.fns and v.const is None and v.ext is None and not v.idx and name not in getattr(f, "params", ()):
                    lab = frozenset(["cell:%s.%s" % (f.tag, name)])
                    v = v.with_(own=v.own | lab, parts=v.parts | lab)
                return v
            f = f.parent
        return self.global_name(self.curmod.name, name)

    def global_name(self, mod, name):
        r = self.prog.resolve(mod, name)
        if r is None:
            return V(ext="builtins." + name)
        if r[0] == "func":
            return self.decorated(Fn(r[2], r[1], None, r[1].name + "." + r[2].name))
        if r[0] in ("ext", "mod"):
            return V(ext=r[1])
        if r[0] == "value":
            return self.module_value(r[1], name, r[2])
        return BOT

    def decorated(self, fn, env=None, frame=None):
        """value of a function definition: the function, or what decorators written in the package make of it"""
        v = V(fns=frozenset([fn]))
        for d in reversed(getattr(fn.node, "decorator_list", ())):
            c = d.func if isinstance(d, ast.Call) else d
            if isinstance(c, ast.Name):
                r = self.prog.resolve(fn.mod.name, c.id)
                if r is not None and r[0] == "func":
                    k = (id(fn.node), id(d), id(fn.frame))
                    if k not in self.decos:
                        self.decos[k] = v
                        old, self.curmod = self.curmod, fn.mod
                        try:
                            dv = self.ev(d, env or {}, frame or Frame())
                            self.decos[k] = self.apply(dv, [v], d)
                        finally:
                            self.curmod = old
                    v = self.decos[k] if self.decos[k].fns else v
        return v

    def module_value(self, mod, name, expr):
        k = (mod.name, name)
        if k in self.modvals:
            return self.modvals[k]
        self.modvals[k] = BOT
        lab = "module:%s.%s" % k
        v = BOT
        if isinstance(expr, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
            v = V(own=frozenset([lab]), parts=frozenset([lab]))
        elif isinstance(expr, ast.Tuple):
            v = V(parts=frozenset([lab]), own=EMPTY)
        elif isinstance(expr, ast.Call):
            old = self.curmod
            self.curmod = mod
            try:
                f = self.ev(expr.func, {}, Frame())
                self.quiet += 1
                r = self.ev(expr, {}, Frame())
                self.quiet -= 1
            finally:
                self.curmod = old
            if f.ext and f.ext.split(".")[-1] in SCALAR_CTORS:
                v = BOT
            elif r.fns:
                v = r
            else:
                v = V(own=frozenset([lab]), parts=frozenset([lab]), shallow=True, ext=None)
        elif isinstance(expr, (ast.Attribute, ast.Name, ast.Subscript)):
            old = self.curmod
            self.curmod = mod
            try:
                v = self.ev(expr, {}, Frame())
            finally:
                self.curmod = old
        self.modvals[k] = v
        return v

    # ------------------------------------------------------------------ expressions
    def is_int_index(self, node, v):
        if isinstance(node, ast.Slice):
            return True
        if isinstance(node, ast.Constant):
            return node.value is None or node.value is Ellipsis or (isinstance(node.value, int) and not isinstance(node.value, bool))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            return self.is_int_index(node.operand, v)
        if isinstance(node, ast.Tuple):
            return v is not None and v.tup is not None and all(self.is_int_index(e, x) for e, x in zip(node.elts, v.tup))
        return v is not None and v.idx

    def item(self, base, node, idx):
        """value of base[node]"""
        if base.ent is not None and idx is not None and idx.const is not None:
            k = idx.const
            if k in base.ent:
                return join(base.ent[k], V(base.parts, base.parts) if base.parts else None) if base.parts else base.ent[k]
            return V(base.parts, base.parts) if base.parts else V()
        if base.ent is not None:
            out = V(base.parts, base.parts)
            for v in base.ent.values():
                out = join(out, v)
            return out
        if base.tup is not None:
            k = idx.const if idx is not None else None
            if isinstance(k, int) and -len(base.tup) <= k < len(base.tup):
                return base.tup[k]
            out = None
            for v in base.tup:
                out = join(out, v)
            return (out or BOT).with_(tup=None) if isinstance(node, ast.Slice) else (out or BOT)
        if not (base.own or base.parts):
            return V(fns=base.fns, clock=base.clock, idx=False)
        const_key = idx is not None and isinstance(idx.const, str)
        if const_key or self.is_int_index(node, idx):
            has_slice = isinstance(node, ast.Slice) or (isinstance(node, ast.Tuple) and any(isinstance(e, ast.Slice) or isinstance(e, ast.Constant) and e.value is Ellipsis for e in node.elts)) or const_key
            return V(base.own | base.parts, base.parts, clock=base.clock, elem=(not has_slice) or base.elem, idx=False)
        return V(EMPTY, EMPTY, clock=base.clock)

    def elements(self, v):
        """join of what iterating over v gives"""
        if v.tup is not None:
            out = None
            for x in v.tup:
                out = join(out, x)
            return out or BOT
        if v.ent is not None:
            return BOT
        return V(v.own | v.parts, v.parts, fns=v.fns, clock=v.clock, elem=True, idx=v.idx)

    def ev(self, n, env, frame):
        if n is None:
            return BOT
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    self.ev(c, env, frame)
            return BOT
        return m(n, env, frame)

    def ev_Constant(self, n, env, frame):
        return V(const=NONE if n.value is None else n.value, idx=isinstance(n.value, int))

    def ev_Name(self, n, env, frame):
        return self.lookup(n.id, env, frame, n)

    def ev_Attribute(self, n, env, frame):
        b = self.ev(n.value, env, frame)
        if b.ext is not None and not (b.own or b.parts):
            if b.ext in self.prog.modules:
                return self.global_name(b.ext, n.attr)
            if b.ext + "." + n.attr in self.prog.modules:
                return V(ext=b.ext + "." + n.attr)
            return V(ext=b.ext + "." + n.attr)
        if n.attr in VIEW_ATTRS:
            return V(b.own, b.own | b.parts, clock=b.clock)
        if b.fns and b.fns and n.attr in ("py_func", "__wrapped__"):
            return V(fns=b.fns)
        if n.attr in ("size", "ndim"):
            return INT
        return V(clock=b.clock)

    def ev_Subscript(self, n, env, frame):
        b = self.ev(n.value, env, frame)
        i = self.ev(n.slice, env, frame)
        if b.ext == "os.environ":
            self.report("environment", "os.environ", n, "the environment is read")
        return self.item(b, n.slice, i)

    def ev_Slice(self, n, env, frame):
        for c in (n.lower, n.upper, n.step):
            if c is not None:
                self.ev(c, env, frame)
        return INT

    def ev_Tuple(self, n, env, frame):
        out, exact = [], True
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, env, frame)
                if v.tup is not None:
                    out.extend(v.tup)
                else:
                    exact = False
                    out.append(self.elements(v))
            else:
                out.append(self.ev(e, env, frame))
        if exact:
            return V(tup=tuple(out), idx=all(v.idx for v in out) and isinstance(n, ast.Tuple))
        p, f = EMPTY, EMPTY
        for v in out:
            p |= v.reach()
            f |= v.anyfns()
        return V(parts=p, fns=f)

    ev_List = ev_Tuple

    def ev_Set(self, n, env, frame):
        return self.ev_Tuple(n, env, frame).with_(idx=False)

    def ev_Dict(self, n, env, frame):
        ent, rest = {}, EMPTY
        for k, v in zip(n.keys, n.values):
            x = self.ev(v, env, frame)
            if k is None:
                if x.ent is not None:
                    new = cp(x.ent)
                    ent = KwEnt({**ent, **new}) if isinstance(x.ent, KwEnt) or isinstance(ent, KwEnt) else {**ent, **new}
                rest |= x.parts
                continue
            kv = self.ev(k, env, frame)
            if kv.const is not None:
                ent[kv.const] = x
            else:
                rest |= x.reach()
        return V(parts=rest, ent=ent)

    def ev_IfExp(self, n, env, frame):
        self.test(n.test, env, frame)
        known = self.truth(n.test, env, frame)
        if known is not None:
            return self.ev(n.body if known else n.orelse, self.narrow(n.test, known, dict(env)), frame)
        return join(self.ev(n.body, self.narrow(n.test, True, dict(env)), frame), self.ev(n.orelse, self.narrow(n.test, False, dict(env)), frame))

    def ev_BoolOp(self, n, env, frame):
        out = None
        for v in n.values:
            out = join(out, self.ev(v, env, frame))
        return out.with_(const=self.truth(n, env, frame))

    def ev_BinOp(self, n, env, frame):
        a, b = self.ev(n.left, env, frame), self.ev(n.right, env, frame)
        if isinstance(n.op, ast.Add) and a.tup is not None and b.tup is not None:
            return V(tup=a.tup + b.tup)
        if isinstance(n.op, ast.Add) and (isinstance(a.const, str) or isinstance(b.const, str) or a.pat or b.pat):
            if isinstance(a.const, str) and isinstance(b.const, str):
                return V(const=a.const + b.const)
            return V(pat=strpat(a) + strpat(b))
        if isinstance(n.op, ast.Mult) and (a.tup is not None or b.tup is not None):
            t = a if a.tup is not None else b
            return V(parts=t.reach(), fns=t.anyfns())
        if isinstance(n.op, ast.BitOr) and (a.ent is not None or b.ent is not None):
            return join(a, b)
        return V(clock=a.anyclock() or b.anyclock(), idx=a.idx and b.idx)

    def ev_UnaryOp(self, n, env, frame):
        a = self.ev(n.operand, env, frame)
        if isinstance(n.op, ast.Not):
            return V(clock=a.clock, const=self.truth(n, env, frame))
        c = -a.const if isinstance(n.op, ast.USub) and isinstance(a.const, (int, float)) and not isinstance(a.const, bool) else None
        return V(clock=a.clock, idx=a.idx and isinstance(n.op, ast.USub), const=c)

    def ev_Compare(self, n, env, frame):
        c = self.ev(n.left, env, frame).anyclock()
        for x in n.comparators:
            c = self.ev(x, env, frame).anyclock() or c
        return V(clock=c, const=self.truth(n, env, frame))

    def ev_NamedExpr(self, n, env, frame):
        v = self.ev(n.value, env, frame)
        self.bind(n.target, v, env, frame)
        return v

    def ev_Starred(self, n, env, frame):
        return self.ev(n.value, env, frame)

    def ev_JoinedStr(self, n, env, frame):
        pat, clock = "", False
        for c in n.values:
            v = self.ev(c.value if isinstance(c, ast.FormattedValue) else c, env, frame)
            clock = clock or v.anyclock()
            pat += strpat(v)
        return V(clock=clock, pat=pat if len(pat) < 300 else None)

    def ev_Await(self, n, env, frame):
        return self.ev(n.value, env, frame)

    def ev_Yield(self, n, env, frame):
        self.ev(n.value, env, frame)
        return BOT

    def ev_Lambda(self, n, env, frame):
        for k, v in env.items():
            frame.seen[k] = join(frame.seen.get(k), v)
        return V(fns=frozenset([Fn(n, self.curmod, frame, self.curmod.name + ".<lambda>")]))

    def comp(self, n, env, frame):
        env = dict(env)
        for g in n.generators:
            it = self.ev(g.iter, env, frame)
            self.bind(g.target, self.iter_value(g.iter, it), env, frame)
            for c in g.ifs:
                self.test(c, env, frame)
        return env

    def ev_ListComp(self, n, env, frame):
        g = n.generators
        if len(g) == 1 and not g[0].ifs:                     # elementwise over a known tuple
            it = self.ev(g[0].iter, env, frame)
            it = self.iter_value(g[0].iter, it, whole=True)
            if it.tup is not None and len(it.tup) <= 12 and it.ext != "some":
                out = []
                for x in it.tup:
                    e = dict(env)
                    self.bind(g[0].target, x, e, frame)
                    out.append(self.ev(n.elt, e, frame))
                return V(tup=tuple(out))
        e = self.comp(n, env, frame)
        v = self.ev(n.elt, e, frame)
        return V(parts=v.reach(), fns=v.anyfns(), clock=v.anyclock())

    ev_GeneratorExp = ev_ListComp
    ev_SetComp = ev_ListComp

    def ev_DictComp(self, n, env, frame):
        e = self.comp(n, env, frame)
        self.ev(n.key, e, frame)
        v = self.ev(n.value, e, frame)
        return V(parts=v.reach(), fns=v.anyfns())

    def test(self, n, env, frame):
        v = self.ev(n, env, frame)
        if v.anyclock():
            self.report("clock", "time", n, "the course of the computation depends on the time")
        return v

    def iter_value(self, node, v, whole=False):
        """element value of iterating over expression `node` (value v); whole: keep the tuple"""
        if isinstance(node, ast.Call):
            f = node.func
            name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            if name in ("range", "ndindex", "count", "prange"):
                return INT
        if whole:
            return v
        return self.elements(v)

    # ------------------------------------------------------------------ calls
    def ev_Call(self, n, env, frame):
        self.sites += 1
        f = n.func
        # method call
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value, env, frame)
            if f.attr == "__getattribute__" and b.ext and n.args:
                return self.members(b.ext, self.ev(n.args[0], env, frame))
            if not (b.ext is not None and not (b.own or b.parts)):
                return self.method(n, f.attr, b, env, frame)
        fv = self.ev(f, env, frame)
        args, kws, star, dstar = self.args(n, env, frame)
        if fv.fns:
            out = None
            cands = fv.fns
            if star is None and dstar is None:
                cands = [fn for fn in cands if self.fits(fn, args, kws)]      # the others raise
                if not cands:
                    return BOT
            for fn in sorted(cands, key=lambda x: (x.qual, getattr(x.node, "lineno", 0))):
                out = join(out, self.call(fn, args, kws, star, dstar, n))
            return out
        return self.external(fv.ext, n, args, kws, star, dstar, env, frame)

    @staticmethod
    def fits(fn, args, kws):
        a = fn.node.args
        pos = a.posonlyargs + a.args
        names = {p.arg for p in pos + a.kwonlyargs}
        if len(args) > len(pos) and not a.vararg:
            return False
        if not a.kwarg and any(k not in names for k in kws):
            return False
        need = [p.arg for p in pos[:len(pos) - len(a.defaults)]]
        if any(d is not None for d in []):
            return True
        guv = any(isinstance(c, ast.Attribute) and c.attr == "guvectorize" for d in getattr(fn.node, "decorator_list", ()) for c in ast.walk(d))
        return guv or all(i < len(args) or nm in kws for i, nm in enumerate(need))

    def args(self, n, env, frame):
        args, star = [], None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env, frame)
                if v.tup is not None and star is None:
                    args.extend(v.tup)
                else:
                    star = join(star, self.elements(v))
            elif star is not None:
                star = join(star, self.ev(a, env, frame))
            else:
                args.append(self.ev(a, env, frame))
        kws, dstar = {}, None
        for k in n.keywords:
            v = self.ev(k.value, env, frame)
            if k.arg is None:
                if v.ent is not None:
                    kws.update(v.ent)
                    if isinstance(v.ent, KwEnt):
                        dstar = join(dstar, V(ext="kwargs"))
                    if v.parts or (v.own):
                        dstar = join(dstar, V(v.parts | v.own, v.parts | v.own))
                else:
                    dstar = join(dstar, V(v.parts | v.own, v.parts | v.own))
            else:
                kws[k.arg] = v
        return args, kws, star, dstar

    def method(self, n, name, b, env, frame):
        args, kws, star, dstar = self.args(n, env, frame)
        clock = b.anyclock()
        a0 = args[0] if args else None
        if name in MUTATORS and not (name in ("pop", "setdefault", "update", "add", "remove", "put", "insert") and False):
            # containers: a write to the container itself
            keep = [lab for lab in b.own if lab.startswith(("module:", "cell:", "default:"))]
            fn = getattr(frame, "fn", None)
            if name == "setdefault" and keep and fn is not None and len(n.args) == 2 and memo_complete(fn.node, n.args[0], n.args[1], n.func.value):
                self.write(b.with_(own=b.own - frozenset(keep)), n, "setdefault")
            else:
                self.write(b, n, "%s.%s(...)" % (self.text(n.func.value), name))
            if isinstance(n.func.value, ast.Name) and name in ("append", "extend", "insert", "add", "update", "setdefault", "appendleft"):
                self.absorb(n.func.value, args, kws, dstar, env, frame, name)
            if name in ("pop", "setdefault", "popitem"):
                return self.dict_get(b, args, name)
            return V(clock=clock)
        if name in PART_METHODS:
            if name == "get":
                return self.dict_get(b, args, name)
            if b.ent is not None:
                vals = [v for v in b.ent.values()]
                if name == "values":
                    return V(tup=tuple(vals)) if not b.parts else V(parts=b.reach(), fns=b.anyfns())
                if name == "items":
                    return V(tup=tuple(V(tup=(V(const=k), v)) for k, v in b.ent.items())) if not b.parts else V(parts=b.reach(), fns=b.anyfns())
                return BOT
            if name == "keys":
                return BOT
            if name == "items":
                p = V(b.own | b.parts, b.parts)
                return V(parts=b.own | b.parts) if not (b.own or b.parts) else V(tup=(V(tup=(BOT, p)),), ext="some")
            return V(parts=b.own | b.parts)
        if name in VIEW_METHODS:
            return V(b.own, b.parts, clock=clock)
        if name == "astype":
            c = kws.get("copy")
            return V(b.own, b.parts) if c is not None and c.const is False else V(clock=clock)
        if name in ("copy", "__copy__"):
            if b.ent is not None:
                return V(parts=b.parts, ent=cp(b.ent))
            if b.tup is not None:
                return V(tup=b.tup)
            if b.shallow:
                return V(EMPTY, b.own | b.parts)
            return V(clock=clock)
        if name == "flatten":
            return V()
        if name in ("total_seconds", "timestamp"):
            return V(clock=True)
        return V(clock=clock, fns=EMPTY)

    def dict_get(self, b, args, name):
        k = args[0].const if args else None
        d = args[1] if len(args) > 1 else None
        if b.ent is not None:
            if k is not None:
                got = b.ent.get(k)
                r = V(b.parts, b.parts) if b.parts else None
                out = join(join(got, r), d)
                return (out or BOT)
            out = V(b.parts, b.parts)
            for v in b.ent.values():
                out = join(out, v)
            return join(out, d)
        if b.own and k is not None and "kwargs:" in "".join(b.own):
            labs = frozenset("arg:" + k for lab in b.own if lab.startswith("kwargs:"))
            return join(V(labs, labs, shallow=True), d)
        return join(V(b.own | b.parts, b.parts, shallow=b.shallow), d)

    def absorb(self, target, args, kws, dstar, env, frame, name):
        """the container named `target` now also holds the arguments"""
        if target.id not in env:
            return
        v = env[target.id]
        ent = cp(v.ent) if v.ent is not None else None
        parts, fns = v.parts, v.fns
        if v.tup is not None and name == "append" and len(v.tup) < 8 and args:
            env[target.id] = v.with_(tup=v.tup + (args[0],))
            frame.seen[target.id] = join(frame.seen.get(target.id), env[target.id])
            return
        if name in ("update", "setdefault") and ent is not None:
            if name == "setdefault" and args and args[0].const is not None and len(args) > 1:
                ent[args[0].const] = join(ent.get(args[0].const), args[1])
            else:
                for a in args:
                    if a.ent is not None:
                        for k, x in a.ent.items():
                            ent[k] = join(ent.get(k), x)
                    parts |= a.parts | a.own
                for k, x in kws.items():
                    ent[k] = join(ent.get(k), x)
            nv = v.with_(ent=ent, parts=parts)
        else:
            for a in list(args) + list(kws.values()) + ([dstar] if dstar else []):
                parts |= a.reach()
                fns |= a.anyfns()
            if v.tup is not None:
                for x in v.tup:
                    parts |= x.reach()
                    fns |= x.anyfns()
            nv = v.with_(tup=None, parts=parts, fns=fns)
        env[target.id] = nv
        frame.seen[target.id] = join(frame.seen.get(target.id), nv)

    def external(self, ext, n, args, kws, star, dstar, env, frame):
        name = ext.split(".")[-1] if ext else ""
        mod = ext.rsplit(".", 1)[0] if ext and "." in ext else ""
        clock = any(v.anyclock() for v in args) or any(v.anyclock() for v in kws.values())
        # writes
        if "out" in kws and (mod.startswith("numpy") or not mod):
            self.write(kws["out"], n, "%s(out=...)" % name)
            for x in kws["out"].tup or ():
                self.write(x, n, "%s(out=...)" % name)
        if name in ARR_MUT_FUNCS and (mod.startswith(("numpy", "random", "heapq", "bisect")) or not mod) and args:
            self.write(args[ARR_MUT_FUNCS[name]], n, "%s(%s, ...)" % (name, self.text(n.args[0])))
            return BOT
        if name == "nan_to_num" and kws.get("copy") is not None and kws["copy"].const is False and args:
            self.write(args[0], n, "nan_to_num(%s, copy=False)" % self.text(n.args[0]))
            return args[0]
        if name == "at" and len(args) >= 1 and mod.startswith("numpy"):
            self.write(args[0], n, "%s.at(%s, ...)" % (mod, self.text(n.args[0])))
            return BOT
        if name == "setattr" and args:
            if args[0].fns:
                self.report("function-attribute", "attribute", n, "setattr on a function")
            self.write(args[0], n, "setattr(%s, ...)" % self.text(n.args[0]))
            return BOT
        # hidden inputs
        if ext in ("time.time", "time.perf_counter", "time.monotonic", "time.process_time", "time.time_ns", "time.perf_counter_ns", "datetime.datetime.now", "datetime.now", "datetime.datetime.utcnow"):
            return V(clock=True)
        if mod in ("numpy.random", "random", "secrets", "uuid"):
            if name in ("seed", "set_state", "setstate"):
                self.report("process-state", ext, n, "the shared random number generator is changed")
            elif name in ("default_rng", "RandomState", "Generator", "SeedSequence", "Random", "PCG64"):
                if not args and not kws or (args and args[0].const is NONE) or ("seed" in kws and kws["seed"].const is NONE):
                    self.report("random", ext, n, "random numbers without a fixed seed")
            else:
                self.report("random", ext, n, "random numbers from the shared generator")
            return BOT
        if ext in ("os.getenv", "os.environ.get", "os.getpid", "os.urandom", "os.environ.setdefault", "socket.gethostname", "platform.node", "os.cpu_count", "multiprocessing.cpu_count", "builtins.open", "builtins.input"):
            self.report("environment", ext, n, "%s is read" % ext)
            return BOT
        if ext in ("builtins.vars", "builtins.globals") or ext in ("numpy.seterr", "numpy.random.seed", "warnings.simplefilter", "warnings.filterwarnings", "random.seed"):
            self.report("process-state", ext, n, "state shared by the process is changed")
            return BOT
        # identity and views
        if name in VIEW_FUNCS and args and (mod.startswith("numpy") or mod == ""):
            return V(args[0].own, args[0].parts, clock=clock)
        if name == "array" and mod.startswith("numpy") and kws.get("copy") is not None and kws["copy"].const is False and args:
            return V(args[0].own, args[0].parts)
        if name in ("array_split", "split", "hsplit", "vsplit", "nditer", "broadcast_arrays", "meshgrid") and mod.startswith("numpy") and args and name != "meshgrid":
            return V(parts=frozenset().union(*[a.reach() for a in args]))
        if ext in ("builtins.tuple", "builtins.list", "builtins.sorted", "builtins.reversed", "builtins.iter", "builtins.set", "builtins.frozenset"):
            if not args:
                return V(tup=())
            if args[0].tup is not None:
                return V(tup=args[0].tup, ext=args[0].ext) if name in ("tuple", "list") else V(parts=args[0].reach(), fns=args[0].anyfns())
            return V(parts=args[0].own | args[0].parts, fns=args[0].fns)
        if ext == "builtins.dict":
            ent = dict(kws)
            parts = EMPTY
            for a in args:
                if a.ent is not None:
                    ent = KwEnt({**a.ent, **ent}) if isinstance(a.ent, KwEnt) else {**a.ent, **ent}
                parts |= a.parts | a.own
            if dstar:
                parts |= dstar.reach()
            return V(parts=parts, ent=ent)
        if ext == "builtins.zip":
            if args and all(a.tup is not None and a.ext != "some" for a in args):
                return V(tup=tuple(V(tup=t) for t in zip(*[a.tup for a in args])))
            return V(tup=(V(tup=tuple(self.elements(a) for a in args)),), ext="some") if args else BOT
        if ext == "builtins.enumerate" and args:
            return V(tup=tuple(V(tup=(V(idx=True, const=k), x)) for k, x in enumerate(args[0].tup))) if args[0].tup is not None and args[0].ext != "some" else V(tup=(V(tup=(INT, self.elements(args[0]))),), ext="some")
        if ext in ("numpy.ndenumerate",) and args:
            return V(tup=(V(tup=(INT, BOT)),), ext="some")
        if ext == "builtins.map" and args:
            rest = [self.elements(a) for a in args[1:]]
            out = None
            if len(args) == 2 and args[1].tup is not None and args[1].ext != "some":
                return V(tup=tuple(self.apply(args[0], [x], n) for x in args[1].tup))
            out = self.apply(args[0], rest, n)
            return V(parts=out.reach(), fns=out.anyfns())
        if ext == "builtins.filter" and args:
            return V(parts=args[1].reach()) if len(args) > 1 else BOT
        if ext in ("builtins.next", "builtins.min", "builtins.max", "builtins.sum") and args:
            return self.elements(args[0]).with_(const=None) if name == "next" else V(clock=clock, idx=all(a.idx for a in args))
        if ext in ("builtins.len", "builtins.int", "builtins.range", "operator.index", "numpy.prod"):
            return V(idx=True, clock=clock)
        if ext == "builtins.slice":
            return INT
        if ext in ("numpy.ndindex",):
            return INT
        if ext in ("copy.copy",) and args:
            a = args[0]
            return V(parts=a.parts, ent=cp(a.ent)) if a.ent is not None else V(tup=a.tup) if a.tup is not None else V(EMPTY, a.own | a.parts if a.shallow else EMPTY)
        if ext == "importlib.import_module" and args:
            return V(ext="modules:" + strpat(args[0]))
        if ext in ("builtins.getattr",) and args:
            if args[0].ext and len(args) > 1:
                return self.members(args[0].ext, args[1])
            k = args[1].const if len(args) > 1 else None
            return V(args[0].own, args[0].own | args[0].parts) if isinstance(k, str) and k in VIEW_ATTRS else BOT
        if ext in ("functools.partial",) and args:
            for fn in args[0].fns:
                return V(fns=args[0].fns, parts=frozenset().union(*[a.reach() for a in args[1:]]) if args[1:] else EMPTY)
        if ext in ("numba.njit", "numba.jit", "numba.vectorize", "numba.guvectorize", "functools.lru_cache", "functools.cache", "functools.wraps", "numba.extending.register_jitable", "numpy.vectorize"):
            if args and args[0].fns:
                return V(fns=args[0].fns)
            return V(ext="decorator:" + ext)
        if ext and ext.startswith("decorator:") and args:
            return V(fns=args[0].fns)
        # functions handed to library code are called by it, with values of its own and what is in args=
        for a in list(args) + list(kws.values()):
            for fn in a.anyfns():
                extra = kws.get("args")
                ex = list(extra.tup) if extra is not None and extra.tup is not None else []
                npos = len(fn.node.args.args)
                self.call(fn, [BOT] * max(0, npos - len(ex)) + ex, {}, None, None, n)
        return V(clock=clock, ext=None)

    def members(self, ext, name):
        """functions that attribute `name` of a module chosen at run time may be"""
        pat = strpat(name)
        mpat = ext[len("modules:"):] if ext.startswith("modules:") else re.escape(ext)
        out = set()
        for m in self.prog.modules.values():
            if re.fullmatch(mpat, m.name):
                for nm in m.names:
                    if re.fullmatch(pat, nm):
                        v = self.global_name(m.name, nm)
                        out |= {f for f in v.fns if f.mod is m}
        return V(fns=frozenset(out))

    def apply_kw(self, f, args, kws, n):
        out = None
        for fn in sorted(f.fns, key=lambda x: (x.qual, x.node.lineno)):
            if not self.fits(fn, args, kws):
                a = fn.node.args
                names = [p.arg for p in a.args]
                k = len(names)
                out = join(out, self.call(fn, args[:k], {} if not a.kwarg else {**kws}, None, None, n))
            else:
                out = join(out, self.call(fn, args, kws, None, None, n))
        return out or BOT

    def apply(self, f, args, n):
        out = None
        for fn in f.fns:
            out = join(out, self.call(fn, args, {}, None, None, n))
        if out is None and f.ext:
            out = self.external(f.ext, n, list(args), {}, None, None, {}, None)
        return out or BOT

    def decorators(self, fn):
        out = []
        if isinstance(fn.node, ast.Lambda):
            return out
        for d in fn.node.decorator_list:
            c = d.func if isinstance(d, ast.Call) else d
            nm = c.attr if isinstance(c, ast.Attribute) else c.id if isinstance(c, ast.Name) else ""
            out.append((nm, d))
        return out

    def call(self, fn, args, kws, star, dstar, site):
        node = fn.node
        if len(self.stack) >= self.MAXDEPTH or fn.qual + "@%d" % node.lineno in [q for q in self.stack_ids]:
            r = EMPTY
            for v in list(args) + list(kws.values()):
                r |= v.reach()
            return V(parts=EMPTY)
        decos = self.decorators(fn)
        names = [d for d, _ in decos]
        a = node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        bound = {}
        via_kw = set()
        outparams = []
        if "guvectorize" in names:
            sig = ""
            for d, dn in decos:
                if d == "guvectorize":
                    for c in ast.walk(dn):
                        if isinstance(c, ast.Constant) and isinstance(c.value, str) and "->" in c.value:
                            sig = c.value
            nin = len(re.findall(r"\([^)]*\)", sig.split("->")[0])) if sig else len(pos) - 1
            outparams = pos[nin:]
        for i, v in enumerate(args):
            if i < len(pos):
                bound[pos[i]] = v
        if a.vararg:
            extra = args[len(pos):]
            bound[a.vararg.arg] = V(tup=tuple(extra)) if star is None else V(parts=frozenset().union(star.reach(), *[x.reach() for x in extra]), fns=star.anyfns())
        rest = {}
        for k, v in kws.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                bound[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            bound[a.kwarg.arg] = V(ent=KwEnt(rest) if dstar is not None and dstar.ext == "kwargs" else rest, parts=dstar.reach() if dstar else EMPTY, fns=EMPTY)
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p not in bound:
                if star is not None and p in pos:
                    bound[p] = star
                elif dstar is not None and dstar.ext == "kwargs":
                    bound[p] = KwEnt().get(p)
                    via_kw.add(p)
                elif dstar is not None:
                    bound[p] = dstar
                    via_kw.add(p)
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p, d in defaults.items():
            dv = self.default(fn, p, d)
            if p not in bound:
                bound[p] = dv
            elif bound[p] is star or p in via_kw:
                bound[p] = join(bound[p], dv)
        for p in pos:
            bound.setdefault(p, BOT)
        for p in outparams:
            bound[p] = BOT
        key = (id(node), id(fn.frame), tuple(sorted((k, v.key()) for k, v in bound.items())), tuple(self.stack_ids) if False else None)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = BOT            # recursion
        cached = "lru_cache" in names or "cache" in names
        res = self.body(fn, bound, cached)
        if "guvectorize" in names or "vectorize" in names:
            res = BOT
        if cached and res is not None:
            lab = frozenset(["cached:" + fn.qual])
            if res.fns or res.anyfns():
                pass
            elif res.tup is not None:
                res = V(parts=lab | res.reach(), own=EMPTY, tup=tuple(V(x.own | (lab if not x.fns else EMPTY), x.parts | lab, fns=x.fns) for x in res.tup))
            else:
                res = V(res.own | lab, res.parts | lab, fns=res.fns, ent=res.ent, shallow=True)
        self.memo[key] = res
        return res

    def default(self, fn, p, d):
        lab = "default:%s.%s" % (fn.qual, p)
        if isinstance(d, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp)):
            return V(frozenset([lab]), frozenset([lab]), shallow=True)
        if isinstance(d, ast.Call):
            f = d.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            if nm not in SCALAR_CTORS and nm not in ("finfo", "iinfo", "maxsize"):
                return V(frozenset([lab]), frozenset([lab]), shallow=True)
        old, self.curmod = self.curmod, fn.mod
        try:
            return self.ev(d, {}, Frame(fn.frame))
        finally:
            self.curmod = old

    def body(self, fn, bound, cached=False):
        frame = Frame(fn.frame, fn.qual)
        if cached:
            frame.cached = fn.qual
        old = self.curmod
        self.curmod = fn.mod
        self.stack.append(fn.qual)
        self.stack_ids.append(fn.qual + "@%d" % fn.node.lineno)
        self.inlined.add(fn.qual)
        try:
            env = dict(bound)
            frame.params = set(bound)
            for k, v in env.items():
                frame.seen[k] = v
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, env, frame)
            frame.globals = set()
            frame.nonlocals = set()
            for x in ast.walk(fn.node):
                if isinstance(x, ast.Global):
                    frame.globals |= set(x.names)
                elif isinstance(x, ast.Nonlocal):
                    frame.nonlocals |= set(x.names)
            frame.ret = None
            frame.loops = []
            frame.fn = fn
            self.block(fn.node.body, env, frame)
            return frame.ret or BOT
        finally:
            self.stack.pop()
            self.stack_ids.pop()
            self.curmod = old

    # ------------------------------------------------------------------ statements (return env, or None when control does not fall through)
    def block(self, body, env, frame):
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env, frame)
        return env

    def stmt(self, s, env, frame):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            return env
        return m(s, env, frame)

    def st_Expr(self, s, env, frame):
        self.ev(s.value, env, frame)
        return env

    def st_Return(self, s, env, frame):
        v = self.ev(s.value, env, frame) if s.value is not None else BOT
        frame.ret = join(frame.ret, v)
        return None

    def st_Raise(self, s, env, frame):
        for c in (s.exc, s.cause):
            if c is not None:
                self.ev(c, env, frame)
        return None

    def st_Assert(self, s, env, frame):
        self.test(s.test, env, frame)
        return env

    def bind(self, t, v, env, frame):
        if isinstance(t, ast.Name):
            if t.id in getattr(frame, "globals", ()):
                self.global_store(t, v, frame)
                return
            if t.id in getattr(frame, "nonlocals", ()):
                f = frame.parent
                while f is not None and t.id not in f.seen:
                    f = f.parent
                if f is not None:
                    if f.cached or getattr(f, "cached", None):
                        self.report("cell", "cell:%s.%s" % (f.tag, t.id), t, "a variable of the memoised %s is rebound" % f.tag)
                    f.seen[t.id] = join(f.seen.get(t.id), v)
                return
            env[t.id] = v
            frame.seen[t.id] = join(frame.seen.get(t.id), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if v.tup is not None and v.ext != "some" and len(v.tup) == n and not any(isinstance(e, ast.Starred) for e in t.elts):
                for e, x in zip(t.elts, v.tup):
                    self.bind(e, x, env, frame)
            else:
                x = self.elements(v) if not (v.tup is not None) else V(parts=v.reach(), own=v.reach(), fns=v.anyfns())
                for e in t.elts:
                    self.bind(e.value if isinstance(e, ast.Starred) else e, x.with_(elem=True), env, frame)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, env, frame)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env, frame)
            i = self.ev(t.slice, env, frame)
            if i.anyclock():
                self.report("clock", "time", t, "a position depends on the time")
            self.store(b, t, v, frame)
            self.contain(t.value, i, v, env, frame)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env, frame)
            if b.fns or (b.ext and b.ext in self.prog.modules):
                self.report("function-attribute", "attribute", t, "attribute %s of a function or module is set" % t.attr)
            self.write(b, t, "%s.%s = ..." % (self.text(t.value), t.attr))

    def store(self, b, t, v, frame):
        how = "%s = ..." % self.text(t)
        mod = [lab for lab in b.own if lab.startswith(("module:", "cell:", "default:"))]
        fn = getattr(frame, "fn", None)
        if mod and fn is not None and not isinstance(t.slice, ast.Slice) and memo_ok(fn.node, t):
            b = b.with_(own=b.own - frozenset(mod))
        self.write(b, t, how)

    def contain(self, target, i, v, env, frame):
        if v.anyclock() and isinstance(target, ast.Subscript) and isinstance(target.value, ast.Name) and target.value.id in env:
            b, k = env[target.value.id], self.ev(target.slice, env, frame).const
            if b.ent is not None and k is not None and k in b.ent.keys():
                ent = cp(b.ent)
                ent[k] = ent[k].with_(clock=True)
                env[target.value.id] = b.with_(ent=ent)
            return
        if not isinstance(target, ast.Name) or target.id not in env:
            return
        b = env[target.id]
        if b.ent is not None and i.const is not None:
            ent = cp(b.ent)
            ent[i.const] = v
            nv = b.with_(ent=ent)
        elif b.ent is not None:
            nv = b.with_(parts=b.parts | v.reach())
        elif b.tup is not None and isinstance(i.const, int) and -len(b.tup) <= i.const < len(b.tup):
            tp = list(b.tup)
            tp[i.const] = v
            nv = b.with_(tup=tuple(tp))
        elif b.tup is not None:
            nv = b.with_(tup=tuple(join(x, v) for x in b.tup)) if b.tup else b
        else:
            # storing into an array copies; into a list keeps a reference: only functions matter here
            nv = b.with_(fns=b.fns | v.anyfns()) if v.anyfns() else b
            if v.anyclock():
                nv = nv.with_(clock=True)
        env[target.id] = nv
        frame.seen[target.id] = join(frame.seen.get(target.id), nv)

    def global_store(self, t, v, frame):
        self.report("module-state", "module:%s.%s" % (self.curmod.name, t.id), t, "module variable %s is rebound" % t.id)

    def st_Assign(self, s, env, frame):
        v = self.ev(s.value, env, frame)
        for t in s.targets:
            self.bind(t, v, env, frame)
        return env

    def st_AnnAssign(self, s, env, frame):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value, env, frame), env, frame)
        return env

    def st_AugAssign(self, s, env, frame):
        r = self.ev(s.value, env, frame)
        t = s.target
        if isinstance(t, ast.Name):
            if t.id in getattr(frame, "globals", ()):
                self.global_store(t, r, frame)
                return env
            if t.id in getattr(frame, "nonlocals", ()):
                self.bind(t, BOT, env, frame)
                return env
            v = self.lookup(t.id, env, frame, t)
            self.write(v, s, "%s %s= ..." % (t.id, self.opname(s.op)), aug=True)
            nv = v.with_(const=None, clock=v.clock or r.anyclock(), idx=v.idx and r.idx)
            if v.tup is not None and r.tup is not None and isinstance(s.op, ast.Add):
                nv = V(tup=v.tup + r.tup)
            env[t.id] = nv
            frame.seen[t.id] = join(frame.seen.get(t.id), nv)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env, frame)
            self.ev(t.slice, env, frame)
            self.write(b, s, "%s %s= ..." % (self.text(t), self.opname(s.op)))
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env, frame)
            if b.fns:
                self.report("function-attribute", "attribute", t, "attribute %s of a function is changed" % t.attr)
            self.write(b, s, "%s %s= ..." % (self.text(t), self.opname(s.op)))
        return env

    def st_Delete(self, s, env, frame):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.write(self.ev(t.value, env, frame), s, "del %s" % self.text(t))
        return env

    def st_If(self, s, env, frame):
        self.test(s.test, env, frame)
        known = self.truth(s.test, env, frame)
        if known is not None:
            return self.block(s.body if known else s.orelse, self.narrow(s.test, known, dict(env)), frame)
        a = None
        for e in self.cases(s.test, env):
            x = self.block(s.body, dict(e), frame)
            a = x if a is None else join_env(a, x)
        b = self.block(s.orelse, self.narrow(s.test, False, dict(env)), frame)
        return join_env(a, b)

    def truth(self, t, env, frame):
        """True / False when constants decide the test, else None"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.truth(t.operand, env, frame)
            return None if r is None else not r
        if isinstance(t, ast.BoolOp):
            rs = [self.truth(x, env, frame) for x in t.values]
            if isinstance(t.op, ast.And):
                return False if False in rs else True if all(r is True for r in rs) else None
            return True if True in rs else False if all(r is False for r in rs) else None
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, b = self.ev(t.left, env, frame), self.ev(t.comparators[0], env, frame)
            op = t.ops[0]
            if isinstance(op, (ast.In, ast.NotIn)):
                if a.const is None or b.tup is None or any(x.const is None for x in b.tup):
                    return None
                r = any(type(x.const) is type(a.const) and x.const == a.const for x in b.tup)
                return r if isinstance(op, ast.In) else not r
            if a.const is None or b.const is None:
                return None
            if isinstance(op, (ast.Eq, ast.Is)):
                return a.const == b.const
            if isinstance(op, (ast.NotEq, ast.IsNot)):
                return not (a.const == b.const)
            return None
        if isinstance(t, (ast.Name, ast.Constant)):
            v = self.ev(t, env, frame)
            if v.const is NONE:
                return False
            if isinstance(v.const, (bool, str)):
                return bool(v.const)
        return None

    def narrow(self, test, pos, env):
        """on a branch where a name is None (or a scalar), it is not one of the labelled arrays"""
        t = test
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.narrow(t.operand, not pos, env)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) and pos or isinstance(t.op, ast.Or) and not pos:
                for x in t.values:
                    env = self.narrow(x, pos, env)
            return env
        name, gone, whole = None, None, False
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            name, gone = t.left.id, isinstance(t.ops[0], (ast.Is, ast.Eq))
        elif isinstance(t, ast.Call) and t.args and isinstance(t.args[0], ast.Name):
            f = t.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            if nm == "isscalar":
                name, gone = t.args[0].id, True
            elif nm == "isinstance" and len(t.args) == 2:
                cls = {c.id if isinstance(c, ast.Name) else c.attr if isinstance(c, ast.Attribute) else "?" for c in (t.args[1].elts if isinstance(t.args[1], ast.Tuple) else [t.args[1]])}
                if cls <= {"str", "int", "float", "bool", "complex", "Number", "Integral", "Real"}:
                    name, gone, whole = t.args[0].id, True, cls <= {"int", "bool", "Integral"}
        if name and name in env and gone == pos:
            env = dict(env)
            v = env[name]
            env[name] = V(const=v.const, idx=v.idx or whole, clock=v.clock)
        return env

    def cases(self, test, env):
        """environments in which the test may be true: one per alternative of an `or` that says something of a name"""
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.Or):
            out = []
            for x in test.values:
                for e in self.cases(x, env):
                    if not any(same_env(e, o) for o in out):
                        out.append(e)
            return out
        return [self.narrow(test, True, dict(env))]

    def loop(self, s, env, frame, once):
        frame.loops.append(Loop())
        cur = env
        for _ in range(8):
            lp = frame.loops[-1]
            lp.cont = None
            e = once(dict(cur))
            e = join_env(e, lp.cont)
            new = join_env(cur, e)
            if same_env(new, cur):
                break
            cur = new
        lp = frame.loops.pop()
        out = cur
        if s.orelse:
            out = self.block(s.orelse, dict(cur), frame)
        return join_env(out, lp.brk)

    def st_For(self, s, env, frame):
        it = self.ev(s.iter, env, frame)
        if it.clock:
            self.report("clock", "time", s.iter, "the number of repetitions depends on the time")
        el = self.iter_value(s.iter, it)
        if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == "items" and it.tup is not None:
            el = None
            for x in it.tup:
                el = join(el, x)
            el = el or BOT

        if it.tup is not None and it.ext != "some" and 0 < len(it.tup) <= 6:
            frame.loops.append(Loop())
            cur = env
            for x in it.tup:
                if cur is None:
                    break
                lp = frame.loops[-1]
                lp.cont = None
                self.bind(s.target, x, cur, frame)
                cur = join_env(self.block(s.body, dict(cur), frame), lp.cont)
            lp = frame.loops.pop()
            if s.orelse and cur is not None:
                cur = self.block(s.orelse, cur, frame)
            return join_env(cur, lp.brk)

        def once(e):
            self.bind(s.target, el, e, frame)
            return self.block(s.body, e, frame)
        return self.loop(s, env, frame, once)

    def st_While(self, s, env, frame):
        def once(e):
            self.test(s.test, e, frame)
            return self.block(s.body, e, frame)
        return self.loop(s, env, frame, once)

    def st_Break(self, s, env, frame):
        if frame.loops:
            frame.loops[-1].brk = join_env(frame.loops[-1].brk, env)
        return None

    def st_Continue(self, s, env, frame):
        if frame.loops:
            frame.loops[-1].cont = join_env(frame.loops[-1].cont, env)
        return None

    def st_Try(self, s, env, frame):
        before = dict(env)
        a = self.block(s.body, dict(env), frame)
        mid = join_env(before, a) if a is not None else before
        if s.orelse and a is not None:
            a = self.block(s.orelse, a, frame)
        out = a
        for h in s.handlers:
            e = dict(mid)
            if h.name:
                e[h.name] = BOT
            out = join_env(out, self.block(h.body, e, frame))
        if s.finalbody:
            f = self.block(s.finalbody, dict(out if out is not None else mid), frame)
            out = f if out is not None else None
        return out

    def st_With(self, s, env, frame):
        for i in s.items:
            v = self.ev(i.context_expr, env, frame)
            if i.optional_vars is not None:
                self.bind(i.optional_vars, v, env, frame)
        return self.block(s.body, env, frame)

    def st_FunctionDef(self, s, env, frame):
        for k, v in env.items():
            frame.seen[k] = join(frame.seen.get(k), v)
        fn = Fn(s, self.curmod, frame, self.stack[-1] + "." + s.name if self.stack else s.name)
        env[s.name] = self.decorated(fn, env, frame)
        frame.seen[s.name] = env[s.name]
        return env

    def st_Import(self, s, env, frame):
        for a in s.names:
            env[(a.asname or a.name.split(".")[0])] = V(ext=a.name if a.asname else a.name.split(".")[0])
        return env

    def st_ImportFrom(self, s, env, frame):
        base = self.curmod._base(s)
        for a in s.names:
            v = self.global_name(base, a.name) if base in self.prog.modules else V(ext="%s.%s" % (base, a.name))
            env[a.asname or a.name] = v
            frame.seen[a.asname or a.name] = v
        return env

    @staticmethod
    def opname(op):
        return {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**", "BitAnd": "&", "BitOr": "|", "BitXor": "^"}.get(type(op).__name__, "?")

    @staticmethod
    def text(n):
        try:
            return ast.unparse(n)
        except Exception:
            return "?"

    # ------------------------------------------------------------------ entry points
    def entry(self, qual, mutable=(), arrays=()):
        """analyse one public function with its arguments labelled; `mutable`: documented to be modified"""
        r = self.prog.func(qual)
        if r is None:
            return False
        node, mod = r[2], r[1]
        fn = Fn(node, mod, None, qual)
        self.memo = {}
        self.stack, self.stack_ids = [], []
        self.curmod = mod
        a = node.args
        bound = {}
        names = [d for d, _ in self.decorators(fn)]
        pos = [p.arg for p in a.posonlyargs + a.args]
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.arg in mutable:
                bound[p.arg] = BOT
            else:
                lab = frozenset(["arg:" + p.arg])
                bound[p.arg] = V(lab, lab, shallow=p.arg in SHALLOW)
                if isinstance(defaults.get(p.arg), (ast.Dict, ast.List, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
                    bound[p.arg] = join(bound[p.arg], self.default(fn, p.arg, defaults[p.arg]))
        if "guvectorize" in names:
            sig = ""
            for d, dn in self.decorators(fn):
                for c in ast.walk(dn):
                    if isinstance(c, ast.Constant) and isinstance(c.value, str) and "->" in c.value:
                        sig = c.value
            nin = len(re.findall(r"\([^)]*\)", sig.split("->")[0])) if sig else len(a.args) - 1
            for p in a.args[nin:]:
                bound[p.arg] = BOT
        if a.kwarg:
            bound[a.kwarg.arg] = KwV()
        if a.vararg:
            lab = frozenset(["arg:*" + a.vararg.arg])
            bound[a.vararg.arg] = V(EMPTY, lab)
        self.arrays = {"arg:" + x: True for x in arrays}
        dec = self.decorated(fn)
        if dec.fns == frozenset([fn]):
            res = self.body(fn, bound, "lru_cache" in names)
        else:
            res = self.apply_kw(dec, [bound[p] for p in pos], {x.arg: bound[x.arg] for x in a.kwonlyargs}, node)
        for g in sorted(res.anyfns(), key=lambda x: (x.qual, x.node.lineno)):      # and what it returns is called by the user
            self.curmod = mod
            if g.frame is not None:
                self.call(g, [BOT] * len(g.node.args.args), {}, None, None, node)
        return True


SHALLOW = {"grid", "kwargs", "kw", "pin_cast", "edges", "ref", "dims", "periodic", "face_connections", "interp"}


def KwV():
    return V(ent=KwEnt())


SOUND_WRAP = {"tuple", "str", "repr", "bytes", "tobytes", "frozenset", "float", "bool", "id"}


def memo_ok(fn, t):
    """`D[key] = value` with t the target"""
    for x in ast.walk(fn):
        if isinstance(x, ast.Assign) and any(tt is t for tt in x.targets):
            return memo_complete(fn, t.slice, x.value, t.value)
    return False


def memo_complete(fn, key, value, container):
    """`D[key] = value`, D outliving the call: is every parameter the value is made from in the key, whole?
    A store with an incomplete key makes results depend on earlier calls; when in doubt the answer is yes"""
    a = fn.args
    params = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
    defs = {}
    for x in ast.walk(fn):
        if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and x.value is not None:
            for tt in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                for nm in ast.walk(tt):
                    if isinstance(nm, ast.Name) and isinstance(nm.ctx, ast.Store):
                        defs.setdefault(nm.id, []).append(x.value)
                if isinstance(tt, ast.Subscript) and isinstance(tt.value, ast.Name):
                    defs.setdefault(tt.value.id, []).append(x.value)
        elif isinstance(x, (ast.For, ast.comprehension)):
            for nm in ast.walk(x.target):
                if isinstance(nm, ast.Name):
                    defs.setdefault(nm.id, []).append(x.iter)
        elif isinstance(x, ast.FunctionDef) and x is not fn:
            defs.setdefault(x.name, []).append(x)

    def deps(e, seen):
        out = set()
        inner = set()
        if isinstance(e, (ast.FunctionDef, ast.Lambda)):
            inner = {p.arg for p in e.args.args}
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in inner:
                if x.id in params and x.id not in defs:
                    out.add(x.id)
                elif x.id in params:
                    out.add(x.id)
                if x.id in defs and x.id not in seen:
                    seen.add(x.id)
                    for d in defs[x.id]:
                        out |= deps(d, seen)
        return out

    def whole(e, seen):
        """parameters that can be told from the value of e"""
        if isinstance(e, ast.Name):
            out = {e.id} if e.id in params else set()
            for d in defs.get(e.id, []):
                if e.id not in seen:
                    out |= whole(d, seen | {e.id})
            return out
        if isinstance(e, (ast.Tuple, ast.List)):
            return set().union(*[whole(x, seen) for x in e.elts]) if e.elts else set()
        if isinstance(e, ast.JoinedStr):
            return set().union(*[whole(x.value, seen) for x in e.values if isinstance(x, ast.FormattedValue)]) if e.values else set()
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return whole(e.left, seen) | whole(e.right, seen)
        if isinstance(e, ast.Call):
            f = e.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            if nm in SOUND_WRAP:
                out = set().union(*[whole(x, seen) for x in e.args]) if e.args else set()
                if isinstance(f, ast.Attribute):
                    out |= whole(f.value, seen)
                return out
            if nm in ("map", "sorted", "items", "hash"):       # a value made from the whole of its arguments
                return deps(e, set())
            return set()
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return deps(e, set())
        return set()

    if isinstance(container, ast.Name) and any(isinstance(x, ast.Name) and x.id == container.id for x in ast.walk(value)):
        return False
    need = deps(value, set())
    have = whole(key, set())
    return need <= have

"""Abstract interpreter: Python function -> gated value-graph normal form (terms.py).

The analysed program is never executed: every statement is translated into terms.
Branches become decision diagrams, loops become closed fix-point terms, calls to
functions of the package are inlined (so extracting or merging helpers does not
change the result) unless declared opaque for the obligation at hand.
"""
import ast
import sys
from fractions import Fraction

import terms as T
from npsig import SIG
from terms import Term, num, const, atom, ite, AND, OR, NOT, truth, mk_bval, mk_tuple, mk_list, UNDEF

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Ref:
    """reference to (part of) a mutable object"""
    __slots__ = ("cell", "path", "snap")

    def __init__(self, cell, path=(), snap=None):
        self.cell = cell; self.path = path; self.snap = snap


class PTuple:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class Fn:
    __slots__ = ("node", "mod", "env", "name", "defaults", "kwdefaults", "qual")

    def __init__(self, node, mod, env, name, defaults=(), kwdefaults=None, qual=None):
        self.node = node; self.mod = mod; self.env = env; self.name = name
        self.defaults = defaults; self.kwdefaults = kwdefaults or {}
        self.qual = qual or name


class Mod:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Ext:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Bound:
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv = recv; self.name = name


def narrowed(arr, v):
    """a value stored into an array of less than double precision"""
    while arr.op == "store":
        arr = arr.args[0]
    if arr.op == "full" and len(arr.args) > 2 and arr.args[2].op == "const" and str(arr.args[2].args[0]).split(".")[-1] in NARROW and not v.isint and v.op not in ("bool", "bval") and not T.isnum(v):
        one = lambda x: x if T.isnum(x) or x.op == "fst" else atom("float32", x)
        if v.op == "tuple":
            return mk_tuple(tuple(T.lift1("float32", one, x) for x in v.args))
        return mk_list(tuple(T.lift1("float32", one, x) for x in v.args)) if v.op == "list" else T.lift1("float32", one, v)
    return v


NARROW = {"float32", "float16", "f4", "f2", "single", "half"}


class RangeV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo = lo; self.hi = hi; self.step = step


class IterV:
    """enumerate / zip / reversed wrappers"""
    __slots__ = ("kind", "parts", "extra")

    def __init__(self, kind, parts, extra=None):
        self.kind = kind; self.parts = parts; self.extra = extra


class Choice:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c = c; self.a = a; self.b = b


def viewed(t):
    """may t share memory with an object that lives on?"""
    if t.op == "ite":
        return viewed(t.args[1]) or viewed(t.args[2])
    if t.op == "call" and t.args[0].op == "glob":
        return t.args[0].args[0] in ("numpy.moveaxis", "numpy.asarray", "numpy.atleast_1d", "numpy.expand_dims", "numpy.rollaxis", "numpy.broadcast_to", "numpy.ascontiguousarray")
    return t.op in ("attr", "m:reshape", "m:ravel", "m:transpose", "m:swapaxes", "m:squeeze", "m:view")


HIDDEN = -1      # heap cell: stores into objects that no variable names


class State:
    __slots__ = ("env", "heap", "pc")

    def __init__(self, env, heap, pc):
        self.env = env; self.heap = heap; self.pc = pc

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.pc)


class Exit:
    __slots__ = ("pc", "kind", "env", "heap", "value", "line")

    def __init__(self, pc, kind, env, heap, value, line=None):
        self.pc = pc; self.kind = kind; self.env = env; self.heap = heap; self.value = value; self.line = line


NP = {"numpy": "np", "math": "np", "numpy.math": "np"}
DTYPES = {"float": "float", "numpy.float64": "float", "numpy.double": "float", "numba.f8": "float", "numba.float64": "float",
          "numpy.float_": "float", "int": "int", "numpy.int_": "int", "numpy.int64": "int", "numpy.intp": "int", "numba.int64": "int", "numba.i8": "int",
          "bool": "bool", "numpy.bool_": "bool", "numpy.float32": "float32"}

MUTATORS = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "update", "clear", "setdefault", "popitem", "add", "discard",
            "fill", "itemset", "resize", "put", "partition", "setflags", "byteswap"}
EXT_MUTATORS = {"numpy.copyto": 0, "numpy.put": 0, "numpy.fill_diagonal": 0, "numpy.place": 0, "numpy.putmask": 0,
                "numpy.put_along_axis": 0, "numpy.random.shuffle": 0, "random.shuffle": 0}

ARITH_UFUNC = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "power": "Pow",
               "floor_divide": "FloorDiv", "mod": "Mod", "remainder": "Mod"}
CMP_UFUNC = {"less": "Lt", "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE", "equal": "Eq", "not_equal": "NotEq"}


class Interp:
    def __init__(self, prog, opaque=None, ints=(), intarrays=(), ndim=None, consts=None, max_depth=40, free_defaults=(), semantic_alias=None, same=None):
        self.prog = prog
        self.opaque = opaque or {}          # qualname or bare name -> canonical symbol
        self.ints = set(ints)
        self.intarrays = set(intarrays)
        self.ndim = ndim or {}
        self.cellctr = 0
        self.depth = 0
        self.max_depth = max_depth
        self.free_all = free_defaults is True
        self.free_defaults = set() if free_defaults is True else set(free_defaults)
        self.defaults_met = {}
        self.consts = consts or {}
        self.touched = set()                # qualified names of analysed functions
        self.callsites = 0
        self.branches = 0
        self.loops = 0
        self.loop_sites = set()
        self.symbols = set()                # external symbols met
        self.lamdepth = 0
        self.lamstack = []
        self.modvals = {}
        self.exits = None
        self.effects_memo = {}

    # ------------------------------------------------------------------ heap
    def new_cell(self, st, content):
        self.cellctr += 1
        c = self.cellctr
        st.heap[c] = content
        return Ref(c)

    def read(self, st, v):
        """Value -> Term"""
        if isinstance(v, Term):
            return v
        if isinstance(v, Ref):
            if v.path and v.snap is not None:
                return v.snap
            t = st.heap[v.cell]
            if v.path:
                t = self.sel(t, v.path)
            return t
        if isinstance(v, PTuple):
            return mk_tuple(tuple(self.read(st, x) for x in v.items))
        if isinstance(v, Fn):
            return self.fn_term(st, v)
        if isinstance(v, Ext):
            self.symbols.add(v.name)
            if v.name in DTYPES:
                return const("dtype:" + DTYPES[v.name])
            return atom("glob", v.name)
        if isinstance(v, Mod):
            return atom("glob", v.name)
        if isinstance(v, Bound):
            return self.attr_of(self.read(st, v.recv), v.name)
        if isinstance(v, RangeV):
            return atom("range", v.lo, v.hi, v.step)
        if isinstance(v, IterV):
            return atom("iter:" + v.kind, *[self.read(st, x) for x in v.parts])
        if isinstance(v, Choice):
            return ite(v.c, self.read(st, v.a), self.read(st, v.b))
        if v is None:
            return T.NONE
        raise Unsupported("value %r" % (v,))

    def sel(self, t, path):
        p = [x for x in path]
        return T.select(t, p[0] if len(p) == 1 else mk_tuple(tuple(p)))

    # ------------------------------------------------------------------ functions as values
    def opname(self, fn):
        if fn.mod is None:
            return None
        q = fn.mod.name + "." + fn.name
        if not isinstance(fn.node, ast.FunctionDef):
            return None
        r = self.prog.resolve(fn.mod.name, fn.name)
        if r is None or r[0] != "func" or r[2] is not fn.node:
            return None
        for k in (q, fn.name):
            if k in self.opaque:
                return self.opaque[k]
        return None

    def fn_term(self, st, fn):
        o = self.opname(fn)
        if o is not None:
            return atom("fn", o if isinstance(o, str) else o[0])
        if id(fn.node) in self.lamstack or self.lamdepth > 6:
            return atom("fn", "rec:" + fn.qual)
        a = fn.node.args
        if a.vararg or a.kwarg:
            return atom("fn", "var:" + fn.qual)
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        bv = []
        for i, n in enumerate(names):
            bv.append(atom("bv", self.lamdepth, i, isint=False))
        self.lamdepth += 1
        self.lamstack.append(id(fn.node))
        try:
            st2 = State({}, dict(st.heap), T.TRUE)
            val = self.call_fn(st2, fn, bv, {}, None, sub=True)
            body = self.read(st2, val)
        finally:
            self.lamdepth -= 1
            self.lamstack.pop()
        return atom("lam", len(names), body)

    # ------------------------------------------------------------------ names
    def lookup(self, st, name, mod, fnenv):
        if name in st.env:
            return st.env[name]
        e = fnenv
        while e is not None:
            if name in e[0]:
                return e[0][name]
            e = e[1]
        return self.module_name(st, name, mod)

    def module_name(self, st, name, mod):
        if mod is not None:
            r = self.prog.resolve(mod.name, name)
            if r is not None:
                return self.resolved(st, r, name)
        if name in ("True", "False", "None"):
            return const({"True": True, "False": False, "None": None}[name])
        return Ext(name)

    def resolved(self, st, r, name):
        if r[0] == "func":
            return self.make_fn(st, r[2], r[1], None)
        if r[0] == "value":
            key = (r[1].name, name)
            if key in self.modvals:
                return self.modvals[key]
            self.modvals[key] = atom("glob", r[1].name + "." + name)
            st2 = State({}, {}, T.TRUE)
            try:
                v = self.ev(r[2], st2, r[1], None)
                v = self.read(st2, v) if not isinstance(v, (Fn, Ext, Mod, PTuple)) else v
            except Unsupported:
                v = atom("glob", r[1].name + "." + name)
            self.modvals[key] = v
            return v
        if r[0] == "mod":
            return Mod(r[1])
        if r[0] == "ext":
            return Ext(r[1])
        if r[0] == "class":
            return Ext(r[1].name + "." + name)
        raise Unsupported("name " + name)

    def make_fn(self, st, node, mod, env):
        a = node.args
        defaults = [None] * 0
        st2 = st if env is not None else State({}, {}, T.TRUE)
        defaults = [self.ev(d, st2, mod, env) for d in a.defaults]
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.ev(d, st2, mod, env)
        return Fn(node, mod, env, getattr(node, "name", "<lambda>"), defaults, kwd,
                  (mod.name if mod else "") + "." + getattr(node, "name", "<lambda>"))

    # ------------------------------------------------------------------ root call
    def run_root(self, fn, argterms=None, rename=None):
        """analyse fn with symbolic arguments -> (result term, {param: final content or None}, raises)"""
        st = State({}, {HIDDEN: T.NONE}, T.TRUE)
        a = fn.node.args
        params = a.posonlyargs + a.args
        nd = len(params) - len(fn.defaults)
        args = []
        cells = {}
        for i, p in enumerate(params):
            n = p.arg
            if argterms and n in argterms:
                args.append(argterms[n]); continue
            rn = rename.get(n, n) if rename else n
            t = self.arg_atom(rn)
            if i >= nd and self.free_all:
                self.defaults_met[rn] = self.read(st, fn.defaults[i - nd])
            elif i >= nd and rn not in self.free_defaults:
                d = self.read(st, fn.defaults[i - nd])
                t = ite(T.bool_atom(atom("has", rn)), t, d)
            r = self.new_cell(st, t)
            cells[n] = r.cell
            args.append(r)
        kws = {}
        for p in a.kwonlyargs:
            n = p.arg
            t = self.arg_atom(n)
            if n in fn.kwdefaults and self.free_all:
                self.defaults_met[n] = self.read(st, fn.kwdefaults[n])
            elif n in fn.kwdefaults and n not in self.free_defaults:
                t = ite(T.bool_atom(atom("has", n)), t, self.read(st, fn.kwdefaults[n]))
            r = self.new_cell(st, t)
            cells[n] = r.cell
            kws[n] = r
        if a.kwarg:
            kws["**"] = atom("kwargs")
        if a.vararg:
            args.append(("*", atom("varargs")))
        raises = []
        v = self.call_fn(st, fn, args, kws, None, sub=True, raises=raises)
        res = self.read(st, v)
        for e in raises:
            res = ite(e.pc, e.value, res)
        eff = {}
        for n, c in cells.items():
            eff[n] = st.heap.get(c)
        eff[HIDDEN] = st.heap.get(HIDDEN, T.NONE)
        # what is left behind by a call that raises is not compared
        for e in raises:
            eff = {n: v if v is None else ite(e.pc, e.value, v) for n, v in eff.items()}
        return res, eff, raises

    def arg_atom(self, n):
        extra = None
        if n in self.intarrays:
            extra = "intarray"
        elif n in self.ndim:
            extra = ("nd", self.ndim[n])
        t = atom("arg", n, isint=n in self.ints, extra=extra)
        if n in self.ndim and self.ndim[n] == "pair_int":
            pass
        return t

    # ------------------------------------------------------------------ call a package function (inline)
    def call_fn(self, st, fn, args, kws, node, sub=False, raises=None):
        if self.depth > self.max_depth:
            raise Unsupported("inlining depth")
        a = fn.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        star = None
        pos = []
        for x in args:
            if isinstance(x, tuple) and x and x[0] == "*":
                star = x[1]
            else:
                pos.append(x)
        if star is not None:
            # unknown star argument: only supported when it lands in *args
            if len(pos) > len(params) or not a.vararg:
                if len(pos) < len(params):
                    k = 0
                    s = self.read(st, star) if not isinstance(star, Term) else star
                    need = len(params) - len(pos) - (0)
                    # split an unknown tuple over the remaining positional parameters
                    for j in range(need - sum(1 for p in params[len(pos):] if p in kws)):
                        pos.append(T.select(s, num(j)))
                else:
                    raise Unsupported("star call")
        if len(pos) > len(params):
            if not a.vararg:
                raise Unsupported("too many arguments for " + fn.name)
            env[a.vararg.arg] = PTuple(pos[len(params):])
            pos = pos[: len(params)]
        elif a.vararg:
            env[a.vararg.arg] = PTuple(()) if star is None else star
        for n, v in zip(params, pos):
            env[n] = v
        extra = {}
        dstar = None
        for k, v in kws.items():
            if k == "**":
                dstar = v
                continue
            if k in params or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise Unsupported("unexpected keyword %s for %s" % (k, fn.name))
        nd = len(params) - len(fn.defaults)
        kwnames = [x.arg for x in a.kwonlyargs]
        for i, n in enumerate(params):
            if n not in env:
                if i >= nd:
                    d = fn.defaults[i - nd]
                    if dstar is not None:
                        d = self.kwget(st, dstar, n, d)
                    env[n] = d
                elif dstar is not None:
                    env[n] = self.kwget(st, dstar, n, None)
                else:
                    raise Unsupported("missing argument %s of %s" % (n, fn.name))
        for n in kwnames:
            if n not in env:
                d = fn.kwdefaults.get(n)
                if dstar is not None:
                    d = self.kwget(st, dstar, n, d)
                if d is None:
                    raise Unsupported("missing kw argument")
                env[n] = d
        if a.kwarg:
            content = dstar if dstar is not None else atom("dict0")
            content = self.read(st, content)
            for k, v in extra.items():
                content = T.store(content, const(k), self.read(st, v))
            env[a.kwarg.arg] = self.new_cell(st, content)
        self.touched.add(fn.qual)
        saved_env, saved_exits = st.env, self.exits
        outer_pc = st.pc
        fenv = fn.env
        st.env = env
        self.exits = []
        self.depth += 1
        line0 = T.CUR_LINE[0]
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.ev(fn.node.body, st, fn.mod, fenv)
                st.env = saved_env
                ex = self.exits
                if raises is not None:
                    raises.extend(ex)
                return v
            st.pc = T.TRUE
            body = fn.node.body
            end = self.block(body, st.copy(), fn.mod, fenv)
            exits = self.exits
        finally:
            self.exits = saved_exits
            self.depth -= 1
            st.env = saved_env
            st.pc = outer_pc
            T.CUR_LINE[0] = line0
        rets = [e for e in exits if e.kind == "return"]
        rs = [e for e in exits if e.kind == "raise"]
        if end is not None:
            rets.append(Exit(end.pc, "return", None, end.heap, T.NONE))
        # guvectorize: outputs are the trailing parameters written through
        if rets:
            val, heap = rets[-1].value, rets[-1].heap
            for e in reversed(rets[:-1]):
                base = State({}, heap, T.TRUE)
                s1 = State({}, dict(e.heap), T.TRUE)
                # exits are mutually exclusive: e.pc selects
                merged, h2 = self.merge_values(e.pc, e.value, s1, val, base)
                val, heap = merged, h2
            st.heap.clear(); st.heap.update(heap)
        else:
            val = UNDEF
        for e in rs:
            pc = AND(outer_pc, e.pc)
            if raises is not None:
                raises.append(Exit(e.pc, "raise", None, None, e.value, e.line))
            elif self.exits is not None:
                self.exits.append(Exit(pc, "raise", None, None, e.value, e.line))
                st.pc = AND(st.pc, NOT(e.pc))
        return val

    def kwget(self, st, d, name, default):
        t = self.read(st, d)
        key = const(name)
        cur = t
        while cur.op == "store":
            if cur.args[1] is key:
                return cur.args[2]
            cur = cur.args[0]
        if cur.op == "dict0":
            if default is None:
                return T.NONE
            return default
        if cur.op == "kwargs":
            v = self.arg_atom(name)
        else:
            v = T.select(cur, key)
        if default is None or name in self.free_defaults:
            return v
        d = self.read(st, default)
        if d is T.NONE and cur.op == "kwargs":
            return v
        if self.free_all and cur.op == "kwargs":
            self.defaults_met[name] = d
            return v
        return ite(self.haskey(cur, name), v, d)

    def haskey(self, t, name):
        key = const(name)
        while t.op == "store":
            if t.args[1] is key:
                return T.TRUE
            t = t.args[0]
        if t.op == "ite":
            return T.lift1("hask" + str(name), lambda x: self.haskey(x, name), t)
        if t.op == "kwargs":
            return T.bool_atom(atom("has", name))
        if t.op == "dict0":
            return T.FALSE
        return T.bool_atom(atom("haskey", t, key))

    # ------------------------------------------------------------------ merging
    def merge_values(self, c, v1, s1, v2, s2):
        """merge under decision c; returns (value, heap)"""
        heap = {}
        h1, h2 = s1.heap, s2.heap
        for k in h1:
            if k in h2:
                x, y = h1[k], h2[k]
                heap[k] = x if x is y else ite(c, x, y)
            else:
                heap[k] = h1[k]
        for k in h2:
            if k not in heap:
                heap[k] = h2[k]
        sm = State({}, heap, T.TRUE)
        v = self.merge_val(c, v1, s1, v2, s2, sm)
        return v, heap

    def merge_val(self, c, v1, s1, v2, s2, sm):
        if v1 is v2:
            return v1
        if isinstance(v1, Ref) and isinstance(v2, Ref):
            if v1.cell == v2.cell and len(v1.path) == len(v2.path) and all(x is y for x, y in zip(v1.path, v2.path)):
                return v1 if not v1.path else Ref(v1.cell, v1.path, ite(c, self.read(s1, v1), self.read(s2, v2)))
            if not v1.path and not v2.path:
                return self.new_cell(sm, ite(c, s1.heap[v1.cell], s2.heap[v2.cell]))
        if isinstance(v1, PTuple) and isinstance(v2, PTuple) and len(v1.items) == len(v2.items):
            return PTuple([self.merge_val(c, x, s1, y, s2, sm) for x, y in zip(v1.items, v2.items)])
        if v1 is UNDEF:
            return v2
        if v2 is UNDEF:
            return v1
        py = (Fn, Ext, Mod, Bound, RangeV, IterV, Choice)
        if isinstance(v1, py) or isinstance(v2, py):
            if isinstance(v1, Ext) and isinstance(v2, Ext) and v1.name == v2.name:
                return v1
            if isinstance(v1, Mod) and isinstance(v2, Mod) and v1.name == v2.name:
                return v1
            if isinstance(v1, Fn) and isinstance(v2, Fn) and v1.node is v2.node and v1.env is v2.env:
                return v1
            return Choice(c, v1, v2)
        if isinstance(v1, Ref) and not v1.path or isinstance(v2, Ref) and not v2.path:
            return self.new_cell(sm, ite(c, self.read(s1, v1), self.read(s2, v2)))
        return ite(c, self.read(s1, v1), self.read(s2, v2))

    def merge(self, c, s1, s2):
        """merge two fall-through states (None = dead)"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        sm = State({}, {}, OR(s1.pc, s2.pc))
        for k in set(s1.heap) | set(s2.heap):
            if k in s1.heap and k in s2.heap:
                x, y = s1.heap[k], s2.heap[k]
                sm.heap[k] = x if x is y else ite(c, x, y)
            else:
                sm.heap[k] = s1.heap.get(k, s2.heap.get(k))
        for n in list(s1.env) + [k for k in s2.env if k not in s1.env]:
            if n in s1.env and n in s2.env:
                sm.env[n] = self.merge_val(c, s1.env[n], s1, s2.env[n], s2, sm)
            else:
                sm.env[n] = s1.env.get(n, s2.env.get(n))
        return sm

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, mod, fenv):
        for s in stmts:
            if st is None:
                return None
            T.CUR_LINE[0] = ((mod.path if mod else "?"), getattr(s, "lineno", 0))
            st = self.stmt(s, st, mod, fenv)
            if st is not None and st.pc is T.FALSE:
                return None
        return st

    def stmt(self, s, st, mod, fenv):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        return m(s, st, mod, fenv)

    def s_Pass(self, s, st, mod, fenv):
        return st

    s_Global = s_Pass
    s_Nonlocal = s_Pass

    def s_Import(self, s, st, mod, fenv):
        for a in s.names:
            st.env[a.asname or a.name.split(".")[0]] = Mod(a.name if a.asname else a.name.split(".")[0])
        return st

    def s_ImportFrom(self, s, st, mod, fenv):
        base = mod._base(s)
        for a in s.names:
            if base in self.prog.modules:
                r = self.prog.resolve(base, a.name)
                st.env[a.asname or a.name] = self.resolved(st, r, a.name) if r else Ext(base + "." + a.name)
            else:
                st.env[a.asname or a.name] = Ext(base + "." + a.name)
        return st

    def s_Expr(self, s, st, mod, fenv):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st, mod, fenv)
        return st

    def s_FunctionDef(self, s, st, mod, fenv):
        st.env[s.name] = self.make_fn(st, s, mod, (st.env, fenv))
        return st

    def s_Return(self, s, st, mod, fenv):
        v = self.ev(s.value, st, mod, fenv) if s.value is not None else T.NONE
        if st.pc is T.FALSE:
            return None
        self.exits.append(Exit(st.pc, "return", st.env, st.heap, v))
        return None

    def s_Raise(self, s, st, mod, fenv):
        name = "Exception"
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        elif isinstance(e, ast.Attribute):
            name = e.attr
        self.exits.append(Exit(st.pc, "raise", None, None, atom("raise", "error"), T.CUR_LINE[0]))
        return None

    def s_Assert(self, s, st, mod, fenv):
        c = self.cond(s.test, st, mod, fenv)
        self.exits.append(Exit(AND(st.pc, NOT(c)), "raise", None, None, atom("raise", "error"), T.CUR_LINE[0]))
        st.pc = AND(st.pc, c)
        return st

    def s_Break(self, s, st, mod, fenv):
        self.exits.append(Exit(st.pc, "break", st.env, st.heap, None))
        return None

    def s_Continue(self, s, st, mod, fenv):
        self.exits.append(Exit(st.pc, "continue", st.env, st.heap, None))
        return None

    def s_Delete(self, s, st, mod, fenv):
        return st

    def s_With(self, s, st, mod, fenv):
        for it in s.items:
            v = self.ev(it.context_expr, st, mod, fenv)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, mod, fenv)
        return self.block(s.body, st, mod, fenv)

    def s_If(self, s, st, mod, fenv):
        self.branches += 1
        c = self.cond(s.test, st, mod, fenv)
        c2 = T.simplify_under(st.pc, c) if c.op == "ite" else c
        if c2 is UNDEF:
            return None
        if c2 is T.TRUE:
            return self.block(s.body, st, mod, fenv)
        if c2 is T.FALSE:
            return self.block(s.orelse, st, mod, fenv)
        s1, s2 = st.copy(), st.copy()
        s1.pc = AND(st.pc, c)
        s2.pc = AND(st.pc, NOT(c))
        n0 = len(self.exits)
        r1 = self.block(s.body, s1, mod, fenv) if s1.pc is not T.FALSE else None
        r2 = self.block(s.orelse, s2, mod, fenv) if s2.pc is not T.FALSE else None
        if r1 is None and r2 is None:
            return None
        if r1 is not None and r2 is not None and len(self.exits) > n0:
            # an inner path left the block: the local test no longer selects alone, use full conditions
            return self.merge(c, r1, r2)
        return self.merge(c, r1, r2)

    def s_Try(self, s, st, mod, fenv):
        n0 = len(self.exits)
        trace = []
        s1 = st.copy()
        old = getattr(self, "trace", None)
        self.trace = trace
        try:
            r1 = self.block(s.body, s1, mod, fenv)
        finally:
            self.trace = old
        raised = [e for e in self.exits[n0:] if e.kind == "raise"]
        self.exits[n0:] = [e for e in self.exits[n0:] if e.kind != "raise"]
        key = mk_tuple(tuple(sorted({x.h: x for x in trace}.values(), key=T.okey)))
        exc = T.bool_atom(atom("raises", key)) if trace else T.FALSE
        for e in raised:
            exc = OR(exc, e.pc)
        if s.handlers:
            s2 = st.copy()
            s2.pc = AND(st.pc, exc)
            if s.handlers[0].name:
                s2.env[s.handlers[0].name] = atom("exception")
            r2 = self.block(s.handlers[0].body, s2, mod, fenv)
        else:
            r2 = None
        if r1 is not None:
            r1.pc = AND(r1.pc, NOT(exc))
            r1 = self.block(s.orelse, r1, mod, fenv)
        r = self.merge(NOT(exc), r1, r2)
        if s.finalbody and r is not None:
            r = self.block(s.finalbody, r, mod, fenv)
        return r

    def s_Assign(self, s, st, mod, fenv):
        v = self.ev(s.value, st, mod, fenv)
        for t in s.targets:
            self.assign(t, v, st, mod, fenv)
        return st

    def s_AnnAssign(self, s, st, mod, fenv):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, mod, fenv), st, mod, fenv)
        return st

    def s_AugAssign(self, s, st, mod, fenv):
        t = s.target
        rhs = self.ev(s.value, st, mod, fenv)
        if isinstance(t, ast.Name):
            old = self.lookup(st, t.id, mod, fenv)
            new = self.binop(type(s.op).__name__, self.read(st, old), self.read(st, rhs))
            if isinstance(old, Ref) and not old.path and self.is_array_term(st.heap[old.cell]):
                st.heap[old.cell] = new
            else:
                st.env[t.id] = new
            return st
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, mod, fenv)
            idx = self.index(t.slice, st, mod, fenv)
            cur = self.subscript(base, idx, st)
            new = self.binop(type(s.op).__name__, self.read(st, cur), self.read(st, rhs))
            self.store_sub(base, idx, new, st, t, mod, fenv)
            return st
        if isinstance(t, ast.Attribute):
            return st
        raise Unsupported("augassign")

    def is_array_term(self, t):
        return t.op in ("store", "full", "arange") or (t.op == "call" and t.args[0].op == "glob") or t.op.startswith("m:") \
            or (t.op == "arg" and (t.extra == "intarray" or isinstance(t.extra, tuple))) or t.op == "exit" and T._loop_shape(t) is not None \
            or t.op in ("list",)

    def assign(self, t, v, st, mod, fenv):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), st, t.elts)
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, mod, fenv)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, mod, fenv)
            idx = self.index(t.slice, st, mod, fenv)
            self.store_sub(base, idx, self.read(st, v), st, t, mod, fenv)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, mod, fenv)
            if isinstance(base, Ref):
                st.heap[base.cell] = self.set_attr(self.read(st, base), t.attr, self.read(st, v))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, mod, fenv)
        else:
            raise Unsupported("assign target")

    def attr_of(self, t, name):
        if t.op == "setattr":
            return t.args[2] if t.args[1] == name else self.attr_of(t.args[0], name)
        return atom("attr", t, name)

    def set_attr(self, t, name, v):
        """attributes set one after the other, in one order"""
        if t.op == "setattr" and t.args[1] == name:
            return self.set_attr(t.args[0], name, v)
        if t.op == "setattr" and t.args[1] > name:
            return atom("setattr", self.set_attr(t.args[0], name, v), t.args[1], t.args[2])
        return atom("setattr", t, name, v)

    def unpack(self, v, n, st, elts=None):
        if isinstance(v, PTuple):
            if elts is not None and any(isinstance(e, ast.Starred) for e in elts):
                k = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)][0]
                tail = n - k - 1
                its = v.items
                return list(its[:k]) + [PTuple(its[k:len(its) - tail])] + list(its[len(its) - tail:])
            if len(v.items) != n:
                raise Unsupported("unpack")
            return v.items
        if isinstance(v, Choice):
            a, b = self.unpack(v.a, n, st), self.unpack(v.b, n, st)
            return [self.merge_val(v.c, x, st, y, st, st) for x, y in zip(a, b)]
        if isinstance(v, Ref):
            if not v.path and not any(isinstance(e, ast.Starred) for e in elts or ()):
                T.UNPACKED[self.read(st, v).h] = n
            return [self.subscript(v, num(i), st) for i in range(n)]
        t = self.read(st, v)
        if t.op == "arg" and not any(isinstance(e, ast.Starred) for e in elts or ()):
            T.UNPACKED[t.h] = n
        return [T.select(t, num(i)) if t.op != "ite" else T.lift1("unp%d" % i, lambda x, i=i: T.select(x, num(i)), t) for i in range(n)]

    def store_sub(self, base, idx, v, st, node, mod, fenv):
        if isinstance(base, Ref):
            path = base.path + ((idx,) if idx.op != "tuple" else tuple(idx.args))
            if base.path:
                comp = T._compose(list(base.path), T._path(idx))
                if comp is None:
                    st.heap[base.cell] = atom("stview", st.heap[base.cell], mk_tuple(base.path), idx, v)
                    return
                path = tuple(comp)
            st.heap[base.cell] = T.store(st.heap[base.cell], path[0] if len(path) == 1 else mk_tuple(tuple(path)), narrowed(st.heap[base.cell], v))
            return
        if isinstance(base, Choice):
            s1, s2 = st.copy(), st.copy()
            self.store_sub(base.a, idx, v, s1, ast.Subscript(value=ast.Constant(None)), mod, fenv)
            self.store_sub(base.b, idx, v, s2, ast.Subscript(value=ast.Constant(None)), mod, fenv)
            sm = self.merge_values(base.c, T.NONE, s1, T.NONE, s2)[1]
            st.heap.clear(); st.heap.update(sm)
            return
        # a pure term held by a name: rebind the name to the updated value
        if isinstance(node.value, ast.Name):
            t = self.read(st, base)
            if HIDDEN in st.heap and viewed(t):
                st.heap[HIDDEN] = atom("estore", st.heap[HIDDEN], t, idx, v)
            r = self.new_cell(st, T.store(t, idx, v))
            st.env[node.value.id] = r
            return
        # nested subscript on a term, e.g. out[i][k] = v with `out` a term
        if isinstance(node.value, ast.Subscript):
            inner = self.ev(node.value.value, st, mod, fenv)
            iidx = self.index(node.value.slice, st, mod, fenv)
            p = mk_tuple(tuple(T._path(iidx) + T._path(idx)))
            self.store_sub(inner, p, v, st, node.value, mod, fenv)
            return
        # into an object no variable names: kept in the sequence of such stores
        if HIDDEN in st.heap:
            st.heap[HIDDEN] = atom("estore", st.heap[HIDDEN], self.read(st, base), idx, v)

    # ------------------------------------------------------------------ loops
    def assigned(self, stmts):
        out = set()
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                elif isinstance(n, ast.FunctionDef):
                    out.add(n.name)
                elif isinstance(n, (ast.Subscript,)) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                    out.add("[]" + n.value.id)
        return out

    def s_For(self, s, st, mod, fenv):
        it = self.ev(s.iter, st, mod, fenv)
        seq = self.sequence(it, st)
        if seq[0] == "known" and len(seq[1]) <= 16:
            return self.unrolled(s, seq[1], st, mod, fenv)
        if seq[0] == "known":
            t = mk_tuple(tuple(self.read(st, x) for x in seq[1]))
            seq = ("idx", T.length(t), lambda k, st_: T.select(t, k))
        n, elem = seq[1], seq[2]
        if isinstance(n, Term) and n.op == "num" and 0 <= T.numval(n) <= 6:
            items = [elem(num(i), st) for i in range(int(T.numval(n)))]
            return self.unrolled(s, items, st, mod, fenv)

        def bind(st_, k):
            self.assign(s.target, elem(k, st_), st_, mod, fenv)
        return self.loop(s, st, mod, fenv, count=n, bind=bind)

    def s_While(self, s, st, mod, fenv):
        if s.orelse:
            return self.loop(s, st, mod, fenv, test=s.test)

        def leaves(x):
            return isinstance(x, ast.If) and not x.orelse and len(x.body) == 1 and isinstance(x.body[0], ast.Break)

        def jumps(x, kinds):
            if isinstance(x, kinds):
                return True
            if isinstance(x, (ast.For, ast.While)):
                kinds = tuple(k for k in kinds if k in (ast.Return, ast.Raise))
            return any(jumps(c, kinds) for c in ast.iter_child_nodes(x) if not isinstance(c, (ast.FunctionDef, ast.Lambda)))
        # while c: if x: break; B  ==  while c and not x: B
        test, body = s.test, list(s.body)
        while body and isinstance(body[0], ast.Pass):
            body.pop(0)
        conds = []
        while body and leaves(body[0]):
            conds.append(ast.copy_location(ast.UnaryOp(ast.Not(), body[0].test), body[0]))
            body.pop(0)
        if isinstance(test, ast.Constant) and test.value and not conds:
            # while True: A; if x: break; B  ==  A; while not x: B; A     (and likewise for a return that is the only way out)
            for j, x in enumerate(body):
                A, B = body[:j], body[j + 1:]
                tail = None
                if isinstance(x, ast.If) and not x.orelse and isinstance(x.body[-1], ast.Return) and not any(jumps(y, (ast.Break, ast.Return)) for y in A + B + x.body[:-1]) \
                        and not any(jumps(y, (ast.Continue, ast.Break)) for y in x.body[:-1]):
                    tail = x.body
                if leaves(x) or tail:
                    if any(jumps(y, (ast.Break, ast.Continue, ast.Return, ast.Raise)) for y in A) or any(jumps(y, (ast.Continue,)) for y in B):
                        break
                    st = self.block(A, st, mod, fenv)
                    if st is None:
                        return None
                    w = ast.copy_location(ast.While(ast.copy_location(ast.UnaryOp(ast.Not(), x.test), x), (B + A) or [ast.copy_location(ast.Pass(), s)], []), s)
                    st = self.s_While(w, st, mod, fenv)
                    return self.block(tail, st, mod, fenv) if tail and st is not None else st
        if conds or len(body) < len(s.body):
            if not (isinstance(test, ast.Constant) and test.value):
                conds.insert(0, test)
            if conds:
                test = conds[0] if len(conds) == 1 else ast.copy_location(ast.BoolOp(ast.And(), conds), s)
            s = ast.copy_location(ast.While(test, body or [ast.copy_location(ast.Pass(), s)], []), s)
        return self.loop(s, st, mod, fenv, test=s.test)

    def sequence(self, it, st):
        """-> ("known", [values]) | ("idx", length term, elem(k, st))"""
        if isinstance(it, PTuple):
            return ("known", list(it.items))
        if isinstance(it, RangeV):
            lo, hi, step = it.lo, it.hi, it.step
            if all(T.isnum(x) for x in (lo, hi, step)):
                r = range(int(T.numval(lo)), int(T.numval(hi)), int(T.numval(step)))
                if len(r) <= 8:
                    return ("known", [num(i) for i in r])
            if T.isnum(step) and T.numval(step) == 1:
                return ("idx", T.sub(hi, lo), lambda k, st_: T.add(lo, k))
            if T.isnum(step) and T.numval(step) == -1:
                return ("idx", T.sub(lo, hi), lambda k, st_: T.sub(lo, k))
            n = T.floordiv(T.add(T.sub(hi, lo), T.sub(step, num(1))), step)
            return ("idx", n, lambda k, st_: T.add(lo, T.mul(step, k)))
        if isinstance(it, IterV):
            if it.kind == "enumerate":
                q = self.sequence(it.parts[0], st)
                off = it.extra
                if q[0] == "known":
                    return ("known", [PTuple((T.add(off, num(i)), x)) for i, x in enumerate(q[1])])
                return ("idx", q[1], lambda k, st_: PTuple((T.add(off, k), q[2](k, st_))))
            if it.kind == "zip":
                qs = [self.sequence(p, st) for p in it.parts]
                if all(q[0] == "known" for q in qs):
                    return ("known", [PTuple(x) for x in zip(*[q[1] for q in qs])])
                n = [q[1] for q in qs if q[0] == "idx"][0]
                def el(k, st_):
                    return PTuple([q[2](k, st_) if q[0] == "idx" else T.select(mk_tuple(tuple(self.read(st_, x) for x in q[1])), k) for q in qs])
                return ("idx", n, el)
            if it.kind == "reversed":
                q = self.sequence(it.parts[0], st)
                if q[0] == "known":
                    return ("known", q[1][::-1])
                return ("idx", q[1], lambda k, st_: q[2](T.sub(T.sub(q[1], num(1)), k), st_))
        if isinstance(it, Choice):
            raise Unsupported("iterate choice")
        t = self.read(st, it)
        if t.op in ("tuple", "list"):
            return ("known", list(t.args))
        if t.op == "ite":
            pass
        if t.op == "items" and self.known_keys(t.args[0]) is not None:
            ks = self.known_keys(t.args[0])
            return ("known", [PTuple((k, T.select(t.args[0], k))) for k in ks])
        if t.op in ("keys", "store", "dict0") and t.op != "store" and self.known_keys(t.args[0] if t.op == "keys" else t) is not None:
            return ("known", list(self.known_keys(t.args[0] if t.op == "keys" else t)))
        ref = it if isinstance(it, Ref) else None

        def el(k, st_):
            if ref is not None and not ref.path:
                return self.subscript(ref, k, st_)
            return T.select(t, k)
        return ("idx", T.length(t), el)

    def known_keys(self, t):
        ks = []
        while t.op == "store":
            if t.args[1].op != "const":
                return None
            ks.append(t.args[1])
            t = t.args[0]
        if t.op != "dict0":
            return None
        return sorted(ks, key=lambda k: str(k.args[0]))

    def unrolled(self, s, items, st, mod, fenv):
        outer = self.exits
        breaks = []
        base_pc = st.pc
        cur = st
        for x in items:
            if cur is None:
                break
            self.assign(s.target, x, cur, mod, fenv)
            self.exits = []
            end = self.block(s.body, cur, mod, fenv)
            ex = self.exits
            for e in ex:
                if e.kind == "continue":
                    end = self.merge(e.pc, State(e.env, e.heap, e.pc), end)
                elif e.kind == "break":
                    breaks.append(State(e.env, e.heap, e.pc))
                else:
                    outer.append(e)
            cur = end
        self.exits = outer
        if s.orelse and cur is not None:
            cur = self.block(s.orelse, cur, mod, fenv)
        for b in reversed(breaks):
            cur = self.merge(b.pc, b, cur)
        return cur

    def loop(self, s, st, mod, fenv, count=None, bind=None, test=None):
        self.loops += 1
        self.loop_sites.add((s.lineno, s.col_offset, mod.name if mod is not None else ""))
        line = T.CUR_LINE[0]
        names = self.assigned([s] if count is not None else s.body)
        sub_names = {n[2:] for n in names if n.startswith("[]")}
        names = sorted(n for n in names if not n.startswith("[]"))
        cells = []
        notint = set()
        # a name holding a pure term that is stored through must become a cell first
        for n in sub_names:
            v = st.env.get(n)
            if isinstance(v, Term):
                st.env[n] = self.new_cell(st, v)
        known_cells = set(st.heap)
        outer_exits = self.exits
        split = None
        for attempt in range(14):
            T.CUR_LINE[0] = line
            phis = []      # (phi, init, getter)
            st1 = State(dict(st.env), dict(st.heap), T.TRUE)
            getters = []

            def mkphi(tag, init):
                isint = init.isint and tag not in notint
                ex = init if self.is_array_term(init) or init.op == "arg" and init.extra else None
                e2 = init.extra if init.op == "arg" else (init if ex is not None else None)
                if init.op == "full" and T._int_elems(init):
                    e2 = "intarray"
                elif init.op != "arg" and T._int_elems(init):
                    e2 = "intarray"
                ph = T.new_phi(tag, isint, e2 if not isinstance(e2, T.Loop) else None)
                return ph

            def reg(tag, init, getter):
                ph = mkphi(tag, init)
                phis.append([ph, init, getter, tag])
                return ph

            for n in names:
                v = st.env.get(n)
                if v is None:
                    continue
                if isinstance(v, Ref) and not v.path:
                    ph = reg("n:" + n, self.read(st, v), lambda S, n=n: S.env[n])
                    st1.env[n] = self.new_cell(st1, ph)
                elif isinstance(v, (Term, Ref)):
                    ph = reg("n:" + n, self.read(st, v), lambda S, n=n: S.env[n])
                    st1.env[n] = ph
                elif isinstance(v, PTuple):
                    items = []
                    for k, x in enumerate(v.items):
                        if isinstance(x, (Term, Ref)):
                            def g(S, n=n, k=k):
                                w = S.env[n]
                                if isinstance(w, PTuple) and k < len(w.items):
                                    return w.items[k]
                                return T.select(self.read(S, w), num(k))
                            items.append(reg("n:%s.%d" % (n, k), self.read(st, x), g))
                        else:
                            items.append(x)
                    st1.env[n] = PTuple(items)
                else:
                    st1.env[n] = v
            for c in cells:
                ph = reg("c:%d" % c, st.heap[c], lambda S, c=c: S.heap[c])
                st1.heap[c] = ph
            header_heap = dict(st1.heap)
            if count is not None:
                kphi = T.new_phi("$i", True, "kappa")
                G = T.cmp_gt(count, kphi)
                Gn = lambda S: T.cmp_gt(count, T.add(kphi, num(1)))
                G0 = T.cmp_gt(count, num(0))
            else:
                kphi = None
                self.exits = []
                G = self.cond(test, st1, mod, fenv)
                Gn = lambda S: self.cond(test, S, mod, fenv)
                G0 = self.cond(test, State(dict(st.env), dict(st.heap), T.TRUE), mod, fenv)
            self.exits = []
            Q = T.TRUE
            if split is not None:
                # while k < n and c: B  ==  while k < n: if not c: break; B
                b = self.counter_test(G, [p for p in phis if p[3] == split], phis)
                if b is not None:
                    a, v = b
                    Q = truth(T.assume(G, a, v))
                    G = T.bool_atom(a) if v else NOT(T.bool_atom(a))
                    G0 = truth(T.subst(G, {ph.h: i for ph, i, _, _ in phis}))
                    Gn = lambda S, G=G: truth(T.subst(G, {ph.h: self.read(S, g(S)) for ph, _, g, _ in phis if ph.h in G.free}))
            st1.pc = G
            if G is T.FALSE:
                self.exits = outer_exits
                return self.block(s.orelse, st, mod, fenv) if s.orelse else st
            if Q is not T.TRUE:
                self.exits.append(Exit(AND(G, NOT(Q)), "break", dict(st1.env), dict(st1.heap), None))
                st1.pc = AND(G, Q)
            if bind is not None:
                bind(st1, kphi)
            fin = self.block(s.body, st1, mod, fenv)
            ex = self.exits
            self.exits = outer_exits
            conts = [e for e in ex if e.kind == "continue"]
            brks = [e for e in ex if e.kind == "break"]
            rets = [e for e in ex if e.kind in ("return", "raise")]
            for e in conts:
                fin = self.merge(e.pc, State(e.env, e.heap, e.pc), fin)
            # modified outer cells
            mod_cells = set()
            allst = ([fin] if fin is not None else []) + [e for e in brks] + [e for e in rets if e.heap is not None]
            for S in allst:
                for c in known_cells:
                    if S.heap.get(c) is not header_heap.get(c):
                        mod_cells.add(c)
            new = [c for c in sorted(mod_cells) if c not in cells]
            redo = False
            if new:
                cells.extend(new)
                redo = True
            nexts = []
            if not redo:
                for ph, init, g, tag in phis:
                    if fin is None:
                        nx = UNDEF
                    else:
                        nx = self.read(fin, g(fin))
                    if ph.isint and not nx.isint and nx is not UNDEF and not self.leafint(nx):
                        notint.add(tag)
                        redo = True
                    nexts.append(nx)
            if redo:
                continue
            if test is not None and split is None and fin is not None and not s.orelse:
                cnt = [p for p, nx in zip(phis, nexts) if p[0].isint and (T.isnum(T.sub(nx, p[0])) if nx.op == "arith" else False) and T.numval(T.sub(nx, p[0])) in (1, -1)]
                b = cnt and self.counter_test(G, cnt, phis, {p[0].h: T.numval(T.sub(nx, p[0])) for p, nx in zip(phis, nexts) if p in cnt})
                if b and T.assume(G, b[0], b[1]) is not T.TRUE:
                    split = next(p[3] for p in cnt if p[0].h in b[0].free)
                    continue
            break
        else:
            raise Unsupported("loop did not stabilise")
        if fin is None:
            cont = T.FALSE
        else:
            save = self.exits
            self.exits = []
            g2 = Gn(fin)
            self.exits = save
            cont = AND(fin.pc, g2)
        cont = T.simplify_under(G, cont) if cont.op == "ite" and G.op == "ite" else cont
        if cont is UNDEF:
            cont = T.FALSE
        states = [(ph, init, T.simplify_under(G, nx) if nx is not UNDEF else nx) for (ph, init, _, _), nx in zip(phis, nexts)]
        if kphi is not None:
            states.append((kphi, num(0), T.add(kphi, num(1))))
        lits = T.literals(AND(st.pc, G0))
        if lits:
            mu = {}
            U = lambda x: T.under(x, lits, mu)
            states = [(ph, U(i), U(nx)) for ph, i, nx in states]
            cont = truth(U(cont))
        else:
            U = lambda x: x
        if cont is T.FALSE:
            # at most one iteration: substitute inits
            m = {ph.h: i for ph, i, _ in states}
            memo = {}
            mkx = lambda e: T.subst(e, m, memo)
        else:
            ncont = NOT(cont)
            def mkx(e):
                e = U(e)
                e = T.simplify_under(G, e)
                return T.mk_exit(states, cont, T.TRUE, e)
        # ---- state after the loop
        T.CUR_LINE[0] = line
        last = fin
        for b in reversed(brks):
            last = self.merge(b.pc, State(b.env, b.heap, b.pc), last)
        post = State(dict(st.env), dict(st.heap), st.pc)
        if last is None:
            after = None
        else:
            after = post
            sel = {}
            for c in cells:
                x = last.heap[c]
                post.heap[c] = ite(G0, mkx(x), st.heap[c])
            for n in names:
                if n not in last.env:
                    continue
                v = last.env[n]
                v0 = st.env.get(n, UNDEF)
                post.env[n] = self.post_val(G0, v, last, v0, st, mkx, post)
            # fresh cells referenced from names are materialised by post_val
        # ---- returns / raises from inside
        rcond = T.FALSE
        for e in self.join_returns(rets):
            pcx = AND(G0, truth(mkx(mk_bval(e.pc))))
            full = AND(st.pc, pcx)
            if e.kind == "raise":
                self.exits.append(Exit(full, "raise", None, None, e.value, e.line))
            else:
                heap = dict(st.heap)
                for c in cells:
                    heap[c] = ite(G0, mkx(e.heap[c]), st.heap[c])
                rs = State({}, heap, full)
                val = self.post_val(T.TRUE, e.value, State(e.env, e.heap, e.pc), UNDEF, st, mkx, rs)
                self.exits.append(Exit(full, "return", {}, rs.heap, val))
            rcond = OR(rcond, pcx)
        if after is not None:
            after.pc = AND(st.pc, NOT(rcond))
            if G0 is T.TRUE and fin is None and not brks:
                after = None
            elif test is not None and isinstance(test, ast.Constant) and test.value and not brks:
                after = None       # while True left only by return/raise
            elif s.orelse:
                after = self.block(s.orelse, after, mod, fenv)
        else:
            if G0 is not T.TRUE and not (test is not None and isinstance(test, ast.Constant)):
                after = State(dict(st.env), dict(st.heap), AND(st.pc, NOT(G0)))
        return after

    def counter_test(self, G, cnt, phis, step=None):
        """a bound on a counter that the loop test G needs -> (atom, value)"""
        allphi = frozenset(p[0].h for p in phis)
        for p in cnt:
            k = p[0]
            seen, stack = set(), [G]
            while stack:
                x = stack.pop()
                if x.op != "ite" or x.h in seen:
                    continue
                seen.add(x.h)
                a = x.args[0]
                stack += [x.args[2], x.args[1]]
                if a.op != "ige" or (a.args[0].free & allphi) != frozenset([k.h]):
                    continue
                af = T.affine_in(a.args[0], k)
                if af is None:
                    continue
                for v in (True, False):
                    # towards the bound: the form decreases where it must stay above, grows where it must stay below
                    if T.assume(G, a, not v) is T.FALSE and (step is None or af[1] * step[k.h] == (-1 if v else 1)):
                        return a, v
        return None

    def join_returns(self, rets):
        """the returns inside a loop as one: which of them comes first in the source does not matter"""
        out = [e for e in rets if e.kind == "raise"]
        rs = [e for e in rets if e.kind == "return"]
        if len(rs) < 2:
            return rets
        absent = atom("absent")

        def blank(v):
            return PTuple([blank(x) for x in v.items]) if isinstance(v, PTuple) else absent
        if all(isinstance(e.value, (Term, Ref, PTuple)) for e in rs):
            val = blank(rs[0].value)
            heap = {c: x if all(e.heap.get(c) is x for e in rs) else absent for c, x in rs[0].heap.items()}
        else:
            return rets
        pc = T.FALSE
        for e in reversed(rs):
            val, heap = self.merge_values(e.pc, e.value, State({}, dict(e.heap), T.TRUE), val, State({}, heap, T.TRUE))
            pc = OR(pc, e.pc)
        out.append(Exit(pc, "return", {}, heap, val))
        return out

    def leafint(self, t):
        if t.op == "ite":
            return self.leafint(t.args[1]) and self.leafint(t.args[2])
        return t.isint or t is UNDEF

    def post_val(self, G0, v, S, v0, st, mkx, post):
        if isinstance(v, PTuple):
            v0i = v0.items if isinstance(v0, PTuple) and len(v0.items) == len(v.items) else [UNDEF] * len(v.items)
            return PTuple([self.post_val(G0, x, S, y, st, mkx, post) for x, y in zip(v.items, v0i)])
        if isinstance(v, (Fn, Ext, Mod, Bound, RangeV, IterV, Choice)):
            return v
        if isinstance(v, Ref) and not v.path and v.cell in post.heap:
            if isinstance(v0, Ref) and v0.cell == v.cell or v0 is UNDEF:
                return v
        t = self.read(S, v)
        x = mkx(t)
        i0 = self.read(st, v0) if v0 is not None else UNDEF
        r = ite(G0, x, i0)
        if isinstance(v, Ref) and not v.path:
            return self.new_cell(post, r)
        return r

    # ------------------------------------------------------------------ conditions
    def cond(self, e, st, mod, fenv):
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            r = self.cond(e.values[0], st, mod, fenv)
            for v in e.values[1:]:
                if (isand and r is T.FALSE) or (not isand and r is T.TRUE):
                    return r
                c = self.cond(v, st, mod, fenv)
                r = AND(r, c) if isand else OR(r, c)
            return r
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return NOT(self.cond(e.operand, st, mod, fenv))
        v = self.ev(e, st, mod, fenv)
        return self.truth_of(v, st)

    def truth_of(self, v, st):
        if isinstance(v, PTuple):
            return T.TRUE if v.items else T.FALSE
        if isinstance(v, (Fn, Mod, Bound)):
            return T.TRUE
        if isinstance(v, Choice):
            return ite(v.c, self.truth_of(v.a, st), self.truth_of(v.b, st))
        return truth(self.read(st, v))

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, mod, fenv):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, st, mod, fenv)

    def tm(self, e, st, mod, fenv):
        return self.read(st, self.ev(e, st, mod, fenv))

    def e_Constant(self, e, st, mod, fenv):
        return const(e.value)

    def e_Name(self, e, st, mod, fenv):
        if e.id in self.consts:
            return self.consts[e.id]
        return self.lookup(st, e.id, mod, fenv)

    def e_JoinedStr(self, e, st, mod, fenv):
        return atom("fstr")

    def e_Tuple(self, e, st, mod, fenv):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, mod, fenv)
                if isinstance(v, PTuple):
                    items.extend(v.items)
                    continue
                t = self.read(st, v)
                if t.op in ("tuple", "list"):
                    items.extend(t.args)
                else:
                    items.append(atom("starred", t))
            else:
                items.append(self.ev(x, st, mod, fenv))
        return PTuple(items)

    def e_List(self, e, st, mod, fenv):
        p = self.e_Tuple(e, st, mod, fenv)
        return self.new_cell(st, mk_list(tuple(self.read(st, x) for x in p.items)))

    def e_Set(self, e, st, mod, fenv):
        return self.e_Tuple(e, st, mod, fenv)

    def e_Dict(self, e, st, mod, fenv):
        t = atom("dict0")
        for k, v in zip(e.keys, e.values):
            vv = self.tm(v, st, mod, fenv)
            if k is None:
                t = atom("dictmerge", t, vv) if t.op != "dict0" else vv
                continue
            t = T.store(t, self.tm(k, st, mod, fenv), vv)
        return self.new_cell(st, t)

    def e_Lambda(self, e, st, mod, fenv):
        return self.make_fn(st, e, mod, (dict(st.env), fenv))

    def e_IfExp(self, e, st, mod, fenv):
        c = self.cond(e.test, st, mod, fenv)
        if c is T.TRUE:
            return self.ev(e.body, st, mod, fenv)
        if c is T.FALSE:
            return self.ev(e.orelse, st, mod, fenv)
        a = self.ev(e.body, st, mod, fenv)
        b = self.ev(e.orelse, st, mod, fenv)
        return self.merge_val(c, a, st, b, st, st)

    def e_NamedExpr(self, e, st, mod, fenv):
        v = self.ev(e.value, st, mod, fenv)
        st.env[e.target.id] = v
        return v

    def e_Starred(self, e, st, mod, fenv):
        return self.ev(e.value, st, mod, fenv)

    def e_BoolOp(self, e, st, mod, fenv):
        vals = []
        isand = isinstance(e.op, ast.And)
        for x in e.values:
            vals.append(self.ev(x, st, mod, fenv))
        r = vals[-1]
        for v in reversed(vals[:-1]):
            c = self.truth_of(v, st)
            tv = self.read(st, v) if not isinstance(v, (Fn, Ext, Mod)) else v
            if isinstance(tv, Term) and tv.op in ("bval", "bool"):
                rr = self.truth_of(r, st)
                r = mk_bval(AND(c, rr) if isand else OR(c, rr))
            else:
                r = self.merge_val(c, r, st, v, st, st) if isand else self.merge_val(c, v, st, r, st, st)
        return r

    def e_UnaryOp(self, e, st, mod, fenv):
        if isinstance(e.op, ast.Not):
            return mk_bval(NOT(self.cond(e.operand, st, mod, fenv)))
        v = self.tm(e.operand, st, mod, fenv)
        if isinstance(e.op, ast.USub):
            return T.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.invert(v)
        raise Unsupported("unary")

    def invert(self, v):
        if v.op in ("bval", "bool"):
            return mk_bval(NOT(truth(v)))
        return mk_bval(NOT(T.bool_atom(v))) if v.op != "ite" else T.lift1("inv~", self.invert, v)

    def e_BinOp(self, e, st, mod, fenv):
        a = self.ev(e.left, st, mod, fenv)
        b = self.ev(e.right, st, mod, fenv)
        if isinstance(a, PTuple) and isinstance(b, PTuple) and isinstance(e.op, ast.Add):
            return PTuple(a.items + b.items)
        if isinstance(a, PTuple) and isinstance(e.op, ast.Mult):
            t = self.read(st, b)
            if T.isnum(t):
                return PTuple(a.items * int(T.numval(t)))
        ta, tb = self.read(st, a), self.read(st, b)
        if ta.op == "list" and isinstance(e.op, ast.Mult) and T.isnum(tb):
            return self.new_cell(st, mk_list(ta.args * int(T.numval(tb))))
        if ta.op == "list" and tb.op == "list" and isinstance(e.op, ast.Add):
            return self.new_cell(st, mk_list(ta.args + tb.args))
        return self.binop(type(e.op).__name__, ta, tb)

    def binop(self, op, a, b):
        if op == "Add" and (a.op == "const" or b.op == "const" or a.op == "strcat" or b.op == "strcat"):
            def sa(x, y):
                if x.op == "const" and y.op == "const" and isinstance(x.args[0], str) and isinstance(y.args[0], str):
                    return const(x.args[0] + y.args[0])
                return atom("strcat", x, y)
            return T.lift2("strcat", sa, a, b)
        if op == "Add" and (self.strish(a) or self.strish(b)):
            def sa(x, y):
                if x.op == "const" and y.op == "const":
                    return const(str(x.args[0]) + str(y.args[0]))
                return atom("strcat", x, y)
            return T.lift2("strcat", sa, a, b)
        if op == "Add" and self.tupish(a) and self.tupish(b):
            def cat(*p):
                out = []
                for t in p:
                    out += list(t.args) if t.op == "tuple" else [atom("starred", t)]
                return mk_tuple(tuple(out))
            return T.lift2("tupcat", cat, a, b)
        if op == "Add":
            return T.add(a, b)
        if op == "Sub":
            return T.sub(a, b)
        if op == "Mult":
            return T.mul(a, b)
        if op == "Div":
            return T.div(a, b)
        if op == "Pow":
            return T.power(a, b)
        if op == "FloorDiv":
            return T.floordiv(a, b)
        if op == "Mod":
            if a.op in ("const", "fstr"):
                return atom("fstr")
            return T.mod(a, b)
        if op in ("BitAnd", "BitOr"):
            ca, cb = self.boolish(a), self.boolish(b)
            return mk_bval(AND(ca, cb) if op == "BitAnd" else OR(ca, cb))
        if op == "BitXor":
            ca, cb = self.boolish(a), self.boolish(b)
            return mk_bval(ite(ca, NOT(cb), cb))
        return atom("bin" + op, a, b)

    def tupish(self, t):
        """a tuple: written out, a shape, or a piece of one"""
        if t.op == "ite":
            return self.tupish(t.args[1]) and self.tupish(t.args[2])
        return t.op in ("tuple", "shape") or t.op == "sel" and t.args[0].op in ("tuple", "shape") and t.args[1].op == "slice"

    def strish(self, t):
        if t.op == "ite":
            return self.strish(t.args[1])
        return t.op == "const" and isinstance(t.args[0], str)

    def boolish(self, v):
        if v.op in ("bval", "bool"):
            return truth(v)
        return truth(v) if v.op == "ite" else T.bool_atom(v)

    def e_Compare(self, e, st, mod, fenv):
        left = self.ev(e.left, st, mod, fenv)
        r = T.TRUE
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, st, mod, fenv)
            r = AND(r, self.compare(type(op).__name__, left, right, st))
            left = right
        return mk_bval(r)

    def compare(self, op, a, b, st):
        if op in ("In", "NotIn"):
            r = self.contains(a, b, st)
            return r if op == "In" else NOT(r)
        if isinstance(a, Choice):
            return ite(a.c, self.compare(op, a.a, b, st), self.compare(op, a.b, b, st))
        if isinstance(a, Ext) and isinstance(b, Ext):
            r = T.TRUE if a.name == b.name else T.FALSE
            return r if op in ("Is", "Eq") else NOT(r)
        ta, tb = self.read(st, a), self.read(st, b)
        if op in ("Is", "IsNot"):
            r = T.cmp_is(ta, tb)
            return r if op == "Is" else NOT(r)
        return self.cmpop(op, ta, tb)

    def cmpop(self, op, ta, tb):
        if op in ("Eq", "NotEq"):
            r = T.cmp_is(ta, tb) if (ta is T.NONE or tb is T.NONE) else T.cmp_eq(ta, tb)
            return r if op == "Eq" else NOT(r)
        if op == "Gt":
            return T.cmp_gt(ta, tb)
        if op == "GtE":
            return T.cmp_ge(ta, tb)
        if op == "Lt":
            return T.cmp_gt(tb, ta)
        if op == "LtE":
            return T.cmp_ge(tb, ta)
        raise Unsupported("compare " + op)

    def contains(self, a, b, st):
        ta = self.read(st, a)
        if isinstance(b, PTuple):
            r = T.FALSE
            for x in b.items:
                r = OR(r, T.cmp_eq(ta, self.read(st, x)))
            return r
        tb = self.read(st, b)
        if tb.op in ("tuple", "list"):
            r = T.FALSE
            for x in tb.args:
                r = OR(r, T.cmp_eq(ta, x))
            return r
        if ta.op == "const" and isinstance(ta.args[0], str):
            return self.haskey(tb, ta.args[0])
        if tb.op in ("store", "dict0") and self.known_keys(tb) is not None:
            r = T.FALSE
            for x in self.known_keys(tb):
                r = OR(r, T.cmp_eq(ta, x))
            return r
        return T.bool_atom(atom("in", ta, tb))

    # subscripts
    def index(self, s, st, mod, fenv):
        if isinstance(s, ast.Tuple):
            its = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    v = self.ev(x.value, st, mod, fenv)
                    if isinstance(v, PTuple):
                        its.extend(self.read(st, y) for y in v.items)
                        continue
                its.append(self.index(x, st, mod, fenv))
            return mk_tuple(tuple(its)) if len(its) != 1 else its[0]
        if isinstance(s, ast.Slice):
            lo = self.tm(s.lower, st, mod, fenv) if s.lower is not None else None
            hi = self.tm(s.upper, st, mod, fenv) if s.upper is not None else None
            sp = self.tm(s.step, st, mod, fenv) if s.step is not None else None
            parts = [x if x is not None else T.NONE for x in (lo, hi, sp)]
            if any(x.op == "ite" for x in parts):
                return T.lift("slice", lambda a, b, c: T.mk_slice(a, b, c), parts)
            return T.mk_slice(*parts)
        return self.tm(s, st, mod, fenv)

    def e_Slice(self, e, st, mod, fenv):
        return self.index(e, st, mod, fenv)

    def e_Subscript(self, e, st, mod, fenv):
        base = self.ev(e.value, st, mod, fenv)
        idx = self.index(e.slice, st, mod, fenv)
        return self.subscript(base, idx, st)

    def subscript(self, base, idx, st):
        if isinstance(base, PTuple):
            if T.isnum(idx):
                k = int(T.numval(idx))
                if -len(base.items) <= k < len(base.items):
                    return base.items[k]
            if idx.op == "slice" and all(x is T.NONE or T.isnum(x) for x in idx.args):
                sl = slice(*[None if x is T.NONE else int(T.numval(x)) for x in idx.args])
                return PTuple(base.items[sl])
            return T.select(self.read(st, base), idx)
        if isinstance(base, Choice):
            return self.merge_val(base.c, self.subscript(base.a, idx, st), st, self.subscript(base.b, idx, st), st, st)
        if isinstance(base, Ref):
            p = T._path(idx)
            t = st.heap[base.cell]
            if base.path:
                comp = T._compose(list(base.path), p)
                if len(base.path) == 1 and base.path[0].op not in ("slice", "tuple") and T.arrnd(t) == 1:
                    comp = None
                if comp is None or any(x.op == "ite" for x in p):
                    return T.select(self.read(st, Ref(base.cell, base.path)), idx)
                if self.trace_on():
                    self.trace.append(T.select(t, T._unpath(list(comp))))
                return Ref(base.cell, tuple(comp), T.select(t, T._unpath(list(comp))))
            v = T.select(t, idx)
            if self.trace_on():
                self.trace.append(v)
            if any(x.op in ("ite", "bval") for x in p) or t.op in ("tuple", "list"):
                return v
            return Ref(base.cell, tuple(p), v)
        t = self.read(st, base)
        v = T.select(t, idx)
        if self.trace_on():
            self.trace.append(v)
        return v

    trace = None

    def trace_on(self):
        return self.trace is not None

    # attributes
    def e_Attribute(self, e, st, mod, fenv):
        v = self.ev(e.value, st, mod, fenv)
        return self.getattr(v, e.attr, st)

    def getattr(self, v, name, st):
        if isinstance(v, Mod):
            full = v.name + "." + name
            if v.name in self.prog.modules:
                r = self.prog.resolve(v.name, name)
                if r is not None:
                    return self.resolved(st, r, name)
                if name in ("__getattribute__", "__getattr__"):
                    return Bound(v, name)
            return self.ext_name(full)
        if isinstance(v, Ext):
            return self.ext_name(v.name + "." + name)
        if isinstance(v, (RangeV, IterV, Fn)):
            return Bound(v, name)
        t = self.read(st, v)
        return self.attr_term(t, name, v, st)

    def ext_name(self, full):
        alias = {"numpy.nan": T.NAN, "numpy.NaN": T.NAN, "math.nan": T.NAN, "numpy.inf": const(float("inf")), "math.inf": const(float("inf")),
                 "numpy.newaxis": T.NONE, "math.pi": atom("pi"), "numpy.pi": atom("pi")}
        if full in alias:
            return alias[full]
        return Ext(full)

    def attr_term(self, t, name, v, st):
        if name == "shape":
            return T.lift1("shape", T.shape_of, t)
        if name == "size":
            return self.size_of(t)
        if name == "ndim":
            if t.op == "arg" and isinstance(t.extra, tuple) and t.extra[0] == "nd":
                return num(t.extra[1])
            return atom("ndim", t, isint=True)
        if name == "dtype":
            return const("dtype:int" if T._int_elems(t) else "dtype:float")
        if name in ("T", "values", "data", "dims", "attrs", "name", "nnz", "x", "success", "coords"):
            if isinstance(v, Ref) and name in ("attrs",):
                return Bound(v, name)
            if self.trace_on() and t.op == "arg":
                self.trace.append(atom("attr", t, name))
            return T.lift1("attr" + name, lambda x: self.attr_of(x, name), t)
        return Bound(v, name)

    def size_of(self, t):
        if t.op == "ite":
            return T.lift1("size", self.size_of, t)
        if t.op in ("arith", "bval"):
            return atom("size", t, isint=True)
        if self.nd(t) == 1:
            return T.length(t)
        s = T.shape_of(t)
        if s.op == "tuple":
            r = num(1)
            for x in s.args:
                r = T.mul(r, x)
            return r
        if s.isint:
            return s
        base = t
        while base.op == "store":
            base = base.args[0]
        return atom("size", base, isint=True)

    def nd(self, t):
        while t.op == "store":
            t = t.args[0]
        if t.op == "phi" and isinstance(t.extra, Term):
            return self.nd(t.extra)
        ex = t.extra
        if isinstance(ex, tuple) and ex[0] == "nd":
            return ex[1]
        if t.op == "arg" and t.args[0] in self.ndim:
            return self.ndim[t.args[0]]
        if t.op == "full":
            if t.args[0].op == "tuple":
                return len(t.args[0].args)
            if t.args[0].isint:
                return 1
        if t.op == "arange":
            return 1
        if t.op == "sel":
            b = self.nd(t.args[0])
            if b is not None:
                n = b
                for x in T._path(t.args[1]):
                    if x.op == "slice":
                        pass
                    elif x.op == "const":
                        return None
                    elif x.op == "bval":
                        return None
                    else:
                        n -= 1
                return n
        return None

    # comprehensions
    def comp(self, e, elt, st, mod, fenv):
        gens = e.generators
        if len(gens) != 1:
            return self.comp_nested(e, elt, st, mod, fenv)
        g = gens[0]
        it = self.ev(g.iter, st, mod, fenv)
        seq = self.sequence(it, st)
        if seq[0] == "known":
            out = []
            saved = dict(st.env)
            for x in seq[1]:
                self.assign(g.target, x, st, mod, fenv)
                skip = False
                for c in g.ifs:
                    cc = self.cond(c, st, mod, fenv)
                    if cc is T.FALSE:
                        skip = True
                    elif cc is not T.TRUE:
                        st.env = saved
                        return atom("compif", mk_tuple(tuple(self.read(st, y) for y in seq[1])))
                if not skip:
                    out.append(self.ev(elt, st, mod, fenv))
            heap = st.heap
            st.env = saved
            return PTuple(out)
        if g.ifs:
            k = atom("bv", "c%d" % self.lamdepth, 0, isint=True)
            saved = dict(st.env)
            self.lamdepth += 1
            self.assign(g.target, seq[2](k, st), st, mod, fenv)
            cs = T.TRUE
            for c in g.ifs:
                cs = AND(cs, self.cond(c, st, mod, fenv))
            v = self.tm(elt, st, mod, fenv)
            self.lamdepth -= 1
            st.env = saved
            return atom("filter", seq[1], mk_bval(cs), v)
        k = atom("bv", "c%d" % self.lamdepth, 0, isint=True)
        saved = dict(st.env)
        self.lamdepth += 1
        self.assign(g.target, seq[2](k, st), st, mod, fenv)
        v = self.tm(elt, st, mod, fenv)
        self.lamdepth -= 1
        st.env = saved
        return atom("map", seq[1], v)

    def comp_nested(self, e, elt, st, mod, fenv):
        raise Unsupported("nested comprehension")

    def e_ListComp(self, e, st, mod, fenv):
        r = self.comp(e, e.elt, st, mod, fenv)
        if isinstance(r, PTuple):
            try:
                return self.new_cell(st, mk_list(tuple(self.read(st, x) for x in r.items)))
            except Unsupported:
                return r
        return r

    def e_GeneratorExp(self, e, st, mod, fenv):
        return self.comp(e, e.elt, st, mod, fenv)

    e_SetComp = e_GeneratorExp

    def e_DictComp(self, e, st, mod, fenv):
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        r = self.comp(e, pair, st, mod, fenv)
        if isinstance(r, PTuple):
            t = atom("dict0")
            for p in r.items:
                t = T.store(t, self.read(st, p.items[0]), self.read(st, p.items[1]))
            return self.new_cell(st, t)
        return atom("dictof", self.read(st, r))

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, mod, fenv):
        self.callsites += 1
        line = T.CUR_LINE[0]
        f = self.ev(e.func, st, mod, fenv)
        if isinstance(f, Ext) and f.name in ("print", "warnings.warn"):
            return T.NONE
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, mod, fenv)
                if isinstance(v, PTuple):
                    args.extend(v.items)
                else:
                    t = self.read(st, v)
                    n = self.items_known(t)
                    if n is not None:
                        args.extend(T.select(t, num(i)) for i in range(n))
                    else:
                        args.append(("*", t))
            else:
                args.append(self.ev(a, st, mod, fenv))
        kws = {}
        for k in e.keywords:
            v = self.ev(k.value, st, mod, fenv)
            if k.arg is None:
                t = self.read(st, v)
                ks = self.known_keys(t)
                if ks is not None:
                    for kk in ks:
                        kws[kk.args[0]] = T.select(t, kk)
                else:
                    cur = t
                    while cur.op == "store" and cur.args[1].op == "const":
                        kws.setdefault(cur.args[1].args[0], cur.args[2])
                        cur = cur.args[0]
                    kws["**"] = cur if cur.op != "store" else t
            else:
                kws[k.arg] = v
        r = self.call(f, args, kws, st, e, mod, fenv)
        T.CUR_LINE[0] = line
        return r

    def items_known(self, t):
        """number of items of a sequence, when it is the same in every case"""
        if t.op in ("tuple", "list"):
            return len(t.args)
        if t.op == "ite":
            m, n = self.items_known(t.args[1]), self.items_known(t.args[2])
            return m if m == n else None
        return None

    def call(self, f, args, kws, st, node, mod, fenv):
        if isinstance(f, Choice):
            s1, s2 = st.copy(), st.copy()
            s1.pc = AND(st.pc, f.c); s2.pc = AND(st.pc, NOT(f.c))
            v1 = self.call(f.a, args, kws, s1, node, mod, fenv)
            v2 = self.call(f.b, args, kws, s2, node, mod, fenv)
            v, heap = self.merge_values(f.c, v1, s1, v2, s2)
            st.heap.clear(); st.heap.update(heap)
            st.pc = OR(s1.pc, s2.pc)
            return v
        if isinstance(f, Fn):
            o = self.opname(f)
            if o is not None:
                return self.call_opaque(f, o, args, kws, st)
            if self.is_guvec(f) and len([a for a in args if not isinstance(a, tuple)]) < len(f.node.args.args):
                return self.call_guvec(f, args, kws, st, node)
            return self.call_fn(st, f, args, kws, node)
        if isinstance(f, Ext):
            return self.call_ext(f.name, args, kws, st, node, mod, fenv)
        if isinstance(f, Mod):
            return self.call_ext(f.name, args, kws, st, node, mod, fenv)
        if isinstance(f, Bound):
            return self.call_method(f.recv, f.name, args, kws, st, node, mod, fenv)
        t = self.read(st, f)
        if t.op == "ite":
            ts = [self.argterm(a, st) for a in args]
            k2 = self.kwterms(kws, st)
            return T.lift("callsym" + repr(sorted(kws)), self.apply, [t] + ts + k2)
        return self.sym_call(t, args, kws, st)

    def is_guvec(self, f):
        for d in getattr(f.node, "decorator_list", []):
            c = d.func if isinstance(d, ast.Call) else d
            nm = c.attr if isinstance(c, ast.Attribute) else getattr(c, "id", "")
            if nm == "guvectorize":
                return True
        return False

    def call_guvec(self, f, args, kws, st, node):
        """a generalised ufunc is called with its inputs only; trailing parameters are outputs"""
        n = len(f.node.args.args)
        pos = list(args)
        outs = []
        k = n - len(pos)
        for i in range(k):
            outs.append(self.new_cell(st, atom("gu_out", i)))
        inner = State({}, st.heap, T.TRUE)
        self.call_fn(inner, f, pos + outs, {}, node)
        res = []
        for r in outs:
            c = inner.heap[r.cell]
            # only the written element matters for scalar outputs y[0]
            res.append(T.select(c, num(0)) if c.op == "store" and c.args[1] is num(0) else c)
        st.heap = inner.heap
        return PTuple(res) if len(res) > 1 else res[0]

    def argterm(self, a, st):
        if isinstance(a, tuple) and a and a[0] == "*":
            return T.lift1("star", lambda x: atom("star", x), a[1])
        return self.read(st, a)

    @staticmethod
    def apply(fn, *xs):
        """an application; a starred sequence of known items is its items"""
        return atom("call", fn, *[y for x in xs for y in (x.args[0].args if x.op == "star" and x.args[0].op in ("tuple", "list") else (x,))])

    def kwterms(self, kws, st):
        out = []
        for k in sorted(kws):
            v = kws[k]
            out.append(atom("kwarg", k, self.read(st, v)))
        return out

    def sym_call(self, t, args, kws, st):
        ts = [self.argterm(a, st) for a in args] + self.kwterms(kws, st)
        if any(x.op == "ite" for x in ts):
            r = T.lift("call" + t.op, self.apply, [t] + ts)
        else:
            r = self.apply(t, *ts)
        if self.trace_on():
            self.trace.append(r)
        return r

    # opaque package functions -----------------------------------------------
    def call_opaque(self, f, o, args, kws, st):
        spec = o if isinstance(o, dict) else {"sym": o if isinstance(o, str) else o[0]}
        sym = spec["sym"]
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        vals = []
        if any(isinstance(x, tuple) for x in args):
            return self.sym_call(atom("fn", sym), args, kws, st)
        nd = len(params) - len(f.defaults)
        for i, p in enumerate(params):
            if i < len(args):
                vals.append(args[i])
            elif p in kws:
                vals.append(kws[p])
            elif i >= nd:
                vals.append(f.defaults[i - nd])
            else:
                vals.append(UNDEF)
        if spec.get("ident"):
            same = [vals[i] for i in spec["ident"]]
            return PTuple(same) if len(same) > 1 else same[0]
        if sym in ("guess_to_bounds", "brent", "brent_guess"):
            # bind the extra arguments into the function: f(x, *args) -> lam x
            k = params.index("args") if "args" in params else None
            if k is not None:
                fun, extra = vals[0], vals[k]
                lam = self.bind_tail(fun, extra, st)
                vals = [lam] + [v for i, v in enumerate(vals) if i not in (0, k)]
        ts = [self.read(st, v) for v in vals]
        if spec.get("idem") and ts and ts[0].op == "call" and ts[0].args[0] is atom("fn", sym) and all(x is T.NONE for x in ts[1:]):
            return ts[0]
        isint = bool(spec.get("ints")) if isinstance(o, dict) else sym.startswith("valid_range")
        # modified parameters are part of the helper's specification (its own obligation compares effects)
        mut = [params.index(n) for n in spec.get("mut", ()) if n in params]
        def mk(*xs):
            return atom("call", atom("fn", sym), *xs, extra="intarray" if isint else None)
        r = T.lift("op" + sym, mk, ts)
        for i in mut:
            if i < len(vals) and isinstance(vals[i], Ref):
                ref = vals[i]
                new = atom("eff", r, params[i], self.read(st, ref)) if False else atom("eff", r, i)
                if not ref.path:
                    st.heap[ref.cell] = new
                else:
                    st.heap[ref.cell] = T.store(st.heap[ref.cell], T._unpath(list(ref.path)), new)
        nout = spec.get("nout") if isinstance(o, dict) else None
        nout = nout or {"valid_range_1_two": 2, "valid_range_1": 2, "guess_to_bounds": 2, "PPV2": 2}.get(sym)
        if nout:
            return PTuple([T.select(r, num(i)) for i in range(nout)])
        if self.trace_on():
            self.trace.append(r)
        return r

    def bind_tail(self, fun, extra, st):
        bv = atom("bv", self.lamdepth, 0)
        self.lamdepth += 1
        try:
            st2 = State({}, dict(st.heap), T.TRUE)
            ex = list(extra.items) if isinstance(extra, PTuple) else [("*", self.read(st, extra))]
            if not isinstance(extra, PTuple):
                t = self.read(st, extra)
                if t.op == "tuple":
                    ex = list(t.args)
            v = self.call(fun, [bv] + ex, {}, st2, None, None, None)
            body = self.read(st2, v)
        finally:
            self.lamdepth -= 1
        return atom("lam", 1, body)

    def mutated(self, f):
        """indices of parameters whose contents the function modifies (by its own analysis)"""
        key = id(f.node)
        if key in self.effects_memo:
            return self.effects_memo[key]
        self.effects_memo[key] = []
        out = []
        sub = Interp(self.prog, {k: v for k, v in self.opaque.items() if k not in (f.name, f.mod.name + "." + f.name)},
                     self.ints, self.intarrays, self.ndim)
        sub.effects_memo = self.effects_memo
        params = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        st = State({}, {}, T.TRUE)
        args = [sub.new_cell(st, atom("efarg", p)) for p in params]
        init = {r.cell: st.heap[r.cell] for r in args}
        try:
            sub.call_fn(st, f, args, {}, None, sub=True, raises=[])
            for i, r in enumerate(args):
                if st.heap[r.cell] is not init[r.cell]:
                    out.append(i)
        except Unsupported:
            out = []
        self.effects_memo[key] = out
        return out

    # external functions --------------------------------------------------------
    def canonical(self, name, args, kws, st):
        """One form for each way of writing the arguments of a NumPy call:
        positional where possible, defaults left out."""
        sig = SIG.get(name)
        if sig is None or "**" in kws or any(isinstance(a, tuple) for a in args):
            return args, kws
        npos = sum(1 for r in sig if r[1] != "k")
        names = [r[0] for r in sig]
        if len(args) > npos or not set(kws) <= set(names) or set(kws) & set(names[:len(args)]):
            return args, kws
        given = dict(zip(names, args))
        given.update(kws)
        out, rest, pos = [], {}, True
        for r in sig:
            if r[0] in given and r[2] == "def" and not isinstance(given[r[0]], (Fn, Mod, Bound)):
                v, d = given[r[0]], r[3]
                t = v.args[0] if isinstance(v, Term) and v.op in ("const",) else None
                same = isinstance(v, Term) and (v is T.NONE and d is None or v.op == "const" and type(t) is type(d) and t == d
                                                  or isinstance(d, bool) and v is (T.TRUE if d else T.FALSE)
                                                  or isinstance(d, int) and not isinstance(d, bool) and v is num(d))
                if same:
                    pos = False
                    continue
            if r[0] not in given:
                pos = False
            elif pos and r[1] != "k" and r[0] != "out":
                out.append(given[r[0]])
            else:
                pos = False
                rest[r[0]] = given[r[0]]
        return out, rest

    def call_ext(self, name, args, kws, st, node, mod, fenv):
        args, kws = self.canonical(name, args, kws, st)
        if name == "numpy.broadcast_to" and len(args) == 2 and isinstance(args[1], Term):
            args = [args[0], self.extent(args[1])]
        R = lambda i: self.read(st, args[i])
        n = len(args)
        star = any(isinstance(a, tuple) for a in args)
        base = name
        for p in ("numpy.", "math."):
            if name.startswith(p):
                base = name[len(p):]
        isnp = name.startswith("numpy.") or name.startswith("math.")
        if not star:
            r = self.builtin(name, base, isnp, args, kws, st, R, n, mod, fenv)
            if r is not None:
                return r
        self.symbols.add(name)
        if name == "numpy.copyto" and len(args) == 2 and not kws:
            self.store_sub(args[0], const(Ellipsis), R(1), st, ast.Subscript(value=node.args[0]) if node is not None else ast.Subscript(value=ast.Constant(None)), mod, fenv)
            return T.NONE
        if name in EXT_MUTATORS and args and isinstance(args[0], Ref):
            ref = args[0]
            new = atom("call", atom("glob", name), *[self.argterm(a, st) for a in args], *self.kwterms(kws, st))
            st.heap[ref.cell] = new
            return T.NONE
        if isnp and base in ("reshape", "ravel", "transpose", "copy", "sum", "prod", "max", "min", "mean", "any", "all", "cumsum", "argsort",
                             "sort", "nonzero", "squeeze", "repeat", "swapaxes", "clip", "searchsorted", "take", "argmax", "argmin", "round") and args and not star:
            if base == "sort":
                return self.generic("m:sorted", [R(0)] + [self.argterm(a, st) for a in args[1:]] + self.kwterms(kws, st), st)
            return self.method_term(args[0], base, args[1:], kws, st)
        if name == "numpy.count_nonzero" and len(args) == 1 and not kws and self.read(st, args[0]).op == "bval":
            return self.method_term(args[0], "sum", [], kws, st)
        if name == "numpy.nanmean" and len(args) == 1 and not kws:
            x = R(0)
            return T.div(atom("call", atom("glob", "numpy.nansum"), x), self.method_term(self.invert(mk_bval(T.isnan(x))), "sum", [], {}, st))
        ts = [self.argterm(a, st) for a in args] + self.kwterms(kws, st)
        if name in ("numpy.concatenate", "numpy.stack", "numpy.hstack", "numpy.vstack", "numpy.column_stack", "numpy.dstack") and ts:
            ts[0] = T.lift1("arrays", lambda x: mk_tuple(x.args) if x.op == "list" else x, ts[0])     # a sequence of arrays, of either kind
        if "out" in kws and isinstance(kws["out"], Ref):
            ref = kws["out"]
            new = T.lift("ext" + name, lambda *xs: atom("call", atom("glob", name), *xs), ts)
            if not ref.path:
                st.heap[ref.cell] = new
            return ref
        isint = name in ("numpy.searchsorted", "numpy.ravel_multi_index", "numpy.argmax", "numpy.argmin", "numpy.count_nonzero")
        if any(x.op == "ite" for x in ts):
            r = T.lift("ext" + name, lambda *xs: atom("call", atom("glob", name), *xs, isint=isint), ts)
        else:
            r = atom("call", atom("glob", name), *ts, isint=isint)
        if name in ("numpy.nonzero", "numpy.flatnonzero", "numpy.argsort"):
            r.extra = "intarray"
        if self.trace_on():
            self.trace.append(r)
        return r

    def generic(self, op, ts, st, isint=False, extra=None):
        if any(x.op == "ite" for x in ts):
            r = T.lift("g" + op, lambda *xs: atom(op, *xs, isint=isint, extra=extra), ts)
        else:
            r = atom(op, *ts, isint=isint, extra=extra)
        if self.trace_on():
            self.trace.append(r)
        return r

    def dtype(self, v, st):
        if v is None:
            return const("float")
        t = self.read(st, v)
        if t.op == "const" and isinstance(t.args[0], str):
            s = t.args[0]
            if s.startswith("dtype:"):
                return const(s[6:])
            return const(DTYPES.get(s, {"float64": "float", "f8": "float", "int64": "int"}.get(s, s)))
        if t.op == "glob":
            return const(DTYPES.get(t.args[0], t.args[0]))
        return const("float")

    def extent(self, shape):
        """a shape given as a sequence that is unpacked elsewhere: its elements"""
        n = T.UNPACKED.get(shape.h)
        return shape if n is None else mk_tuple(tuple(T.select(shape, num(i)) for i in range(n)))

    def full(self, shape, val, dt, st):
        shape = self.extent(shape)
        if shape.op == "tuple" and len(shape.args) == 1:
            shape = shape.args[0]
        t = self.generic("full", [shape, val, dt], st) if shape.op != "ite" else T.lift("full", lambda s: atom("full", s, val, dt), [shape])
        return self.new_cell(st, t)

    def builtin(self, name, base, isnp, args, kws, st, R, n, mod, fenv):
        if isnp:
            if base == "isnan":
                return mk_bval(T.isnan(R(0)))
            if base == "isfinite":
                return mk_bval(T.isfinite(R(0)))
            if base in ("shares_memory", "may_share_memory") and n == 2 and isinstance(args[0], Ref) and isinstance(args[1], Ref):
                x, y = args[0], args[1]
                if x.cell == y.cell and x.path == y.path:
                    return mk_bval(T.TRUE)
            if base == "isinf":
                x = R(0)
                return mk_bval(T.lift1("isinf", lambda q: T._fst(q, T.NINF | T.PINF), x))
            if base == "sqrt":
                return T.sqrt(R(0))
            if base in ("abs", "absolute", "fabs"):
                return T.absval(R(0))
            if base == "sign":
                return T.sign(R(0))
            if base in ("floor", "ceil") and n == 1 and not kws:
                def fl(x):
                    if x.isint:
                        return x
                    if x.op == "num":
                        return num(T.numval(x).__floor__())
                    return atom("floor", x)
                return T.lift1("floor", fl, R(0)) if base == "floor" else T.neg(T.lift1("floor", fl, T.neg(R(0))))
            if base == "clip" and n == 3 and not kws:
                return T.minmax("min", [T.minmax("max", [R(0), R(1)]), R(2)])
            if base == "square":
                return T.mul(R(0), R(0))
            if base in ARITH_UFUNC and n == 2 and "out" not in kws and "where" not in kws:
                return self.binop(ARITH_UFUNC[base], R(0), R(1))
            if base in CMP_UFUNC and n == 2 and not kws:
                return mk_bval(self.cmpop(CMP_UFUNC[base], R(0), R(1)))
            if base == "negative" and n == 1:
                return T.neg(R(0))
            if base in ("logical_and", "logical_or") and n == 2:
                a, b = self.boolish(R(0)), self.boolish(R(1))
                return mk_bval(AND(a, b) if base == "logical_and" else OR(a, b))
            if base == "logical_not":
                return self.invert(R(0))
            if base == "expand_dims" and set(kws) <= {"axis"} and n + len(kws) == 2:
                ax = R(1) if n > 1 else self.read(st, kws["axis"])
                if T.isnum(ax) and T.numval(ax) in (0, -1):
                    return T.select(R(0), mk_tuple([T.NONE, const(Ellipsis)] if T.numval(ax) == 0 else [const(Ellipsis), T.NONE]))
            if base in ("maximum", "minimum") and n == 2:
                return T.minmax("max" if "max" in base else "min", [R(0), R(1)])
            if base in ("zeros", "ones", "empty"):
                shape = R(0) if n else self.read(st, kws["shape"])
                dt = self.dtype(args[1] if n > 1 else kws.get("dtype"), st)
                val = {"zeros": num(0), "ones": num(1), "empty": UNDEF}[base]
                if base == "empty":
                    val = atom("uninit")
                if dt.args[0] == "bool":
                    val = {"zeros": T.FALSE, "ones": T.TRUE}.get(base, val)
                return self.full(shape, val, dt, st)
            if base == "full":
                fv = R(1) if n > 1 else self.read(st, kws["fill_value"])
                dt = self.dtype(args[2] if n > 2 else kws.get("dtype"), st)
                if kws.get("dtype") is None and n <= 2 and fv.op == "bool":
                    dt = const("bool")
                return self.full(R(0), fv, dt, st)
            if base in ("zeros_like", "ones_like", "empty_like", "full_like"):
                val = {"zeros_like": num(0), "ones_like": num(1), "empty_like": atom("uninit")}.get(base)
                if val is None:
                    val = R(1) if n > 1 else self.read(st, kws["fill_value"])
                k = 2 if base == "full_like" else 1
                dt = self.dtype(args[k] if n > k else kws.get("dtype"), st)
                return self.full(T.shape_of(R(0)), val, dt, st)
            if base == "arange" and not kws or base == "arange" and set(kws) <= {"dtype"}:
                if n == 1:
                    return self.generic("arange", [num(0), R(0)], st, extra="intarray")
                if n == 2:
                    return self.generic("arange", [R(0), R(1)], st, extra="intarray")
            if base in ("isscalar",):
                x = R(0)
                def f(q):
                    if q.op == "num":
                        return T.TRUE
                    return T.bool_atom(atom("isscalar", q))
                return mk_bval(T.lift1("isscalar", f, x))
            if base == "where" and n == 3:
                return self.generic("where", [R(0), R(1), R(2)], st)
            if base in ("array", "asarray", "ascontiguousarray") and n == 1 and not kws:
                t = R(0)
                if base != "array":
                    return args[0]
                if t.op in ("list", "tuple"):
                    return self.new_cell(st, mk_list(t.args))
                return self.new_cell(st, t)
            if base == "errstate":
                return T.NONE
            if base == "copy" and n == 1 and not kws:
                return self.new_cell(st, R(0))
            if base == "shape" and n == 1:
                return T.shape_of(R(0))
            if base == "size" and n == 1:
                return self.size_of(R(0))
            if base == "ndim" and n == 1:
                return self.attr_term(R(0), "ndim", args[0], st)
            if base == "float64" and n == 1 or base == "int64" and n == 1:
                return R(0)
            if base == "iinfo" or base == "finfo":
                x = R(0)
                return atom(base, "int" if base == "iinfo" else "float")
            return None
        b = name
        if b == "len" and n == 1:
            if isinstance(args[0], PTuple):
                return num(len(args[0].items))
            if isinstance(args[0], RangeV):
                return T.sub(args[0].hi, args[0].lo)
            return T.length(R(0))
        if b in ("range", "numba.prange", "prange"):
            if n == 1:
                return RangeV(num(0), R(0), num(1))
            if n == 2:
                return RangeV(R(0), R(1), num(1))
            return RangeV(R(0), R(1), R(2))
        if b == "enumerate":
            off = R(1) if n > 1 else self.read(st, kws["start"]) if "start" in kws else num(0)
            return IterV("enumerate", [args[0]], off)
        if b == "zip":
            return IterV("zip", list(args))
        if b == "reversed":
            return IterV("reversed", [args[0]])
        if b in ("min", "max") and not kws:
            if n >= 2:
                return T.minmax(b, [R(i) for i in range(n)])
            if isinstance(args[0], PTuple):
                return T.minmax(b, [self.read(st, x) for x in args[0].items])
            t = R(0)
            if t.op in ("tuple", "list"):
                return T.minmax(b, list(t.args))
            return self.method_term(args[0], b, [], {}, st)
        if b == "abs":
            return T.absval(R(0))
        if b == "int" and n == 1:
            t = R(0)
            def f(x):
                if x.op in ("bval", "bool"):
                    return ite(truth(x), num(1), num(0))
                if x.isint:
                    return x
                if x.op in ("m:prod", "m:sum", "m:max", "m:min") and any(isinstance(a, Term) and a.op == "kwarg" and a.args[0] == "dtype" and a.args[1] is const("dtype:int") for a in x.args):
                    return x
                if x.op == "num":
                    return num(int(T.numval(x)))
                if x.op == "floor":
                    return atom("ifloor", x.args[0], isint=True)
                if x.op == "arith" and x.poly is not None and all(c.denominator == 1 and all(T._atoms[k].isint or T._atoms[k].op == "floor" for k, _ in m) for m, c in x.poly.items()):
                    # whole numbers throughout
                    return T.replace(x, {T._atoms[k].h: atom("ifloor", T._atoms[k].args[0], isint=True) for m in x.poly for k, _ in m if T._atoms[k].op == "floor"})
                return atom("int", x, isint=True)
            if t.op == "bval":
                return f(t)
            if t.op not in ("ite", "arith", "num") and not t.isint and T.truth(t).op == "ite" and t.op in ("not",):
                return f(t)
            return T.lift1("int", f, t)
        if b == "float" and n == 1:
            t = R(0)
            if t.op == "const" and isinstance(t.args[0], str):
                return const(float(t.args[0]))
            return t
        if b == "bool" and n == 1:
            return mk_bval(self.truth_of(args[0], st))
        if b == "isinstance" and n == 2:
            return mk_bval(self.isinst(args[0], args[1], st))
        if b == "callable" and n == 1:
            if isinstance(args[0], Fn):
                return T.TRUE
            t = R(0)
            return mk_bval(T.lift1("callable", lambda x: T.FALSE if x.op in ("const", "num", "tuple") else T.TRUE if x.op in ("fn", "lam") else T.bool_atom(atom("callable", x)), t))
        if b == "hasattr" and n == 2:
            t = R(0)
            return mk_bval(T.lift1("hasattr" + T.show(R(1)), lambda x: T.FALSE if x.op in ("num", "const") else T.bool_atom(atom("hasattr", x, R(1))), t))
        if b == "getattr" and n == 2:
            k = R(1)
            if k.op == "const":
                return self.getattr(args[0], k.args[0], st)
        if b in ("any", "all") and n == 1:
            v = args[0]
            items = None
            if isinstance(v, PTuple):
                items = [self.truth_of(x, st) for x in v.items]
            else:
                t = R(0)
                if t.op in ("tuple", "list"):
                    items = [truth(x) for x in t.args]
                elif t.op == "map":
                    return mk_bval(T.bool_atom(atom(b + "of", t)))
            if items is not None:
                r = T.FALSE if b == "any" else T.TRUE
                for x in items:
                    r = OR(r, x) if b == "any" else AND(r, x)
                return mk_bval(r)
            return self.generic("m:" + b, [R(0)], st)
        if b == "sum" and n == 1:
            t = R(0)
            if t.op in ("tuple", "list"):
                r = num(0)
                for x in t.args:
                    r = T.add(r, x)
                return r
            return self.generic("m:sum", [T.lift1("b2i", T.b2i, t)], st)
        if b in ("tuple", "list"):
            if n == 0:
                return PTuple(()) if b == "tuple" else self.new_cell(st, mk_list(()))
            if isinstance(args[0], PTuple):
                return args[0] if b == "tuple" else self.new_cell(st, mk_list(tuple(self.read(st, x) for x in args[0].items)))
            if isinstance(args[0], (IterV, RangeV)):
                q = self.sequence(args[0], st)
                if q[0] == "known":
                    return PTuple(q[1])
            t = R(0)
            if t.op in ("list", "tuple"):
                return PTuple(t.args) if b == "tuple" else self.new_cell(st, mk_list(t.args))
            return t if b == "tuple" else self.new_cell(st, t)
        if b == "dict":
            t = R(0) if n else atom("dict0")
            for k, v in kws.items():
                if k == "**":
                    continue
                t = T.store(t, const(k), self.read(st, v))
            return self.new_cell(st, t)
        if b == "map" and n >= 2:
            seqs = [self.sequence(a, st) for a in args[1:]]
            if all(q[0] == "known" for q in seqs):
                return PTuple([self.call(args[0], list(xs), {}, st, None, mod, fenv) for xs in zip(*[q[1] for q in seqs])])
        if b == "type" and n == 1:
            t = R(0)
            return atom("type", t) if t is not T.NONE else atom("glob", "NoneType")
        if b in ("time.time", "time.perf_counter", "time.monotonic", "time.process_time"):
            return num(0)
        if b in ("importlib.import_module",) and n >= 1:
            t = R(0)
            if t.op == "const" and t.args[0] in self.prog.modules:
                return Mod(t.args[0])
            return atom("module", t)
        if b == "str" and n == 1:
            return self.generic("str", [R(0)], st)
        if b == "functools.partial" and n >= 1:
            return atom("partial", *[self.argterm(a, st) for a in args], *self.kwterms(kws, st))
        if b == "slice":
            ts = [R(i) for i in range(n)]
            return T.mk_slice(*(ts if n > 1 else [T.NONE] + ts))
        if b in ("numba.njit", "numba.jit", "numba.vectorize", "functools.lru_cache", "functools.wraps", "functools.cache"):
            if n == 1 and isinstance(args[0], (Fn, Choice)):
                return args[0]
            if n == 1 and isinstance(args[0], (Term, Ref)):
                return args[0]
            return Ext("identity")
        if b == "identity" and n == 1:
            return args[0]
        if b == "next" and n == 1:
            return self.generic("next", [R(0)], st)
        return None

    def isinst(self, v, cls, st):
        if isinstance(cls, PTuple):
            r = T.FALSE
            for c in cls.items:
                r = OR(r, self.isinst(v, c, st))
            return r
        ct = self.read(st, cls)
        cname = T.show(ct)
        if ct.op == "const" and str(ct.args[0]).startswith("dtype:"):
            cname = ct.args[0][6:]
        if isinstance(cls, Ext):
            cname = cls.name
        cname = {"type(None)": "NoneType", "numpy.ndarray": "ndarray"}.get(cname, cname)
        if isinstance(v, PTuple):
            return T.TRUE if cname == "tuple" else T.FALSE
        if isinstance(v, Fn):
            return T.FALSE
        t = self.read(st, v)
        def f(x):
            if x.op == "num":
                if cname in ("float", "int"):
                    return T.bool_atom(atom("isinst", x, cname))
                return T.FALSE
            if x.op == "const" and isinstance(x.args[0], str):
                return T.TRUE if cname == "str" else T.FALSE
            if x is T.NONE:
                return T.TRUE if cname == "NoneType" else T.FALSE
            if x.op == "tuple":
                return T.TRUE if cname == "tuple" else T.FALSE
            if x.op == "bool":
                return T.TRUE if cname in ("bool", "int") else T.FALSE
            if x.op in ("dict0",) or (x.op == "store" and self.known_keys(x) is not None):
                return T.TRUE if cname == "dict" else T.FALSE
            if cname == "NoneType":
                return T.cmp_is(x, T.NONE)
            return T.bool_atom(atom("isinst", x, cname))
        return T.lift1("isinst" + cname, f, t)

    # methods ----------------------------------------------------------------------
    def call_method(self, recv, name, args, kws, st, node, mod, fenv):
        if isinstance(recv, (Fn,)):
            return atom("fnmethod", self.read(st, recv), name)
        t = self.read(st, recv)
        args, kws = self.canonical("m:" + name, args, kws, st)
        n = len(args)
        if name == "get" and n >= 1:
            k = self.read(st, args[0])
            if k.op == "const":
                if t.op == "ite" or t.op in ("store", "kwargs", "dict0") or True:
                    d = args[1] if n > 1 else T.NONE
                    return self.kwget(st, t if t.op != "ite" else t, k.args[0], d)
        if name == "pop" and n >= 1 and isinstance(recv, Ref):
            k = self.read(st, args[0])
            if k.op == "const":
                d = args[1] if n > 1 else None
                return self.kwget(st, t, k.args[0], d)
        if name == "copy" and n == 0:
            return self.new_cell(st, t)
        if name == "astype" and n == 1 and not kws:
            d = self.read(st, args[0])
            if d.op in ("glob", "const") and self.dtype(args[0], st) == const("float"):
                return self.new_cell(st, T.lift1("b2i", T.b2i, t))      # real numbers as doubles: a copy
        if name == "items":
            return atom("items", t)
        if name == "keys":
            return atom("keys", t)
        if name == "values" and n == 0 and (t.op in ("store", "dict0")):
            ks = self.known_keys(t)
            if ks is not None:
                return PTuple([T.select(t, k) for k in ks])
        if name == "fill" and isinstance(recv, Ref):
            v = self.read(st, args[0])
            self.store_sub(recv, T.mk_slice(None, None), v, st, None, mod, fenv)
            return T.NONE
        if name == "lower" and n == 0:
            return T.lift1("lower", lambda x: const(x.args[0].lower()) if x.op == "const" and isinstance(x.args[0], str) else atom("m:lower", x), t)
        if name in ("__getattribute__", "__getattr__") and n == 1:
            k = self.read(st, args[0])
            if isinstance(recv, Mod) and k.op == "const":
                return self.getattr(recv, k.args[0], st)
            return self.generic("getattr", [t, k], st)
        if name == "append" and isinstance(recv, Ref) and t.op == "list":
            st.heap[recv.cell] = mk_list(t.args + (self.read(st, args[0]),))
            return T.NONE
        if name == "update" and isinstance(recv, Ref) and n <= 1:
            ks = [] if n == 0 else self.known_keys(self.read(st, args[0]))
            if ks is not None and "**" not in kws:
                for k in ks:
                    self.store_sub(recv, k, T.select(self.read(st, args[0]), k), st, None, mod, fenv)
                for k, v in kws.items():
                    self.store_sub(recv, const(k), self.read(st, v), st, None, mod, fenv)
                return T.NONE
        if name in MUTATORS and isinstance(recv, Bound) and recv.name == "attrs" and isinstance(recv.recv, Ref) and not recv.recv.path:
            # the attributes of an object of our own
            ts = [self.argterm(a, st) for a in args] + self.kwterms(kws, st)
            obj = recv.recv
            new = atom("dict0") if name == "clear" else atom("mut:" + name, t, *ts)
            st.heap[obj.cell] = T.lift1("setattrs", lambda x: self.set_attr(x, "attrs", new), st.heap[obj.cell])
            if self.trace_on():
                self.trace.append(atom("mutret:" + name, t, *ts))
            return T.NONE
        if name in MUTATORS and isinstance(recv, Ref) and not (name in ("sort",) and False):
            ts = [self.argterm(a, st) for a in args] + self.kwterms(kws, st)
            new = atom("mut:" + name, t, *ts)
            if not recv.path:
                st.heap[recv.cell] = new
            else:
                st.heap[recv.cell] = T.store(st.heap[recv.cell], T._unpath(list(recv.path)), new)
            return atom("mutret:" + name, t, *ts)
        return self.method_term(recv, name, args, kws, st)

    def method_term(self, recv, name, args, kws, st):
        t = self.read(st, recv)
        ts = [self.argterm(a, st) for a in args]
        if name in ("sum", "mean", "cumsum"):
            t = T.lift1("b2i", T.b2i, t)
        if name == "repeat" and len(ts) == 1 and not kws and (t.op == "num" or T.AND(st.pc, T.NOT(T.bool_atom(atom("isscalar", t)))) is T.FALSE):
            # a scalar repeated
            return self.full(ts[0], t, const("float"), st)
        if name == "reshape":
            # x.reshape(a, b) == x.reshape((a, b))
            if len(ts) > 1:
                ts = [mk_tuple(tuple(ts))]
            if "newshape" in kws or "shape" in kws:
                ts = [self.read(st, kws.pop("newshape", None) or kws.pop("shape"))]
            if len(ts) == 1 and ts[0].op == "tuple" and len(ts[0].args) == 1:
                ts = [ts[0].args[0]]
            if len(ts) == 1:
                ts = [self.extent(ts[0])]
        if name in ("ravel", "flatten") and not ts and not kws:
            name, ts = "reshape", [num(-1)]
        if name in ("transpose",) and not ts and not kws:
            return self.attr_term(t, "T", recv, st)
        if name == "astype" and len(ts) == 1:
            ts = [self.dtype(args[0], st)]
        if name == "clip" and len(ts) == 2 and not kws:
            return T.minmax("min", [T.minmax("max", [t, ts[0]]), ts[1]])
        if name == "mean" and not ts and not kws:
            return T.div(self.generic("m:sum", [t], st), self.size_of(self.read(st, recv)))
        return self.generic("m:" + name, [t] + ts + self.kwterms(kws, st), st, isint=name in ("searchsorted", "argmax", "argmin"))

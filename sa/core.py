"""Obligations: 'this function of the package denotes the same value graph as this
reference definition'.  See DESIGN.md.  Nothing of the analysed program is run."""
import ast
import builtins
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import loader
import terms as T
import whatif
import interp
from terms import Term

BUILTIN = set(dir(builtins)) | {"NoneType"}
REPO = os.environ.get("NO_REPO", "/repo")

CORE = {"num", "const", "bool", "nan", "inf", "arg", "arith", "ite", "fst", "ige", "eq", "cmp_gt", "cmp_ge", "bval", "b2i", "sqrt", "abs", "sign",
        "max", "min", "sel", "store", "tuple", "list", "slice", "phi", "exit", "shape", "size", "full", "bv", "lam", "undef", "kwarg", "has",
        "call", "floordiv", "mod", "pow", "uninit", "pi", "divzero", "arange", "gu_out", "eff", "ndim", "raise", "not", "in", "isinst", "callable",
        "hasattr", "dict0", "map", "filter", "view", "range", "kwargs", "varargs", "indexerror", "keyerror", "haskey"}


class AnchorMissing(Exception):
    pass


class Ob:
    """code == ref, as value graphs"""

    def __init__(self, name, code, ref, opaque=(), ints=(), intarrays=(), ndim=None, free=(), public=False, effects=True, take=None, what="", extra=None, facts=(), same=(), types=None, nonan=(), notnone=(), ordered=()):
        self.name = name
        self.code = code
        self.ref = ref
        self.opaque = tuple(opaque)
        self.ints = ints
        self.intarrays = intarrays
        self.ndim = ndim or {}
        self.free = free
        self.effects = effects
        self.take = take
        self.what = what
        self.public = public
        self.extra = extra or {}
        self.facts = facts
        self.same = same
        self.notnone = tuple(notnone)
        self.nonan = tuple(nonan)      # arrays without NaN wherever they are looked at (documented precondition)
        self.types = types or {}
        self.ordered = tuple(ordered)  # pairs of arguments, the first <= the second (precondition)


class Verdict:
    __slots__ = ("ob", "status", "detail", "where", "stats", "secs")

    def __init__(self, ob, status, detail="", where="", stats=None, secs=0.0):
        self.ob = ob; self.status = status; self.detail = detail; self.where = where
        self.stats = stats or {}; self.secs = secs


_PROG = {}


def program(root=None):
    root = root or REPO
    if root not in _PROG:
        p = loader.Program(root)
        for pk in ("ref", "drv"):
            d = os.path.join(HERE, pk)
            for f in sorted(os.listdir(d)):
                if f.endswith(".py"):
                    p.add(pk + "." + f[:-3], os.path.join(d, f))
        _PROG[root] = p
    return _PROG[root]


# opaque helper -> (code qualname, ref qualname)
HELPERS = {}


def helper(sym, code, ref, **spec):
    HELPERS[sym] = (code, ref, spec)


def _sig(node):
    a = node.args
    return ([x.arg for x in a.posonlyargs + a.args], [ast.dump(d) for d in a.defaults], a.vararg is not None, a.kwarg is not None, [x.arg for x in a.kwonlyargs])


def opaque_map(prog, names):
    """helpers usable as opaque symbols: present with the documented signature in the code"""
    out = {}
    used, dropped = [], []
    for s in names:
        code, ref, spec = HELPERS[s]
        rc, rr = prog.func(code), prog.func(ref)
        if rr is None:
            raise AnchorMissing("reference " + ref)
        if rc is None or _sig(rc[2])[0] != _sig(rr[2])[0]:
            dropped.append(s)
            continue
        o = dict(spec, sym=s)
        # keyed by the defining qualname
        out[rc[1].name + "." + rc[2].name] = o
        out[rr[1].name + "." + rr[2].name] = o
        used.append(s)
    return out, used, dropped


def set_facts(ob):
    """declared preconditions on integer arguments: each expression >= 0"""
    I = interp.Interp(program(), ints=ob.ints, intarrays=ob.intarrays, ndim=ob.ndim)
    T.TYPES.update(ob.types)
    T.NOTNONE.update(ob.notnone)
    NONAN.clear()
    NONAN.update(ob.nonan)
    T.ORDERED.clear()
    T.ORDERED.update((I.arg_atom(a).h, I.arg_atom(b).h) for a, b in ob.ordered)
    for g in ob.same:
        first = I.arg_atom(g[0])
        for n in g[1:]:
            T.SHAPE_ALIAS[n] = first
    for f in ob.facts:
        if f.startswith("ref."):
            opq, _, _ = opaque_map(program(), ob.opaque)
            r, _, _, _ = analyse(program(), f, ob, opq)
            T.FACTS.extend(r.args if r.op == "tuple" else [r])
            T._memo_lb.clear()
            continue
        st = interp.State({}, {}, T.TRUE)
        tree = ast.parse(f, mode="eval").body
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and n.id != "len":
                st.env[n.id] = I.arg_atom(n.id)
        T._memo_lb.clear()
        T.FACTS.append(I.read(st, I.ev(tree, st, None, None)))


def analyse(prog, qual, ob, opq, names=None):
    r = prog.func(qual)
    if r is None:
        raise AnchorMissing(qual)
    I = interp.Interp(prog, opaque=opq, ints=ob.ints, intarrays=ob.intarrays, ndim=ob.ndim, free_defaults=ob.free, **ob.extra)
    own = r[1].name + "." + r[2].name
    if own in opq:
        I.opaque = {k: v for k, v in opq.items() if k != own}
    fn = I.make_fn(interp.State({}, {}, T.TRUE), r[2], r[1], None)
    rename = None
    mine = [x.arg for x in r[2].args.posonlyargs + r[2].args.args]
    if names is not None and len(names) == len(mine):
        rename = dict(zip(mine, names))
    res, eff, raises = I.run_root(fn, rename=rename)
    if rename:
        eff = {rename.get(k, k): v for k, v in eff.items()}
    return res, eff, I, mine


def check(ob, prog=None):
    prog = prog or program()
    v = compare(ob, prog)
    if v.status == "undecided" and "uses operations the reference does not" in v.detail:
        alien = {n.split(":")[-1].split(".")[-1] for n in v.detail.split("(", 1)[1].split(")", 1)[0].split(", ")}
        for p, done, where in whatif.variants(prog, v.stats.get("functions_inlined", ()), alien):
            w = compare(ob, p)
            if w.status == "holds":
                return Verdict(ob, "violated", "the code is the reference only %s; %s" % (done, v.detail), "%s (analysing %s)" % (where, ob.code), v.stats, v.secs + w.secs)
    return v


def compare(ob, prog):
    t0 = time.time()
    T.reset()
    set_facts(ob)
    try:
        opq, used, dropped = opaque_map(prog, ob.opaque)
        if prog.func(ob.code) is None:
            return Verdict(ob, "missing", "anchor %s is gone" % ob.code)
        rres, reff, rI, rnames = analyse(prog, ob.ref, ob, opq)
        nref = len(T._tab)
        cres, ceff, cI, _ = analyse(prog, ob.code, ob, opq, rnames)
    except interp.Unsupported as e:
        return Verdict(ob, "undecided", "construct outside the analysed subset: %s" % e, secs=time.time() - t0)
    except T.Blowup as e:
        return Verdict(ob, "undecided", "normal form too large: %s" % e, secs=time.time() - t0)
    except RecursionError:
        return Verdict(ob, "undecided", "normal form too deep", secs=time.time() - t0)
    stats = {"functions_inlined": sorted(x for x in cI.touched if not x.startswith(("ref.", "drv."))), "branches": cI.branches, "loops": cI.loops,
             "call_sites": cI.callsites, "opaque": used, "inlined_instead": dropped, "terms": len(T._tab)}
    pairs = []
    if ob.take:
        rres, cres = ob.take(rres), ob.take(cres)
    pairs.append(("return value", rres, cres))
    if ob.effects:
        for n, v in reff.items():
            if n in ceff:
                pairs.append(("stores through other names" if n == interp.HIDDEN else "contents of argument '%s' on exit" % n, v, ceff[n]))
    for n, d in sorted(rI.defaults_met.items()):
        if d is not T.NONE or n in cI.defaults_met:
            pairs.append(("default of argument '%s'" % n, d, cI.defaults_met.get(n, T.NONE)))
    stats["value_graphs_compared"] = len(pairs)
    bad = []
    splits = [0]
    for w, a, b in pairs:
        if a is b:
            continue
        try:
            d = differing_case(a, b, splits, time.time() + CASE_SECONDS)
        except (T.Blowup, RecursionError):
            d = (a, b, (None,))
        if d is not None and None in d[2]:
            T._budget[0] = 0
            try:
                d2 = differing_case(a, b, [0], time.time() + CASE_SECONDS / 2, apart=True)
                if d2 is None or None not in d2[2]:
                    d = d2
            except (T.Blowup, RecursionError):
                pass
        if d is not None:
            known_case = None not in d[2]
            bad.append((w + case_text(d[2] if known_case else d[2][:-1]), d[0], d[1], known_case))
    if splits[0]:
        stats["cases_distinguished"] = splits[0]
    if not bad:
        return Verdict(ob, "holds", stats=stats, secs=time.time() - t0)
    fr = prog.func(ob.code)
    file = os.path.relpath(fr[1].path, prog.root) if fr[1].path.startswith(prog.root) else os.path.relpath(fr[1].path, HERE)
    best = None
    known = set()
    for _, a, _ in pairs:
        known |= vocab(a)[0]
    known -= SOFT
    for w, a, b, known_case in bad:
        whole = next(((x, y) for n, x, y in pairs if w.startswith(n)), (a, b))
        st, why = classify(a, b, known, len(cI.loop_sites) > len(rI.loop_sites), whole)
        if st == "violated":
            hand = hand_written(pairs)
            if hand:
                st, why = "undecided", hand
        if st == "violated" and w.startswith("stores through other names") and own_views(a, b):
            st, why = "undecided", "an array made here is changed through a view of it in other places"
        name = unassigned(b, prog, stats["functions_inlined"]) if st == "undecided" and known_case and not any(x.op == "raise" for x in subterms(a).values()) else None
        if name:
            st, why = "violated", "the local variable %s is read where nothing has given it a value" % name
        if not known_case and st == "violated":
            st, why = "undecided", "the case distinction ran out of its budget"
        d = first_diff(a, b)
        line = next((x.line for x in d[2:] if isinstance(x, Term) and x.line), None)
        text = "%s differs from the reference: expected %s, found %s" % (w, T.show(d[0], 5)[:600], T.show(d[1], 5)[:600])
        v = Verdict(ob, st, (why + "; " if why else "") + text, locate(prog, d[1], fr, ob), stats, time.time() - t0)
        if st == "violated":
            return v
        best = best or v
    return best


def unassigned(t, prog, functions):
    """a name that a value certainly depends on, and that is a local variable without a value there"""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.h in seen or x.op in ("ite", "exit", "lam", "loop", "raise", "bval", "b2i", "or", "and", "maparr") or x.op.startswith("fn"):
            continue
        seen.add(x.h)
        if x.op == "glob" and x.args[0].isidentifier() and x.args[0] not in BUILTIN:
            for q in functions:
                f = prog.func(q)
                if f and any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == x.args[0] for n in ast.walk(f[2])):
                    return x.args[0]
        stack.extend(kids(x))
    return None


def own_views(a, b):
    """do the two sequences of stores differ only in stores into views of arrays that the function itself makes?"""
    def stores(t):
        out = []
        while t.op == "estore":
            out.append(t)
            t = t.args[0]
        return out, t

    def own(t):
        while t.op in ("m:reshape", "m:ravel", "m:transpose", "m:swapaxes", "m:squeeze", "sel"):
            t = t.args[0]
        return t.op in ("arange", "full")
    (sa, ra), (sb, rb) = stores(a), stores(b)
    if ra is not rb:
        return False
    ka = [(x.args[1].h, x.args[2].h, x.args[3].h) for x in sa]
    kb = [(x.args[1].h, x.args[2].h, x.args[3].h) for x in sb]
    rest = [x for x, k in zip(sa, ka) if k not in kb] + [x for x, k in zip(sb, kb) if k not in ka]
    return bool(rest) and all(own(x.args[1]) for x in rest)


def locate(prog, t, fr, ob):
    line = t.line or (fr[1].path, fr[2].lineno)
    path, ln = line if isinstance(line, tuple) else (fr[1].path, line)
    if not path.startswith(prog.root + "/"):
        # reached through a driver: name the first package line below this term
        seen, todo = set(), [t]
        while todo:
            x = todo.pop(0)
            if x.h in seen or len(seen) > 4000:
                continue
            seen.add(x.h)
            if isinstance(x.line, tuple) and x.line[0].startswith(prog.root + "/"):
                path, ln = x.line
                break
            todo.extend(kids(x))
    what = ob.code
    if not path.startswith(prog.root + "/"):
        # the differing value has no line of its own in the package: name the package functions under analysis
        names = {x.id for x in ast.walk(fr[2]) if isinstance(x, ast.Name)}
        hits = [r for n in sorted(names) for r in [prog.resolve(fr[1].name, n)] if r and r[0] == "func" and r[1].path.startswith(prog.root + "/")]
        if fr[1].path.startswith(prog.root + "/"):
            hits = [fr]
        if hits:
            path, ln = hits[0][1].path, hits[0][2].lineno
            what = ", ".join("%s.%s" % (h[1].name, h[2].name) for h in hits) + (" through " + ob.code if hits[0] is not fr else "")
    path = os.path.relpath(path, prog.root) if path.startswith(prog.root + "/") else os.path.relpath(path, HERE)
    return "%s:%s (analysing %s)" % (path, ln, what)


# several idioms for one meaning: a difference in which of them occur is not evidence
SOFT = {"anyof", "allof", "map", "filter", "in", "range", "varargs", "kwargs"}
CASE_SECONDS = 60
CASE_SPLITS = 400


def tests_of(t, acc, seen):
    """closed conditions tested in t"""
    stack = [t]
    while stack:
        x = stack.pop()
        if x.h in seen:
            continue
        seen.add(x.h)
        if x.op == "ite" and not x.args[0].free:
            acc[x.args[0].h] = x.args[0]
        if x.op == "bval":          # a boxed truth value may be an array of them
            continue
        stack.extend(kids(x))
        if x.op == "exit":
            for _, i, n in x.extra.states:
                stack.append(i)
                stack.append(n)
            stack.append(x.extra.cont)
    return acc


def differing_case(a, b, splits, deadline, path=(), apart=False):
    """None when a and b agree in every case of the conditions they test, else (a', b', case)"""
    if a is b:
        return None
    if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
        for x, y in zip(a.args, b.args):
            d = differing_case(x, y, splits, deadline, path, apart)
            if d is not None:
                return d
        return None
    ta, tb = tests_of(a, {}, set()), tests_of(b, {}, set())
    acc = dict(ta)
    acc.update(tb)
    for c, _ in path:
        acc.pop(c.h, None)
    if not acc:
        return a, b, path
    if splits[0] > CASE_SPLITS or time.time() > deadline:
        return a, b, path + (None,)       # out of budget: nothing is shown
    splits[0] += 1
    # (second attempt) conditions only one side tests are where the two are likely to part
    only = [x for h, x in acc.items() if (h in ta) != (h in tb)] if apart else ()
    c = min(only or acc.values(), key=T.okey)
    for v in (True, False):
        lits = [(c, v)]
        if not feasible(path + ((c, v),)):
            continue
        eqs = equalities(path + ((c, v),))
        d = differing_case(T.replace(T.under(a, lits), eqs), T.replace(T.under(b, lits), eqs), splits, deadline, path + ((c, v),), apart)
        if d is not None:
            return d
    return None


def feasible(path):
    """False when the conditions contradict each other: a difference of numbers that are not NaN is negative, zero or positive"""
    allowed = {}
    nums = set()
    for c, v in path:
        if c.op == "fst":
            q = c.args[0]
            m = c.args[1] if v else T.ALL6 & ~c.args[1]
            allowed[q.h] = (q, allowed.get(q.h, (q, T.ALL6))[1] & m)
    for q, m in allowed.values():
        if not m & T.NANB:
            nums |= leaves(q)
    for q, m in allowed.values():
        if m == 0 or m == T.NANB and all(k in nums or never_nan(k) for k in leaves(q)):
            return False
    return True


NONAN = set()


def never_nan(k):
    x = T._atoms.get(k)
    return x is not None and x.op == "sel" and x.args[0].op == "arg" and x.args[0].args[0] in NONAN


def equalities(path):
    """integers the last condition pins to one value"""
    c, v = path[-1]
    if c.op == "fst" and c.args[0].poly is not None and (c.args[1] if v else T.ALL6 & ~c.args[1]) == T.ZERO:
        q = c.args[0]
        xs = [(m[0][0], k) for m, k in q.poly.items() if m]
        if len(xs) == 1 and sum(1 for m in q.poly if m) == 1 and len(next(m for m in q.poly if m)) == 1 and T._atoms[xs[0][0]].op == "arg":
            x, k = T._atoms[xs[0][0]], xs[0][1]
            r = T.num(-q.poly.get((), 0) / k)
            return {x.h: r} if q.poly.get((), 0) else {}
        return {}
    if c.op != "ige" or c.args[0].poly is None:
        return {}
    base = c.args[0]
    lo, hi = T.lower_bound(base), T.lower_bound(T.neg(base))
    hi = -hi if hi is not None else None
    for a, w in path:
        if a.op == "ige" and a.args[0] is base:
            if w:
                lo = a.args[1] if lo is None else max(lo, a.args[1])
            else:
                hi = a.args[1] - 1 if hi is None else min(hi, a.args[1] - 1)
    if lo is None or lo != hi:
        return {}
    xs = [(T._atoms[m[0][0]], k) for m, k in base.poly.items() if len(m) == 1 and m[0][1] == 1 and k in (1, -1)]
    xs = [z for z in xs if z[0].op in ("exit", "arg", "sel", "size", "m:searchsorted", "call")]
    if not xs:
        return {}
    x, k = max(xs, key=lambda z: z[0].rank)
    return {x.h: T.mul(T.num(k), T.sub(T.num(lo), T.sub(base, T.mul(T.num(k), x))))}


def leaves(q):
    if q.op == "arith" and q.poly is not None:
        return {k for m in q.poly for k, _ in m}
    return {q.h}


def case_text(path):
    if not path:
        return ""
    return " (when " + " and ".join(("" if v else "not ") + T.show(c, 3)[:60] for c, v in path[-4:]) + ")"


def kids(t):
    if t.op == "arith":
        if t.poly is not None:
            return [T._atoms[k] for m in t.poly for k, _ in m]
        return [x for x in t.args if isinstance(x, Term)]
    return [x for x in t.args if isinstance(x, Term)]


def vocab(t):
    seen = set()
    voc = set()
    loops = []
    stack = [t]
    while stack:
        x = stack.pop()
        if x.h in seen:
            continue
        seen.add(x.h)
        op = x.op
        if op == "glob" or op == "fn":
            voc.add(op + ":" + str(x.args[0]))
        elif op == "attr":
            voc.add("attr:" + str(x.args[1]))
        elif op not in SOFT and (op == "lam" or op in CORE):
            pass
        else:
            voc.add(op)
        if op == "exit":
            loops.append(len(x.extra.states))
        stack.extend(kids(x))
    return voc, sorted(loops)


def classify(a, b, known=frozenset(), more_loops=True, whole=None):
    """a: reference, b: code, a is not b; whole: the graphs they are parts of"""
    va, la = vocab(a)
    vb, lb = vocab(b)
    if heads_of(a, "raises") != heads_of(b, "raises"):
        return "undecided", "another way to catch exceptions"
    why = reshaped(a, b, more_loops)
    if why and whole and not exits_of(a):
        why = reshaped(*whole, more_loops)      # in this case the reference has left its loops already: compare those of all cases
    if why:
        return "undecided", why
    d = first_diff(a, b)
    if built(d[0]) and built(d[1]) and built(d[0]) != built(d[1]):
        return "undecided", "an array is put together in another way (%s instead of %s)" % (built(d[1]), built(d[0]))
    new = sorted((vb - va - known) | ((va ^ vb) & SOFT))
    if new:
        if rivals(a, b):
            return "violated", ""
        why = foreign(a, b)
        if why:
            return "violated", why
        return "undecided", "uses operations the reference does not (%s)" % ", ".join(new[:6])
    return "violated", ""


BUILDERS = {"concatenate", "hstack", "vstack", "stack", "append", "column_stack", "tile", "repeat", "where", "select", "arange", "linspace", "m:repeat", "array", "r_"}


def built(t):
    """how an array value is put together"""
    if t.op in ("store", "full", "maparr"):
        return "element by element"
    if t.op == "arange":
        return "arange"
    if t.op == "call" and t.args[0].op == "glob" and t.args[0].args[0].split(".")[-1] in BUILDERS:
        return t.args[0].args[0]
    return None


def exits_of(t):
    out = {}
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.h in seen:
            continue
        seen.add(x.h)
        if x.op == "exit":
            ctl = sum(1 for ph, i, _ in x.extra.states if ph.isint or i.op in ("bool", "bval"))
            out[x.h] = (len(x.extra.states) - ctl, ctl)
        stack.extend(kids(x))
    return out


def loops_of(t):
    seen, stack, out = set(), [t], {}
    while stack:
        x = stack.pop()
        if x.h in seen:
            continue
        seen.add(x.h)
        if x.op == "exit":
            out[tuple(ph.h for ph, _, _ in x.extra.states)] = x.extra
        stack.extend(kids(x))
    return list(out.values())


def nest(t):
    """number of loops that differ in what they go through"""
    return len({(L.cont.h,) for L in loops_of(t)})


def undefined(t):
    """are there loops whose variables start without a value?"""
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.h in seen:
            continue
        seen.add(x.h)
        if x.op == "undef":
            return True
        stack.extend(kids(x))
    return False


def heads_of(t, op):
    seen, stack, out = set(), [t], set()
    while stack:
        x = stack.pop()
        if x.h in seen:
            continue
        seen.add(x.h)
        if x.op == op:
            out.add(x.h)
        stack.extend(kids(x))
    return out


def reshaped(a, b, more_loops=True):
    """the code organises the iteration in another way: more control variables for the same data, or a loop for a library call"""
    ea, eb = exits_of(a), exits_of(b)
    oa = sorted(v for h, v in ea.items() if h not in eb)
    ob = sorted(v for h, v in eb.items() if h not in ea)
    if not ob:
        return ""
    if more_loops and nest(b) > nest(a):
        return "more loops than the reference"
    da, ca = max((x[0] for x in oa), default=0), max((x[1] for x in oa), default=0)
    db, cb = max(x[0] for x in ob), max(x[1] for x in ob)
    if cb > ca and db <= da:
        return "the loops keep other control variables than the reference"
    la, lb = loops_of(a), loops_of(b)
    heads = lambda ts: {y for t in ts for y in vocab(t)[0] if y.startswith(("fn:", "glob:"))}
    ia, ib = heads(i for L in la for _, i, _ in L.states), heads(i for L in lb for _, i, _ in L.states)
    if len(la) == len(lb) and (ib - ia) & heads(n for L in la for _, _, n in L.states):
        return "the loops start from other initial values than the reference: part of an iteration is written before the loop"
    if undefined(a) != undefined(b):
        return "the loops start from other initial values than the reference, where those are not used"
    return ""


# families of operations.  A rewrite that keeps the meaning may exchange operations of a family for each other or for those of the
# second set, never bring one in where none of them was.
FAMILIES = [
    ({"round", "around", "rint", "round_"}, set()),
    ({"floor", "ifloor", "ceil", "trunc", "fix", "int"}, {"floordiv", "mod", "arange", "linspace"}),
    ({"nan_to_num"}, {"isnan", "isfinite", "nansum", "nanmean", "nanmax", "nanmin", "nanprod", "fst", "where", "full"}),
    ({"maximum", "minimum", "clip", "fmax", "fmin", "max", "min"}, {"ite", "where", "sort", "sorted", "select", "amax", "amin", "nanmax", "nanmin", "abs", "exit", "maximum.reduce"}),
    ({"maximum.accumulate", "minimum.accumulate", "fmax.accumulate", "fmin.accumulate"}, {"max", "min", "maximum", "minimum", "exit", "cummax"}),
    ({"cumsum", "cumprod", "nancumsum", "add.accumulate", "accumulate"}, {"exit", "sum", "prod", "arange", "linspace"}),
    ({"isclose", "allclose"}, {"abs"}),
    ({"float32", "float16", "half", "single", "longdouble", "float128"}, {"f4", "dtype"}),
    ({"exp", "expm1", "log", "log10", "log2", "log1p", "power", "exp2"}, {"pow"}),
    ({"sin", "cos", "tan", "arctan", "arctan2", "arcsin", "arccos", "deg2rad", "rad2deg", "radians", "degrees", "hypot", "sinh", "cosh", "tanh"}, {"pi", "sqrt"}),
    ({"sort", "sorted", "unique", "argsort", "lexsort", "msort"}, {"nonzero", "flatnonzero", "where", "argwhere", "set", "exit", "searchsorted", "mut:sort", "sortedset"}),
    ({"median", "nanmedian", "percentile", "nanpercentile", "quantile", "nanquantile", "std", "var", "nanstd", "nanvar"}, {"sort", "sorted"}),
    ({"sum", "nansum", "mean", "nanmean", "average", "prod", "nanprod", "dot", "vdot", "inner", "einsum", "trace", "matmul"},
     {"exit", "tensordot", "bincount", "aggsum", "cumsum", "cumprod", "reduce", "add.reduce", "reduceat", "nonzero", "flatnonzero", "argwhere", "count_nonzero", "size", "shape", "searchsorted", "anyof", "allof", "any", "all",
      "median", "nanmedian", "norm", "MatMult", "ndindex", "len", "first_nan", "divergence", "maparr"}),
    ({"trim_zeros"}, {"nonzero", "flatnonzero", "argmax", "argwhere"}),
    ({"gradient", "convolve", "correlate"}, {"diff", "exit"}),
    ({"normal", "uniform", "random", "rand", "randn", "default_rng", "seed", "choice", "shuffle", "permutation"}, set()),
    ({"m:astype", "astype"}, {"array", "asarray", "require", "float", "int", "dtype", "full", "float64"}),
]


def short(op):
    for p in ("glob:", "fn:", "m:"):
        if op.startswith(p):
            op = op[len(p):]
    for p in ("numpy.", "math.", "np.", "scipy."):
        if op.startswith(p):
            op = op[len(p):]
    return op


def subterms(t):
    seen, stack = {}, [t]
    while stack:
        x = stack.pop()
        if x.h in seen:
            continue
        seen[x.h] = x
        stack.extend(kids(x))
        if x.op == "exit":
            for _, i, n in x.extra.states:
                stack.append(i)
                stack.append(n)
            stack.append(x.extra.cont)
    return seen


def all_ops(t, stop=()):
    """every operation in t above the terms of stop, by short name"""
    seen, stack, out = set(stop), [t], set()
    while stack:
        x = stack.pop()
        if x.h in seen:
            continue
        seen.add(x.h)
        if x.op in ("glob", "fn"):
            out.add(short(str(x.args[0])))
        elif x.op == "attr":
            out.add("attr:" + str(x.args[1]))
        elif x.op not in ("num", "arg"):
            out.add(short(x.op))
        stack.extend(kids(x))
        if x.op == "exit":
            for _, i, n in x.extra.states:
                stack.append(i)
                stack.append(n)
            stack.append(x.extra.cont)
    return out


def parts(a, b, out, seen, depth=0):
    """the smallest corresponding subterms in which a and b differ"""
    if a is b or (a.h, b.h) in seen or len(out) > 40:
        return out
    seen.add((a.h, b.h))
    if a.op == "exit" and b.op == "exit" and depth < 200:
        q = aligned(a.extra, b.extra)
        if q is not None:
            for x, y in q:
                if x is not y:
                    parts(x, y, out, seen, depth + 1)
            return out
    if a.op == b.op and a.op not in ("arith", "num", "exit", "lam") and len(a.args) == len(b.args) and depth < 200:
        if all((isinstance(x, Term) == isinstance(y, Term)) and (isinstance(x, Term) or x == y) for x, y in zip(a.args, b.args)):
            for x, y in zip(a.args, b.args):
                if isinstance(x, Term) and x is not y:
                    parts(x, y, out, seen, depth + 1)
            return out
    out.append((a, b))
    return out


def aligned(L, M):
    """the states of two loops, paired by their initial values in order; the second loop in the names of the first"""
    if len(L.states) != len(M.states):
        return None
    rest = list(M.states)
    m, pairs = {}, []
    for ph, i, n in L.states:
        k = next((k for k, (q, j, _) in enumerate(rest) if j is i and q.isint == ph.isint), None)
        if k is None:
            return None
        q, _, w = rest.pop(k)
        m[q.h] = ph
        pairs.append((n, w))
    pairs.append((L.cont, M.cont))
    try:
        return [(x, T.subst(y, m)) for x, y in pairs]
    except (T.Blowup, RecursionError):
        return None


NEUTRAL = {"ite", "fst", "ige", "eq", "bval", "b2i", "num", "const", "bool", "nan", "arg", "arith", "sel", "store", "tuple", "cmp_gt", "cmp_ge", "call", "kwarg", "shape", "size", "phi", "glob", "abs", "sign", "sqrt",
           "max", "min", "pow", "inf", "not", "slice"}


# what a package function means and no plain call of a library operation does
NEVER = {("first_nan", "m:argmax"): "the position of the maximum is 0, not the length, where nothing is NaN",
         ("first_nan", "m:sum"): "the number of data is not the position of the first NaN where data follow it"}


# operations that rearrange or change any value that is not degenerate
WRAP = {"attr:T", "transpose", "flip", "flipud", "fliplr", "roll", "round", "around", "rint", "floor", "ceil", "nan_to_num", "float32", "cumsum", "cumprod", "log", "exp", "sin", "cos", "log10", "log1p",
        "tanh", "deg2rad", "rad2deg", "maximum.accumulate", "minimum.accumulate", "gradient", "diff", "trim_zeros"}


def other_sequence(m, n):
    f = lambda t: t.args[0].args[0] if t.op == "sel" and t.args[0].op == "shape" and t.args[1] is T.num(0) else t
    m, n = f(m), f(n)
    return m is not n and m.op in ("arg", "attr") and n.op in ("arg", "attr")


def foreign(a, b):
    """an operation of a kind that nothing in the corresponding part of the reference could stand for"""
    for x, y in parts(a, b, [], set()):
        sx, sy = subterms(x), subterms(y)
        common = {h for h in sx if h in sy and sx[h].op not in ("num", "const", "nan", "bool")}
        ox, oy = all_ops(x, common), all_ops(y, common)
        if x.h in sy and x is not y and WRAP & (oy | {"attr:" + y.args[1] if y.op == "attr" else ""}) and set(oy) <= WRAP | {"attr", "kwarg", "arith", "num", "const", "call"}:
            return "the reference's value goes through %s" % ", ".join(sorted(WRAP & oy))
        if x.op == "call" and x.args[0].op == "fn" and (x.args[0].args[0], y.op) in NEVER:
            return NEVER[x.args[0].args[0], y.op]
        if x.op in ("map", "filter") and y.op in ("map", "filter") and oy - {"map", "filter"} <= ox and other_sequence(x.args[0], y.args[0]):
            return "goes through another sequence"
        new = oy - ox - NEUTRAL
        if not new:
            lost = (ox - oy) & SOFT
            if lost and not (oy & SOFT) and oy < ox and not (oy & {"exit", "lam", "list"}):
                return "does without what the reference does (%s)" % ", ".join(sorted(ox - oy)[:4])
            continue
        ok = []
        for n in new:
            fam = next((f for f in FAMILIES if n in f[0]), None)
            if fam is None:
                break
            if not ((fam[0] | fam[1]) & ox):
                ok.append(n)
        else:
            if ok:
                return "brings in %s, for which the reference has no counterpart here" % ", ".join(sorted(ok))
    return ""


# library operations that go through an array
SWEEPS = {"searchsorted", "sum", "nansum", "cumsum", "prod", "cumprod", "argmax", "argmin", "nanargmax", "nanargmin", "max", "min", "nanmax", "nanmin", "amax", "amin",
          "any", "all", "anyof", "allof", "dot", "bincount", "nonzero", "flatnonzero", "argwhere", "sort", "argsort", "unique", "count_nonzero", "mean", "nanmean", "diff", "isin", "in1d",
          "histogram", "digitize", "add.at", "add.reduceat", "concatenate", "hstack", "vstack", "stack", "append", "tile", "repeat", "take", "vander", "polyval", "interp", "where", "select"}


def hand_written(pairs):
    """a loop of the code's own stands for a library operation of the reference"""
    va, vb, na, nb = set(), set(), 0, 0
    for _, a, b in pairs:
        va |= vocab(a)[0]
        vb |= vocab(b)[0]
        na += len(exits_of(a)) + len(maps_of(a))
        nb += len(exits_of(b)) + len(maps_of(b))
    gone = sorted(x for x in va - vb if x.split(":")[-1].split(".", 1)[-1] in SWEEPS)
    if gone and nb > na:
        return "a loop of its own instead of %s" % ", ".join(gone[:4])
    return ""


def maps_of(t):
    seen, out, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x.h in seen:
            continue
        seen.add(x.h)
        if x.op == "maparr":
            out.add(x.h)
        stack.extend(kids(x))
    return out


# operations that take the same arguments and never agree on all inputs
RIVALS = [{"moveaxis", "swapaxes"}, {"max", "min"}, {"mean", "median"}, {"nanmean", "nanmedian"}, {"sum", "prod"},
          {"argmax", "argmin"}, {"nanargmax", "nanargmin"}, {"floor", "ceil"}, {"sin", "cos"}, {"any", "all"},
          {"cumsum", "cumprod"}, {"nanmax", "nanmin"}, {"maximum", "minimum"}, {"fmax", "fmin"}, {"log", "log10"},
          {"zeros", "ones"}, {"zeros_like", "ones_like"}, {"deg2rad", "rad2deg"}, {"exp", "log"}, {"sqrt", "square"},
          {"sum", "nansum"}, {"mean", "nanmean"}, {"max", "nanmax"}, {"min", "nanmin"}, {"median", "nanmedian"}, {"argmax", "nanargmax"}, {"argmin", "nanargmin"},
          {"minres", "cg"}, {"isnan", "isfinite"}, {"sort", "argsort"}, {"logical_and", "logical_or"}]


def opkey(t):
    if t.op == "call" and t.args and isinstance(t.args[0], Term) and t.args[0].op == "glob":
        return str(t.args[0].args[0]).rsplit(".", 1)[-1], t.args[1:]
    if t.op.startswith("m:"):
        return t.op[2:], t.args
    return None, ()


def rivals(a, b):
    """the two terms differ in one place only, and there by one operation for another that never agrees with it"""
    while a is not b:
        ka, xa = opkey(a)
        kb, xb = opkey(b)
        if ka and kb and ka != kb and len(xa) == len(xb) and all(x is y or not isinstance(x, Term) and x == y for x, y in zip(xa, xb)):
            if any(isinstance(x, Term) and (x.op in ("bval", "b2i") or x.isint or T._int_elems(x)) for x in xa) and (ka.startswith("nan") or kb.startswith("nan")):
                return False          # no NaN to ignore
            return any(ka in r and kb in r for r in RIVALS)
        if a.op != b.op or a.op in ("arith", "num", "exit", "lam") or len(a.args) != len(b.args):
            return False
        df = [(x, y) for x, y in zip(a.args, b.args) if x is not y and (isinstance(x, Term) or isinstance(y, Term) or x != y)]
        if len(df) != 1 or not all(isinstance(z, Term) for z in df[0]):
            return False
        a, b = df[0]
    return False


def first_diff(a, b, depth=0):
    """most specific pair of differing subterms"""
    seen = set()
    while True:
        if a is b or (a.h, b.h) in seen:
            return a, b, b
        seen.add((a.h, b.h))
        if a.op == b.op and a.op not in ("arith", "num") and len(a.args) == len(b.args):
            if all((isinstance(x, Term) == isinstance(y, Term)) and (isinstance(x, Term) or x == y) for x, y in zip(a.args, b.args)):
                df = [(x, y) for x, y in zip(a.args, b.args) if x is not y and isinstance(x, Term)]
                if df:
                    if a.op == "exit":
                        return a, b, b
                    a, b = df[0]
                    continue
        return a, b, b

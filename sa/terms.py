"""Hash-consed value-graph terms in normal form.

A term denotes the value of an expression of the analysed program as a function
of the function's inputs.  Everything here is *syntactic normalisation* of such
value graphs: nothing of the analysed program is ever executed.

 * arithmetic    : rational normal form.  Two arithmetic terms are the same node
                   iff they are equal as rational functions of their atoms; this
                   is decided by an algebraic fingerprint in GF(2^127-1)
                   (Schwartz-Zippel), constants are exact fractions.
 * control       : multi-terminal decision diagrams over boolean atoms, ordered,
                   with pruning of implied literals (integer thresholds, sign /
                   NaN states of a float).
 * arrays        : functional store/select chains.
 * loops         : closed fix-point terms, see mk_exit.
"""
import hashlib
import itertools
from fractions import Fraction

PR = (1 << 127) - 1


class Blowup(Exception):
    """normal form too large: the analysis gives up on this obligation"""


def _h(*parts):
    m = hashlib.blake2b(digest_size=16)
    for p in parts:
        m.update(str(p).encode("utf8", "surrogatepass"))
        m.update(b"\x00")
    return int.from_bytes(m.digest(), "big")


class Term:
    __slots__ = ("op", "args", "h", "rank", "isint", "poly", "fp", "free", "line", "extra", "seq", "__weakref__")

    def __repr__(self):
        return show(self, 3)


_seq = [0]
_tab = {}          # structural key -> Term
_fptab = {}        # fingerprint -> Term (numeric terms)
_memo_assume = {}
_memo_ite = {}
_memo_subst = {}
CUR_LINE = [None]  # provenance, set by the interpreter
_budget = [0]
BUDGET = 6_000_000


# opaque functions that never return None; terms unpacked into a fixed number of names
NOTNONE = set()
UNPACKED = {}


def reset():
    _tab.clear(); _fptab.clear(); _hmemo.clear(); _memo_imp.clear(); _memo_lb.clear(); FACTS.clear(); SHAPE_ALIAS.clear(); NOTNONE.clear(); UNPACKED.clear(); TYPES.clear(); _memo_assume.clear(); _memo_ite.clear(); _memo_subst.clear(); _loop_norm.clear(); _loop_names.clear(); _exit_memo.clear()
    _budget[0] = 0
    _phi_ctr[0] = 0
    _init_consts()


def tick(n=1):
    _budget[0] += n
    if _budget[0] > BUDGET:
        raise Blowup("normal-form budget exhausted")


_EMPTY = frozenset()


def _mk(op, args, h, rank, isint=False, poly=None, fp=None, free=_EMPTY, extra=None):
    t = Term.__new__(Term)
    t.op = op; t.args = args; t.h = h; t.rank = rank; t.isint = isint
    t.poly = poly; t.fp = fp; t.free = free; t.extra = extra
    t.line = CUR_LINE[0]
    _seq[0] += 1
    t.seq = _seq[0]
    return t


def _argkey(a):
    return ("t", a.h) if isinstance(a, Term) else a


def atom(op, *args, isint=False, extra=None):
    """opaque application (hash-consed)"""
    key = (op,) + tuple(_argkey(a) for a in args)
    t = _tab.get(key)
    if t is not None:
        if isint and not t.isint:
            t.isint = True
        return t
    tick()
    h = _h(op, *[("%x" % a.h) if isinstance(a, Term) else ("c:" + repr(a)) for a in args])
    rank = 0
    free = _EMPTY
    for a in args:
        if isinstance(a, Term):
            if a.rank > rank:
                rank = a.rank
            if a.free:
                free = free | a.free
    t = _mk(op, args, h, rank + 1, isint, None, None, free, extra)
    t.poly = {((t.h, 1),): Fraction(1)}
    t.fp = h % PR
    _atoms[t.h] = t
    _tab[key] = t
    _fptab.setdefault(t.fp, t)
    return t


_atoms = {}        # h -> Term for atoms used in monomials


# ---------------------------------------------------------------- constants
def const(v):
    """numeric / string / None / bool constants"""
    if isinstance(v, bool):
        return atom("bool", v)
    if v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        return atom("const", v)
    if isinstance(v, complex):
        return atom("const", repr(v))
    if isinstance(v, float):
        if v != v:
            return atom("nan")
        if v in (float("inf"), float("-inf")):
            return atom("inf") if v > 0 else neg(atom("inf"))
        return num(Fraction(repr(v)))
    return num(Fraction(v))


def num(fr):
    fr = Fraction(fr)
    fp = fr.numerator % PR * pow(fr.denominator, -1, PR) % PR
    t = _fptab.get(fp)
    if t is not None:
        return t
    t = _mk("num", (fr,), _h("num", fr), 0, fr.denominator == 1, {(): fr} if fr else {}, fp)
    _fptab[fp] = t
    _tab[("num", fr)] = t
    return t


def isnum(t):
    return t.op == "num"


def numval(t):
    return t.args[0]


TRUE = FALSE = NONE = UNDEF = NAN = None


def _init_consts():
    global TRUE, FALSE, NONE, UNDEF, NAN
    _atoms.clear()
    for i in range(-6, 13):
        num(i)
    num(Fraction(1, 2))
    TRUE = atom("bool", True)
    FALSE = atom("bool", False)
    NONE = atom("const", None)
    UNDEF = atom("undef")
    NAN = atom("nan")


# ---------------------------------------------------------------- arithmetic
POLYCAP = 1200


def _from_poly(poly, fp, isint, rank, free, display):
    """intern an arithmetic term"""
    t = _fptab.get(fp)
    if t is not None:
        return t
    if poly is not None:
        poly = {m: c for m, c in poly.items() if c}
        if not poly:
            return num(0)
        if len(poly) == 1:
            (m, c), = poly.items()
            if m == ():
                return num(c)
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return _atoms[m[0][0]]
        if free:
            fr = _EMPTY
            for m in poly:
                for k, _ in m:
                    f = _atoms[k].free
                    if f and not f <= fr:
                        fr = fr | f
            free = fr
    tick()
    # key by fingerprint
    h = _h("arith", "%x" % fp)
    t = _mk("arith", display, h, rank, isint, poly, fp, free)
    _fptab[fp] = t
    _tab[("arith", fp)] = t
    _atoms[h] = t       # may be used as a (denominator) base in monomials
    return t


def _binfree(a, b):
    if a.free is b.free or not b.free:
        return a.free
    if not a.free:
        return b.free
    return a.free | b.free


def add(a, b):
    return lift2("add", _add, a, b)


def _add(a, b):
    if a.op == "bval":
        a = b2i(a)
    if b.op == "bval":
        b = b2i(b)
    if a.op == "nan" or b.op == "nan":
        return NAN
    fp = (a.fp + b.fp) % PR
    t = _fptab.get(fp)
    if t is not None:
        return t
    poly = None
    if a.poly is not None and b.poly is not None and len(a.poly) + len(b.poly) < POLYCAP:
        poly = dict(a.poly)
        for m, c in b.poly.items():
            poly[m] = poly.get(m, 0) + c
    return _from_poly(poly, fp, a.isint and b.isint, max(a.rank, b.rank), _binfree(a, b), ("+", a, b))


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def _mulmono(m1, m2):
    d = dict(m1)
    for k, e in m2:
        d[k] = d.get(k, 0) + e
    # sqrt reduction: sqrt(x)^2 -> x handled by caller (needs poly), flag it
    return tuple(sorted((k, e) for k, e in d.items() if e))


def _spread(a, b):
    """an array filled with a number, of the shape of the other factor, acts as the number"""
    if a.op == "full" and b.op != "full" and len(a.args) > 2 and a.args[1].op in ("arg", "num", "arith") and shape_of(b) is a.args[0]:
        return a.args[1]
    return a


def mul(a, b):
    return lift2("mul", _mul, a, b)


def _mul(a, b):
    if a.op == "bval":
        a = b2i(a)
    if b.op == "bval":
        b = b2i(b)
    if a.op == "nan" or b.op == "nan":
        return NAN
    if a.op == "full" or b.op == "full":
        a, b = _spread(a, b), _spread(b, a)
    if isnum(a) and numval(a) == 1:
        return b
    if isnum(b) and numval(b) == 1:
        return a
    # list/tuple repetition is handled elsewhere
    fp = a.fp * b.fp % PR
    # sqrt(x)*sqrt(x) -> x
    if a.op == "sqrt" and b is a:
        return a.args[0]
    poly = None
    special = False
    if a.poly is not None and b.poly is not None and len(a.poly) * len(b.poly) < POLYCAP:
        poly = {}
        for m1, c1 in a.poly.items():
            for m2, c2 in b.poly.items():
                m = _mulmono(m1, m2)
                for k, e in m:
                    bt = _atoms[k]
                    if e > 0 and bt.op == "arith":
                        special = True      # (sum)^-1 * (sum) -> needs expansion
                    if bt.op == "sqrt" and abs(e) >= 2:
                        special = True
                poly[m] = poly.get(m, 0) + c1 * c2
        tick(len(a.poly) * len(b.poly))
        if special:
            # rebuild through factors
            tot = num(0)
            for m, c in poly.items():
                term = num(c)
                for k, e in m:
                    term = _mul_safe(term, _pow_atom(_atoms[k], e))
                tot = _add(tot, term)
            return tot
    t = _fptab.get(fp)
    if t is not None:
        return t
    return _from_poly(poly, fp, a.isint and b.isint, max(a.rank, b.rank), _binfree(a, b), ("*", a, b))


def _mul_safe(a, b):
    """multiply without re-entering special handling forever"""
    if isnum(a) and numval(a) == 1:
        return b
    if isnum(b) and numval(b) == 1:
        return a
    fp = a.fp * b.fp % PR
    t = _fptab.get(fp)
    if t is not None:
        return t
    poly = None
    if a.poly is not None and b.poly is not None and len(a.poly) * len(b.poly) < POLYCAP:
        poly = {}
        for m1, c1 in a.poly.items():
            for m2, c2 in b.poly.items():
                m = _mulmono(m1, m2)
                poly[m] = poly.get(m, 0) + c1 * c2
    return _from_poly(poly, fp, a.isint and b.isint, max(a.rank, b.rank), _binfree(a, b), ("*", a, b))


def _pow_atom(t, e):
    if t.op == "sqrt":
        q, r = divmod(e, 2)
        base = _pow_int(t.args[0], q) if q else num(1)
        return _mul_safe(base, t) if r else base
    return _pow_int(t, e)


def _pow_int(t, e):
    if e == 0:
        return num(1)
    if e < 0:
        return _inv(_pow_int(t, -e))
    r = t
    for _ in range(e - 1):
        r = _mul(r, t)
    return r


def inv(a):
    return lift1("inv", _inv, a)


def _inv(a):
    if a.op == "bval":
        a = b2i(a)
    if a.op == "nan":
        return NAN
    if isnum(a):
        if numval(a) == 0:
            return atom("divzero")
        return num(1 / numval(a))
    if a.fp == 0:
        return atom("divzero")
    fp = pow(a.fp, -1, PR)
    t = _fptab.get(fp)
    if t is not None:
        return t
    poly = None
    if a.poly is not None and len(a.poly) == 1:
        (m, c), = a.poly.items()
        if not any(_atoms[k].op == "arith" and e < 0 for k, e in m):
            poly = {tuple((k, -e) for k, e in m): 1 / c}
    if poly is None:
        # monic denominator base
        if a.op != "arith" or a.poly is None or len(a.poly) == 1:
            base, c = a, Fraction(1)
        else:
            lead = min(a.poly)
            c = a.poly[lead]
            base = _mul(num(1 / c), a) if c != 1 else a
        if base.op == "num":
            return num(1 / c / numval(base))
        _atoms.setdefault(base.h, base)
        poly = {((base.h, -1),): 1 / c}
    return _from_poly(poly, fp, False, a.rank, a.free, ("inv", a))


def div(a, b):
    return mul(a, inv(b))


def power(a, b):
    def f(x, y):
        if isnum(y):
            e = numval(y)
            if e.denominator == 1 and abs(e) <= 12:
                return _pow_int(x, int(e)) if x.op != "sqrt" else _pow_atom(x, int(e))
            if e.denominator == 2 and abs(e) <= 12:
                s = _sqrt(x)
                r = num(1)
                for _ in range(abs(e.numerator)):
                    r = _mul(r, s)
                return r if e > 0 else _inv(r)
            if isnum(x) and e.denominator == 1:
                return num(numval(x) ** int(e))
        return atom("pow", x, y)
    return lift2("pow", f, a, b)


def sqrt(a):
    return lift1("sqrt", _sqrt, a)


def _sqrt(x):
    if isnum(x):
        v = numval(x)
        import math
        if v >= 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return num(Fraction(n, d))
    if x.op == "nan":
        return NAN
    t = atom("sqrt", x)
    return t


def floordiv(a, b):
    def f(x, y):
        if isnum(x) and isnum(y) and numval(y):
            return num(numval(x) // numval(y))
        if isnum(y) and numval(y) == 1 and x.isint:
            return x
        # (2x+c)//2 with x int
        if x.isint and isnum(y) and numval(y).denominator == 1 and numval(y) > 0 and x.poly is not None:
            n = int(numval(y))
            q = num(0); r = num(0)
            for m, c in x.poly.items():
                mt = num(1)
                for k, e in m:
                    mt = _mul(mt, _pow_atom(_atoms[k], e))
                cq, cr = divmod(c, n)
                q = _add(q, _mul(num(cq), mt)); r = _add(r, _mul(num(cr), mt))
            if isnum(r) and 0 <= numval(r) < n:
                return q
            if not isnum(q) or numval(q) != 0:
                return _add(q, atom("floordiv", r, y, isint=True))
        if not (x.isint and y.isint):
            return atom("floor", div(x, y))
        return atom("floordiv", x, y, isint=True)
    return lift2("floordiv", f, a, b)


def mod(a, b):
    def f(x, y):
        if isnum(x) and isnum(y) and numval(y):
            return num(numval(x) % numval(y))
        return atom("mod", x, y, isint=x.isint and y.isint)
    return lift2("mod", f, a, b)


def _signcanon(x):
    """(canonical +-x, sign)"""
    n = _mul(num(-1), x)
    return (x, 1) if x.fp <= n.fp else (n, -1)


def absval(a):
    def f(x):
        if isnum(x):
            return num(abs(numval(x)))
        if x.op == "nan":
            return NAN
        # pull numeric content out: abs(c*y) = |c|*abs(y)
        c, y = content(x)
        y, _ = _signcanon(y)
        r = atom("abs", y, isint=x.isint)
        return r if abs(c) == 1 else _mul(num(abs(c)), r)
    return lift1("abs", f, a)


def content(x):
    """x = c*y with y having a normalised leading coefficient (|c| > 0)"""
    if x.poly is None or not x.poly:
        return Fraction(1), x
    lead = min(x.poly)
    c = x.poly[lead]
    if abs(c) == 1:
        return Fraction(1), x
    return abs(c), _mul(num(1 / abs(c)), x)


def sign(a):
    def f(x):
        if isnum(x):
            v = numval(x)
            return num((v > 0) - (v < 0))
        if x.op == "nan":
            return NAN
        _, y = content(x)
        y, s = _signcanon(y)
        r = atom("sign", y)
        return r if s > 0 else _mul(num(-1), r)
    return lift1("sign", f, a)


ORDERED = set()


def minmax(kind, args):
    def f(*xs):
        flat = []
        for x in xs:
            if x.op == kind:
                flat.extend(x.args)
            else:
                flat.append(x)
        uniq = {}
        cst = None
        for x in flat:
            if isnum(x):
                v = numval(x)
                cst = v if cst is None else (max(cst, v) if kind == "max" else min(cst, v))
            else:
                uniq[x.h] = x
        # drop members dominated by a constant difference
        xs = list(uniq.values())
        keep = []
        for x in xs:
            dom = False
            for y in xs:
                if y is x or not (x.isint and y.isint):
                    continue
                d = _add(y, _mul(num(-1), x))
                if isnum(d) and ((numval(d) > 0) == (kind == "max")) and numval(d) != 0:
                    dom = True
            if not dom:
                keep.append(x)
        xs = keep
        if cst is not None:
            xs.append(num(cst))
        if len(xs) == 1:
            return xs[0]
        xs.sort(key=lambda t: t.h)
        if kind == "max" and len(xs) == 2 and ORDERED:
            for a, y in (xs, xs[::-1]):
                if y.op == "min" and len(y.args) == 2:
                    for b, x in (y.args, y.args[::-1]):
                        if (a.h, b.h) in ORDERED:        # max(a, min(x, b)) = min(max(x, a), b) as a <= b
                            return minmax("min", [minmax("max", [x, a]), b])
        if len(xs) == 2 and xs[0].isint and xs[1].isint:
            return ite(cmp_ge(xs[0], xs[1]), *(xs if kind == "max" else xs[::-1]))
        return atom(kind, *xs, isint=all(x.isint for x in xs))
    return lift("minmax" + kind, f, list(args))


# ---------------------------------------------------------------- decision diagrams
def okey(a):
    """variable order: order of first creation.  The reference and the code are
    analysed with one term table, so the order is the same for both."""
    return a.seq


def top_atom(t):
    return t.args[0] if t.op == "ite" else None


def _mkite(a, t, e):
    """a is an atom below which t, e live (ordering respected by the caller)"""
    if t is e:
        return t
    if t is UNDEF:
        return e
    if e is UNDEF:
        return t
    key = ("ite", a.h, t.h, e.h)
    r = _tab.get(key)
    if r is not None:
        return r
    # generalised reduction: the test is redundant if one side already covers both
    if _related(a, e) and assume(e, a, True) is t:
        return e
    if _related(a, t) and assume(t, a, False) is e:
        return t
    tick()
    h = _h("ite", "%x" % a.h, "%x" % t.h, "%x" % e.h)
    r = _mk("ite", (a, t, e), h, max(a.rank, t.rank, e.rank), t.isint and e.isint, None, h % PR,
            a.free | t.free | e.free)
    r.poly = {((h, 1),): Fraction(1)}
    _atoms[h] = r
    _tab[key] = r
    return r


def _related(a, t):
    """does t test an atom related to a? (cheap: top node chain)"""
    seen = 0
    stack = [t]
    while stack and seen < 60:
        x = stack.pop()
        if x.op == "ite":
            seen += 1
            if implied(a, True, x.args[0]) is not None or implied(a, False, x.args[0]) is not None:
                return True
            stack.append(x.args[1]); stack.append(x.args[2])
    return False


# float state bits
NINF, NEG, ZERO, POS, PINF, NANB = 1, 2, 4, 8, 16, 32
ALL6 = 63


SHAPE_ALIAS = {}   # argument -> argument term of the same shape
FACTS = []         # integer terms known to be >= 0 in the current obligation
_memo_imp = {}


_memo_lb = {}


def lower_bound(d, depth=4):
    """a constant c with d >= c, or None (linear facts only)"""
    if isnum(d):
        return numval(d)
    if d.poly is None or len(d.poly) > 6:
        return None
    key = (d.h, depth)
    if key in _memo_lb:
        return _memo_lb[key]
    c0 = Fraction(0)
    rest = []
    best = None
    for m, c in d.poly.items():
        if m == ():
            c0 = c
        elif c > 0 and all(e > 0 and _nonneg(_atoms[k]) for k, e in m):
            continue
        else:
            rest.append(m)
    if not rest:
        best = c0
    if depth:
        own = []
        for m in rest:
            for k, e in m:
                x = _atoms[k]
                if x.op == "exit" and x.extra.last is not None:
                    own.append(sub(x.extra.last, x))
        for f in own + FACTS:
            if f.poly is None:
                continue
            for m in d.poly:
                if m != () and m in f.poly and f.poly[m] * d.poly[m] > 0:
                    q = d.poly[m] / f.poly[m]
                    r = lower_bound(_add(d, _mul(num(-q), f)), depth - 1)
                    if r is not None and (best is None or r > best):
                        best = r
                    break
    _memo_lb[key] = best
    return best


def _imp_lin(a, val, b):
    """implication between integer thresholds on different linear forms"""
    ba, ta = a.args
    bb, tb = b.args
    if ba.poly is None or bb.poly is None or len(ba.poly) + len(bb.poly) > 10:
        return None
    if not val:
        ba, ta = _mul(num(-1), ba), 1 - ta
    # ba >= ta holds
    lb = lower_bound(_add(bb, _mul(num(-1), ba)))
    if lb is not None and lb + ta >= tb:
        return True
    lb = lower_bound(_add(_mul(num(-1), bb), _mul(num(-1), ba)))
    if lb is not None and lb + ta >= 1 - tb:
        return False
    return None


def implied(a, val, b):
    if a is b:
        return val
    if a.op == "ige" and b.op == "ige":
        if a.args[0] is b.args[0]:
            if val:
                if b.args[1] <= a.args[1]:
                    return True
            else:
                if b.args[1] >= a.args[1]:
                    return False
            return None
        key = (a.h, val, b.h)
        r = _memo_imp.get(key, 0)
        if r == 0:
            r = _imp_lin(a, val, b)
            _memo_imp[key] = r
        return r
    if a.op == "fst" and b.op == "fst":
        if a.args[0] is b.args[0]:
            m = a.args[1] if val else ALL6 & ~a.args[1]
            mb = b.args[1]
            if m & ~mb == 0:
                return True
            if m & mb == 0:
                return False
        return None
    if a.op == "eq" and b.op == "eq" and val:
        # x == "a"  =>  x != "b"
        x = [t for t in a.args if t in b.args]
        if x:
            o1 = [t for t in a.args if t is not x[0]]
            o2 = [t for t in b.args if t is not x[0]]
            if o1 and o2 and o1[0].op in ("const", "num", "bool") and o2[0].op in ("const", "num", "bool"):
                return o1[0] is o2[0]
    if a.op == "isinst" and b.op == "isinst" and val and a.args[0] is b.args[0]:
        if a.args[1] == b.args[1] or a.args[1] == "bool" and b.args[1] == "int":
            return True
        if a.args[1] in LAYOUTS and b.args[1] in LAYOUTS and not (a.args[1] == "int" and b.args[1] == "bool"):
            return False        # no class derives from two of these
    if a.op == "isinst" and b.op == "eq" and val:
        for x, y in (b.args, b.args[::-1]):
            if x is a.args[0] and y is NONE and a.args[1] != "NoneType":
                return False
    if a.op == "eq" and b.op == "isinst" and val:
        for x, y in (a.args, a.args[::-1]):
            if x is b.args[0] and y is NONE and b.args[1] != "NoneType":
                return False
    return None


LAYOUTS = {"int", "float", "complex", "str", "bytes", "tuple", "list", "dict", "set", "frozenset", "bool", "ndarray", "NoneType"}


def assume(t, a, val):
    """cofactor of t under literal a == val, with implied literals"""
    if t.op != "ite":
        if t.op == "bval":
            u = assume(t.args[0], a, val)
            return t if u is t.args[0] else mk_bval(u)
        if t.op == "tuple":
            na = tuple(assume(x, a, val) for x in t.args)
            return t if all(x is y for x, y in zip(na, t.args)) else mk_tuple(na)
        return t
    key = (t.h, a.h, val)
    r = _memo_assume.get(key)
    if r is not None:
        return r
    tick()
    b, x, y = t.args
    iv = implied(a, val, b)
    if iv is True:
        r = assume(x, a, val)
    elif iv is False:
        r = assume(y, a, val)
    else:
        r = _mkite(b, assume(x, a, val), assume(y, a, val))
    _memo_assume[key] = r
    return r


def ite(c, t, e):
    """c: decision diagram with TRUE/FALSE leaves"""
    if c is TRUE:
        return t
    if c is FALSE:
        return e
    if t is e:
        return t
    if t is UNDEF:
        return e
    if e is UNDEF:
        return t
    # factor structured values instead of distributing
    if t.op == e.op and t is not e:
        if t.op == "tuple" and len(t.args) == len(e.args):
            return mk_tuple(tuple(ite(c, x, y) for x, y in zip(t.args, e.args)))
        if t.op == "bval":
            return mk_bval(ite(c, t.args[0], e.args[0]))
    if t.op == "bval" and e.op == "bool" or e.op == "bval" and t.op == "bool":
        return mk_bval(ite(c, unbox(t), unbox(e)))
    m = _merge_arrays(c, t, e)
    if m is not None:
        return m
    key = (c.h, t.h, e.h)
    r = _memo_ite.get(key)
    if r is not None:
        return r
    tick()
    cand = [x.args[0] for x in (c, t, e) if x.op == "ite"]
    a = min(cand, key=okey)
    ct, ce = assume(c, a, True), assume(c, a, False)
    tt, te = assume(t, a, True), assume(t, a, False)
    et, ee = assume(e, a, True), assume(e, a, False)
    r = _mkite(a, ite(ct, tt, et), ite(ce, te, ee))
    _memo_ite[key] = r
    return r


def lift(tag, f, args):
    """apply f on leaves of the decision diagrams in args"""
    if not any(a.op == "ite" for a in args):
        return f(*args)
    key = ("L", tag) + tuple(a.h for a in args)
    r = _memo_ite.get(key)
    if r is not None:
        return r
    tick()
    a = min((x.args[0] for x in args if x.op == "ite"), key=okey)
    t = lift(tag, f, [assume(x, a, True) for x in args])
    e = lift(tag, f, [assume(x, a, False) for x in args])
    r = ite_atom(a, t, e)
    _memo_ite[key] = r
    return r


def ite_atom(a, t, e):
    return ite(bool_atom(a), t, e)


def lift1(tag, f, a):
    return lift(tag, f, [a]) if a.op == "ite" else f(a)


def lift2(tag, f, a, b):
    return lift(tag, f, [a, b]) if a.op == "ite" or b.op == "ite" else f(a, b)


TYPES = {}          # declared kinds of arguments: name -> kind


def _kind(t):
    if t.op == "arg":
        return TYPES.get(t.args[0])
    return None


_ISA = {"float": ("float",), "int": ("int",), "str": ("str",), "dict": ("dict",), "tuple": ("tuple",), "list": ("list",), "array": ("ndarray",),
        "bool": ("bool", "int"), "callable": ("function",), "xarray": ("xarray.DataArray", "xarray.core.dataarray.DataArray", "DataArray")}
_HAS = {"float": (), "int": (), "str": (), "dict": ("keys", "items", "values", "get"), "tuple": (), "list": (), "bool": (), "callable": (),
        "array": ("shape", "ndim", "size", "T", "dtype"), "xarray": ("shape", "ndim", "size", "T", "dtype", "values", "dims", "coords", "data")}
_NAMES = {"float", "int", "str", "dict", "tuple", "list", "ndarray", "bool", "NoneType", "set", "range"}


def _typed(a):
    """truth of a type-like atom from declared argument kinds, or None"""
    op = a.op
    if op == "eq":
        x, y = a.args
        for u, v in ((x, y), (y, x)):
            k = _kind(u)
            if k and v.op == "const":
                c = v.args[0]
                if c is None or (isinstance(c, str) and k != "str"):
                    return FALSE
        return None
    if op == "isinst":
        k = _kind(a.args[0])
        if k:
            n = a.args[1]
            n = n if isinstance(n, str) else str(n)
            if n in _ISA[k] or n.split(".")[-1] in _ISA[k]:
                return TRUE
            if n.split(".")[-1] in _NAMES or n.endswith("DataArray") or n.endswith("Dataset"):
                return FALSE
        return None
    if op == "isscalar":
        k = _kind(a.args[0])
        return None if not k else TRUE if k in ("float", "int", "bool", "str") else FALSE
    if op == "callable":
        k = _kind(a.args[0])
        return None if not k else TRUE if k == "callable" else FALSE
    if op == "hasattr":
        k = _kind(a.args[0])
        if k and a.args[1].op == "const":
            return TRUE if a.args[1].args[0] in _HAS[k] else FALSE
    return None


def bool_atom(a):
    """decision diagram testing atom a"""
    if a is TRUE or a is FALSE:
        return a
    if TYPES and a.op in ("eq", "isinst", "callable", "hasattr", "isscalar"):
        r = _typed(a)
        if r is not None:
            return r
    key = ("ite", a.h, TRUE.h, FALSE.h)
    r = _tab.get(key)
    if r is not None:
        return r
    return _mkite(a, TRUE, FALSE)


def NOT(c):
    return ite(c, FALSE, TRUE)


def AND(a, b):
    return ite(a, b, FALSE)


def OR(a, b):
    return ite(a, TRUE, b)


def mk_bval(c):
    """box a decision (TRUE/FALSE leaves) as a value"""
    if c is TRUE or c is FALSE:
        return c
    if c.op == "ite" and c.args[1] is TRUE and c.args[2] is FALSE and c.args[0].op not in ("ige", "fst", "eq", "isinst", "truth"):
        return c.args[0]
    return atom("bval", c)


def unbox(v):
    return truth(v)


def truth(v):
    """value -> decision diagram"""
    if v is TRUE or v is FALSE:
        return v
    if v.op == "bval":
        return v.args[0]
    if v.op == "ite":
        return lift1("truth", truth, v)
    if v.op == "const":
        return TRUE if v.args[0] else FALSE
    if v.op == "num":
        return TRUE if numval(v) else FALSE
    if v.op == "nan":
        return TRUE
    if v.op in ("tuple", "list"):
        return TRUE if v.args else FALSE
    if v.op == "undef":
        return UNDEF
    if v.op == "arith":
        return NOT(cmp_eq(v, num(0)))
    return bool_atom(v)


def b2i(v):
    """boolean box used as a number"""
    if v is TRUE:
        return num(1)
    if v is FALSE:
        return num(0)
    if v.op == "bval":
        return atom("b2i", v, isint=True)
    return v


# comparisons -----------------------------------------------------------------
def _ige(q):
    """q >= 0 for an integer-valued polynomial q"""
    if isnum(q):
        return TRUE if numval(q) >= 0 else FALSE
    if q.poly is None:
        return _fst(q, ZERO | POS | PINF)
    if FACTS or any(_atoms[k].op == "exit" for m in q.poly for k, _ in m):
        lb = lower_bound(q)
        if lb is not None and lb >= 0:
            return TRUE
        lb = lower_bound(_mul(num(-1), q))
        if lb is not None and lb >= 1:
            return FALSE
    c0 = q.poly.get((), Fraction(0))
    base = _add(q, num(-c0))
    if c0 >= 0 and all(c > 0 and all(_nonneg(_atoms[k]) for k, _ in m) for m, c in base.poly.items()):
        return TRUE
    if c0 < 0 and all(c < 0 and all(_nonneg(_atoms[k]) for k, _ in m) for m, c in base.poly.items()):
        return FALSE
    # primitive
    from math import gcd
    g = 0
    den = 1
    for m, c in base.poly.items():
        den = den * c.denominator // gcd(den, c.denominator)
    for m, c in base.poly.items():
        g = gcd(g, int(c * den))
    base = _mul(num(Fraction(den, g)), base)
    thr = -c0 * den / g          # base >= thr
    lead = min(base.poly)
    if base.poly[lead] > 0:
        thr = -((-thr.numerator) // thr.denominator)  # ceil
        return bool_atom(atom("ige", base, int(thr)))
    # base >= thr  <=>  -base <= -thr  <=> not(-base >= floor(-thr)+1)
    nb = _mul(num(-1), base)
    k = (-thr).numerator // (-thr).denominator + 1
    return NOT(bool_atom(atom("ige", nb, int(k))))


def _counts_up(a):
    """a loop variable that starts at a number >= 0 and only grows"""
    x = a.args[-1]
    if not a.isint or x.op != "phi":
        return False
    for ph, i, n in a.extra.states:
        if ph is x:
            if not (isnum(i) and numval(i) >= 0):
                return False
            stack = [n]
            while stack:
                y = stack.pop()
                if y.op == "ite":
                    stack += [y.args[1], y.args[2]]
                elif y is not ph:
                    d = sub(y, ph)
                    if not (isnum(d) and numval(d) >= 0):
                        return False
            return True
    return False


def _nonneg(a):
    if a.op == "phi":
        return a.extra == "kappa"
    if a.op == "sel":
        return a.args[0].op == "shape"
    if a.op == "exit":
        return a.extra.last is not None or _counts_up(a)
    if a.op == "call" and a.args[0].op == "glob":
        return a.args[0].args[0] == "numpy.searchsorted"
    return a.op in ("size", "abs", "b2i", "m:searchsorted", "ndim")


def _fst(q, mask):
    """state predicate of a float q"""
    if isnum(q):
        v = numval(q)
        b = POS if v > 0 else NEG if v < 0 else ZERO
        return TRUE if mask & b else FALSE
    if q.op == "nan":
        return TRUE if mask & NANB else FALSE
    if q.op == "inf":
        return TRUE if mask & PINF else FALSE
    q, c = _posscale(q)
    if c < 0:
        m = mask & (ZERO | NANB)
        if mask & NINF: m |= PINF
        if mask & PINF: m |= NINF
        if mask & NEG: m |= POS
        if mask & POS: m |= NEG
        mask = m
    if q.op == "inf":
        return TRUE if mask & PINF else FALSE
    flip = bool(mask & NANB)
    if flip:
        mask = ALL6 & ~mask
    # nan/finite-only predicates do not depend on additive constants
    if mask in (NEG | ZERO | POS, NINF | NEG | ZERO | POS | PINF) and q.poly is not None and () in q.poly and len(q.poly) > 1:
        q2 = _add(q, num(-q.poly[()]))
        r = _fst(q2, mask)
        return NOT(r) if flip else r
    if q.isint and mask == (NINF | NEG | ZERO | POS | PINF):
        r = TRUE
        return NOT(r) if flip else r
    if mask == 0:
        r = FALSE
    else:
        r = bool_atom(atom("fst", q, mask))
    return NOT(r) if flip else r


def _posscale(q):
    """(canonical q', sign) with q = positive * sign * q'"""
    if q.poly is not None and q.poly:
        lead = min(q.poly)
        c = q.poly[lead]
        if c != 1:
            return _mul(num(1 / c), q), (1 if c > 0 else -1)
        return q, 1
    n = _mul(num(-1), q)
    return (q, 1) if q.fp <= n.fp else (n, -1)


def _numeric_pair(a, b):
    return True


def _cmp(kind, a, b):
    """kind in gt ge ; a ? b"""
    for x in (a, b):
        if x.op == "nan":
            return FALSE
        if x.op == "undef":
            return UNDEF
    if a.op == "bval" or b.op == "bval" or a.op == "bool" or b.op == "bool":
        a, b = b2i(a), b2i(b)
        if a.op == "bool" or b.op == "bool":
            return bool_atom(atom("cmp_" + kind, a, b))
    if a.op in ("const", "tuple") or b.op in ("const", "tuple"):
        return bool_atom(atom("cmp_" + kind, a, b))
    if a is b:
        return (bool_atom(atom("fst", _posscale(a)[0], ALL6 & ~NANB)) if not a.isint else TRUE) if kind == "ge" else FALSE
    # comparison with infinities keeps the finite side as base
    d = _add(a, _mul(num(-1), b))
    if a.isint and b.isint:
        return _ige(d if kind == "ge" else _add(d, num(-1)))
    if _hasinf(a) or _hasinf(b):
        return bool_atom(atom("cmp_" + kind, a, b))
    return _fst(d, (POS | PINF) if kind == "gt" else (ZERO | POS | PINF))


def _hasinf(x):
    if x.op == "inf":
        return True
    return x.op == "arith" and x.poly is not None and len(x.poly) == 1 and any(_atoms[k].op == "inf" for m in x.poly for k, _ in m)


def cmp_gt(a, b):
    return lift2("gt", lambda x, y: _cmp("gt", x, y), a, b)


def cmp_ge(a, b):
    return lift2("ge", lambda x, y: _cmp("ge", x, y), a, b)


def cmp_eq(a, b):
    def f(x, y):
        if x.op == "undef" or y.op == "undef":
            return UNDEF
        if x is y:
            if x.op in ("const", "num", "bool", "tuple", "list", "none") or x.isint:
                return TRUE
            if x.op == "nan":
                return FALSE
            if x.op in ("fn", "lam", "glob"):
                return TRUE
            return _fst(x, ALL6 & ~NANB)       # x == x  <=>  not nan
        if x.op in ("nan",) or y.op in ("nan",):
            return FALSE
        if NOTNONE and (x is NONE or y is NONE):
            z = y if x is NONE else x
            if z.op == "call" and z.args[0].op == "fn" and z.args[0].args[0] in NOTNONE:
                return FALSE
        bo = ("bval", "bool")
        if x.op in bo or y.op in bo:
            if x.op in ("const",) or y.op in ("const",):
                return FALSE
            if x.op == "num" or y.op == "num":
                n, z = (x, y) if x.op == "num" else (y, x)
                if numval(n) == 1:
                    return truth(z)
                if numval(n) == 0:
                    return NOT(truth(z))
                return FALSE
            tx, ty = truth(x), truth(y)
            return ite(tx, ty, NOT(ty))
        nonnum = ("const", "tuple", "list", "dict", "fn", "lam", "glob", "attr_dims", "shape")
        if x.op in ("const", "num") and y.op in ("const", "num"):
            return FALSE        # distinct constants
        if x.op == "tuple" and y.op == "tuple":
            if len(x.args) != len(y.args):
                return FALSE
            r = TRUE
            for u, v in zip(x.args, y.args):
                r = AND(r, cmp_eq(u, v))
            return r
        if x.op in nonnum or y.op in nonnum:
            if {x.op, y.op} <= {"const", "tuple", "list", "dict", "fn", "lam"} and x.op != y.op:
                return FALSE
            s = sorted((x, y), key=lambda t: t.h)
            return bool_atom(atom("eq", *s))
        if _hasinf(x) or _hasinf(y):
            s = sorted((x, y), key=lambda t: t.h)
            return bool_atom(atom("eq", *s))
        d = _add(x, _mul(num(-1), y))
        if x.isint and y.isint:
            return AND(_ige(d), _ige(_mul(num(-1), d)))
        return _fst(d, ZERO)
    return lift2("eq", f, a, b)


def cmp_is(a, b):
    """identity test; only used against None/True/False/Ellipsis/functions"""
    def f(x, y):
        if x is y:
            return TRUE
        if x.op == "undef" or y.op == "undef":
            return UNDEF
        never = ("num", "bool", "tuple", "list", "arith", "bval", "fn", "lam", "nan", "store", "full", "dict0", "exit", "np", "phi", "maparr", "arange", "m:reshape", "m:copy", "m:ravel", "m:flatten", "eff")
        if (x is NONE and y.op in never) or (y is NONE and x.op in never):
            return FALSE
        if x.op == "const" and y.op == "const":
            return FALSE
        for u, v in ((x, y), (y, x)):
            if u is NONE and v.op == "call" and v.args[0].op == "fn" and v.args[0].args[0] in NOTNONE:
                return FALSE
        for u, v in ((x, y), (y, x)):
            if u.op == "const" and isinstance(u.args[0], str) and u.args[0].startswith("dtype:") and (v.isint or v.op in never or arrnd(v) is not None):
                return FALSE        # a number or an array is not a type
        s = sorted((x, y), key=lambda t: t.h)
        return bool_atom(atom("eq", *s))
    return lift2("is", f, a, b)


def isnan(a):
    return lift1("isnan", lambda x: _fst(x, NANB), a)


def isfinite(a):
    def f(x):
        if x.op == "undef":
            return UNDEF
        return _fst(x, NEG | ZERO | POS)
    return lift1("isfinite", f, a)


# ---------------------------------------------------------------- tuples
def mk_tuple(items):
    return atom("tuple", *items)


def mk_list(items):
    return atom("list", *items)


# ---------------------------------------------------------------- arrays
def mk_slice(lo, hi, step=None):
    lo = lo if lo is not None else NONE
    hi = hi if hi is not None else NONE
    step = step if step is not None else NONE
    if step.op == "num" and numval(step) == 1:
        step = NONE
    if lo.op == "num" and numval(lo) == 0 and step is NONE:
        lo = NONE
    return atom("slice", lo, hi, step)


def is_full_slice(t):
    return t.op == "slice" and all(a is NONE for a in t.args)


def is_index(t):
    """a basic scalar index"""
    return t.op != "slice" and t.op != "tuple" and not (t.op == "const" and t.args[0] in (None, Ellipsis))


def definitely_distinct(i, j):
    if i is j:
        return False
    if i.op == "tuple" and j.op == "tuple":
        return any(definitely_distinct(x, y) for x, y in zip(i.args, j.args))
    if i.op == "tuple":
        return definitely_distinct(i.args[0], j)
    if j.op == "tuple":
        return definitely_distinct(i, j.args[0])
    if i.op == "const" and j.op == "const" and isinstance(i.args[0], str) and isinstance(j.args[0], str):
        return i.args[0] != j.args[0]
    if i.isint and j.isint:
        d = _add(i, _mul(num(-1), j))
        if isnum(d) and numval(d) != 0:
            # -1 versus n-1 may coincide: only if one is a negative literal
            neg_i = isnum(i) and numval(i) < 0
            neg_j = isnum(j) and numval(j) < 0
            if neg_i != neg_j and not (isnum(i) and isnum(j)):
                return False
            if neg_i != neg_j:
                return False
            return True
        if i.op == "slice":
            return False
    # half-open slices [:k] and [k:]
    if i.op == "slice" and j.op == "slice":
        return (i.args[1] is j.args[0] and i.args[1] is not NONE and j.args[2] is NONE and i.args[2] is NONE) or \
               (j.args[1] is i.args[0] and j.args[1] is not NONE and j.args[2] is NONE and i.args[2] is NONE)
    for x, y in ((i, j), (j, i)):
        if x.op == "slice" and y.isint and x.args[2] is NONE:
            lo, hi = x.args[0], x.args[1]
            if isnum(y) and numval(y) >= 0 and lo.op == "num" and numval(lo) > numval(y):
                return True
    return False


def _path(idx):
    return list(idx.args) if idx.op == "tuple" else [idx]


def _unpath(p):
    return p[0] if len(p) == 1 else mk_tuple(tuple(p))


def _negidx(a, idx):
    """x[-k] -> x[n-k]"""
    p = _path(idx)
    if not any(isnum(x) and numval(x) < 0 for x in p) or a.op in ("tuple", "list", "dict0", "undef", "kwargs", "ite", "call", "attr", "shape"):
        return idx
    if a.op == "sel" and _compose(_path(a.args[1]), p) is not None and any(x.op == "slice" for x in _path(a.args[1])):
        return idx
    out = []
    for j, x in enumerate(p):
        if x.op == "const" or x.op == "bval" or x.op == "tuple":
            return idx
        if isnum(x) and numval(x) < 0:
            d = length(a) if j == 0 else dim(a, j)
            if d.op == "ite":
                return idx
            x = add(d, x)
        out.append(x)
    return _unpath(out)


def _extents(a, idx):
    """x[:-1] -> x[:n-1], x[:n] -> x[:], for an axis of explicit length n"""
    p = _path(idx)
    if not any(x.op == "slice" and x.args[1] is not NONE and x.args[2] is NONE for x in p):
        return idx
    if any(x.op in ("const", "bval", "tuple") for x in p):
        return idx
    sh = shape_of(a)
    if sh.op != "tuple":
        return idx
    out = []
    for j, x in enumerate(p):
        if x.op == "slice" and x.args[2] is NONE and x.args[1] is not NONE and j < len(sh.args):
            n = sh.args[j]
            hi = x.args[1]
            if isnum(hi) and numval(hi) == -1:
                hi = sub(n, num(1))
            x = mk_slice(x.args[0], NONE if hi is n else hi)
        out.append(x)
    return _unpath(out)


def _trim(idx):
    """x[i, :] -> x[i]"""
    if idx.op == "tuple" and len(idx.args) > 1 and is_full_slice(idx.args[-1]):
        p = list(idx.args)
        while len(p) > 1 and is_full_slice(p[-1]):
            p.pop()
        if any(x.op == "const" and x.args[0] is Ellipsis for x in p):
            return idx
        return _unpath(p)
    return idx


def select(a, idx):
    idx = _negidx(a, _trim(_extents(a, idx)))
    if idx.op == "ite" or (idx.op == "tuple" and any(x.op == "ite" for x in idx.args)):
        if idx.op == "tuple":
            return lift("selt", lambda b, *xs: select(b, mk_tuple(tuple(xs))), [a] + list(idx.args))
        return lift2("sel", select, a, idx)
    if a.op == "ite":
        return lift2("sel", select, a, idx)
    if a.op == "float32":
        return lift1("float32", lambda x: x if x.op in ("num", "fst") else atom("float32", x), select(a.args[0], idx))
    if is_full_slice(idx) and a.op not in ("store", "tuple", "list", "maparr", "exit"):
        return a
    p = _path(idx)
    # sequences
    if a.op in ("tuple", "list"):
        k = p[0]
        if isnum(k) and numval(k).denominator == 1:
            n = int(numval(k))
            if -len(a.args) <= n < len(a.args):
                r = a.args[n]
                return select(r, _unpath(p[1:])) if len(p) > 1 else r
            return atom("indexerror", a, k)
        if k.op == "slice" and all(x is NONE or isnum(x) for x in k.args) and len(p) == 1:
            s = slice(*[None if x is NONE else int(numval(x)) for x in k.args])
            return atom(a.op, *a.args[s])
    if a.op == "undef":
        return UNDEF
    if a.op == "store":
        base, i, v = a.args
        if i is idx:
            return v
        ip = _path(i)
        if len(ip) <= len(p) and all(x is y for x, y in zip(ip, p)) and all(_point(x) for x in ip):
            return select(v, _unpath(p[len(ip):])) if len(p) > len(ip) else v
        if definitely_distinct(i, idx):
            return select(base, idx)
        if len(ip) == len(p) and all(_point(x) and x.isint for x in ip) and all(_point(x) and x.isint for x in p):
            c = TRUE
            for x, y in zip(ip, p):
                c = AND(c, cmp_eq(x, y))
            return ite(c, v, select(base, idx))
        if _whole(i):
            # x[:] = v : reading any element gives v (scalar) or v[idx]
            if v.op in ("num", "nan", "bool", "inf", "const"):
                return v
            if all(is_full_slice(x) for x in ip) and len(p) >= len(ip) and v.op != "arith":
                return select(v, idx)
            if all(is_full_slice(x) for x in ip):
                return _elementwise_select(v, idx)
        if len(ip) == len(p) and len(ip) > 1 and all(is_full_slice(x) or x is y for x, y in zip(ip, p)):
            # C[:, 3] = Y ; C[i, 3]
            rest = [y for x, y in zip(ip, p) if is_full_slice(x)]
            if rest:
                return _elementwise_select(v, _unpath(rest))
        r = _select_slicestore(a, ip, v, idx, p)
        if r is not None:
            return r
    if a.op == "full" and all(_point(x) for x in p):
        sh = a.args[0]
        if sh.op == "tuple" and len(sh.args) > len(p):
            rest = sh.args[len(p):]
            return atom("full", rest[0] if len(rest) == 1 else mk_tuple(rest), *a.args[1:])
        return a.args[1]
    if a.op == "maparr" and all(_point(x) for x in p):
        r = _select_map(a, idx, p)
        if r is not None:
            return r
    if a.op == "arith" and arrnd(a) == len(p):
        r = _select_arith(a, p)
        if r is not None:
            return r
    if a.op in ("sqrt", "abs", "sign") and arrnd(a) == len(p) and all(x.isint and _point(x) for x in p):
        return {"sqrt": sqrt, "abs": absval, "sign": sign}[a.op](select(a.args[0], idx))
    if a.op == "view":
        # view(base, path) composed
        return select(a.args[0], _compose(_path(a.args[1]), p))
    if a.op == "sel":
        # a[i][j] -> a[i,j] when i are points or slices composable
        base, i = a.args
        if i.op not in ("slice", "tuple") and arrnd(base) == 1:
            # one index leaves nothing to index, unless it is an array
            return select(base, select(i, idx))
        c = _compose(_path(i), p)
        if c is not None:
            return select(base, _unpath(c))
    if a.op == "bval":
        pass
    if a.op == "arange" and len(p) == 1 and _point(p[0]) and p[0].op != "slice" and (p[0].isint):
        lo = a.args[0]
        if not (isnum(p[0]) and numval(p[0]) < 0):
            return add(lo, p[0])
    if a.op == "dict0":
        return atom("keyerror", idx)
    return atom("sel", a, _unpath(p), isint=_int_elems(a))


def _select_slicestore(a, ip, v, idx, p):
    """a = store(base, slices, v): the element at integer position p (assumed in range)"""
    if len(ip) != len(p) or not any(x.op == "slice" for x in ip):
        return None
    if not all(y.isint and _point(y) and not (isnum(y) and numval(y) < 0) for y in p):
        return None
    c = TRUE
    rest = []
    for j, (x, y) in enumerate(zip(ip, p)):
        if x.op != "slice":
            if not (x.isint and _point(x)):
                return None
            c = AND(c, cmp_eq(x, y))
            continue
        lo, hi, st = x.args
        if st is not NONE or not (lo is NONE or lo.isint) or not (hi is NONE or hi.isint):
            return None
        n = None
        neglo = False
        if isnum(lo) and numval(lo) < 0:
            n = length(a.args[0]) if j == 0 else dim(a.args[0], j)
            if n.op == "ite" or not n.isint:
                return None
            lo = add(n, lo)
            neglo = True
        if isnum(hi) and numval(hi) < 0:
            n = n or (length(a.args[0]) if j == 0 else dim(a.args[0], j))
            if n.op == "ite" or not n.isint:
                return None
            hi = add(n, hi)
        if lo is not NONE:
            c = AND(c, cmp_ge(y, lo))
        if hi is not NONE:
            c = AND(c, cmp_gt(hi, y))
        rest.append(None if neglo else (y if lo is NONE else sub(y, lo)))
    if c is FALSE:
        return select(a.args[0], idx)
    if v.op in ("num", "nan", "bool", "inf", "const"):
        w = v
    elif arrnd(v) == 0:
        w = v
    elif arrnd(v) == len(rest) and None not in rest:
        w = select(v, _unpath(rest))
    else:
        return None
    return ite(c, w, select(a.args[0], idx))


def _int_elems(a):
    if a.op in ("sel", "store"):
        return _int_elems(a.args[0])
    if a.op == "shape":
        return True
    if a.op == "full":
        return a.args[1].isint and a.args[2].op == "const" and a.args[2].args[0] == "int"
    return a.extra == "intarray"


def _elementwise_select(v, idx):
    if v.op in ("num", "nan", "bool", "inf"):
        return v
    return select(v, idx)


def _point(x):
    return x.op not in ("slice", "tuple", "bval") and not (x.op == "const" and x.args[0] in (None, Ellipsis)) and x.extra != "array"


def _whole(i):
    return all(is_full_slice(x) or (x.op == "const" and x.args[0] is Ellipsis) for x in _path(i))


def _compose(p1, p2):
    """index path of a[p1][p2] w.r.t. a, or None"""
    out = []
    rest = list(p2)
    if any((x.op == "const" and x.args[0] in (None, Ellipsis)) or x.op in ("bval", "tuple") for x in p1):
        return None
    for x in p1:
        if x.op == "slice":
            if not rest:
                out.append(x)
                continue
            y = rest.pop(0)
            lo, hi, st = x.args
            if is_full_slice(x):
                out.append(y)
            elif st is NONE and y.op == "slice" and y.args[2] is NONE:
                ylo, yhi = y.args[0], y.args[1]
                def nonneg(z):
                    return z is NONE or (z.isint and not (isnum(z) and numval(z) < 0))
                if not nonneg(ylo) or not nonneg(yhi):
                    return None
                l0 = num(0) if lo is NONE else lo
                if isnum(l0) and numval(l0) < 0:
                    return None
                nlo = l0 if ylo is NONE else add(l0, ylo)
                nhi = hi if yhi is NONE else add(l0, yhi)
                out.append(mk_slice(nlo, nhi))
            elif st is NONE and y.isint and _point(y):
                l0 = num(0) if lo is NONE else lo
                if isnum(y) and numval(y) < 0:
                    if hi is NONE:
                        out.append(y)
                    else:
                        out.append(add(hi, y))
                else:
                    if isnum(l0) and numval(l0) < 0:
                        return None
                    out.append(add(l0, y))
            else:
                return None
        else:
            out.append(x)
    out.extend(rest)
    return out


def store(a, idx, v):
    if a.op == "undef":
        return UNDEF
    idx = _negidx(a, _trim(_extents(a, idx)))
    if idx.op == "ite":
        return lift("sto", store, [a, idx, v]) if a.op != "ite" and v.op != "ite" else atom("store", a, idx, v)
    p = _path(idx)
    if a.op in ("tuple", "list"):
        k = p[0]
        if isnum(k) and numval(k).denominator == 1:
            n = int(numval(k))
            if -len(a.args) <= n < len(a.args):
                items = list(a.args)
                items[n] = v if len(p) == 1 else store(items[n], _unpath(p[1:]), v)
                return atom(a.op, *items)
    if a.op == "view":
        c = _compose(_path(a.args[1]), p)
        if c is not None:
            return atom("view", store(a.args[0], _unpath(c), v), a.args[1])
    if len(p) > 1 and p[0].op == "const" and isinstance(p[0].args[0], str):
        # nested: d["k"][i] = v
        return store(a, p[0], store(select(a, p[0]), _unpath(p[1:]), v))
    if v is select_quiet(a, idx) and all(_point(x) for x in p):
        return a
    if _whole(idx) and len(p) == 1 and v.op in ("num", "nan", "bool", "inf") and a.op == "full":
        return atom("full", a.args[0], v, a.args[2], extra=a.extra)
    if _whole(idx) and len(p) == 1 and v.op == "bool" and _booleans(a) is not None:
        return atom("full", length(_booleans(a)), v, const("bool"))
    # push past / overwrite earlier stores at the same index; keep distinct indices sorted
    if a.op == "store":
        base, i, w = a.args
        if i is idx:
            return store(base, idx, v)
        if definitely_distinct(i, idx) and idx.h < i.h:
            return atom("store", store(base, idx, v), i, w, extra=a.extra)
        if definitely_distinct(i, idx) and _has_store(base, idx):
            return atom("store", store(base, idx, v), i, w, extra=a.extra)
    return atom("store", a, _unpath(p), v, extra=a.extra)


def _root_array(a, depth=0):
    """the array that a chain of element assignments, possibly in loops, started from"""
    while depth < 40:
        depth += 1
        if a.op in ("store", "maparr"):
            a = a.args[0]
        elif a.op == "ite":
            x, y = _root_array(a.args[1], depth), _root_array(a.args[2], depth)
            return x if x is y else None
        elif a.op == "exit":
            b = _root_array(a.args[-1], depth)
            st = [(i, n) for ph, i, n in a.extra.states if ph is b]
            if not st or _root_array(st[0][1], depth) is not b:
                return None
            a = st[0][0]
        elif a.op == "phi" and isinstance(a.extra, Term) and a.extra is not a:
            return a
        else:
            return a
    return None


def _booleans(a):
    """the one-dimensional array of truth values that a is a version of"""
    r = _root_array(a)
    for _ in range(8):
        if r is not None and r.op == "phi" and isinstance(r.extra, Term):
            r = _root_array(r.extra)
    if r is not None and (r.op == "bval" and _some_array(r) is not None and arrnd(_some_array(r)) == 1 or r.op == "full" and r.args[2].args[0] == "bool" and arrnd(r) == 1):
        return r
    return None


def _has_store(a, idx):
    while a.op == "store":
        if a.args[1] is idx:
            return True
        if not definitely_distinct(a.args[1], idx):
            return False
        a = a.args[0]
    return False


def select_quiet(a, idx):
    if a.op in ("store", "full", "arr"):
        return select(a, idx)
    return None if a.op == "ite" else (select(a, idx) if a.op in ("phi", "arg", "sel") else None)


def _stores(a):
    out = []
    while a.op == "store":
        out.append((a.args[1], a.args[2]))
        a = a.args[0]
    return a, out[::-1]


def _same_base(b, x):
    return b is x or b.op == "full" and x.op == "full" and b.args[0] is x.args[0] and b.args[1].op == "uninit" and b.args[2:] == x.args[2:]


def _equal_under(c, x, y):
    """c implies that the integers x and y are equal"""
    if not (x.isint or isnum(x)) or not (y.isint or isnum(y)):
        return False
    return simplify_under(c, truth(cmp_eq(x, y))) is TRUE


def _merge_arrays(c, t, e):
    """ite over store chains -> store of ite, when both share the base"""
    # a loop that runs zero times leaves the array as it was (an empty one, if the loop covers it)
    if t.op == "maparr" and _same_base(t.args[0], e) and c is cmp_gt(t.args[2], num(0)):
        return t
    if e.op == "maparr" and _same_base(e.args[0], t) and c is NOT(cmp_gt(e.args[2], num(0))):
        return e
    if t.op != "store" and e.op != "store":
        return None
    if t.op == "ite" or e.op == "ite":
        return None
    bt, st = _stores(t)
    be, se = _stores(e)
    # common prefix
    if bt is not be:
        return None
    n = 0
    while n < len(st) and n < len(se) and st[n][0] is se[n][0] and st[n][1] is se[n][1]:
        n += 1
    base = bt
    for i, v in st[:n]:
        base = store(base, i, v)
    rt, re_ = st[n:], se[n:]
    it, ie = [i for i, _ in rt], [i for i, _ in re_]
    if len(it) == len(ie) and all(x is y for x, y in zip(it, ie)):
        for (i, v), (_, w) in zip(rt, re_):
            base = store(base, i, ite(c, v, w))
        return base
    if len(it) == len(ie) and c.op == "ite":
        # the same place, written differently: equal in the branch that applies
        use = [x if x is y or _equal_under(NOT(c), x, y) else y if _equal_under(c, x, y) else None for x, y in zip(it, ie)]
        if None not in use:
            for i, (_, v), (_, w) in zip(use, rt, re_):
                base = store(base, i, ite(c, v, w))
            return base
    allidx = list(dict.fromkeys(it + ie))
    if all(definitely_distinct(x, y) for x, y in itertools.combinations(allidx, 2)) and all(all(_point(z) for z in _path(x)) for x in allidx):
        dt, de = dict(rt), dict(re_)
        for i in allidx:
            old = select(base, i)
            base = store(base, i, ite(c, dt.get(i, old), de.get(i, old)))
        return base
    if not all(all(_point(z) for z in _path(x)) for x in allidx):
        return None
    # possibly aliasing: only handle "one side is a prefix of the other"
    if len(it) == 0 or len(ie) == 0:
        rest = rt or re_
        cc = c if rt else NOT(c)
        for i, v in rest:
            base = store(base, i, ite(cc, v, select(base, i)))
        return base
    return None


# ---------------------------------------------------------------- shapes
def shape_of(a):
    """term for a.shape"""
    if a.op in ("store", "maparr"):
        return shape_of(a.args[0])
    if a.op == "arg" and a.args[0] in SHAPE_ALIAS:
        return atom("shape", SHAPE_ALIAS[a.args[0]])
    if a.op == "full":
        return a.args[0] if a.args[0].op == "tuple" else atom("shape", a) if a.args[0].extra == "shape" else a.args[0]
    if a.op == "ite":
        return lift1("shape", shape_of, a)
    if a.op == "exit":
        s = _loop_shape(a)
        if s is not None:
            return s
    if a.op == "phi" and isinstance(a.extra, Term):
        return shape_of(a.extra)
    if a.op == "bval":
        b = _some_array(a)
        if b is not None:
            return shape_of(b)
    if a.op == "m:reshape" and len(a.args) == 2 and a.args[1].op == "tuple" and not any(isnum(x) and numval(x) < 0 for x in a.args[1].args):
        return a.args[1]
    return atom("shape", a)


def _loop_shape(a):
    L, x = a.extra, a.args[-1]
    base, _ = _stores(x)
    if base.op == "phi":
        for ph, init, nxt in L.states:
            if ph is base:
                b2, _ = _stores(nxt)
                if b2 is base:
                    return shape_of(init)
    return None


def length(a):
    if a.op in ("tuple", "list"):
        return num(len(a.args))
    if a.op == "ite":
        return lift1("len", length, a)
    if a.op == "arange":
        return sub(a.args[1], a.args[0])
    if a.op == "bval" or a.op == "arith":
        b = _some_array(a)
        if b is not None:
            return length(b)
    if a.op == "sel":
        p = _path(a.args[1])
        sl = [x for x in p if x.op == "slice"]
        if sl and p[0] is sl[0] or (sl and all(_point(x) for x in p[:p.index(sl[0])])):
            s = sl[0]
            if is_full_slice(s):
                return dim(a.args[0], p.index(s))
            if s.args[2] is NONE and s.args[1] is not NONE and not (isnum(s.args[1]) and numval(s.args[1]) < 0):
                lo = num(0) if s.args[0] is NONE else s.args[0]
                return sub(s.args[1], lo)
    return dim(a, 0)


def _some_array(a):
    """the one array that an elementwise test looks at"""
    if a.op != "bval":
        return None
    arrs, seen, stack = set(), set(), [a.args[0]]
    while stack:
        x = stack.pop()
        if x.h in seen:
            continue
        seen.add(x.h)
        if x.op in ("ite", "fst", "ige"):
            stack += [y for y in x.args if isinstance(y, Term)]
        elif x.op == "arith" and x.poly is not None:
            stack += [_atoms[k] for m in x.poly for k, _ in m]
        else:
            d = arrnd(x)
            if d is None:
                return None
            if d:
                arrs.add(x)
    return arrs.pop() if len(arrs) == 1 else None


def dim(a, k):
    s = shape_of(a)
    if s.op == "tuple":
        if -len(s.args) <= k < len(s.args):
            return s.args[k]
    if s.op == "ite":
        return lift1("dim%d" % k, lambda x: x.args[k] if x.op == "tuple" and k < len(x.args) else (x if x.isint and k in (0, -1) else atom("sel", x, num(k), isint=True)), s)
    if s.isint and k in (0, -1):
        return s
    if s.op == "shape":
        nd = s.args[0].extra
        if isinstance(nd, tuple) and nd[0] == "nd" and k < 0:
            k += nd[1]
    return atom("sel", s, num(k), isint=True)


# ---------------------------------------------------------------- loops
_phi_ctr = [0]


class Loop:
    __slots__ = ("states", "cont", "last")


def new_phi(name, isint=False, extra=None):
    _phi_ctr[0] += 1
    u = ("u", _phi_ctr[0])
    t = atom("phi", "u%d" % _phi_ctr[0], isint=isint, extra=extra)
    t.free = frozenset([t.h])
    t.line = CUR_LINE[0]
    return t


def subst(t, m, memo=None):
    """replace phi terms (map h->Term) and renormalise"""
    if not m:
        return t
    if memo is None:
        memo = {}
    return _subst(t, m, frozenset(m), memo)


def _subst(t, m, keys, memo):
    if not (t.free & keys):
        return t
    r = memo.get(t.h)
    if r is not None:
        return r
    tick()
    op = t.op
    if op == "phi":
        r = m.get(t.h, t)
    elif op == "ite":
        c = _subst(t.args[0], m, keys, memo)
        r = ite(truth(c), _subst(t.args[1], m, keys, memo), _subst(t.args[2], m, keys, memo))
    elif op == "arith":
        if t.poly is not None:
            r = num(0)
            for mono, c in t.poly.items():
                x = num(c)
                for k, e in mono:
                    x = mul(x, _powi(_subst(_atoms[k], m, keys, memo), e))
                r = add(r, x)
        else:
            d = t.args
            if d[0] == "+":
                r = add(_subst(d[1], m, keys, memo), _subst(d[2], m, keys, memo))
            elif d[0] == "*":
                r = mul(_subst(d[1], m, keys, memo), _subst(d[2], m, keys, memo))
            else:
                r = inv(_subst(d[1], m, keys, memo))
    elif op == "maparr":
        init, k, n, ent = _open_map(t)
        r = mk_maparr(_subst(init, m, keys, memo), _subst(n, m, keys, memo), k, [(subst(i, m, memo), subst(v, m, memo)) for i, v in ent])
    elif op == "exit":
        # bound names are level-tagged canonical names: no replacement can capture them
        L = t.extra
        sts = [(ph, _subst(init, m, keys, memo), _subst(nxt, m, keys, memo)) for ph, init, nxt in L.states]
        r = mk_exit(sts, truth(_subst(L.cont, m, keys, memo)), TRUE, _subst(t.args[-1], m, keys, memo))
        if t.op == "exit" and r.op == "exit" and t.isint:
            r.isint = True
    else:
        args = tuple(_subst(a, m, keys, memo) if isinstance(a, Term) else a for a in t.args)
        r = rebuild(op, args, t)
    memo[t.h] = r
    return r


def _powi(t, e):
    if t.op == "ite":
        return lift1("pow%d" % e, lambda x: _pow_atom(x, e) if x.op != "bval" else _pow_atom(b2i(x), e), t)
    return _pow_atom(t, e)


def rebuild(op, args, t):
    if op == "ige":
        return mk_bval(_ige_val(args[0], args[1]))
    if op == "fst":
        return mk_bval(lift1("fst%d" % args[1], lambda x: _fst(x, args[1]), args[0]))
    if op == "eq":
        return mk_bval(cmp_eq(args[0], args[1]))
    if op in ("cmp_gt", "cmp_ge"):
        return mk_bval((cmp_gt if op == "cmp_gt" else cmp_ge)(args[0], args[1]))
    if op == "bval":
        return mk_bval(args[0])
    if op == "b2i":
        return b2i(args[0])
    if op == "sqrt":
        return sqrt(args[0])
    if op == "abs":
        return absval(args[0])
    if op == "sign":
        return sign(args[0])
    if op in ("max", "min"):
        return minmax(op, args)
    if op == "sel":
        return select(args[0], args[1])
    if op == "store":
        return store(args[0], args[1], args[2])
    if op == "slice":
        return mk_slice(*args)
    if op == "tuple":
        return mk_tuple(args)
    if op == "list":
        return mk_list(args)
    if op == "shape":
        return shape_of(args[0])
    if op == "floordiv":
        return floordiv(*args)
    if op == "mod":
        return mod(*args)
    if op == "pow":
        return power(*args)
    if op in REBUILD:
        return REBUILD[op](args, t)
    ta = [a for a in args if isinstance(a, Term)]
    if any(a.op == "ite" for a in ta) and op not in NOLIFT:
        spots = [i for i, a in enumerate(args) if isinstance(a, Term)]
        def f(*xs):
            l = list(args)
            for i, x in zip(spots, xs):
                l[i] = x
            return atom(op, *l, isint=t.isint, extra=t.extra)
        return lift("rb" + op + repr([a for a in args if not isinstance(a, Term)]), f, ta)
    return atom(op, *args, isint=t.isint, extra=t.extra)


REBUILD = {}
NOLIFT = {"tuple", "list", "store", "dict", "lam", "full"}


def _ige_val(base, thr):
    return lift1("ige%d" % thr, lambda x: _cmp("ge", x, num(thr)), base)


def simplify_under(c, t):
    """t simplified on the care set c (decision diagram)"""
    if c is TRUE or t.op not in ("ite", "bval", "tuple", "store"):
        if t.op != "arith" or t.poly is None:
            return t
    if c is FALSE:
        return UNDEF
    if t.op == "bval":
        return mk_bval(simplify_under(c, t.args[0]))
    if t.op == "tuple":
        return mk_tuple(tuple(simplify_under(c, x) for x in t.args))
    if t.op == "store":
        return store(simplify_under(c, t.args[0]), t.args[1], simplify_under(c, t.args[2]))
    if t.op == "ite":
        key = ("care", c.h, t.h)
        r = _memo_ite.get(key)
        if r is None:
            r = _care(c, t)
            _memo_ite[key] = r
        return r
    return t


def _care(c, t):
    if c is TRUE:
        return t
    if c is FALSE:
        return UNDEF
    if t.op != "ite":
        return t
    a = t.args[0]
    ca = c.args[0]
    if okey(ca) < okey(a):
        # condition tests an earlier atom: existentially quantify unless it decides t
        x = _care(c.args[1], assume(t, ca, True))
        y = _care(c.args[2], assume(t, ca, False))
        if x is UNDEF:
            return y
        if y is UNDEF:
            return x
        if x is y:
            return x
        return _care(ite(c.args[1], TRUE, c.args[2]), t) if True else t
    x = _care(assume(c, a, True), t.args[1])
    y = _care(assume(c, a, False), t.args[2])
    return _mkite(a, x, y)


def under(t, lits, memo=None):
    """contextual simplification: every decision implied by the literals, at any depth"""
    if not lits:
        return t
    if memo is None:
        memo = {}
    return _under(t, lits, memo)


def _under(t, lits, memo):
    op = t.op
    r = memo.get(t.h)
    if r is not None:
        return r
    if op in ("num", "arg", "const", "bool", "nan", "phi", "glob", "fn", "bv", "kwargs"):
        return t
    tick()
    r = None
    if op == "ite":
        a = t.args[0]
        for b, v in lits:
            iv = implied(b, v, a)
            if iv is not None:
                r = _under(t.args[1] if iv else t.args[2], lits, memo)
                break
        if r is None:
            x, y = _under(t.args[1], lits, memo), _under(t.args[2], lits, memo)
            c = _under(a, lits, memo)
            r = t if (c is a and x is t.args[1] and y is t.args[2]) else ite(truth(c) if c is not a else bool_atom(a), x, y)
    elif op == "arith":
        if t.poly is not None:
            ch = False
            tot = []
            for mono, c in t.poly.items():
                fs = []
                for k, e in mono:
                    u = _under(_atoms[k], lits, memo)
                    if u is not _atoms[k]:
                        ch = True
                    fs.append((u, e))
                tot.append((c, fs))
            if not ch:
                r = t
            else:
                r = num(0)
                for c, fs in tot:
                    x = num(c)
                    for u, e in fs:
                        x = mul(x, _powi(u, e))
                    r = add(r, x)
        else:
            d = t.args
            xs = [_under(x, lits, memo) for x in d[1:]]
            if all(x is y for x, y in zip(xs, d[1:])):
                r = t
            else:
                r = add(*xs) if d[0] == "+" else mul(*xs) if d[0] == "*" else inv(*xs)
    elif op == "maparr":
        init, k, n, ent = _open_map(t)
        i2, n2 = _under(init, lits, memo), _under(n, lits, memo)
        e2 = [(i, _under(v, lits, memo)) for i, v in ent]
        r = i2 if truth(_under(cmp_gt(n2, num(0)), lits, memo)) is FALSE else t if (i2 is init and n2 is n and all(x[1] is y[1] for x, y in zip(ent, e2))) else mk_maparr(i2, n2, k, e2)
    elif op == "exit":
        L = t.extra
        parts = [(ph, _under(i, lits, memo), _under(n, lits, memo)) for ph, i, n in L.states]
        c = _under(L.cont, lits, memo)
        x = _under(t.args[-1], lits, memo)
        if c is L.cont and x is t.args[-1] and all(p[1] is s[1] and p[2] is s[2] for p, s in zip(parts, L.states)):
            r = t
        else:
            # bound names are level-tagged: nothing that comes in can be captured
            r = mk_exit(parts, truth(c), TRUE, x)
    else:
        args = tuple(_under(a, lits, memo) if isinstance(a, Term) else a for a in t.args)
        if all(x is y for x, y in zip(args, t.args)):
            r = t
        else:
            r = rebuild(op, args, t)
        if r.op == "full" and lits and r.args[0].isint and not isnum(r.args[0]) and truth(_under(cmp_gt(r.args[0], num(0)), lits, memo)) is FALSE:
            r = _blank(r)       # no elements
    memo[t.h] = r
    return r


def replace(t, m):
    """closed terms replaced by others (map h -> Term), at any depth"""
    return _under(t, [], dict(m)) if m else t


def literals(c):
    """literals that hold whenever decision c holds (top-level conjuncts)"""
    out = []
    cur = c
    while cur.op == "ite":
        a, t, e = cur.args
        if e is FALSE:
            out.append((a, True)); cur = t
        elif t is FALSE:
            out.append((a, False)); cur = e
        else:
            break
    return out


_loop_norm = {}
_loop_names = {}


def _leafmap(t, f):
    if t.op != "ite":
        return t if t is UNDEF else f(t)
    return ite(bool_atom(t.args[0]), _leafmap(t.args[1], f), _leafmap(t.args[2], f))


def _increments(n, ph):
    """every new value is the old one plus something"""
    moved = False
    stack = [n]
    while stack:
        x = stack.pop()
        if x.op == "ite":
            stack += [x.args[1], x.args[2]]
        elif x is ph:
            pass
        elif x.op == "arith" and x.poly is not None and x.poly.get(((ph.h, 1),)) == 1 and sum(1 for m in x.poly if any(k == ph.h for k, _ in m)) == 1:
            moved = True
        elif x is not UNDEF:
            return False
    return moved


def _split_dicts(states, cont):
    """a dictionary changed at constant keys: one state per key"""
    rep, new = {}, {}
    for ph, i, n in states:
        if n.op != "store":
            continue
        b, ss = _stores(n)
        if b is not ph or not all(k.op == "const" and isinstance(k.args[0], str) for k, _ in ss):
            continue
        ib, ik = _stores(i)
        if ib.op != "dict0" or not all(k.op == "const" for k, _ in ik):
            continue
        have = {k.h: v for k, v in ik}
        d = i
        new[ph.h] = []
        for k in dict.fromkeys(k for k, _ in ss):
            i0 = have.get(k.h, UNDEF)
            q = new_phi("d", False, i0 if i0 is not UNDEF and arrnd(i0) else None)
            new[ph.h].append((q, i0, k))
            d = store(d, k, q)
        rep[ph.h] = d
    if not rep:
        return states, cont, None
    memo = {}
    out = []
    for ph, i, n in states:
        n2 = subst(n, rep, memo)
        if ph.h in rep:
            out += [(q, i0, select(n2, k)) for q, i0, k in new[ph.h]]
        else:
            out.append((ph, i, n2))
    return out, truth(subst(cont, rep, memo)), rep


def _normalise_loop(states, cont, raw):
    """constant, invariant, affine and bisimilar states removed -> (states, cont, counter, substitutions made, header symbols)"""
    allphi = frozenset(ph.h for ph, _, _ in states)
    reps = []
    if not raw:
        states = [(ph, i, simplify_under(cont, n)) for ph, i, n in states]
    states, cont, rep = _split_dicts(states, cont)
    if rep:
        reps.append(rep)
        allphi = frozenset(ph.h for ph, _, _ in states)
    # --- constants, invariants, counters -----------------------------------
    changed = True
    kappa = None
    rounds = 0
    while changed:
        rounds += 1
        if rounds > 60:
            raise Blowup("loop normalisation")
        changed = False
        rep = {}
        rest = []
        for ph, i, n in states:
            if n is UNDEF:
                n = i
            if n is ph or n is i and not (n.free & allphi) :
                rep[ph.h] = i
            elif i is UNDEF and not (n.free & allphi):
                rep[ph.h] = n
            else:
                rest.append((ph, i, n))
        if rep:
            changed = True
            memo = {}
            states = [(ph, i, subst(n, rep, memo)) for ph, i, n in rest]
            cont = truth(subst(cont, rep, memo))
            reps.append(rep)
            if not raw:
                states = [(ph, i, simplify_under(cont, n)) for ph, i, n in states]
            continue
        # affine counters -> kappa
        rep = {}
        rest = []
        for ph, i, n in states:
            step = None
            if n.op == "arith" or n.op == "num":
                d = sub(n, ph)
                if not (d.free & allphi) and d.op != "ite":
                    step = d
            if step is not None and ph is not kappa and i.op != "undef":
                if kappa is None:
                    if isnum(i) and numval(i) == 0 and isnum(step) and numval(step) == 1:
                        kappa = ph
                        kappa.isint = True
                        kappa.extra = "kappa"
                        rest.append((ph, i, n))
                        continue
                    kappa = new_phi("k", True, "kappa")
                    allphi = allphi | {kappa.h}
                    states_k = (kappa, num(0), add(kappa, num(1)))
                    rest.append(states_k)
                rep[ph.h] = add(i, mul(step, kappa))
            else:
                rest.append((ph, i, n))
        if rep:
            changed = True
            memo = {}
            states = [(ph, i, subst(n, rep, memo)) for ph, i, n in rest]
            cont = truth(subst(cont, rep, memo))
            reps.append(rep)
            continue
        # integers that move by increments start from 0
        rep = {}
        for j, (ph, i, n) in enumerate(states):
            if ph.isint and ph is not kappa and i is not UNDEF and not (isnum(i) and numval(i) == 0) and _increments(n, ph):
                p0 = new_phi("z", True, ph.extra)
                rep[ph.h] = (p0, i)
        if rep:
            changed = True
            m = {h: add(i, p0) for h, (p0, i) in rep.items()}
            memo = {}
            states = [(rep[ph.h][0], num(0), _leafmap(subst(n, m, memo), lambda x, i=rep[ph.h][1]: sub(x, i))) if ph.h in rep else (ph, i, subst(n, m, memo)) for ph, i, n in states]
            cont = truth(subst(cont, m, memo))
            allphi = allphi | frozenset(p0.h for p0, _ in rep.values())
            reps.append(m)
            continue
        # bisimilar states merged (coarsest partition by refinement)
        if len(states) > 1:
            col = {ph.h: ("i", i.h) for ph, i, n in states}
            ncls = len(set(col.values()))
            if ncls < len(states):
                while True:
                    m = {ph.h: _colphi(col[ph.h], ph) for ph, _, _ in states}
                    memo = {}
                    col = {ph.h: ("r", _h(col[ph.h], "%x" % subst(n, m, memo).h)) for ph, i, n in states}
                    k = len(set(col.values()))
                    if k == ncls:
                        break
                    ncls = k
                if ncls < len(states):
                    first = {}
                    rep = {}
                    rest = []
                    if kappa is not None and kappa.h in col:
                        # the iteration count represents its own class
                        states.sort(key=lambda z: z[0] is not kappa)
                    for ph, i, n in states:
                        if col[ph.h] in first:
                            rep[ph.h] = first[col[ph.h]]
                        else:
                            first[col[ph.h]] = ph
                            rest.append((ph, i, n))
                    memo = {}
                    states = [(ph, i, subst(n, rep, memo)) for ph, i, n in rest]
                    cont = truth(subst(cont, rep, memo))
                    reps.append(rep)
                    changed = True
                    continue
    return states, cont, kappa, reps, allphi


_exit_memo = {}


def mk_exit(states, cont, head, expr, nomap=False):
    key = (nomap, cont.h, expr.h) + tuple((ph.h, i.h, n.h) for ph, i, n in states)
    r = _exit_memo.get(key)
    if r is None:
        r = _exit_memo[key] = _mk_exit(states, cont, head, expr, nomap)
    return r


def _mk_exit(states, cont, head, expr, nomap=False):
    """Value of `expr` (over the header symbols phi) at the last iteration of the loop

        phi := init ; repeat { last := phi ; if not cont(phi): stop ; phi := next(phi) }

    states: list of (phi, init, next).  Returns a closed term, canonical up to
    renaming/merging/dead states.
    """
    tick()
    if expr.op == "tuple":
        return mk_tuple(tuple(mk_exit(states, cont, head, x) for x in expr.args))
    allphi = frozenset(ph.h for ph, _, _ in states)
    if not (expr.free & allphi):
        return expr
    if cont.op == "ite" and not (cont.args[0].free & allphi):
        # the test depends on a condition the loop does not change: one loop per case
        a = cont.args[0]

        def case(v):
            c = truth(assume(cont, a, v))
            if c is FALSE:
                memo = {}
                return subst(assume(expr, a, v), {ph.h: assume(i, a, v) for ph, i, _ in states}, memo)
            return mk_exit([(ph, assume(i, a, v), assume(n, a, v)) for ph, i, n in states], c, head, assume(expr, a, v), nomap)
        return ite(bool_atom(a), case(True), case(False))
    raw = not nomap and expr.op == "store" and any(n is expr for _, _, n in states)
    orig = (states, cont, head, expr)
    key = (raw, cont.h) + tuple((ph.h, i.h, n.h) for ph, i, n in states)
    if not raw:
        expr = simplify_under(NOT(cont), expr)
    norm = _loop_norm.get(key)
    if norm is None:
        norm = _loop_norm[key] = _normalise_loop(states, cont, raw)
    states, cont, kappa, reps, allphi = norm
    for rep in reps:
        expr = subst(expr, rep)
    if cont.op == "ite" and not (cont.args[0].free & allphi) and expr.free & allphi:
        return mk_exit(states, cont, head, expr, nomap)
    live = expr.free | cont.free
    while True:
        n2 = live
        for ph, i, n in states:
            if ph.h in n2:
                n2 = n2 | n.free
        if n2 == live:
            break
        live = n2
    states = [s for s in states if s[0].h in live]
    if not (expr.free & allphi):
        return expr
    if raw:
        r = _try_map(states, cont, kappa, expr)
        if r is not None:
            return r
        return mk_exit(*orig, nomap=True)
    bound = None if kappa is None or kappa.h not in cont.free else _bound_literal(cont, kappa, allphi)
    if expr.op != "phi":
        r = _reversible(states, cont, kappa, expr)
        if r is not states:
            states, expr = r, r[1][2]
    if expr.op != "phi" and not _array_leaf(expr, allphi):
        # the final value is a function of the final states
        if bound is not None and kappa.h in expr.free:
            # unless the loop is left earlier, the last iteration is number n-1
            a, v, n = bound
            q = truth(assume(cont, a, v))
            expr = ite(q, subst(simplify_under(q, expr), {kappa.h: sub(n, num(1))}), expr)
        fin = {ph.h: mk_exit(states, cont, head, ph, nomap=True) for ph, _, _ in states if ph.h in expr.free}
        return subst(expr, fin)
    states = _reversible(states, cont, kappa, expr)
    # --- canonical names ------------------------------------------------------
    lv = max([height(n) for _, _, n in states] + [height(cont), height(expr)])
    key = (lv, cont.h) + tuple((ph.h, i.h, n.h) for ph, i, n in states)
    got = _loop_names.get(key)
    if got is None:
        col = {ph.h: ("i", "%x" % i.h, ph.isint) for ph, i, n in states}
        k = 0
        while True:
            m = {ph.h: _colphi(col[ph.h], ph, lv) for ph, _, _ in states}
            memo = {}
            col = {ph.h: ("r", _h(col[ph.h], "%x" % subst(n, m, memo).h)) for ph, i, n in states}
            k2 = len(set(col.values()))
            if k2 == len(states) or k2 == k:
                break
            k = k2
        m = {ph.h: _colphi(col[ph.h], ph, lv) for ph, _, _ in states}
        memo = {}
        sts = sorted(((m[ph.h], i, subst(n, m, memo)) for ph, i, n in states), key=lambda s: s[0].h)
        got = _loop_names[key] = (m, memo, sts, truth(subst(cont, m, memo)))
    m, memo, sts, cont = got
    expr = subst(expr, m, memo)
    L = Loop()
    L.states = sts
    L.cont = cont
    L.last = None
    if bound is not None and expr.op == "phi" and expr is m.get(kappa.h):
        L.last = sub(bound[2], num(1))
    key = []
    free = _EMPTY
    for ph, i, n in sts:
        key += [ph, i, n]
        free |= i.free | n.free
    bound = frozenset(s[0].h for s in sts)
    neg_ = False
    r = atom("exit", *key, cont, expr, isint=expr.isint, extra=L)
    r.free = (free | cont.free | expr.free) - bound
    rk = max([i.rank for _, i, _ in sts] + [expr.rank, cont.rank] + [n.rank for _, _, n in sts])
    r.rank = rk + 1
    r.extra = L
    return r


def _reversible(states, cont, kappa, expr):
    """a sum or product over a counted range may be taken in either direction: the counter goes up"""
    if kappa is None or len(states) != 2 or kappa is expr:
        return states
    n = _trip_count(cont, kappa)
    if n is None or n.free & frozenset(ph.h for ph, _, _ in states):
        return states
    (ka, acc) = states if states[0][0] is kappa else states[::-1]
    ph, i, nx = acc
    if ka[0] is not kappa or expr is not ph and expr is not nx or nx.op != "arith" or nx.poly is None:
        return states
    last = sub(n, num(1 if expr is nx else 2))
    g = sub(nx, ph)
    if ph.h not in g.free:
        op = add
    else:
        ok = all(dict(m).get(ph.h) == 1 for m in nx.poly)
        g = mul(nx, inv(ph)) if ok else None
        if g is None or ph.h in g.free:
            return states
        op = mul
    if kappa.h not in g.free or g.op == "ite":
        return states
    signs = set()
    seen = set()
    stack = [g]
    while stack:
        x = stack.pop()
        if not isinstance(x, Term) or kappa.h not in x.free or x.h in seen:
            continue
        seen.add(x.h)
        if x is kappa:
            signs.add(1)
        elif x.poly is not None and x.op == "arith":
            for m, c in x.poly.items():
                for k, _ in m:
                    if k == kappa.h:
                        signs.add(1 if c > 0 else -1)
                    else:
                        stack.append(_atoms[k])
        else:
            stack.extend(x.args)
    if signs == {-1}:
        return [ka, (ph, i, op(ph, subst(g, {kappa.h: sub(last, kappa)})))]
    return states


def affine_in(t, k):
    """t = c0 + s*k with s in (1, -1) and c0 free of k -> (c0, s) or None"""
    if k.h not in t.free:
        return None
    if t is k:
        return num(0), 1
    if t.op != "arith" or t.poly is None:
        return None
    c = t.poly.get(((k.h, 1),))
    if c not in (1, -1):
        return None
    c0 = sub(t, mul(num(c), k))
    if k.h in c0.free or c0.op == "ite":
        return None
    return c0, int(c)


def _trip_count(cont, k):
    """cont(k) <=> k <= n-2 ; returns n"""
    if cont.op != "ite" or cont.args[0].op != "ige":
        return None
    a, t, e = cont.args
    base, thr = a.args
    af = affine_in(base, k)
    if af is None:
        return None
    c0, s = af
    if t is TRUE and e is FALSE and s == -1:
        return add(c0, num(2 - thr))
    if t is FALSE and e is TRUE and s == 1:
        return sub(num(thr + 1), c0)
    return None


def _bound_literal(cont, k, phis):
    """a test that must hold for the loop to go on and says  k <= n-2 -> (test, its value, n)"""
    seen = set()
    stack = [cont]
    while stack:
        x = stack.pop()
        if x.op != "ite" or x.h in seen:
            continue
        seen.add(x.h)
        a = x.args[0]
        stack += [x.args[2], x.args[1]]
        if a.op != "ige" or k.h not in a.free:
            continue
        base, thr = a.args
        af = affine_in(base, k)
        if af is None or (af[0].free & phis):
            continue
        v = af[1] == -1
        if assume(cont, a, not v) is FALSE:
            return a, v, (add(af[0], num(2 - thr)) if v else sub(num(thr + 1), af[0]))
    return None


def _array_leaf(t, phis):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.op == "ite":
            if x.h not in seen:
                seen.add(x.h)
                stack += [x.args[1], x.args[2]]
        elif x.op == "store" and not (_stores(x)[0].free & phis):
            pass
        elif x.op in ("store", "maparr", "tuple") or x is UNDEF:
            return True
    return False


def _try_map(states, cont, kappa, expr):
    """a counted loop that only writes element f(k) in iteration k is a pointwise array"""
    if kappa is None or expr.op != "store":
        return None
    n = _trip_count(cont, kappa)
    if n is None:
        return None
    phis = {ph.h: (ph, i, nx) for ph, i, nx in states}
    if n.free & frozenset(phis):
        return None
    base, sts = _stores(expr)
    if base.h not in phis or phis[base.h][2] is not expr:
        return None
    infos = {}
    for h, (ph, i, nx) in phis.items():
        b, ss = _stores(nx)
        if b is ph and ss:
            pos = aff = None
            ok = True
            for idx, v in ss:
                p = _path(idx)
                if not all(_point(x) for x in p):
                    ok = False; break
                js = [j for j, x in enumerate(p) if kappa.h in x.free]
                if len(js) != 1 or any(x.free & frozenset(phis) for j, x in enumerate(p) if j != js[0]):
                    ok = False; break
                if (affine_in(p[js[0]], kappa) is None and not _nd_index(p[js[0]], kappa)) or (p[js[0]].free & frozenset(phis)) != frozenset([kappa.h]):
                    ok = False; break
                if pos is None:
                    pos, aff = js[0], p[js[0]]
                elif pos != js[0] or aff is not p[js[0]]:
                    ok = False; break
            if ok:
                infos[h] = (pos, aff)
    if base.h not in infos:
        return None
    ph, init, _ = phis[base.h]
    m = {h: phis[h][1] for h in infos}
    for idx, v in sts:
        if not _own_row_only(v, frozenset(phis), kappa, infos):
            return None
    memo = {}
    ent = []
    for idx, v in sts:
        ent.append((idx, subst(v, m, memo)))
    return mk_maparr(init, n, kappa, ent)


def _nd_index(x, k):
    """the k-th index tuple of np.ndindex(shape): every element of the shape once"""
    return x.op == "sel" and x.args[1] is k and x.args[0].op == "call" and x.args[0].args[0].op == "glob" and x.args[0].args[0].args[0] == "numpy.ndindex" \
        and len(x.args[0].args) == 2 and k.h not in x.args[0].free


def _covers(init, n, k, ent):
    """do the entries (k = 0..n-1) write every element of init?"""
    if init.op != "full":
        return False
    sh = init.args[0]
    paths = [_path(i) for i, _ in ent]
    for p in paths:
        if len(p) == 1 and _nd_index(p[0], k):
            nd = p[0].args[0]
            if nd.args[1] is sh and length(nd) is n:
                return True
    first = sh.args[0] if sh.op == "tuple" and sh.args else sh
    if not first.isint or first is not n:
        return False
    ps = [p for p in paths if p[0] is k]
    if sh.op != "tuple":
        return any(len(p) == 1 for p in ps)
    if any(len(p) == 1 for p in ps):
        return True
    if len(sh.args) == 2 and isnum(sh.args[1]):
        got = {int(numval(p[1])) for p in ps if len(p) == 2 and isnum(p[1])}
        return got >= set(range(int(numval(sh.args[1]))))
    return False


def _blank(init):
    return atom("full", init.args[0], atom("uninit"), *init.args[2:])


def _own_row_only(v, phis, kappa, infos):
    seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if x.h in seen or not (x.free & phis):
            continue
        seen.add(x.h)
        if x.op == "phi":
            if x is kappa:
                continue
            return False
        if x.op == "sel" and x.args[0].op == "phi" and x.args[0].h in infos:
            pos, aff = infos[x.args[0].h]
            p = _path(x.args[1])
            if pos < len(p) and p[pos] is aff:
                stack.extend(y for j, y in enumerate(p) if j != pos)
                continue
            return False
        if x.op == "arith":
            stack.extend([_atoms[k] for mo in x.poly for k, _ in mo] if x.poly is not None else [y for y in x.args if isinstance(y, Term)])
        else:
            stack.extend(y for y in x.args if isinstance(y, Term))
    return True


def mk_maparr(init, n, k, ent):
    """array equal to init except that for 0 <= k < n the entries ent(k) = [(index(k), value(k))] are written"""
    if isnum(n) and numval(n) <= 0:
        return init
    # one row of an array: a one-dimensional array stored there
    heads = {(_path(i)[0].h if len(_path(i)) > 1 else 0) for i, _ in ent}
    if len(heads) == 1 and 0 not in heads:
        x0 = _path(ent[0][0])[0]
        if k.h not in x0.free and _point(x0):
            return store(init, x0, mk_maparr(select(init, x0), n, k, [(_unpath(_path(i)[1:]), v) for i, v in ent]))
    # slope +1
    i0, _ = ent[0]
    af = None
    for x in _path(i0):
        af = affine_in(x, k)
        if af is not None:
            break
    if af is not None and af[1] == -1:
        m = {k.h: sub(sub(n, num(1)), k)}
        me = {}
        ent = [(subst(i, m, me), subst(v, m, me)) for i, v in ent]
    d = {}
    for i, v in ent:
        d[i] = v
    if init.op == "maparr":
        b2, k2, n2, *rest = init.args
        if n2 is n:
            me = {}
            old = [(subst(rest[j], {k2.h: k}, me), subst(rest[j + 1], {k2.h: k}, me)) for j in range(0, len(rest), 2)]
            a1 = [x for x in _path(old[0][0]) if affine_in(x, k) is not None]
            a2 = [x for x in _path(next(iter(d))) if affine_in(x, k) is not None]
            if a1 and a2 and a1[0] is a2[0]:
                nd = dict(old)
                nd.update(d)
                d = nd
                init = b2
    ent = sorted(d.items(), key=lambda z: z[0].h)
    if _covers(init, n, k, ent):
        init = _blank(init)
    lv = max(height(x) for e in ent for x in e)
    kk = _colphi(("map",), k, lv)
    m = {k.h: kk}
    me = {}
    flat = []
    for i, v in ent:
        flat += [subst(i, m, me), subst(v, m, me)]
    ar = list(zip(flat[::2], flat[1::2]))
    ar.sort(key=lambda z: z[0].h)
    flat = [x for e in ar for x in e]
    r = atom("maparr", init, kk, n, *flat)
    if isinstance(init.extra, (tuple, str)):
        r.extra = init.extra
    free = init.free | n.free
    for x in flat:
        free = free | (x.free - {kk.h})
    r.free = free
    return r


def _open_map(t):
    init, kk, n, *flat = t.args
    k = new_phi("k", True, "kappa")
    me = {}
    m = {kk.h: k}
    return init, k, n, [(subst(flat[j], m, me), subst(flat[j + 1], m, me)) for j in range(0, len(flat), 2)]


def _select_map(a, idx, p):
    init, kk, n, *flat = a.args
    r = select(init, idx)
    for j in range(0, len(flat), 2):
        ip, v = _path(flat[j]), flat[j + 1]
        if len(ip) > len(p):
            return None
        cond = TRUE
        kval = None
        for x, y in zip(ip, p):
            af = affine_in(x, kk)
            if af is not None:
                if not y.isint or (isnum(y) and numval(y) < 0):
                    return None
                kval = sub(y, af[0])
                cond = AND(cond, AND(cmp_ge(kval, num(0)), cmp_gt(n, kval)))
            elif x is not y:
                if definitely_distinct(x, y):
                    cond = FALSE
                else:
                    cond = AND(cond, cmp_eq(x, y))
        if cond is FALSE:
            continue
        if kval is None:
            return None
        val = subst(v, {kk.h: kval}, {})
        if len(p) > len(ip):
            val = select(val, _unpath(p[len(ip):]))
        r = ite(cond, val, r)
    return r


def arrnd(t):
    """number of dimensions of an array term if known (0: scalar)"""
    op = t.op
    if op in ("num", "nan", "inf", "bool", "pi"):
        return 0
    ex = t.extra
    if isinstance(ex, tuple) and ex and ex[0] == "nd":
        return ex[1]
    if op == "arg" and ex == "intarray":
        return 1
    if op == "arg" and t.isint:
        return 0
    if op in ("store", "maparr"):
        return arrnd(t.args[0])
    if op == "full":
        return len(t.args[0].args) if t.args[0].op == "tuple" else 1 if t.args[0].isint else None
    if op == "arange":
        return 1
    if op == "phi":
        if isinstance(ex, Term):
            return arrnd(ex)
        return 0 if t.isint and ex == "kappa" else None
    if op == "sel":
        b = arrnd(t.args[0])
        if b is None:
            return None
        for x in _path(t.args[1]):
            if x.op == "slice":
                continue
            if x.op in ("const", "bval", "tuple") or not x.isint:
                return None
            b -= 1
        return b
    if op == "ite":
        x, y = arrnd(t.args[1]), arrnd(t.args[2])
        return x if x == y else None
    if op in ("sqrt", "abs", "sign"):
        return arrnd(t.args[0])
    if op == "arith" and t.poly is not None:
        r = 0
        for m in t.poly:
            for k, _ in m:
                d = arrnd(_atoms[k])
                if d is None:
                    return None
                r = max(r, d)
        return r
    return None


def _select_arith(a, p):
    """(x + y*z)[i] = x[i] + y[i]*z[i] for arrays of equal rank and scalars"""
    if a.poly is None or not all(x.isint and _point(x) and not (isnum(x) and numval(x) < 0 and False) for x in p):
        return None
    r = num(0)
    for m, c in a.poly.items():
        x = num(c)
        for k, e in m:
            at = _atoms[k]
            d = arrnd(at)
            if d is None:
                return None
            if d:
                if d != len(p):
                    return None
                at = select(at, _unpath(list(p)))
            x = mul(x, _powi(at, e))
        r = add(r, x)
    return r


_hmemo = {}


def height(t):
    """nesting height of loops inside t"""
    r = _hmemo.get(t.h)
    if r is not None:
        return r
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if x.h in _hmemo:
            continue
        if x.op == "arith":
            kids = [_atoms[k] for m in x.poly for k, _ in m] if x.poly is not None else [y for y in x.args if isinstance(y, Term)]
        else:
            kids = [y for y in x.args if isinstance(y, Term)]
        if done:
            hh = max([_hmemo.get(k.h, 0) for k in kids], default=0)
            _hmemo[x.h] = hh + 1 if x.op in ("exit", "maparr") else hh
        else:
            stack.append((x, True))
            for k in kids:
                if k.h not in _hmemo:
                    stack.append((k, False))
    return _hmemo[t.h]


def _colphi(col, ph, lv=0):
    t = atom("phi", "c%d.%x" % (lv, _h(*col)), isint=ph.isint, extra=ph.extra if not isinstance(ph.extra, Term) else ph.extra)
    t.free = frozenset([t.h])
    return t


# ---------------------------------------------------------------- display
def show(t, depth=6):
    if not isinstance(t, Term):
        return repr(t)
    if t.op == "num":
        v = t.args[0]
        return str(v) if v.denominator == 1 else ("%g" % float(v))
    if t.op == "const":
        return repr(t.args[0])
    if t.op == "bool":
        return str(t.args[0])
    if t.op in ("arg", "glob", "fn"):
        return str(t.args[0])
    if t.op == "phi":
        return "φ" + str(t.args[0])[-4:]
    if depth <= 0:
        return "…"
    d = depth - 1
    if t.op == "arith":
        if t.poly is not None and len(t.poly) <= 12:
            parts = []
            for m, c in t.poly.items():
                fs = []
                for k, e in m:
                    s = show(_atoms[k], d)
                    if _atoms[k].op == "arith":
                        s = "(" + s + ")"
                    fs.append(s if e == 1 else "%s^%s" % (s, e))
                cs = str(c) if c.denominator == 1 else "%g" % float(c)
                if not fs:
                    parts.append(cs)
                else:
                    parts.append(("" if c == 1 else "-" if c == -1 else cs + "*") + "*".join(fs))
            return " + ".join(parts)
        return "(arith)"
    if t.op == "ite":
        return "{%s ? %s : %s}" % tuple(show(a, d) for a in t.args)
    if t.op == "ige":
        return "%s>=%d" % (show(t.args[0], d), t.args[1])
    if t.op == "fst":
        mk = {POS | PINF: ">0", ZERO | POS | PINF: ">=0", ZERO: "==0", NEG | NINF: "<0", NEG | NINF | ZERO: "<=0", NEG | ZERO | POS: " finite", ALL6 & ~NANB: " not nan"}
        return "(%s)%s" % (show(t.args[0], d), mk.get(t.args[1], "~%d" % t.args[1]))
    if t.op == "bval":
        return "[%s]" % show(t.args[0], d)
    if t.op == "sel":
        return "%s[%s]" % (show(t.args[0], d), ", ".join(show(x, d) for x in _path(t.args[1])))
    if t.op == "slice":
        return ":".join("" if a is NONE else show(a, d) for a in t.args[:2])
    if t.op == "tuple":
        return "(" + ", ".join(show(a, d) for a in t.args) + ")"
    if t.op == "list":
        return "[" + ", ".join(show(a, d) for a in t.args) + "]"
    if t.op == "exit":
        L = t.extra
        return "loop<%s | while %s | %s>" % (show(t.args[-1], d), show(L.cont, d), "; ".join("%s:=%s→%s" % (show(p), show(i, d), show(n, d)) for p, i, n in L.states))
    if t.op == "call":
        return "%s(%s)" % (show(t.args[0], d), ", ".join(show(a, d) for a in t.args[1:]))
    return "%s(%s)" % (t.op, ", ".join(show(a, d) for a in t.args))


_init_consts()

"""Rational functions of (r, t, p) with r = sqrt(alpha s + beta), extracted from value graphs.

Used for the equations of state: partial derivatives are formed symbolically from the term
of the value function and compared, coefficient by coefficient, with the terms of the
functions documented to return those derivatives.  Exact rational arithmetic; nothing is
evaluated at sample points."""
from fractions import Fraction as Q

import terms as T
from terms import Term


class NotRational(Exception):
    pass


# polynomial: {(i, j, k, l): Q}  for r^i t^j p^k q^l; q is a second square root, where there is one
def padd(a, b, c=1):
    out = dict(a)
    for m, v in b.items():
        x = out.get(m, 0) + c * v
        if x:
            out[m] = x
        else:
            out.pop(m, None)
    return out


def pmul(a, b):
    if len(a) * len(b) > 4_000_000:
        raise NotRational("polynomials too large")
    out = {}
    for m, v in a.items():
        for n, w in b.items():
            k = (m[0] + n[0], m[1] + n[1], m[2] + n[2], m[3] + n[3])
            out[k] = out.get(k, 0) + v * w
    return {k: v for k, v in out.items() if v}


def ppow(a, e):
    out = {(0, 0, 0, 0): Q(1)}
    for _ in range(e):
        out = pmul(out, a)
    return out


def pder(a, v):
    out = {}
    for m, c in a.items():
        if m[v]:
            k = list(m)
            k[v] -= 1
            out[tuple(k)] = c * m[v]
    return out


ONE = {(0, 0, 0, 0): Q(1)}


def norm(p):
    """monic by first monomial -> (key, poly, scale)"""
    k = min(p)
    c = p[k]
    q = {m: v / c for m, v in p.items()}
    return tuple(sorted(q.items())), q, c


class Rat:
    """num / prod base^exp"""

    def __init__(self, n, den=()):
        self.n = n
        self.den = dict(den)          # key -> exponent

    BASE = {}

    @staticmethod
    def inv(r):
        if not r.n:
            raise NotRational("division by zero")
        k, q, c = norm(r.n)
        n = {(0, 0, 0, 0): 1 / c}
        for b, e in r.den.items():
            n = pmul(n, ppow(Rat.BASE[b], e))
        if k == tuple(sorted(ONE.items())):
            return Rat(n)
        Rat.BASE[k] = q
        return Rat(n, {k: 1})

    def __add__(self, o):
        den = dict(self.den)
        for b, e in o.den.items():
            den[b] = max(den.get(b, 0), e)
        return Rat(padd(self.lift(den), o.lift(den)), den)

    def lift(self, den):
        n = self.n
        for b, e in den.items():
            x = e - self.den.get(b, 0)
            if x:
                n = pmul(n, ppow(Rat.BASE[b], x))
        return n

    def __mul__(self, o):
        den = dict(self.den)
        for b, e in o.den.items():
            den[b] = den.get(b, 0) + e
        return Rat(pmul(self.n, o.n), den)

    def scale(self, c):
        return Rat({m: v * c for m, v in self.n.items()}, self.den)

    def der(self, v):
        """d/dv, v index"""
        out = Rat(pder(self.n, v), self.den)
        for b, e in self.den.items():
            d = pder(Rat.BASE[b], v)
            if d:
                den = dict(self.den)
                den[b] = e + 1
                out = out + Rat(pmul(self.n, {m: -c * e for m, c in d.items()}), den)
        return out


def atoms_of(t, seen=None, out=None):
    seen = set() if seen is None else seen
    out = [] if out is None else out
    if t.h in seen:
        return out
    seen.add(t.h)
    out.append(t)
    if t.op == "arith":
        if t.poly is None:
            raise NotRational("expression too large")
        for m in t.poly:
            for k, _ in m:
                atoms_of(T._atoms[k], seen, out)
    else:
        for x in t.args:
            if isinstance(x, Term):
                atoms_of(x, seen, out)
    return out


class Conv:
    """names: (salinity, temperature, pressure) argument names; salinity taken >= 0"""

    def __init__(self, ts, names):
        self.names = names
        self.root = self.other = None
        self.clamped = False
        for t in ts:
            for a in atoms_of(t):
                if a.op == "sqrt":
                    lin = self.linear(a.args[0])
                    if lin is None:
                        raise NotRational("square root of something not linear in the arguments")
                    if self.root is None:
                        if lin[1] or lin[2] or not lin[0]:
                            raise NotRational("square root of something not linear in salinity")
                        self.root = lin
                    elif self.same(lin, self.root):
                        pass
                    elif t is ts[0] or self.other is not None and not self.same(lin, self.other):
                        raise NotRational("several different square roots")
                    else:
                        k = lin[0] / self.root[0]
                        if k and self.same([x / k for x in lin], self.root):
                            raise NotRational("square roots of multiples of the same expression")
                        self.other = lin          # the function on the other side has a root of its own
        al, be = (self.root[0], self.root[3]) if self.root else (Q(1), Q(0))
        self.al, self.be = al, be
        self.s = Rat({(2, 0, 0, 0): 1 / al, (0, 0, 0, 0): -be / al} if be else {(2, 0, 0, 0): 1 / al}) if self.root else None
        self.memo = {}

    @staticmethod
    def same(a, b):
        return all(abs(x - y) <= Q(1, 10 ** 9) * max(abs(x), abs(y)) for x, y in zip(a, b))

    def is_s(self, t):
        if t.op == "arg" and t.args[0] == self.names[0]:
            return True
        if t.op == "max":
            return self.is_s(self.inner(t))
        return False

    @staticmethod
    def inner(t):
        """x of max(x, 0)"""
        o = [x for x in t.args if not (T.isnum(x) and T.numval(x) == 0)]
        return o[0] if len(o) == 1 and len(t.args) == 2 else t.args[0] if not o else T.num(0)

    def slot(self, t):
        """which of the arguments; one cut off at zero where it is not negative is itself there (`clamped`: this says nothing of the rest)"""
        if self.is_s(t):
            return 0
        if t.op == "max" and self.inner(t).op == "arg":
            self.clamped = True
            t = self.inner(t)
        return self.names.index(t.args[0]) if t.op == "arg" and t.args[0] in self.names else None

    def linear(self, t):
        """coefficients of salinity, temperature, pressure and 1"""
        out = [Q(0)] * 4
        if self.slot(t) is not None:
            out[self.slot(t)] = Q(1)
            return tuple(out)
        if t.op == "arith" and t.poly is not None:
            for m, c in t.poly.items():
                if m == ():
                    out[3] = Q(c)
                elif len(m) == 1 and m[0][1] == 1 and self.slot(T._atoms[m[0][0]]) is not None:
                    out[self.slot(T._atoms[m[0][0]])] += Q(c)
                else:
                    return None
            return tuple(out) if any(out[:3]) else None
        return None

    def conv(self, t):
        r = self.memo.get(t.h)
        if r is None:
            r = self.memo[t.h] = self._conv(t)
        return r

    def _conv(self, t):
        if T.isnum(t):
            v = Q(T.numval(t))
            return Rat({(0, 0, 0, 0): v} if v else {})
        if self.is_s(t):
            return self.s if self.s is not None else Rat({(1, 0, 0, 0): Q(1)})
        if t.op == "arg" or t.op == "max" and self.slot(t) is not None:
            if self.slot(t) == 1:
                return Rat({(0, 1, 0, 0): Q(1)})
            if self.slot(t) == 2:
                return Rat({(0, 0, 1, 0): Q(1)})
            raise NotRational("argument " + str(t.args[0]))
        if t.op == "sqrt":
            if self.other and self.same(self.linear(t.args[0]), self.other):
                return Rat({(0, 0, 0, 1): Q(1)})
            return Rat({(1, 0, 0, 0): Q(1)})
        if t.op == "arith":
            out = Rat({})
            groups = {}
            for m, c in t.poly.items():
                term = Rat({(0, 0, 0, 0): Q(c)})
                for k, e in m:
                    f = self.conv(T._atoms[k])
                    if e < 0:
                        f = Rat.inv(f)
                    for _ in range(abs(e)):
                        term = term * f
                key = tuple(sorted((b, e) for b, e in term.den.items()))
                if key in groups:
                    groups[key] = Rat(padd(groups[key].n, term.n), term.den)
                else:
                    groups[key] = term
            for g in groups.values():
                out = out + g
            return out
        raise NotRational("operation " + t.op)

    def reduce(self, n):
        """even powers of the second root are polynomials in s: two square roots of different linear polynomials are independent over the rational functions"""
        al, bt, bp, be = self.other
        q2 = padd({m: v * al for m, v in self.s.n.items()} if al else {}, {m: v for m, v in (((0, 1, 0, 0), bt), ((0, 0, 1, 0), bp), ((0, 0, 0, 0), be)) if v})
        out = {}
        for m, v in n.items():
            x = {m[:3] + (m[3] % 2,): v}
            for _ in range(m[3] // 2):
                x = pmul(x, q2)
            out = padd(out, x)
        return out

    def d_s(self, r):
        """d/ds: chain rule through r = sqrt(al s + be)"""
        d = r.der(0)
        if self.root is None:
            return d
        return d * Rat.inv(Rat({(1, 0, 0, 0): Q(2) / self.al}))

    def der(self, r, word):
        for ch in word:
            r = self.d_s(r) if ch == "s" else r.der(1 if ch == "t" else 2)
        return r


def compare(a, b, tol=Q(1, 10 ** 9), conv=None):
    """None if equal (coefficientwise to tol), else description of the worst coefficient"""
    den = dict(a.den)
    for k, e in b.den.items():
        den[k] = max(den.get(k, 0), e)
    na, nb = a.lift(den), b.lift(den)
    worst = None
    if conv is not None and conv.other:
        na, nb = conv.reduce(na), conv.reduce(nb)
    for m in set(na) | set(nb):
        x, y = na.get(m, Q(0)), nb.get(m, Q(0))
        if x == y:
            continue
        rel = abs(x - y) / max(abs(x), abs(y))
        if rel > tol and (worst is None or rel > worst[0]):
            worst = (rel, m, x, y)
    return worst


def maxrel(a, b):
    w = compare(a, b, Q(0))
    return float(w[0]) if w else 0.0

"""Reference definitions: one-dimensional root finding (analysed, never run)."""
import numpy as np

eps = np.finfo(np.float64).eps


def brent(f, a, b, t, args=()):
    """R. P. Brent, 'Algorithms for Minimization Without Derivatives', procedure zero."""
    if np.isnan(a) or np.isnan(b) or a > b:
        return np.nan
    fa = f(a, *args)
    fb = f(b, *args)
    if fa * fb > 0:
        return np.nan               # no sign change: no root is claimed
    c = a
    fc = fa
    d = b - a
    e = b - a
    while True:
        if abs(fc) < abs(fb):       # b is the best estimate so far
            a, b, c = b, c, b
            fa, fb, fc = fb, fc, fb
        tol = 2 * eps * abs(b) + t
        m = (c - b) / 2
        if abs(m) <= tol or fb == 0:
            return b
        if abs(e) < tol or abs(fa) <= abs(fb):
            d = m                   # bisection
            e = m
        else:
            s = fb / fa
            if a == c:              # secant
                p = 2 * m * s
                q = 1 - s
            else:                   # inverse quadratic interpolation
                q = fa / fc
                r = fb / fc
                p = s * (2 * m * q * (q - r) - (b - a) * (r - 1))
                q = (q - 1) * (r - 1) * (s - 1)
            if p > 0:
                q = -q
            else:
                p = -p
            s = e
            e = d
            if 2 * p < 3 * m * q - abs(tol * q) and p < abs(s * q / 2):
                d = p / q
            else:
                d = m
                e = m
        a = b
        fa = fb
        if abs(d) > tol:
            b = b + d
        elif m > 0:
            b = b + tol
        else:
            b = b - tol
        fb = f(b, *args)
        if (fb > 0 and fc > 0) or (fb <= 0 and fc <= 0):    # keep the root between b and c
            c = a
            fc = fa
            d = b - a
            e = b - a


def guess_to_bounds(f, x, A, B, args=()):
    """expand geometrically (factor sqrt 2, from 1/50 of the way) about x inside [A, B] to a sign change"""
    if f(A, *args) == 0:
        return A, A
    if f(B, *args) == 0:
        return B, B
    x = min(max(x, A), B)
    up = (B - x) / 50
    dn = (x - A) / 50
    a = A if dn == 0 else x
    b = B if up == 0 else x
    if a > A:
        bpos = f(b, *args) > 0
    elif b == B:
        apos = f(a, *args) > 0
        bpos = f(b, *args) > 0
    else:
        apos = f(a, *args) > 0
    while True:
        if a > A:
            dn = dn * 1.414213562373095
            a = max(x - dn, A)
            apos = f(a, *args) > 0
            if apos != bpos:
                return a, b
        elif b == B:
            if apos != bpos:
                return a, b
            return np.nan, np.nan
        if b < B:
            up = up * 1.414213562373095
            b = min(x + up, B)
            bpos = f(b, *args) > 0
            if apos != bpos:
                return a, b
        elif a == A:
            if apos != bpos:
                return a, b
            return np.nan, np.nan


def brent_guess(f, x, A, B, t, args=()):
    a, b = guess_to_bounds(f, x, A, B, args)
    return brent(f, a, b, t, args)

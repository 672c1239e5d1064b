"""Reference definitions: piecewise polynomial interpolation (analysed, never run)."""
import numpy as np


# ---- which part of a cast is water -------------------------------------------------
def valid_range_1(X):
    n = len(X)
    k = n
    for i in range(n):
        if np.isfinite(X[i]):
            k = i
            break
    K = n
    for i in range(k + 1, n):
        if np.isnan(X[i]):
            K = i
            break
    return (k, K)


def valid_range_1_two(X, Y):
    n = len(X)
    k = n
    for i in range(n):
        if np.isfinite(X[i]) and np.isfinite(Y[i]):
            k = i
            break
    K = n
    for i in range(k + 1, n):
        if np.isnan(X[i]) or np.isnan(Y[i]):
            K = i
            break
    return (k, K)


# ---- polynomial in local coordinates, highest order first; d-th derivative ------------
def pval(x, C, d=0):
    n = len(C)
    y = 0.0
    if d == 0:
        for o in range(n):
            y = C[o] + x * y
    else:
        for o in range(n - d):
            p = 1.0
            for a in range(n - o - d, n - o):
                p = p * a
            y = y * x + p * C[o]
    return y


def piece(x, X, k, K):
    """index of the interval that holds x, within the valid data k..K-1"""
    return max(k, k + np.searchsorted(X[k:K], x) - 1)


def outside(x, X, k, K):
    return K - k <= 1 or np.isnan(x) or X[k] > x or x > X[K - 1]


def ppval_1(x, X, Yppc, d=0):
    k, K = valid_range_1_two(X, Yppc[:, -1])
    if outside(x, X, k, K):
        return np.nan
    i = piece(x, X, k, K)
    return pval(x - X[i], Yppc[i], d)


def ppval_1_two(x, X, Yppc, Zppc, d=0):
    k, K = valid_range_1_two(X, Yppc[:, -1])
    if outside(x, X, k, K):
        return np.nan, np.nan
    i = piece(x, X, k, K)
    return pval(x - X[i], Yppc[i], d), pval(x - X[i], Zppc[i], d)


def ppval_1_nonan(x, X, Yppc, d=0):
    if np.isnan(x) or X[0] > x or x > X[-1]:
        return np.nan
    i = max(0, np.searchsorted(X, x) - 1)
    return pval(x - X[i], Yppc[i], d)


def ppval_1_nonan_two(x, X, Yppc, Zppc, d=0):
    if np.isnan(x) or X[0] > x or x > X[-1]:
        return np.nan, np.nan
    i = max(0, np.searchsorted(X, x) - 1)
    return pval(x - X[i], Yppc[i], d), pval(x - X[i], Zppc[i], d)


def ppinterp_1(f, x, X, Y, d=0):
    k, K = valid_range_1_two(X, Y)
    if outside(x, X, k, K):
        return np.nan
    i = piece(x, X, k, K)
    return pval(x - X[i], f(X, Y, i), d)


def ppinterp_1_two(f, x, X, Y, Z, d=0):
    k, K = valid_range_1_two(X, Y)
    if outside(x, X, k, K):
        return np.nan, np.nan
    i = piece(x, X, k, K)
    return pval(x - X[i], f(X, Y, i), d), pval(x - X[i], f(X, Z, i), d)


# ---- linear ----------------------------------------------------------------------
def linear_coeffs_i(X, Y, i):
    return (Y[i + 1] - Y[i]) / (X[i + 1] - X[i]), Y[i]


# ---- PCHIP: shape-preserving slopes (Fritsch & Butland / Fritsch & Carlson), as in MATLAB ----
def pchip_end(h0, h1, del0, del1):
    """one-sided three-point slope at an end, limited to preserve shape"""
    d = ((2 * h0 + h1) * del0 - h0 * del1) / (h0 + h1)
    if np.sign(d) != np.sign(del0):
        d = 0.0
    elif np.sign(del0) != np.sign(del1) and abs(d) > abs(3 * del0):
        d = 3 * del0
    return d


def pchip_mid(h0, h1, del0, del1):
    """weighted harmonic mean of the neighbouring slopes, 0 where they disagree in sign"""
    if np.sign(del0) * np.sign(del1) > 0:
        w1 = h0 + 2 * h1
        w2 = 2 * h0 + h1
        return (w1 + w2) / (w1 / del0 + w2 / del1)
    else:
        return 0.0


def secant(X, Y, i):
    return (Y[i + 1] - Y[i]) / (X[i + 1] - X[i])


def hermite(X, Y, i, d0, d1):
    """cubic on [X_i, X_i+1] with end slopes d0, d1, in powers of (x - X_i), highest first"""
    h = X[i + 1] - X[i]
    s = secant(X, Y, i)
    return (d0 + d1 - 2 * s) / (h * h), (3 * s - 2 * d0 - d1) / h, d0, Y[i]


def pchip_piece(X, Y, i, first, last):
    """coefficients on interval i; first/last: no data point before i / after i+1"""
    h = X[i + 1] - X[i]
    s = secant(X, Y, i)
    if first and last:
        return 0.0, 0.0, s, Y[i]
    if first:
        hr = X[i + 2] - X[i + 1]
        sr = secant(X, Y, i + 1)
        return hermite(X, Y, i, pchip_end(h, hr, s, sr), pchip_mid(h, hr, s, sr))
    hl = X[i] - X[i - 1]
    sl = secant(X, Y, i - 1)
    if last:
        return hermite(X, Y, i, pchip_mid(hl, h, sl, s), pchip_end(h, hl, s, sl))
    hr = X[i + 2] - X[i + 1]
    sr = secant(X, Y, i + 1)
    return hermite(X, Y, i, pchip_mid(hl, h, sl, s), pchip_mid(h, hr, s, sr))


def pchip_coeffs_i(X, Y, i):
    first = i == 0 or np.isnan(X[i - 1] + Y[i - 1])
    last = i == len(X) - 2 or np.isnan(X[i + 2] + Y[i + 2])
    return pchip_piece(X, Y, i, first, last)


# element-wise statements about whole coefficient arrays: rows by position in the valid range
def pchip_row_only(X, Y):
    k, K = valid_range_1_two(X, Y)
    return pchip_piece(X, Y, k, True, True)


def pchip_row_first(X, Y):
    k, K = valid_range_1_two(X, Y)
    return pchip_piece(X, Y, k, True, False)


def pchip_row_mid(X, Y, i):
    return pchip_piece(X, Y, i, False, False)


def pchip_row_last(X, Y):
    k, K = valid_range_1_two(X, Y)
    return pchip_piece(X, Y, K - 2, False, True)


def pchip_row_out(X, Y, i):
    return np.nan, np.nan, np.nan, Y[i]


def facts_range(X, Y):
    k, K = valid_range_1_two(X, Y)
    return k, len(X) - K


def facts_only(X, Y):
    k, K = valid_range_1_two(X, Y)
    return k, len(X) - K, K - k - 2, 2 - K + k


def facts_many(X, Y):
    k, K = valid_range_1_two(X, Y)
    return k, len(X) - K, K - k - 3


def facts_mid(X, Y, i):
    k, K = valid_range_1_two(X, Y)
    return k, len(X) - K, i - k - 1, K - 3 - i


def facts_before(X, Y, i):
    k, K = valid_range_1_two(X, Y)
    return k, len(X) - K, i, k - 1 - i, K - k - 1


def facts_after(X, Y, i):
    k, K = valid_range_1_two(X, Y)
    return k, len(X) - K, i - K + 1, len(X) - 1 - i, K - k - 1


# the same when every element is valid
def full_row_only(X, Y):
    return pchip_piece(X, Y, 0, True, True)


def full_row_first(X, Y):
    return pchip_piece(X, Y, 0, True, False)


def full_row_last(X, Y):
    return pchip_piece(X, Y, len(X) - 2, False, True)


def linear_elem(X, Y, i):
    return secant(X, Y, i), Y[i]


def linear_elem_last(X, Y):
    return np.nan, Y[len(Y) - 1]


def interp_linear(x, X, Y, d):
    return ppinterp_1(linear_coeffs_i, x, X, Y, d)


def interp_linear_two(x, X, Y, Z, d):
    return ppinterp_1_two(linear_coeffs_i, x, X, Y, Z, d)


def interp_pchip(x, X, Y, d):
    return ppinterp_1(pchip_coeffs_i, x, X, Y, d)


def interp_pchip_two(x, X, Y, Z, d):
    return ppinterp_1_two(pchip_coeffs_i, x, X, Y, Z, d)


def eval_pp(x, X, Yppc, d):
    return ppval_1(x, X, Yppc, d)


def eval_pp_two(x, X, Yppc, Zppc, d):
    return ppval_1_two(x, X, Yppc, Zppc, d)


# ---- which function make_pp hands out -------------------------------------------------
from neutralocean.ppinterp.linear import linear_coeffs, linear_coeffs_1, linear_interp, linear_interp_1, linear_interp_two, linear_interp_1_two
from neutralocean.ppinterp.pchip import pchip_coeffs, pchip_coeffs_1, pchip_coeffs_1_nonan, pchip_interp, pchip_interp_1, pchip_interp_two, pchip_interp_1_two


def table():
    return (linear_coeffs, linear_coeffs_1, linear_coeffs_1, pchip_coeffs, pchip_coeffs_1, pchip_coeffs_1_nonan,
            linear_interp, linear_interp_1, linear_interp_two, linear_interp_1_two, pchip_interp, pchip_interp_1, pchip_interp_two, pchip_interp_1_two)

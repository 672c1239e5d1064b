"""Reference definitions: mixed layer, Veronis density, static stability (analysed, never run)."""
import numpy as np
from scipy.optimize import minimize
from neutralocean.ppinterp import make_pp, ppval_1_two, valid_range_1
from neutralocean.ppinterp.ppinterp import pval
from neutralocean.eos.tools import make_eos, vectorize_eos
from neutralocean.lib import _process_casts, _process_vert_dim, _process_eos, xr_to_np


def mixed_layer(S, T, P, eos="gsw", grav=None, rho_c=None, pot_dens_diff=0.03, ref_p=100.0, bottle_index=1, interp="linear", vert_dim=-1):
    """pressure where potential density exceeds that of the near-surface bottle by pot_dens_diff"""
    rho = vectorize_eos(make_eos(eos, grav, rho_c))
    find = make_pp(interp, kind="u", out="interp")
    S, T, P = _process_casts(S, T, P, _process_vert_dim(vert_dim, S))
    b = slice(bottle_index, bottle_index + 1)
    r = rho(S, T, ref_p)
    r0 = rho(S[..., b], T[..., b], ref_p)
    if rho(34.5, 3, 1000) > 1:
        excess = r - r0
    else:
        # specific volume: density is its inverse
        excess = 1 / r - 1 / r0
    return find(pot_dens_diff, excess, P, 0)


def veronis(p1, S, T, P, p0=None, p_ref=0.0, b=1.0, dp=1.0, interp="linear", eos="gsw", grav=None, rho_c=None):
    """potential density at p0 plus b times the integral of the gradient of locally referenced density from p0 to p1"""
    rho, rho_s_t = _process_eos(eos, grav, rho_c, need_s_t=True)
    coeffs = make_pp(interp, kind="1", out="coeffs", nans=True)
    Sppc = coeffs(P, S)
    Tppc = coeffs(P, T)
    if p0 is None:
        p0 = P[0]
    s0, t0 = ppval_1_two(p0, P, Sppc, Tppc, 0)
    return rho(s0, t0, p_ref) + b * integral(p1, p0, P, Sppc, Tppc, dp, rho_s_t)


def integral(p1, p0, P, Sppc, Tppc, dp, rho_s_t):
    if np.isnan(p0 + p1 + P[0]) or p0 < P[0] or P[-1] < p0 or p1 < P[0] or P[-1] < p1:
        return np.nan
    if p1 < p0:
        lo, hi, sign = p1, p0, -1
    else:
        lo, hi, sign = p0, p1, 1
    # data intervals holding the two ends
    k0 = max(1, np.searchsorted(P, lo))
    k1 = max(1, np.searchsorted(P, hi))
    total = rest_of_interval(lo, k0 - 1, dp, P, Sppc, Tppc, rho_s_t)
    for k in range(k0, k1):
        total = total + rest_of_interval(P[k], k, dp, P, Sppc, Tppc, rho_s_t)
    total = total - rest_of_interval(hi, k1 - 1, dp, P, Sppc, Tppc, rho_s_t)
    return sign * total


def rest_of_interval(p, k, dp, P, Sppc, Tppc, rho_s_t):
    """trapezoidal integral from p to P[k + 1] with steps of at most dp"""
    n = int(np.ceil((P[k + 1] - p) / dp)) + 1
    x = np.linspace(p, P[k + 1], n)
    s = np.zeros(n)
    t = np.zeros(n)
    ds = np.zeros(n)
    dt = np.zeros(n)
    for i in range(n):
        s[i] = pval(x[i] - P[k], Sppc[k], 0)
        t[i] = pval(x[i] - P[k], Tppc[k], 0)
        ds[i] = pval(x[i] - P[k], Sppc[k], 1)
        dt[i] = pval(x[i] - P[k], Tppc[k], 1)
    rs, rt = rho_s_t(s, t, x)
    y = rs * ds + rt * dt
    return np.sum((y[1:] + y[:-1]) / 2 * (x[1:] - x[:-1]))


def count_unstable_fd(S, T, P, eos, vert_dim):
    """number of adjacent bottle pairs that are not strictly stable at their mean pressure"""
    S, T, P = _process_casts(S, T, P, vert_dim)
    c = 0
    for k in range(S.shape[-1] - 1):
        pm = (P[..., k] + P[..., k + 1]) / 2
        c = c + np.sum(eos(S[..., k], T[..., k], pm) >= eos(S[..., k + 1], T[..., k + 1], pm))
    return c


def count_unstable_interp(S, T, P, interp_two, eos_s_t, vert_dim):
    """number of bottles where the interpolated gradient of locally referenced density is negative"""
    S, T, P = _process_casts(S, T, P, vert_dim)
    c = 0
    for k in range(S.shape[-1] - 1):
        ds, dt = interp_two(P[..., k], P, S, T, 1)
        rs, rt = eos_s_t(S[..., k], T[..., k], P[..., k])
        c = c + np.sum(rs * ds + rt * dt < 0)
    return c


def gradient(S, T, P, eos):
    """finite difference of density about the mean pressure of adjacent bottles, per unit pressure"""
    pm = (P[0:-1] + P[1:]) / 2
    return (eos(S[1:], T[1:], pm) - eos(S[0:-1], T[0:-1], pm)) / (P[1:] - P[0:-1])


def stabilize(S_in, T_in, P_in, eos, mingrad, weight, vert_dim, tol, method, verbose, options):
    """in place: every cast with a gradient below the threshold gets the smallest weighted perturbation that removes it"""
    v = _process_vert_dim(vert_dim, S_in)
    S0 = xr_to_np(S_in)
    T0 = xr_to_np(T_in)
    S, T, P = _process_casts(S_in, T_in, P_in, v)
    nk = S.shape[-1]
    if np.isscalar(mingrad):
        mingrad = np.repeat(mingrad, nk - 1)
    x0 = np.random.default_rng(seed=42).normal(0.0, 1e-6, 2 * nk)
    problem = {"type": "ineq", "fun": excess_gradient}
    for c in np.ndindex(S.shape[0:-1]):
        k, K = valid_range_1(S[c])
        s = S[c][k:K]
        t = T[c][k:K]
        p = P[c][k:K]
        g = mingrad[k : K - 1]
        n = len(s)
        if n > 1 and any(gradient(s, t, p, eos) < g):
            problem["args"] = (s, t, p, g, eos)
            res = minimize(cost, x0[0 : 2 * n], args=(weight,), jac=dcost, constraints=problem, method=method, tol=tol, options=options)
            if res.success:
                S[c][k:K] += res.x[0:n]
                T[c][k:K] += res.x[n:]
            else:
                raise RuntimeError("failed")
    for old, new in ((S0, S), (T0, T)):
        if not np.shares_memory(old, new):
            np.moveaxis(old, v, -1)[...] = new


def cost(x, w):
    n = len(x) // 2
    return np.sum(w * x[0:n] * x[0:n] + x[n:] * x[n:])


def dcost(x, w):
    n = len(x) // 2
    y = 2 * x
    y[0:n] *= w
    return y


def excess_gradient(x, S, T, P, least, eos):
    n = len(x) // 2
    return gradient(S + x[0:n], T + x[n:], P, eos) - least

"""Reference definitions: neutral tangent plane links (analysed, never run)."""
import numpy as np
from ref.pp import ppval_1_nonan_two, valid_range_1_two
from ref.fz import brent, guess_to_bounds


def _pot_dens_diff(p, sB, tB, pB, P, Sppc, Tppc, eos):
    """density difference, both brought to the mid pressure"""
    s, t = ppval_1_nonan_two(p, P, Sppc, Tppc, 0)
    m = (pB + p) / 2
    return eos(sB, tB, m) - eos(s, t, m)


def _ntp_bottle_to_cast_ppc(tol_p, sB, tB, pB, P, Sppc, Tppc, eos):
    args = (sB, tB, pB, P, Sppc, Tppc, eos)
    lb, ub = guess_to_bounds(_pot_dens_diff, pB, P[0], P[-1], args)
    if np.isfinite(lb):
        return brent(_pot_dens_diff, lb, ub, tol_p, args)
    return np.nan


def _ntp_bottle_to_cast(sB, tB, pB, S, T, P, k, K, tol_p, eos, ppc_fn):
    if K - k <= 1:
        return np.nan, np.nan, np.nan
    X = P[k:K]
    Sppc = ppc_fn(X, S[k:K])
    Tppc = ppc_fn(X, T[k:K])
    p = _ntp_bottle_to_cast_ppc(tol_p, sB, tB, pB, X, Sppc, Tppc, eos)
    if np.isfinite(p):
        s, t = ppval_1_nonan_two(p, X, Sppc, Tppc, 0)
        return s, t, p
    return np.nan, np.nan, p


from neutralocean.ppinterp import make_pp
from neutralocean.eos.tools import make_eos
from neutralocean.lib import _process_casts


def ntp_bottle_to_cast(sB, tB, pB, S, T, P, tol_p=1e-4, interp="linear", eos="gsw", grav=None, rho_c=None):
    f = make_eos(eos, grav, rho_c)
    g = make_pp(interp, kind="1", out="coeffs", nans=False)
    k, K = valid_range_1_two(S, P)
    return _ntp_bottle_to_cast(sB, tB, pB, S, T, P, k, K, tol_p, f, g)


def neutral_trajectory(S, T, P, p0, vert_dim=-1, tol_p=1e-4, interp="linear", eos="gsw", grav=None, rho_c=None):
    """the first point is (p0, interpolated S and T); each next one is the neutral link from the one before; NaN from the first cast where there is none"""
    f = make_eos(eos, grav, rho_c)
    g = make_pp(interp, kind="1", out="coeffs", nans=False)
    S, T, P = _process_casts(S, T, P, vert_dim)
    n = S.shape[0]
    s = np.full(n, np.nan)
    t = np.full(n, np.nan)
    p = np.full(n, np.nan)
    for c in range(n):
        k, K = valid_range_1_two(S[c], P[c])
        if c == 0:
            if K - k <= 1:
                break
            X = P[c][k:K]
            s[0], t[0] = ppval_1_nonan_two(p0, X, g(X, S[c][k:K]), g(X, T[c][k:K]), 0)
            p[0] = p0
        else:
            s[c], t[c], p[c] = _ntp_bottle_to_cast(s[c - 1], t[c - 1], p[c - 1], S[c], T[c], P[c], k, K, tol_p, f, g)
        if np.isnan(p[c]):
            break
    return s, t, p

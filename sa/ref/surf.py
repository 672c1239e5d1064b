"""Reference definitions: surfaces (analysed, never run)."""
import numpy as np
from neutralocean.fzero import brent, guess_to_bounds
from neutralocean.ppinterp.ppinterp import ppval_1_nonan_two
from neutralocean.ppinterp.lib import valid_range_1_two


# ---- one value per cast: the place where the property equals its prescribed value
def zero_potential(p, P, Sppc, Tppc, ref, d0, eos):
    s, t = ppval_1_nonan_two(p, P, Sppc, Tppc, 0)
    return eos(s, t, ref) - d0


def zero_anomaly(p, P, Sppc, Tppc, ref, d0, eos):
    s, t = ppval_1_nonan_two(p, P, Sppc, Tppc, 0)
    return eos(s, t, p) - eos(ref[0], ref[1], p) - d0


def potential(S, T, P, ref, d0, tol_p, eos, ppc_fn):
    return isosurface(S, T, P, ref, d0, tol_p, eos, ppc_fn, zero_potential)


def anomaly(S, T, P, ref, d0, tol_p, eos, ppc_fn):
    return isosurface(S, T, P, ref, d0, tol_p, eos, ppc_fn, zero_anomaly)


def isosurface(S, T, P, ref, d0, tol_p, eos, ppc_fn, zero):
    """in every cast with at least two valid data: the root nearest mid-depth, s and t interpolated there; NaN elsewhere"""
    shape = S.shape[0:-1]
    s = np.full(shape, np.nan)
    t = np.full(shape, np.nan)
    p = np.full(shape, np.nan)
    for n in np.ndindex(shape):
        k, K = valid_range_1_two(S[n], P[n])
        if K - k >= 2:
            Pn = P[n][k:K]
            Sppc = ppc_fn(Pn, S[n][k:K])
            Tppc = ppc_fn(Pn, T[n][k:K])
            args = (Pn, Sppc, Tppc, ref, d0, eos)
            lb, ub = guess_to_bounds(zero, 0.5 * (Pn[0] + Pn[-1]), Pn[0], Pn[-1], args)
            if np.isfinite(lb):
                r = brent(zero, lb, ub, tol_p, args)
                p[n] = r
                s[n], t[n] = ppval_1_nonan_two(r, Pn, Sppc, Tppc, 0)
    return s, t, p


def omega(s, t, p, S, T, P, phi, tol_p, eos, ppc_fn):
    """move every point to where its locally referenced density has changed by phi; in place"""
    for n in np.ndindex(s.shape):
        if phi[n] != 0.0:
            k, K = valid_range_1_two(S[n], P[n])
            if K - k >= 2 and np.isfinite(phi[n]):
                Pn = P[n][k:K]
                Sppc = ppc_fn(Pn, S[n][k:K])
                Tppc = ppc_fn(Pn, T[n][k:K])
                args = (Pn, Sppc, Tppc, p[n], eos(s[n], t[n], p[n]) + phi[n], eos)
                lb, ub = guess_to_bounds(zero_potential, p[n], Pn[0], Pn[-1], args)
                if np.isfinite(lb):
                    p[n] = brent(zero_potential, lb, ub, tol_p, args)
                    s[n], t[n] = ppval_1_nonan_two(p[n], Pn, Sppc, Tppc, 0)
                else:
                    s[n] = np.nan
                    t[n] = np.nan
                    p[n] = np.nan
            else:
                s[n] = np.nan
                t[n] = np.nan
                p[n] = np.nan


# ---- isopycnal surfaces
from time import time
from neutralocean.ppinterp import ppval_1_two, make_pp, valid_range_1
from neutralocean.ntp import ntp_epsilon_errors_norms
from neutralocean.lib import _xrs_in, _xr_out, _process_pin_cast, _process_casts, _process_eos
from neutralocean.surface._vertsolve import _make_vertsolve


def _cast_at(S, T, P, n, x, ppc_fn):
    """salinity and temperature of cast n interpolated to pressure x"""
    k, K = valid_range_1(S[n] + P[n])
    return ppval_1_two(x, P[n][k:K], ppc_fn(P[n][k:K], S[n][k:K]), ppc_fn(P[n][k:K], T[n][k:K]))


def potential_api(S, T, P, ref, isoval, pin_cast, pin_p, vert_dim, tol, eos, rho_c, grav, diags, output, grid, interp):
    return isopycnal("potential", S, T, P, ref, isoval, pin_cast, pin_p, vert_dim, tol, eos, rho_c, grav, diags, grid, interp)


def anomaly_api(S, T, P, ref, isoval, pin_cast, pin_p, vert_dim, tol, eos, rho_c, grav, diags, output, grid, interp):
    return isopycnal("anomaly", S, T, P, ref, isoval, pin_cast, pin_p, vert_dim, tol, eos, rho_c, grav, diags, grid, interp)


def anomaly_pair(S, T, P, rs, rt, isoval, pin_cast, pin_p, vert_dim, tol, eos, rho_c, grav, diags, output, grid, interp):
    return isopycnal("anomaly", S, T, P, (rs, rt), isoval, pin_cast, pin_p, vert_dim, tol, eos, rho_c, grav, diags, grid, interp)


def anomaly_noref(S, T, P, pin_cast, pin_p, vert_dim, tol, eos, rho_c, grav, diags, output, grid, interp):
    return isopycnal("anomaly", S, T, P, None, None, pin_cast, pin_p, vert_dim, tol, eos, rho_c, grav, diags, grid, interp)


def isopycnal(kind, S0, T0, P0, ref, isoval, pin_cast, pin_p, vert_dim, tol, eos, rho_c, grav, diags, grid, interp):
    ppc_fn = make_pp(interp, kind="1", out="coeffs", nans=False)
    sxr, txr, pxr = _xrs_in(S0, T0, P0, vert_dim)
    n = _process_pin_cast(pin_cast, S0)
    S, T, P = _process_casts(S0, T0, P0, vert_dim)
    rho, rho_s_t = _process_eos(eos, grav, rho_c, need_s_t=diags)

    # what is rejected
    if diags and not (isinstance(grid, dict) and "edges" in grid):
        raise ValueError("diagnostics need a grid")
    if (ref is None or isoval is None) and (n is None or pin_p is None):
        raise TypeError("underdetermined")
    if ref is not None:
        if kind == "potential":
            if not isinstance(ref, float):
                raise TypeError("reference pressure")
        elif not (isinstance(ref, (tuple, list)) and len(ref) == 2):
            raise TypeError("reference S and T")
    if n is not None and not isinstance(n, dict):
        try:
            S[n]
        except:
            raise ValueError("pin_cast")
    if pin_p is not None and not isinstance(pin_p, float):
        raise TypeError("pin_p")

    # which surface
    pinned = isoval is None
    if pinned:
        s0, t0 = _cast_at(S, T, P, n, pin_p, ppc_fn)
        if kind == "potential":
            if ref is None:
                ref = pin_p
            isoval = rho(s0, t0, ref)
        else:
            if ref is None or any(x is None for x in ref):
                ref = (s0, t0)
            isoval = rho(s0, t0, pin_p) - rho(ref[0], ref[1], pin_p)

    s, t, p = _make_vertsolve(rho, ppc_fn, kind)(S, T, P, ref, isoval, tol)
    if pinned:
        p[n] = pin_p
        s[n], t[n] = _cast_at(S, T, P, n, pin_p, ppc_fn)

    d = {"ref": ref, "isoval": isoval}
    if diags:
        d["timer"] = time() - time()
        d["e_RMS"], d["e_MAV"] = ntp_epsilon_errors_norms(s, t, p, grid, rho_s_t)
        d["n_wet"] = np.sum(np.isfinite(p))
    return _xr_out(s, sxr), _xr_out(t, txr), _xr_out(p, pxr), d

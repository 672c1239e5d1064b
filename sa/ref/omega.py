"""Reference definitions: omega surfaces (analysed, never run)."""
import numpy as np
from time import time
from scipy.sparse import csc_matrix
from scipy.sparse.linalg import lsqr, spsolve
from neutralocean.surface._vertsolve import _make_vertsolve
from neutralocean.ppinterp import make_pp
from neutralocean.bfs import bfs_conncomp1, bfs_conncomp1_wet_perim
from neutralocean.grid.graph import edges_to_csr
from neutralocean.ntp import ntp_epsilon_errors, ntp_epsilon_errors_norms
from neutralocean.lib import xr_to_np, _xrs_in, _xr_out, _process_pin_cast, _process_casts, _process_eos, aggsum
from neutralocean.mixed_layer import mixed_layer
from neutralocean.surface.omega import _omega_matsolve_poisson, _omega_matsolve_gradient


# ---- one linear problem
def helper(s, t, p, edges, distratio, m, mref, eos_s_t):
    """errors on the edges joining nodes of m, times the distance ratio; nodes renumbered by their place in m"""
    place = np.full(p.size, -1, dtype=int)
    place[m] = np.arange(len(m))
    a, b = edges
    inside = (place[a] >= 0) & (place[b] >= 0)
    a = a[inside]
    b = b[inside]
    e = ntp_epsilon_errors(s, t, p, (a, b), eos_s_t)
    if np.isscalar(distratio):
        fac = np.full(e.shape, distratio)
        if distratio != 1.0:
            e = e * fac
    else:
        fac = distratio[inside]
        e = e * fac
    return place[a], place[b], e, fac, place[mref]


def poisson(s, t, p, edges, distratio, m, mref, eos_s_t):
    """normal equations of the least-squares problem, pinned at mref; NaN off m"""
    N = len(m)
    phi = np.full(p.size, np.nan, dtype=p.dtype)
    if N <= 1:
        phi[m[0]] = 0.0
        return phi.reshape(p.shape)
    a, b, e, fac, ref = helper(s, t, p, edges, distratio, m, mref, eos_s_t)
    rhs = aggsum(e, a, N) - aggsum(e, b, N)
    deg = aggsum(fac, a, N) + aggsum(fac, b, N)
    n = np.arange(N)
    L = csc_matrix((np.concatenate((-fac, -fac, deg)), (np.concatenate((a, b, n)), np.concatenate((b, a, n)))), shape=(N, N))
    L[ref, ref] = L[ref, ref] + 1
    phi[m] = spsolve(L, rhs)
    phi[mref] = 0.0
    return phi.reshape(p.shape)


def gradient(s, t, p, edges, sqrtdistratio, m, mref, eos_s_t):
    """overdetermined system: one row per edge, one weak row pinning mref; solution shifted to vanish there"""
    N = len(m)
    phi = np.full(p.size, np.nan, dtype=p.dtype)
    if N <= 1:
        phi[m[0]] = 0.0
        return phi.reshape(p.shape)
    a, b, e, fac, ref = helper(s, t, p, edges, sqrtdistratio, m, mref, eos_s_t)
    rhs = np.concatenate((-e, [0.0]))
    col = np.concatenate((a, b, [ref]))
    E = len(col) // 2
    row = np.concatenate((np.tile(np.arange(E), 2), [E]))
    val = np.concatenate((-fac, fac, [0.01]))
    x = lsqr(csc_matrix((val, (row, col)), shape=(E + 1, N)), rhs)[0]
    x = x - x[ref]
    phi[m] = x
    return phi.reshape(p.shape)


# ---- the iteration
KEYS = ("e_MAV", "e_RMS", "timer", "ϕ_MAV", "Δp_MAV", "Δp_RMS", "Δp_Linf", "n_wet", "n_newly_wet", "timer_bfs", "timer_mat", "timer_update")


def point(S, T, P, edges, dist, distperp, pin, p0, vert_dim, p_ml, eos, rho_c, grav, ITER_MIN, ITER_MAX, START, STOP, TOL_P, TOL_LRPD, TOL_DP, WET_PERIM):
    return omega(S, T, P, edges, dist, distperp, pin, p0, vert_dim, p_ml, True, eos, rho_c, grav, ITER_MIN, ITER_MAX, START, STOP, TOL_P, TOL_LRPD, TOL_DP, "poisson", WET_PERIM, "linear")


def mixed(S, T, P, edges, dist, distperp, pin, p0, vert_dim, p_ml, eos, rho_c, grav, ITER_MIN, ITER_MAX, START, STOP, TOL_P, TOL_LRPD, TOL_DP, WET_PERIM):
    return omega(S, T, P, edges, dist, distperp, pin, p0, vert_dim, p_ml, False, eos, rho_c, grav, ITER_MIN, ITER_MAX, START, STOP, TOL_P, TOL_LRPD, TOL_DP, "poisson", WET_PERIM, "linear")


def surface(S, T, P, edges, dist, distperp, pin, p_init, vert_dim, eos, rho_c, grav, ITER_MIN, ITER_MAX, START, STOP, TOL_P, TOL_LRPD, TOL_DP, WET_PERIM, interp):
    return omega(S, T, P, edges, dist, distperp, pin, p_init, vert_dim, None, False, eos, rho_c, grav, ITER_MIN, ITER_MAX, START, STOP, TOL_P, TOL_LRPD, TOL_DP, "gradient", WET_PERIM, interp)


def omega(S0, T0, P0, edges, dist, distperp, pin_cast, p_init, vert_dim, p_ml, diags, eos, rho_c, grav, ITER_MIN, ITER_MAX, START, STOP, TOL_P, TOL_LRPD, TOL_DP, form, WET_PERIM, interp):
    grid = {"edges": edges, "dist": dist, "distperp": distperp}
    ppc_fn = make_pp(interp, kind="1", out="coeffs", nans=False)
    interp_two = make_pp(interp, kind="u", out="interp", num_dep_vars=2)
    sxr, txr, pxr = _xrs_in(S0, T0, P0, vert_dim)
    pin = _process_pin_cast(pin_cast, S0)
    S, T, P = _process_casts(S0, T0, P0, vert_dim)
    rho, rho_s_t = _process_eos(eos, grav, rho_c, need_s_t=True)
    shape = S.shape[0:-1]
    N = np.prod(shape)
    S = np.reshape(S, (N, -1))
    T = np.reshape(T, (N, -1))
    P = np.reshape(P, (N, -1))
    if isinstance(pin, (tuple, list)):
        pin = np.ravel_multi_index(pin, shape)
    ratio = distperp / dist
    if isinstance(p_ml, dict):
        p_ml = mixed_layer(S, T, P, rho, **p_ml)
    if p_ml is None:
        p_ml = np.full(shape, -np.inf)
    p_ml = np.reshape(p_ml, -1)
    indptr, indices = edges_to_csr(edges, N)
    if form == "gradient":
        ratio = np.sqrt(ratio)
    # densities are of order 1000, specific volumes of order 0.001
    if rho(34.5, 3.0, 1000.0) < 1.0:
        TOL_LRPD = TOL_LRPD / 1000.0**2

    if diags:
        d = {
            "e_MAV": np.zeros(ITER_MAX + 1, dtype=np.float64),
            "e_RMS": np.zeros(ITER_MAX + 1, dtype=np.float64),
            "timer": np.zeros(ITER_MAX + 1, dtype=np.float64),
            "ϕ_MAV": np.zeros(ITER_MAX + 1, dtype=np.float64),
            "Δp_MAV": np.zeros(ITER_MAX + 1, dtype=np.float64),
            "Δp_RMS": np.zeros(ITER_MAX + 1, dtype=np.float64),
            "Δp_Linf": np.zeros(ITER_MAX + 1, dtype=np.float64),
            "n_wet": np.zeros(ITER_MAX + 1, dtype=int),
            "n_newly_wet": np.zeros(ITER_MAX + 1, dtype=int),
            "timer_bfs": np.zeros(ITER_MAX + 1, dtype=np.float64),
            "timer_mat": np.zeros(ITER_MAX + 1, dtype=np.float64),
            "timer_update": np.zeros(ITER_MAX + 1, dtype=np.float64),
        }
    else:
        d = dict()

    if np.isscalar(p_init):
        # a surface grown from one point by neutral links
        pin_p = p_init
        s = np.full(N, np.nan)
        t = np.full(N, np.nan)
        p = np.full(N, np.nan)
        p[pin] = pin_p
        s[pin], t[pin] = interp_two(pin_p, P[pin], S[pin], T[pin], 0)
        bfs_conncomp1_wet_perim(s, t, p, indptr, indices, pin, S, T, P, TOL_P, rho, ppc_fn, p_ml, WET_PERIM)
    else:
        p_init = xr_to_np(p_init)
        if not isinstance(p_init, np.ndarray):
            raise TypeError("p_init")
        if p_init.shape != shape:
            raise ValueError("p_init")
        p = np.reshape(p_init, -1).copy()
        pin_p = np.reshape(p_init, -1)[pin]
        s, t = interp_two(p, P, S, T, 0)
    if np.isnan(s[pin]):
        raise RuntimeError("dry reference")
    p[np.isnan(s)] = np.nan

    if diags:
        d["timer"][0] = 0.0
        d["e_RMS"][0], d["e_MAV"][0] = ntp_epsilon_errors_norms(s, t, p, grid, rho_s_t)
        d["n_wet"][0] = np.sum(np.isfinite(p))

    move = _make_vertsolve(rho, ppc_fn, "omega")
    dp_rms = 0.0
    it = 0
    for it in range(1, ITER_MAX + 1):
        if it > 1:
            p[p < p_ml] = np.nan
        # which casts take part: those connected to the pinning cast, after wetting
        if START <= it and it <= STOP:
            new = bfs_conncomp1_wet_perim(s, t, p, indptr, indices, pin, S, T, P, TOL_P, rho, ppc_fn, p_ml, WET_PERIM)
            m = np.nonzero(np.isfinite(p))[0]
        else:
            m = np.sort(bfs_conncomp1(indptr, indices, pin, np.isfinite(p)))
            new = 0
        if form == "poisson":
            phi = _omega_matsolve_poisson(s, t, p, edges, ratio, m, pin, rho_s_t)
        else:
            phi = _omega_matsolve_gradient(s, t, p, edges, ratio, m, pin, rho_s_t)
        before = p.copy()
        move(s, t, p, S, T, P, phi, TOL_P)
        p[pin] = pin_p
        phi_mav = np.nanmean(abs(phi))
        if diags or TOL_DP > 0:
            dp_rms = np.sqrt(np.nanmean((p - before) ** 2))
        if diags:
            d["timer"][it] = 0.0
            d["ϕ_MAV"][it] = phi_mav
            d["Δp_MAV"][it] = np.nanmean(abs(p - before))
            d["Δp_RMS"][it] = dp_rms
            d["Δp_Linf"][it] = np.nanmax(abs(p - before))
            d["n_newly_wet"][it] = new
            d["timer_mat"][it] = 0.0
            d["timer_update"][it] = 0.0
            d["timer_bfs"][it] = 0.0
            d["e_RMS"][it], d["e_MAV"][it] = ntp_epsilon_errors_norms(s, t, p, grid, rho_s_t)
            d["n_wet"][it] = np.sum(np.isfinite(p))
        if it >= ITER_MIN and (phi_mav < TOL_LRPD or dp_rms < TOL_DP):
            break
    if diags:
        for k, v in d.items():
            d[k] = v[0 : it + 1]
    return _xr_out(np.reshape(s, shape), sxr), _xr_out(np.reshape(t, shape), txr), _xr_out(np.reshape(p, shape), pxr), d

"""Drivers: surfaces, through the public API where possible."""
from neutralocean.surface._vertsolve import _make_vertsolve
from neutralocean.surface import potential_surf, anomaly_surf, omega_surf


def vs_potential(S, T, P, ref, d0, tol_p, eos, ppc_fn):
    return _make_vertsolve(eos, ppc_fn, "potential")(S, T, P, ref, d0, tol_p)


def vs_anomaly(S, T, P, ref, d0, tol_p, eos, ppc_fn):
    return _make_vertsolve(eos, ppc_fn, "anomaly")(S, T, P, ref, d0, tol_p)


def vs_omega(s, t, p, S, T, P, phi, tol_p, eos, ppc_fn):
    return _make_vertsolve(eos, ppc_fn, "omega")(s, t, p, S, T, P, phi, tol_p)


def vs_unknown(eos, ppc_fn, kind):
    return _make_vertsolve(eos, ppc_fn, kind)


def potential(S, T, P, ref, isoval, pin_cast, pin_p, vert_dim, tol, eos, rho_c, grav, diags, output, grid, interp):
    return potential_surf(S, T, P, ref=ref, isoval=isoval, pin_cast=pin_cast, pin_p=pin_p, vert_dim=vert_dim, TOL_P_SOLVER=tol, eos=eos, rho_c=rho_c, grav=grav, diags=diags, output=output, grid=grid, interp=interp)


def anomaly(S, T, P, ref, isoval, pin_cast, pin_p, vert_dim, tol, eos, rho_c, grav, diags, output, grid, interp):
    return anomaly_surf(S, T, P, ref=ref, isoval=isoval, pin_cast=pin_cast, pin_p=pin_p, vert_dim=vert_dim, TOL_P_SOLVER=tol, eos=eos, rho_c=rho_c, grav=grav, diags=diags, output=output, grid=grid, interp=interp)


def anomaly_pair(S, T, P, rs, rt, isoval, pin_cast, pin_p, vert_dim, tol, eos, rho_c, grav, diags, output, grid, interp):
    return anomaly_surf(S, T, P, ref=(rs, rt), isoval=isoval, pin_cast=pin_cast, pin_p=pin_p, vert_dim=vert_dim, TOL_P_SOLVER=tol, eos=eos, rho_c=rho_c, grav=grav, diags=diags, output=output, grid=grid, interp=interp)


def anomaly_noref(S, T, P, pin_cast, pin_p, vert_dim, tol, eos, rho_c, grav, diags, output, grid, interp):
    return anomaly_surf(S, T, P, pin_cast=pin_cast, pin_p=pin_p, vert_dim=vert_dim, TOL_P_SOLVER=tol, eos=eos, rho_c=rho_c, grav=grav, diags=diags, output=output, grid=grid, interp=interp)


def omega_point(S, T, P, edges, dist, distperp, pin, p0, vert_dim, p_ml, eos, rho_c, grav, ITER_MIN, ITER_MAX, START, STOP, TOL_P, TOL_LRPD, TOL_DP, WET_PERIM):
    """from a point, Poisson, with diagnostics and a given mixed layer"""
    grid = {"edges": edges, "dist": dist, "distperp": distperp}
    return omega_surf(S, T, P, grid, pin, p0, vert_dim=vert_dim, p_ml=p_ml, diags=True, output=False, eos=eos, rho_c=rho_c, grav=grav, ITER_MIN=ITER_MIN, ITER_MAX=ITER_MAX, ITER_START_WETTING=START, ITER_STOP_WETTING=STOP, TOL_P_SOLVER=TOL_P, TOL_LRPD_MAV=TOL_LRPD, TOL_P_CHANGE_RMS=TOL_DP, OMEGA_FORMULATION="poisson", ITER_WET_PERIM=WET_PERIM)


def omega_surface(S, T, P, edges, dist, distperp, pin, p_init, vert_dim, eos, rho_c, grav, ITER_MIN, ITER_MAX, START, STOP, TOL_P, TOL_LRPD, TOL_DP, WET_PERIM, interp):
    """from a surface, gradient formulation, without diagnostics or mixed layer"""
    grid = {"edges": edges, "dist": dist, "distperp": distperp}
    return omega_surf(S, T, P, grid, pin, p_init, vert_dim=vert_dim, p_ml=None, diags=False, output=False, eos=eos, rho_c=rho_c, grav=grav, ITER_MIN=ITER_MIN, ITER_MAX=ITER_MAX, ITER_START_WETTING=START, ITER_STOP_WETTING=STOP, TOL_P_SOLVER=TOL_P, TOL_LRPD_MAV=TOL_LRPD, TOL_P_CHANGE_RMS=TOL_DP, OMEGA_FORMULATION="gradient", ITER_WET_PERIM=WET_PERIM, interp=interp)


def omega_mixed(S, T, P, edges, dist, distperp, pin, p0, vert_dim, p_ml, eos, rho_c, grav, ITER_MIN, ITER_MAX, START, STOP, TOL_P, TOL_LRPD, TOL_DP, WET_PERIM):
    """from a point, Poisson, mixed layer by parameters, no diagnostics"""
    grid = {"edges": edges, "dist": dist, "distperp": distperp}
    return omega_surf(S, T, P, grid, pin, p0, vert_dim=vert_dim, p_ml=p_ml, diags=False, output=False, eos=eos, rho_c=rho_c, grav=grav, ITER_MIN=ITER_MIN, ITER_MAX=ITER_MAX, ITER_START_WETTING=START, ITER_STOP_WETTING=STOP, TOL_P_SOLVER=TOL_P, TOL_LRPD_MAV=TOL_LRPD, TOL_P_CHANGE_RMS=TOL_DP, OMEGA_FORMULATION="Poisson", ITER_WET_PERIM=WET_PERIM)

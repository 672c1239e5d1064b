"""The same calls with every documented default spelled out (analysed, never run)."""
import numpy as np
from neutralocean.surface import potential_surf, anomaly_surf, omega_surf
from neutralocean.stability import count_unstable, stabilize_ST
from neutralocean.mixed_layer import mixed_layer
from neutralocean.label import veronis
from neutralocean.traj import ntp_bottle_to_cast, neutral_trajectory
from neutralocean.ntp import ntp_epsilon_errors, ntp_epsilon_errors_norms
from neutralocean.grid import rectilinear, tripolar, graph
from neutralocean.grid.tools import divergence
from neutralocean.lib import find_first_nan, take_fill
from neutralocean.synthocean import synthocean
from neutralocean.ppinterp import make_pp
from neutralocean.ppinterp.ppinterp import pval, ppval_1, ppval_1_two
from neutralocean.eos.tools import make_eos, make_bsq


def potential_ref(S, T, P, ref, isoval, grid):
    return potential_surf(S, T, P, ref=ref, isoval=isoval, grid=grid, pin_cast=None, pin_p=None, vert_dim=-1, TOL_P_SOLVER=1e-4, eos="gsw", rho_c=None, grav=None, diags=True, output=True, interp="linear")


def potential_pin(S, T, P, pin_cast, pin_p, grid):
    return potential_surf(S, T, P, ref=None, isoval=None, grid=grid, pin_cast=pin_cast, pin_p=pin_p, vert_dim=-1, TOL_P_SOLVER=1e-4, eos="gsw", rho_c=None, grav=None, diags=True, output=True, interp="linear")


def anomaly_ref(S, T, P, ref, isoval, grid):
    return anomaly_surf(S, T, P, ref=ref, isoval=isoval, grid=grid, pin_cast=None, pin_p=None, vert_dim=-1, TOL_P_SOLVER=1e-4, eos="gsw", rho_c=None, grav=None, diags=True, output=True, interp="linear")


def anomaly_pin(S, T, P, pin_cast, pin_p, grid):
    return anomaly_surf(S, T, P, ref=None, isoval=None, grid=grid, pin_cast=pin_cast, pin_p=pin_p, vert_dim=-1, TOL_P_SOLVER=1e-4, eos="gsw", rho_c=None, grav=None, diags=True, output=True, interp="linear")


def omega(S, T, P, edges, dist, distperp, pin, p0):
    return omega_surf(S, T, P, {"edges": edges, "dist": dist, "distperp": distperp}, pin, p0, vert_dim=-1, p_ml=None, diags=True, output=True, eos="gsw", rho_c=None, grav=None, interp="linear",
                      ITER_MIN=1, ITER_MAX=10, ITER_START_WETTING=1, ITER_STOP_WETTING=5, TOL_P_SOLVER=1e-4, TOL_LRPD_MAV=1e-7, TOL_P_CHANGE_RMS=0.0, OMEGA_FORMULATION="poisson",
                      ITER_WET_PERIM=np.iinfo(int).max)


def unstable(S, T, P, eos):
    return count_unstable(S, T, P, eos=eos, eos_s_t=None, interp_two=None, vert_dim=-1)


def stabilize(S, T, P, eos):
    stabilize_ST(S, T, P, eos, min_dLRPDdp=1e-6, weight=10.0, vert_dim=-1, tol=1e-10, method="SLSQP", verbose=True, options={"maxiter": 1000})


def mixed(S, T, P):
    return mixed_layer(S, T, P, eos="gsw", grav=None, rho_c=None, pot_dens_diff=0.03, ref_p=100.0, bottle_index=1, interp="linear", vert_dim=-1)


def label(S, T, P, p1):
    return veronis(p1, S, T, P, p0=P[0], p_ref=0.0, b=1.0, dp=1.0, interp="linear", eos="gsw", grav=None, rho_c=None)


def link(sB, tB, pB, S, T, P):
    return ntp_bottle_to_cast(sB, tB, pB, S, T, P, tol_p=1e-4, interp="linear", eos="gsw", grav=None, rho_c=None)


def trajectory(S, T, P, p0):
    return neutral_trajectory(S, T, P, p0, vert_dim=-1, tol_p=1e-4, interp="linear", eos="gsw", grav=None, rho_c=None)


def errors(s, t, p, grid):
    return ntp_epsilon_errors(s, t, p, grid, eos_s_t="gsw", grav=None, rho_c=None)


def norms(s, t, p, grid):
    return ntp_epsilon_errors_norms(s, t, p, grid, eos_s_t="gsw", grav=None, rho_c=None)


def rect(dims, periodic):
    return rectilinear.build_grid(dims, periodic, dxC=1.0, dyC=1.0, dyG=1.0, dxG=1.0)


def tri(dims):
    return tripolar.build_grid(dims, e1u=1.0, e2v=1.0, e2u=1.0, e1v=1.0)


def to_graph(edges):
    return graph.edges_to_graph(edges, N=-1, weights=None)


def to_csr(edges):
    return graph.edges_to_csr(edges, N=-1)


def div(vector, a, b):
    return divergence(vector, (a, b), distperp=1.0, area=1.0)


def first_nan(a):
    return find_first_nan(a, axis=-1)


def take(a, idx):
    return take_fill(a, idx, fillval=np.nan)


def ocean(ni, nj, nk):
    return synthocean((ni, nj, nk), pbot=4000.0, SSSSa=0.3, zonally_uniform=False, wrap=(False, False))


def coeffs(x):
    return make_pp(interpolant="linear", kind="u", out="coeffs", nans=True, num_dep_vars=1)


def evaluate(x, X, Yppc):
    return ppval_1(x, X, Yppc, 0)


def evaluate_two(x, X, Yppc, Zppc):
    return ppval_1_two(x, X, Yppc, Zppc, 0)


def poly(x, c):
    return pval(x, c, 0)


def eos_plain(s, t, p):
    return make_eos("jmd95", grav=None, rho_c=None)(s, t, p)


def bsq(s, t, p, eos, grav, rho_c):
    return make_bsq(eos, grav, rho_c, num_p_derivs=0)(s, t, p)

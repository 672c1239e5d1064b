"""Drivers: the public functions called with their required arguments only."""
from neutralocean.surface import potential_surf, anomaly_surf, omega_surf
from neutralocean.stability import count_unstable, stabilize_ST
from neutralocean.mixed_layer import mixed_layer
from neutralocean.label import veronis
from neutralocean.traj import ntp_bottle_to_cast, neutral_trajectory
from neutralocean.ntp import ntp_epsilon_errors, ntp_epsilon_errors_norms
from neutralocean.grid import rectilinear, tripolar, graph
from neutralocean.grid.tools import divergence
from neutralocean.lib import find_first_nan, take_fill
from neutralocean.synthocean import synthocean
from neutralocean.ppinterp import make_pp
from neutralocean.ppinterp.ppinterp import pval, ppval_1, ppval_1_two
from neutralocean.eos.tools import make_eos, make_bsq


def potential_ref(S, T, P, ref, isoval, grid):
    return potential_surf(S, T, P, ref=ref, isoval=isoval, grid=grid)


def potential_pin(S, T, P, pin_cast, pin_p, grid):
    return potential_surf(S, T, P, pin_cast=pin_cast, pin_p=pin_p, grid=grid)


def anomaly_ref(S, T, P, ref, isoval, grid):
    return anomaly_surf(S, T, P, ref=ref, isoval=isoval, grid=grid)


def anomaly_pin(S, T, P, pin_cast, pin_p, grid):
    return anomaly_surf(S, T, P, pin_cast=pin_cast, pin_p=pin_p, grid=grid)


def omega(S, T, P, edges, dist, distperp, pin, p0):
    return omega_surf(S, T, P, {"edges": edges, "dist": dist, "distperp": distperp}, pin, p0)


def unstable(S, T, P, eos):
    return count_unstable(S, T, P, eos=eos)


def stabilize(S, T, P, eos):
    stabilize_ST(S, T, P, eos)


def mixed(S, T, P):
    return mixed_layer(S, T, P)


def label(S, T, P, p1):
    return veronis(p1, S, T, P)


def link(sB, tB, pB, S, T, P):
    return ntp_bottle_to_cast(sB, tB, pB, S, T, P)


def trajectory(S, T, P, p0):
    return neutral_trajectory(S, T, P, p0)


def errors(s, t, p, grid):
    return ntp_epsilon_errors(s, t, p, grid)


def norms(s, t, p, grid):
    return ntp_epsilon_errors_norms(s, t, p, grid)


def rect(dims, periodic):
    return rectilinear.build_grid(dims, periodic)


def tri(dims):
    return tripolar.build_grid(dims)


def to_graph(edges):
    return graph.edges_to_graph(edges)


def to_csr(edges):
    return graph.edges_to_csr(edges)


def div(vector, a, b):
    return divergence(vector, (a, b))


def first_nan(a):
    return find_first_nan(a)


def take(a, idx):
    return take_fill(a, idx)


def ocean(ni, nj, nk):
    return synthocean((ni, nj, nk))


def coeffs(x):
    return make_pp()


def evaluate(x, X, Yppc):
    return ppval_1(x, X, Yppc)


def evaluate_two(x, X, Yppc, Zppc):
    return ppval_1_two(x, X, Yppc, Zppc)


def poly(x, c):
    return pval(x, c)


def eos_plain(s, t, p):
    return make_eos("jmd95")(s, t, p)


def bsq(s, t, p, eos, grav, rho_c):
    return make_bsq(eos, grav, rho_c)(s, t, p)

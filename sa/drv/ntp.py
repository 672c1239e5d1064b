"""Drivers: neutrality errors through the public functions."""
from neutralocean.ntp import ntp_epsilon_errors, ntp_epsilon_errors_norms


def errors_tuple(s, t, p, edges, eos_s_t, grav, rho_c):
    return ntp_epsilon_errors(s, t, p, (edges[0], edges[1]), eos_s_t, grav, rho_c)


def errors_grid(s, t, p, edges, dist, eos_s_t, grav, rho_c):
    return ntp_epsilon_errors(s, t, p, {"edges": edges, "dist": dist}, eos_s_t, grav, rho_c)


def errors_unit(s, t, p, edges, eos_s_t, grav, rho_c):
    return ntp_epsilon_errors(s, t, p, {"edges": edges}, eos_s_t, grav, rho_c)


def norms(s, t, p, edges, dist, distperp, eos_s_t, grav, rho_c):
    return ntp_epsilon_errors_norms(s, t, p, {"edges": edges, "dist": dist, "distperp": distperp}, eos_s_t, grav, rho_c)


def norms_unit(s, t, p, edges, eos_s_t, grav, rho_c):
    return ntp_epsilon_errors_norms(s, t, p, {"edges": edges}, eos_s_t, grav, rho_c)

"""Reference definitions: neutrality errors (analysed, never run)."""
import numpy as np
from neutralocean.lib import xr_to_np
from neutralocean.eos.tools import make_eos_s_t


def eps1(s, t, p, a, b, eos_s_t):
    """difference of s and t from a to b, weighted by the partial derivatives at the midpoint"""
    n = len(a)
    e = np.empty(n, dtype=s.dtype)
    for i in range(n):
        m, k = a[i], b[i]
        rs, rt = eos_s_t((s[m] + s[k]) / 2, (t[m] + t[k]) / 2, (p[m] + p[k]) / 2)
        e[i] = rs * (s[k] - s[m]) + rt * (t[k] - t[m])
    return e


def errors_tuple(s, t, p, edges, eos_s_t, grav, rho_c):
    f = make_eos_s_t(eos_s_t, grav, rho_c)
    return eps1(np.reshape(xr_to_np(s), -1), np.reshape(xr_to_np(t), -1), np.reshape(xr_to_np(p), -1), edges[0], edges[1], f)


def errors_grid(s, t, p, edges, dist, eos_s_t, grav, rho_c):
    f = make_eos_s_t(eos_s_t, grav, rho_c)
    return eps1(np.reshape(xr_to_np(s), -1), np.reshape(xr_to_np(t), -1), np.reshape(xr_to_np(p), -1), edges[0], edges[1], f) / dist


def errors_unit(s, t, p, edges, eos_s_t, grav, rho_c):
    f = make_eos_s_t(eos_s_t, grav, rho_c)
    return eps1(np.reshape(xr_to_np(s), -1), np.reshape(xr_to_np(t), -1), np.reshape(xr_to_np(p), -1), edges[0], edges[1], f)


def norms(s, t, p, edges, dist, distperp, eos_s_t, grav, rho_c):
    """area-weighted: sum(area * (e/dist)**2) / sum(area), and sum(area * |e|/dist) / sum(area), over edges whose e is finite"""
    f = make_eos_s_t(eos_s_t, grav, rho_c)
    e = eps1(np.reshape(xr_to_np(s), -1), np.reshape(xr_to_np(t), -1), np.reshape(xr_to_np(p), -1), edges[0], edges[1], f)
    total = np.sum(dist * distperp * np.isfinite(e))
    if total == 0.0:
        return 0.0, 0.0
    return np.sqrt(np.nansum(distperp / dist * e * e) / total), np.nansum(distperp * np.abs(e)) / total


def norms_unit(s, t, p, edges, eos_s_t, grav, rho_c):
    f = make_eos_s_t(eos_s_t, grav, rho_c)
    e = eps1(np.reshape(xr_to_np(s), -1), np.reshape(xr_to_np(t), -1), np.reshape(xr_to_np(p), -1), edges[0], edges[1], f)
    total = np.sum(np.isfinite(e))
    if total == 0.0:
        return 0.0, 0.0
    return np.sqrt(np.nansum(e * e) / total), np.nansum(np.abs(e)) / total

"""Reference definitions: published equations of state (analysed, never run).

specvol: Roquet et al. (2015), TEOS-10 75-term polynomial.
rho_jmd95: Jackett & McDougall (1995), in-situ density from s (PSU), t (potential temperature), p (dbar).
rho_jmdfwg06: Jackett et al. (2006), rational function of s, t, p.
"""
import numpy as np


def specvol(SA, CT, p):
    x = np.sqrt(0.0248826675584615 * max(SA, 0.0) + 5.971840214030754e-1)
    y = CT * 0.025
    z = p * 1e-4
    v = 0.0
    v = v + 1.0769995862e-3 * x ** 0 * y ** 0 * z ** 0
    v = v + -6.0799143809e-5 * x ** 0 * y ** 0 * z ** 1
    v = v + 9.9856169219e-6 * x ** 0 * y ** 0 * z ** 2
    v = v + -1.1309361437e-6 * x ** 0 * y ** 0 * z ** 3
    v = v + 1.0531153080e-7 * x ** 0 * y ** 0 * z ** 4
    v = v + -1.2647261286e-8 * x ** 0 * y ** 0 * z ** 5
    v = v + 1.9613503930e-9 * x ** 0 * y ** 0 * z ** 6
    v = v + -1.5649734675e-5 * x ** 0 * y ** 1 * z ** 0
    v = v + 1.8505765429e-5 * x ** 0 * y ** 1 * z ** 1
    v = v + -1.1736386731e-6 * x ** 0 * y ** 1 * z ** 2
    v = v + -3.6527006553e-7 * x ** 0 * y ** 1 * z ** 3
    v = v + 3.1454099902e-7 * x ** 0 * y ** 1 * z ** 4
    v = v + 2.7762106484e-5 * x ** 0 * y ** 2 * z ** 0
    v = v + -1.1716606853e-5 * x ** 0 * y ** 2 * z ** 1
    v = v + 2.1305028740e-6 * x ** 0 * y ** 2 * z ** 2
    v = v + 2.8695905159e-7 * x ** 0 * y ** 2 * z ** 3
    v = v + -1.6521159259e-5 * x ** 0 * y ** 3 * z ** 0
    v = v + 7.9279656173e-6 * x ** 0 * y ** 3 * z ** 1
    v = v + -4.6132540037e-7 * x ** 0 * y ** 3 * z ** 2
    v = v + 6.9111322702e-6 * x ** 0 * y ** 4 * z ** 0
    v = v + -3.4102187482e-6 * x ** 0 * y ** 4 * z ** 1
    v = v + -6.3352916514e-8 * x ** 0 * y ** 4 * z ** 2
    v = v + -8.0539615540e-7 * x ** 0 * y ** 5 * z ** 0
    v = v + 5.0736766814e-7 * x ** 0 * y ** 5 * z ** 1
    v = v + 2.0543094268e-7 * x ** 0 * y ** 6 * z ** 0
    v = v + -3.1038981976e-4 * x ** 1 * y ** 0 * z ** 0
    v = v + 2.4262468747e-5 * x ** 1 * y ** 0 * z ** 1
    v = v + -5.8484432984e-7 * x ** 1 * y ** 0 * z ** 2
    v = v + 3.6310188515e-7 * x ** 1 * y ** 0 * z ** 3
    v = v + -1.1147125423e-7 * x ** 1 * y ** 0 * z ** 4
    v = v + 3.5009599764e-5 * x ** 1 * y ** 1 * z ** 0
    v = v + -9.5677088156e-6 * x ** 1 * y ** 1 * z ** 1
    v = v + -5.5699154557e-6 * x ** 1 * y ** 1 * z ** 2
    v = v + -2.7295696237e-7 * x ** 1 * y ** 1 * z ** 3
    v = v + -3.7435842344e-5 * x ** 1 * y ** 2 * z ** 0
    v = v + -2.3678308361e-7 * x ** 1 * y ** 2 * z ** 1
    v = v + 3.9137387080e-7 * x ** 1 * y ** 2 * z ** 2
    v = v + 2.4141479483e-5 * x ** 1 * y ** 3 * z ** 0
    v = v + -3.4558773655e-6 * x ** 1 * y ** 3 * z ** 1
    v = v + 7.7618888092e-9 * x ** 1 * y ** 3 * z ** 2
    v = v + -8.7595873154e-6 * x ** 1 * y ** 4 * z ** 0
    v = v + 1.2956717783e-6 * x ** 1 * y ** 4 * z ** 1
    v = v + -3.3052758900e-7 * x ** 1 * y ** 5 * z ** 0
    v = v + 6.6928067038e-4 * x ** 2 * y ** 0 * z ** 0
    v = v + -3.4792460974e-5 * x ** 2 * y ** 0 * z ** 1
    v = v + -4.8122251597e-6 * x ** 2 * y ** 0 * z ** 2
    v = v + 1.6746303780e-8 * x ** 2 * y ** 0 * z ** 3
    v = v + -4.3592678561e-5 * x ** 2 * y ** 1 * z ** 0
    v = v + 1.1100834765e-5 * x ** 2 * y ** 1 * z ** 1
    v = v + 5.4620748834e-6 * x ** 2 * y ** 1 * z ** 2
    v = v + 3.5907822760e-5 * x ** 2 * y ** 2 * z ** 0
    v = v + 2.9283346295e-6 * x ** 2 * y ** 2 * z ** 1
    v = v + -6.5731104067e-7 * x ** 2 * y ** 2 * z ** 2
    v = v + -1.4353633048e-5 * x ** 2 * y ** 3 * z ** 0
    v = v + 3.1655306078e-7 * x ** 2 * y ** 3 * z ** 1
    v = v + 4.3703680598e-6 * x ** 2 * y ** 4 * z ** 0
    v = v + -8.5047933937e-4 * x ** 3 * y ** 0 * z ** 0
    v = v + 3.7470777305e-5 * x ** 3 * y ** 0 * z ** 1
    v = v + 4.9263106998e-6 * x ** 3 * y ** 0 * z ** 2
    v = v + 3.4532461828e-5 * x ** 3 * y ** 1 * z ** 0
    v = v + -9.8447117844e-6 * x ** 3 * y ** 1 * z ** 1
    v = v + -1.3544185627e-6 * x ** 3 * y ** 1 * z ** 2
    v = v + -1.8698584187e-5 * x ** 3 * y ** 2 * z ** 0
    v = v + -4.8826139200e-7 * x ** 3 * y ** 2 * z ** 1
    v = v + 2.2863324556e-6 * x ** 3 * y ** 3 * z ** 0
    v = v + 5.8086069943e-4 * x ** 4 * y ** 0 * z ** 0
    v = v + -1.7322218612e-5 * x ** 4 * y ** 0 * z ** 1
    v = v + -1.7811974727e-6 * x ** 4 * y ** 0 * z ** 2
    v = v + -1.1959409788e-5 * x ** 4 * y ** 1 * z ** 0
    v = v + 2.5909225260e-6 * x ** 4 * y ** 1 * z ** 1
    v = v + 3.8595339244e-6 * x ** 4 * y ** 2 * z ** 0
    v = v + -2.1092370507e-4 * x ** 5 * y ** 0 * z ** 0
    v = v + 3.0927427253e-6 * x ** 5 * y ** 0 * z ** 1
    v = v + 1.3864594581e-6 * x ** 5 * y ** 1 * z ** 0
    v = v + 3.1932457305e-5 * x ** 6 * y ** 0 * z ** 0
    return v


def rho_jmd95(s, t, p):
    r = np.sqrt(s)
    rho0 = (999.842594) + (6.793952e-02) * t + (-9.095290e-03) * t ** 2 + (1.001685e-04) * t ** 3 + (-1.120083e-06) * t ** 4 + (6.536332e-09) * t ** 5
    rho0 = rho0 + (8.244930e-01) * s + (-4.089900e-03) * s * t + (7.643800e-05) * s * t ** 2 + (-8.246700e-07) * s * t ** 3 + (5.387500e-09) * s * t ** 4 + (-5.724660e-03) * s * r + (1.022700e-04) * s * r * t + (-1.654600e-06) * s * r * t ** 2 + (4.831400e-04) * s * s
    K = (1.965933e+05) + (1.444304e+03) * t + (-1.706103e+01) * t ** 2 + (9.648704e-02) * t ** 3 + (-4.190253e-04) * t ** 4 + (5.284855e+02) * s + (-3.101089e+00) * s * t + (6.283263e-02) * s * t ** 2 + (-5.084188e-04) * s * t ** 3 + (3.886640e+00) * s * r + (9.085835e-02) * s * r * t + (-4.619924e-03) * s * r * t ** 2
    K = K + p * ((3.186519e+00) + (2.212276e-02) * t + (-2.984642e-04) * t ** 2 + (1.956415e-06) * t ** 3 + (6.704388e-03) * s + (-1.847318e-04) * s * t + (2.059331e-07) * s * t ** 2 + (1.480266e-04) * s * r)
    K = K + p * p * ((2.102898e-05) + (-1.202016e-06) * t + (1.394680e-08) * t ** 2 + (-2.040237e-07) * s + (6.128773e-09) * s * t + (6.207323e-11) * s * t ** 2)
    return rho0 / (1 - p / K)


def rho_jmdfwg06(s, t, p):
    r = np.sqrt(s)
    num = (9.9984085444849347e+02) + (7.3471625860981584e+00) * t + (-5.3211231792841769e-02) * t ** 2 + (3.6492439109814549e-04) * t ** 3 + (2.5880571023991390e+00) * s + (-6.7168282786692355e-03) * s * t + (1.9203202055760151e-03) * s * s + (1.1798263740430364e-02) * p + (9.8920219266399117e-08) * p * t ** 2 + (4.6996642771754730e-06) * p * s + (-2.5862187075154352e-08) * p ** 2 + (-3.2921414007960662e-12) * p ** 2 * t ** 2
    den = (1.0000000000000000e+00) + (7.2815210113327091e-03) * t + (-4.4787265461983921e-05) * t ** 2 + (3.3851002965802430e-07) * t ** 3 + (1.3651202389758572e-10) * t ** 4 + (1.7632126669040377e-03) * s + (-8.8066583251206474e-06) * s * t + (-1.8832689434804897e-10) * s * t ** 3 + (5.7463776745432097e-06) * s * r + (1.4716275472242334e-09) * s * r * t ** 2 + (6.7103246285651894e-06) * p + (-2.4461698007024582e-17) * p ** 2 * t ** 3 + (-9.1534417604289062e-18) * p ** 3 * t
    return num / den


# ---- function handles -----------------------------------------------------------------
def specvol_s_t(SA, CT, p):
    pass


def specvol_p(SA, CT, p):
    pass


def rho_s_t(s, t, p):
    pass


def rho_p(s, t, p):
    pass


# ---- what make_eos, make_eos_s_t, make_eos_p must return ---------------------------------
def plain_gsw(s, t, p):
    return specvol(s, t, p)


def plain_gsw_s_t(s, t, p):
    return specvol_s_t(s, t, p)


def plain_gsw_p(s, t, p):
    return specvol_p(s, t, p)


def plain_jmd(s, t, p):
    return rho_jmd(s, t, p)


def plain_jmd_s_t(s, t, p):
    return rho_s_t(s, t, p)


def plain_jmd_p(s, t, p):
    return rho_p(s, t, p)


def rho_jmd(s, t, p):
    pass


# Boussinesq: third argument is a depth z; in-situ pressure is 1e-4 grav rho_c z; d/dz by the chain rule
def bsq_gsw(s, t, z, grav, rho_c):
    return specvol(s, t, 1e-4 * grav * rho_c * z)


def bsq_gsw_s_t(s, t, z, grav, rho_c):
    return specvol_s_t(s, t, 1e-4 * grav * rho_c * z)


def bsq_gsw_p(s, t, z, grav, rho_c):
    return specvol_p(s, t, 1e-4 * grav * rho_c * z) * (1e-4 * grav * rho_c)


def bsq_jmd(s, t, z, grav, rho_c):
    return rho_jmd(s, t, 1e-4 * grav * rho_c * z)


def bsq_jmd_s_t(s, t, z, grav, rho_c):
    return rho_s_t(s, t, 1e-4 * grav * rho_c * z)


def bsq_jmd_p(s, t, z, grav, rho_c):
    return rho_p(s, t, 1e-4 * grav * rho_c * z) * (1e-4 * grav * rho_c)


def own(eos, s, t, p):
    return eos(s, t, p)


def bsq_own(eos, s, t, z, grav, rho_c):
    return eos(s, t, 1e-4 * grav * rho_c * z)


def bsq_own_p(eos, s, t, z, grav, rho_c):
    return eos(s, t, 1e-4 * grav * rho_c * z) * (1e-4 * grav * rho_c)


# GSW-C wrappers: derivatives of in-situ density; pressure derivative per dbar
def gswc_s_t(s, t, p):
    r = gsw.rho_first_derivatives(s, t, p)
    return r[0], r[1]


def gswc_p(s, t, p):
    r = gsw.rho_first_derivatives(s, t, p)
    return 1e4 * r[2]


import ctypes
import gsw


def bsq_own_pp(eos, s, t, z, grav, rho_c):
    return eos(s, t, 1e-4 * grav * rho_c * z) * (1e-4 * grav * rho_c) ** 2


def gswc_rho(s, t, p):
    return gsw_rho(s, t, p)


gsw_rho = ctypes.cdll.LoadLibrary(gsw._gsw_ufuncs.__file__).gsw_rho

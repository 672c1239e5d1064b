"""Drivers: requests that are not supported."""
from neutralocean.eos.tools import make_eos, make_eos_s_t, make_eos_p
from neutralocean.ppinterp.tools import make_pp


def eos_name(x):
    return make_eos("teos")


def eos_any(name):
    if name in ("gsw", "jmd95", "jmdfwg06"):
        return 0
    return make_eos(name)


def eos_any_s_t(name):
    if name in ("gsw", "jmd95", "jmdfwg06"):
        return 0
    return make_eos_s_t(name)


def eos_any_p(name):
    if name in ("gsw", "jmd95", "jmdfwg06"):
        return 0
    return make_eos_p(name)


def eos_bsq(name, grav, rho_c):
    if name in ("gsw", "jmd95", "jmdfwg06"):
        return 0
    return make_eos(name, grav, rho_c)


def eos_case(x):
    return make_eos("GSW")


def eos_s_t_name(x):
    return make_eos_s_t("teos")


def eos_p_name(x):
    return make_eos_p("teos")


def eos_module(x):
    return make_eos("gswc")


def eos_number(x):
    return make_eos(3.5)


def eos_none(x):
    return make_eos(None)


def pp_name(x):
    return make_pp("spline")


def pp_any(name, kind, out, nans, num):
    if name in ("linear", "pchip"):
        return 0
    return make_pp(name, kind, out, nans, num)


def pp_kind(x):
    return make_pp("linear", "2")


def pp_out(x):
    return make_pp("pchip", "1", "values")


def pp_num0(x):
    return make_pp("linear", "u", "interp", True, 0)


def pp_num3(x):
    return make_pp("linear", "1", "interp", True, 3)


def pp_coeffs2(x):
    return make_pp("linear", "1", "coeffs", True, 2)


def pp_coeffs2u(x):
    return make_pp("pchip", "u", "coeffs", True, 2)


def pp_nonan_interp(x):
    return make_pp("linear", "1", "interp", False)


def pp_nonan_interp2(x):
    return make_pp("pchip", "1", "interp", False, 2)


def pp_nonan_u(x):
    return make_pp("pchip", "u", "coeffs", False)

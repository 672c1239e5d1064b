"""Drivers: equations of state through the public constructors."""
from neutralocean.eos.tools import make_eos, make_eos_s_t, make_eos_p, make_bsq, vectorize_eos


def plain_gsw(s, t, p):
    return make_eos("gsw")(s, t, p)


def bsq_gsw(s, t, z, grav, rho_c):
    return make_eos("gsw", grav, rho_c)(s, t, z)


def plaing_gsw(s, t, p, grav):
    return make_eos("gsw", grav, None)(s, t, p)


def plainr_gsw(s, t, p, rho_c):
    return make_eos("gsw", None, rho_c)(s, t, p)


def plain_gsw_s_t(s, t, p):
    return make_eos_s_t("gsw")(s, t, p)


def bsq_gsw_s_t(s, t, z, grav, rho_c):
    return make_eos_s_t("gsw", grav, rho_c)(s, t, z)


def plaing_gsw_s_t(s, t, p, grav):
    return make_eos_s_t("gsw", grav, None)(s, t, p)


def plainr_gsw_s_t(s, t, p, rho_c):
    return make_eos_s_t("gsw", None, rho_c)(s, t, p)


def plain_gsw_p(s, t, p):
    return make_eos_p("gsw")(s, t, p)


def bsq_gsw_p(s, t, z, grav, rho_c):
    return make_eos_p("gsw", grav, rho_c)(s, t, z)


def plaing_gsw_p(s, t, p, grav):
    return make_eos_p("gsw", grav, None)(s, t, p)


def plainr_gsw_p(s, t, p, rho_c):
    return make_eos_p("gsw", None, rho_c)(s, t, p)


def plain_jmd95(s, t, p):
    return make_eos("jmd95")(s, t, p)


def bsq_jmd95(s, t, z, grav, rho_c):
    return make_eos("jmd95", grav, rho_c)(s, t, z)


def plaing_jmd95(s, t, p, grav):
    return make_eos("jmd95", grav, None)(s, t, p)


def plainr_jmd95(s, t, p, rho_c):
    return make_eos("jmd95", None, rho_c)(s, t, p)


def plain_jmd95_s_t(s, t, p):
    return make_eos_s_t("jmd95")(s, t, p)


def bsq_jmd95_s_t(s, t, z, grav, rho_c):
    return make_eos_s_t("jmd95", grav, rho_c)(s, t, z)


def plaing_jmd95_s_t(s, t, p, grav):
    return make_eos_s_t("jmd95", grav, None)(s, t, p)


def plainr_jmd95_s_t(s, t, p, rho_c):
    return make_eos_s_t("jmd95", None, rho_c)(s, t, p)


def plain_jmd95_p(s, t, p):
    return make_eos_p("jmd95")(s, t, p)


def bsq_jmd95_p(s, t, z, grav, rho_c):
    return make_eos_p("jmd95", grav, rho_c)(s, t, z)


def plaing_jmd95_p(s, t, p, grav):
    return make_eos_p("jmd95", grav, None)(s, t, p)


def plainr_jmd95_p(s, t, p, rho_c):
    return make_eos_p("jmd95", None, rho_c)(s, t, p)


def plain_jmdfwg06(s, t, p):
    return make_eos("jmdfwg06")(s, t, p)


def bsq_jmdfwg06(s, t, z, grav, rho_c):
    return make_eos("jmdfwg06", grav, rho_c)(s, t, z)


def plaing_jmdfwg06(s, t, p, grav):
    return make_eos("jmdfwg06", grav, None)(s, t, p)


def plainr_jmdfwg06(s, t, p, rho_c):
    return make_eos("jmdfwg06", None, rho_c)(s, t, p)


def plain_jmdfwg06_s_t(s, t, p):
    return make_eos_s_t("jmdfwg06")(s, t, p)


def bsq_jmdfwg06_s_t(s, t, z, grav, rho_c):
    return make_eos_s_t("jmdfwg06", grav, rho_c)(s, t, z)


def plaing_jmdfwg06_s_t(s, t, p, grav):
    return make_eos_s_t("jmdfwg06", grav, None)(s, t, p)


def plainr_jmdfwg06_s_t(s, t, p, rho_c):
    return make_eos_s_t("jmdfwg06", None, rho_c)(s, t, p)


def plain_jmdfwg06_p(s, t, p):
    return make_eos_p("jmdfwg06")(s, t, p)


def bsq_jmdfwg06_p(s, t, z, grav, rho_c):
    return make_eos_p("jmdfwg06", grav, rho_c)(s, t, z)


def plaing_jmdfwg06_p(s, t, p, grav):
    return make_eos_p("jmdfwg06", grav, None)(s, t, p)


def plainr_jmdfwg06_p(s, t, p, rho_c):
    return make_eos_p("jmdfwg06", None, rho_c)(s, t, p)


def plain_own(eos, s, t, p):
    return make_eos(eos)(s, t, p)


def bsq_own(eos, s, t, z, grav, rho_c):
    return make_eos(eos, grav, rho_c)(s, t, z)


def plain_own_s_t(eos, s, t, p):
    return make_eos_s_t(eos)(s, t, p)


def bsq_own_s_t(eos, s, t, z, grav, rho_c):
    return make_eos_s_t(eos, grav, rho_c)(s, t, z)


def plain_own_p(eos, s, t, p):
    return make_eos_p(eos)(s, t, p)


def bsq_own_p(eos, s, t, z, grav, rho_c):
    return make_eos_p(eos, grav, rho_c)(s, t, z)


def vec(eos, s, t, p):
    return vectorize_eos(eos)(s, t, p)


def bsq_direct(eos, s, t, z, grav, rho_c):
    return make_bsq(eos, grav, rho_c)(s, t, z)


def bsq_direct_p(eos, s, t, z, grav, rho_c):
    return make_bsq(eos, grav, rho_c, num_p_derivs=1)(s, t, z)


def bsq_direct_pp(eos, s, t, z, grav, rho_c):
    return make_bsq(eos, grav, rho_c, num_p_derivs=2)(s, t, z)

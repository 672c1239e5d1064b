"""Requests that are not supported end in an error."""


def refused(x):
    raise ValueError("not supported")


def unknown_name(name):
    if name in ("gsw", "jmd95", "jmdfwg06"):
        return 0
    raise ValueError("not supported")


def unknown_name_bsq(name, grav, rho_c):
    if name in ("gsw", "jmd95", "jmdfwg06"):
        return 0
    raise ValueError("not supported")


def unknown_interpolant(name, kind, out, nans, num):
    if name in ("linear", "pchip"):
        return 0
    raise ValueError("not supported")

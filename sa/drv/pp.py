"""Driver functions: uses of the public API, analysed with the package's code inlined."""
from neutralocean.ppinterp.pchip import pchip_coeffs, pchip_coeffs_1, pchip_coeffs_1_nonan, pchip_interp, pchip_interp_two
from neutralocean.ppinterp.linear import linear_coeffs, linear_coeffs_1, linear_interp, linear_interp_two
from neutralocean.ppinterp.ppinterp import ppval, ppval_two
from neutralocean.ppinterp.tools import make_pp
from neutralocean.ppinterp.lib import valid_range
from ref.pp import valid_range_1_two


def u_row_first(X, Y):
    k, K = valid_range_1_two(X, Y)
    C = pchip_coeffs(X, Y)
    return C[k, 0], C[k, 1], C[k, 2], C[k, 3]


def u_row_i(X, Y, i):
    C = pchip_coeffs(X, Y)
    return C[i, 0], C[i, 1], C[i, 2], C[i, 3]


def u_row_last(X, Y):
    k, K = valid_range_1_two(X, Y)
    C = pchip_coeffs(X, Y)
    return C[K - 2, 0], C[K - 2, 1], C[K - 2, 2], C[K - 2, 3]


def one_row_first(X, Y):
    k, K = valid_range_1_two(X, Y)
    C = pchip_coeffs_1(X, Y)
    return C[k, 0], C[k, 1], C[k, 2], C[k, 3]


def one_row_i(X, Y, i):
    C = pchip_coeffs_1(X, Y)
    return C[i, 0], C[i, 1], C[i, 2], C[i, 3]


def one_row_last(X, Y):
    k, K = valid_range_1_two(X, Y)
    C = pchip_coeffs_1(X, Y)
    return C[K - 2, 0], C[K - 2, 1], C[K - 2, 2], C[K - 2, 3]


def full_row_first(X, Y):
    C = pchip_coeffs_1_nonan(X, Y)
    return C[0, 0], C[0, 1], C[0, 2], C[0, 3]


def full_row_i(X, Y, i):
    C = pchip_coeffs_1_nonan(X, Y)
    return C[i, 0], C[i, 1], C[i, 2], C[i, 3]


def full_row_last(X, Y):
    n = len(X)
    C = pchip_coeffs_1_nonan(X, Y)
    return C[n - 2, 0], C[n - 2, 1], C[n - 2, 2], C[n - 2, 3]


def linear_elem_u(X, Y, i):
    C = linear_coeffs(X, Y)
    return C[i, 0], C[i, 1]


def linear_elem_1(X, Y, i):
    C = linear_coeffs_1(X, Y)
    return C[i, 0], C[i, 1]


def linear_elem_last_u(X, Y):
    C = linear_coeffs(X, Y)
    n = len(Y) - 1
    return C[n, 0], C[n, 1]


def linear_elem_last_1(X, Y):
    C = linear_coeffs_1(X, Y)
    n = len(Y) - 1
    return C[n, 0], C[n, 1]


# ---- the functions handed out by make_pp, for every documented combination -----------
def mk_linear_u(x, X, Y, d):
    return make_pp("linear", kind="u", out="interp")(x, X, Y, d)


def mk_linear_u_two(x, X, Y, Z, d):
    return make_pp("linear", kind="u", out="interp", num_dep_vars=2)(x, X, Y, Z, d)


def mk_linear_1(x, X, Y, d):
    return make_pp("linear", kind="1", out="interp")(x, X, Y, d)


def mk_linear_1_two(x, X, Y, Z, d):
    return make_pp("linear", kind="1", out="interp", num_dep_vars=2)(x, X, Y, Z, d)


def mk_pchip_u(x, X, Y, d):
    return make_pp("pchip", kind="u", out="interp")(x, X, Y, d)


def mk_pchip_u_two(x, X, Y, Z, d):
    return make_pp("pchip", kind="u", out="interp", num_dep_vars=2)(x, X, Y, Z, d)


def mk_pchip_1(x, X, Y, d):
    return make_pp("pchip", kind="1", out="interp")(x, X, Y, d)


def mk_pchip_1_two(x, X, Y, Z, d):
    return make_pp("pchip", kind="1", out="interp", num_dep_vars=2)(x, X, Y, Z, d)


def mkc_linear_u(X, Y, i):
    C = make_pp("linear", kind="u", out="coeffs")(X, Y)
    return C[i, 0], C[i, 1]


def mkc_linear_1(X, Y, i):
    C = make_pp("linear", kind="1", out="coeffs")(X, Y)
    return C[i, 0], C[i, 1]


def mkc_linear_1n(X, Y, i):
    C = make_pp("linear", kind="1", out="coeffs", nans=False)(X, Y)
    return C[i, 0], C[i, 1]


def mkc_pchip_u(X, Y, i):
    C = make_pp("pchip", kind="u", out="coeffs")(X, Y)
    return C[i, 0], C[i, 1], C[i, 2], C[i, 3]


def mkc_pchip_1(X, Y, i):
    C = make_pp("pchip", kind="1", out="coeffs")(X, Y)
    return C[i, 0], C[i, 1], C[i, 2], C[i, 3]


def mkc_pchip_1n(X, Y, i):
    C = make_pp("pchip", kind="1", out="coeffs", nans=False)(X, Y)
    return C[i, 0], C[i, 1], C[i, 2], C[i, 3]


def pv(x, X, Yppc, d):
    return ppval(x, X, Yppc, d)


def pv_two(x, X, Yppc, Zppc, d):
    return ppval_two(x, X, Yppc, Zppc, d)


def mk_table():
    """what make_pp returns for every combination of its arguments it accepts"""
    return (make_pp("linear", "u", "coeffs"), make_pp("linear", "1", "coeffs"), make_pp("linear", "1", "coeffs", False),
            make_pp("pchip", "u", "coeffs"), make_pp("pchip", "1", "coeffs"), make_pp("pchip", "1", "coeffs", False),
            make_pp("linear", "u", "interp"), make_pp("linear", "1", "interp"), make_pp("linear", "u", "interp", True, 2), make_pp("linear", "1", "interp", True, 2),
            make_pp("pchip", "u", "interp"), make_pp("pchip", "1", "interp"), make_pp("pchip", "u", "interp", True, 2), make_pp("pchip", "1", "interp", True, 2))


def range_u(X):
    k, K = valid_range(X)
    return k, K

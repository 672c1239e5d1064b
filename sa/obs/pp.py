from core import Ob, helper

L = "neutralocean.ppinterp.lib."
PP = "neutralocean.ppinterp.ppinterp."
LI = "neutralocean.ppinterp.linear."
PC = "neutralocean.ppinterp.pchip."
X1 = dict(ndim={"X": 1, "Y": 1, "Z": 1}, same=[("X", "Y", "Z")])
X2 = dict(nonan=["X"], ndim={"X": 1, "Y": 1, "Z": 1, "Yppc": 2, "Zppc": 2}, same=[("X", "Y", "Z")], ints=["d"])

helper("valid_range_1", L + "valid_range_1", "ref.pp.valid_range_1", nout=2, ints=True)
helper("valid_range_1_two", L + "valid_range_1_two", "ref.pp.valid_range_1_two", nout=2, ints=True)
helper("pval", PP + "pval", "ref.pp.pval")
helper("ppval_1_two", PP + "ppval_1_two", "ref.pp.ppval_1_two", nout=2)
helper("ppval_1_nonan_two", PP + "ppval_1_nonan_two", "ref.pp.ppval_1_nonan_two", nout=2)
helper("ppval_1", PP + "ppval_1", "ref.pp.ppval_1")
helper("ppval_1_nonan", PP + "ppval_1_nonan", "ref.pp.ppval_1_nonan")

OBS = [
    Ob("valid-range", L + "valid_range_1", "ref.pp.valid_range_1", what="the water part of a cast is the first finite element up to the next NaN", **X1),
    Ob("valid-range-two", L + "valid_range_1_two", "ref.pp.valid_range_1_two", what="the water part of two arrays: first index finite in both up to the next NaN in either", **X1),
    Ob("valid-range-u", "drv.pp.range_u", "ref.pp.valid_range_1", what="the water part of each cast of an array, through the array function", **X1),
    Ob("polynomial", PP + "pval", "ref.pp.pval", ints=["d"], ndim={"C": 1}, what="d-th derivative of a polynomial given highest order first"),
    Ob("linear-piece", LI + "_linear_coeffs_i", "ref.pp.linear_coeffs_i", ints=["i"], what="linear piece: secant slope and left value", **X1),
    Ob("pchip-piece", PC + "_pchip_coeffs_i", "ref.pp.pchip_coeffs_i", ints=["i"], facts=["i", "len(X)-2-i"], what="PCHIP piece i from its (up to) four neighbouring data", **X1),
]
for f in "ppval_1 ppval_1_two ppval_1_nonan ppval_1_nonan_two ppinterp_1 ppinterp_1_two".split():
    OBS.append(Ob(f, PP + f, "ref.pp." + f, opaque=("valid_range_1_two", "pval"), what="locate the piece holding x in the valid data, NaN outside, evaluate there", **X2))
for f, nm in (("u", "array"), ("one", "1-D")):
    for r, c, ft in (("only", "first", "only"), ("first", "first", "many"), ("last", "last", "many"), ("mid", "i", "mid"), ("out", "i", "before"), ("out", "i", "after")):
        OBS.append(Ob("pchip-coeffs-%s-%s-%s" % (f, r, ft), "drv.pp.%s_row_%s" % (f, c), "ref.pp.pchip_row_" + r, opaque=("valid_range_1_two",), ints=["i"],
                      facts=["ref.pp.facts_" + ft], what="%s PCHIP coefficients, row: %s of the valid pieces (%s)" % (nm, r, ft), **X1))
for r, c, q, ft in (("only", "first", "full_row_only", ["len(X)-2", "2-len(X)"]), ("first", "first", "full_row_first", ["len(X)-3"]), ("last", "last", "full_row_last", ["len(X)-3"]),
                    ("mid", "i", "pchip_row_mid", ["i-1", "len(X)-3-i"])):
    OBS.append(Ob("pchip-coeffs-nonan-" + r, "drv.pp.full_row_" + c, "ref.pp." + q, ints=["i"], facts=ft, what="NaN-free PCHIP coefficients, row: " + r, **X1))
INSIDE = dict(ints=["i"], facts=["i", "len(X)-2-i"], **X1)
for n, d in (("linear-coeffs-u", "linear_elem_u"), ("linear-coeffs-1", "linear_elem_1"), ("make-linear-coeffs-u", "mkc_linear_u"), ("make-linear-coeffs-1", "mkc_linear_1"),
             ("make-linear-coeffs-1-nonan", "mkc_linear_1n")):
    OBS.append(Ob(n, "drv.pp." + d, "ref.pp.linear_elem", what="linear coefficients of piece i through the public constructor", **INSIDE))
for n, d in (("linear-coeffs-u-last", "linear_elem_last_u"), ("linear-coeffs-1-last", "linear_elem_last_1")):
    OBS.append(Ob(n, "drv.pp." + d, "ref.pp.linear_elem_last", facts=["len(X)-1"], what="last row of linear coefficients: NaN slope, last datum", **X1))
for n in ("u", "1"):
    OBS.append(Ob("make-pchip-coeffs-" + n, "drv.pp.mkc_pchip_" + n, "ref.pp.pchip_row_mid", opaque=("valid_range_1_two",), ints=["i"], facts=["ref.pp.facts_mid"],
                  what="interior PCHIP coefficients through make_pp", **X1))
OBS.append(Ob("make-pchip-coeffs-1-nonan", "drv.pp.mkc_pchip_1n", "ref.pp.pchip_row_mid", ints=["i"], facts=["i-1", "len(X)-3-i"], what="interior PCHIP coefficients through make_pp, nans=False", **X1))
for k in ("u", "1"):
    for ip in ("linear", "pchip"):
        for two in ("", "_two"):
            OBS.append(Ob("make-%s-interp-%s%s" % (ip, k, two), "drv.pp.mk_%s_%s%s" % (ip, k, two), "ref.pp.interp_%s%s" % (ip, two), opaque=("valid_range_1_two", "pval"),
                          what="make_pp('%s', kind='%s', out='interp') interpolates" % (ip, k), **X2))
OBS.append(Ob("make-pp-table", "drv.pp.mk_table", "ref.pp.table", what="make_pp hands out the function for the interpolant, kind, output, treatment of NaN and number of variables asked for"))
OBS.append(Ob("ppval", "drv.pp.pv", "ref.pp.eval_pp", opaque=("valid_range_1_two", "pval"), what="public array evaluator", **X2))
OBS.append(Ob("ppval-two", "drv.pp.pv_two", "ref.pp.eval_pp_two", opaque=("valid_range_1_two", "pval"), what="public array evaluator, two dependent variables", **X2))

_coef = [o.name for o in OBS if "coeffs" in o.name or o.name in ("linear-piece", "pchip-piece", "valid-range", "valid-range-u", "valid-range-two", "make-pp-table")]
_eval = [o.name for o in OBS if o.name not in _coef or o.name in ("linear-piece", "pchip-piece", "valid-range-two", "make-pp-table")]

from core import Ob, helper

L = "neutralocean.lib."
helper("first_nan", L + "_find_first_nan", "ref.lib.first_nan")
helper("aggsum", L + "aggsum", "ref.lib.aggsum")
helper("xr_in", L + "_xr_in", "ref.lib.xr_in")
helper("process_vert_dim", L + "_process_vert_dim", "ref.lib.process_vert_dim")
helper("contiguous", L + "_contiguous_casts", "ref.lib.contiguous")
OBS = [
    Ob("first-nan-3d", L + "_find_first_nan", "ref.lib.first_nan", what="first NaN along the middle dimension", ndim={"a": 3}),
    Ob("find-first-nan", L + "find_first_nan", "ref.lib.find_first_nan", public=True, opaque=("first_nan",), ints=["axis"], what="first NaN along any axis"),
    Ob("take-fill", L + "take_fill", "ref.lib.take_fill", public=True, what="gather with a fill value for negative indices", free=True, intarrays=["idx"]),
    Ob("aggsum", L + "aggsum", "ref.lib.aggsum", public=True, what="sum by index, negative indices ignored", intarrays=["idx"], ndim={"a": 1, "idx": 1}, same=[("idx", "a")], ints=["n"]),
    Ob("val-at", "neutralocean.lib.val_at", "ref.lib.val_at", public=True, what="value at an index along the last dimension, NaN for negative indices"),
    Ob("xr-to-np", L + "xr_to_np", "ref.lib.xr_to_np", what="numpy values of an xarray input"),
    Ob("xr-in", L + "_xr_in", "ref.lib.xr_in", what="template without the vertical dimension"),
    Ob("xrs-in", L + "_xrs_in", "ref.lib.xrs_in", opaque=("xr_in",), what="output templates: s like S, t like T, p like S with the name and attributes of P"),
    Ob("xr-out", L + "_xr_out", "ref.lib.xr_out", what="results go back into the template"),
    Ob("vert-dim", L + "_process_vert_dim", "ref.lib.process_vert_dim", what="vertical dimension by name or number"),
    Ob("contiguous", L + "_contiguous_casts", "ref.lib.contiguous", what="vertical dimension moved last, float64, C order", free=True),
    Ob("process-casts", L + "_process_casts", "ref.lib.process_casts", opaque=("process_vert_dim", "contiguous"), what="S, T, P as float64 arrays with the vertical dimension last; lower-dimensional P broadcast along the vertical"),
    Ob("interp-casts", L + "_interp_casts", "ref.lib.interp_casts", what="coefficients reused only when of the right shape", free=True),
    Ob("pin-cast", L + "_process_pin_cast", "ref.lib.process_pin_cast", what="pinning cast by index or by coordinate names"),
    Ob("process-eos", L + "_process_eos", "ref.lib.process_eos", opaque=("make_eos", "make_eos_s_t"), what="equation of state by name or functions", free=True),
    Ob("divergence", "drv.lib.divergence", "ref.lib.divergence", opaque=("aggsum",), what="sum of fluxes out of each node over its area", ndim={"vector": 1, "distperp": 1, "area": 1}, intarrays=["a", "b"]),
]

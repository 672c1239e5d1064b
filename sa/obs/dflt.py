from core import Ob

IO = ("make_vertsolve", "xrs_in", "xr_out", "pin_cast", "process_eos", "eps_norms", "process_casts", "make_pp", "valid_range_1", "ppval_1_two")
OM = ("wet_perim", "vertsolve_omega", "poisson", "gradient", "csr", "mixed_layer", "xrs_in", "xr_out", "process_eos", "eps_norms", "process_casts", "make_pp", "bfs_conncomp1", "aggsum")
D3 = dict(ndim={"S": 3, "T": 3, "P": 3}, same=[("S", "T", "P")])
C = dict(ndim={"S": 1, "T": 1, "P": 1}, same=[("S", "T", "P")])


def _ob(fn, what, **k):
    return Ob("default:" + fn, "drv.dflt." + fn, "ref.dflt." + fn, what="left-out arguments of %s take the documented defaults" % what, **k)


OBS = [
    _ob("potential_ref", "potential_surf", opaque=IO), _ob("potential_pin", "potential_surf", opaque=IO),
    _ob("anomaly_ref", "anomaly_surf", opaque=IO), _ob("anomaly_pin", "anomaly_surf", opaque=IO),
    _ob("omega", "omega_surf", opaque=OM, types={"dist": "array", "distperp": "array", "p0": "float", "pin": "int"}),
    _ob("unstable", "count_unstable", opaque=("process_casts",), types={"eos": "callable"}),
    _ob("stabilize", "stabilize_ST", opaque=("process_casts", "process_vert_dim", "xr_to_np", "valid_range_1"), types={"eos": "callable"}),
    _ob("mixed", "mixed_layer", opaque=("vectorize_eos", "make_eos", "make_pp", "process_casts", "process_vert_dim")),
    _ob("label", "veronis", opaque=("process_eos", "make_pp", "ppval_1_two", "pval"), **C),
    _ob("link", "ntp_bottle_to_cast", opaque=("make_eos", "make_pp", "valid_range_1_two", "ntp_link"), **C),
    _ob("trajectory", "neutral_trajectory", opaque=("make_eos", "make_pp", "valid_range_1_two", "ntp_link", "process_casts", "ppval_1_nonan_two")),
    _ob("errors", "ntp_epsilon_errors", opaque=("make_eos_s_t", "xr_to_np", "eps1")),
    _ob("norms", "ntp_epsilon_errors_norms", opaque=("make_eos_s_t", "xr_to_np", "eps1")),
    _ob("rect", "rectilinear.build_grid", ints=["dims"]), _ob("tri", "tripolar.build_grid", ints=["dims"]),
    _ob("to_graph", "edges_to_graph"), _ob("to_csr", "edges_to_csr", intarrays=["edges"]),
    _ob("div", "divergence", opaque=("aggsum",), ndim={"vector": 1}, intarrays=["a", "b"]),
    _ob("first_nan", "find_first_nan", opaque=("first_nan",)), _ob("take", "take_fill", intarrays=["idx"]),
    _ob("ocean", "synthocean", ints=["ni", "nj", "nk"]),
    _ob("coeffs", "make_pp"),
    _ob("evaluate", "ppval_1", opaque=("valid_range_1_two", "pval"), ndim={"X": 1, "Yppc": 2}), _ob("evaluate_two", "ppval_1_two", opaque=("valid_range_1_two", "pval"), ndim={"X": 1, "Yppc": 2, "Zppc": 2}),
    _ob("poly", "pval", ndim={"c": 1}), _ob("eos_plain", "make_eos", opaque=("jmd95_rho",)),
    _ob("bsq", "make_bsq", types={"grav": "float", "rho_c": "float", "eos": "callable"}),
]

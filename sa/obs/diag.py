from core import Ob, helper

N = "neutralocean."
helper("vectorize_eos", N + "eos.tools.vectorize_eos", N + "eos.tools.vectorize_eos")
helper("process_casts_same", N + "lib._process_casts", N + "lib._process_casts", ident=(0, 1, 2))
helper("xr_to_np_same", N + "lib.xr_to_np", N + "lib.xr_to_np", ident=(0,))
OBS = [
    Ob("mixed-layer", N + "mixed_layer.mixed_layer", "ref.diag.mixed_layer", public=True, free=True, opaque=("vectorize_eos", "make_eos", "make_pp", "process_casts", "process_vert_dim"), what="pressure where the density excess over the near-surface bottle reaches the threshold"),
    Ob("veronis", N + "label.veronis", "ref.diag.veronis", public=True, free=True, opaque=("process_eos", "make_pp", "ppval_1_two", "pval"), ndim={"S": 1, "T": 1, "P": 1}, what="potential density plus trapezoidal integral of the gradient"),
    Ob("count-unstable", "drv.diag.count_unstable_fd", "ref.diag.count_unstable_fd", opaque=("process_casts",), types={"eos": "callable"}, what="count of unstable bottle pairs"),
    Ob("count-unstable-interp", "drv.diag.count_unstable_interp", "ref.diag.count_unstable_interp", opaque=("process_casts",), types={"interp_two": "callable", "eos_s_t": "callable"}, what="count of unstable bottles by interpolation"),
    Ob("density-gradient", N + "stability.calc_dLRPDdp_fd_1", "ref.diag.gradient", what="finite-difference density gradient of one cast", ndim={"S": 1, "T": 1, "P": 1}),
    Ob("stabilize", "drv.diag.stabilize", "ref.diag.stabilize", opaque=("process_casts", "process_vert_dim", "xr_to_np", "valid_range_1"), types={"eos": "callable"}, what="objective, its gradient, constraint, which casts are perturbed, where the result goes"),
    Ob("stabilize-inplace", "drv.diag.stabilize", "ref.diag.stabilize", opaque=("process_casts_same", "process_vert_dim", "xr_to_np_same", "valid_range_1"), types={"eos": "callable"}, what="inputs that need no conversion are perturbed in place"),
]

from core import Ob, helper

N = "neutralocean.ntp."
helper("xr_to_np", "neutralocean.lib.xr_to_np", "neutralocean.lib.xr_to_np")
helper("eps1", N + "_ntp_epsilon_error1", "ref.ntp.eps1")
Q = dict(opaque=("make_eos_s_t", "xr_to_np", "eps1"), ndim={"dist": 1, "distperp": 1})
OBS = [
    Ob("eps-edge", N + "_ntp_epsilon_error1", "ref.ntp.eps1", what="neutrality error of every edge, from the midpoint derivatives", ndim={"s": 1, "t": 1, "p": 1, "a": 1, "b": 1}, same=[("a", "b"), ("s", "t", "p")], intarrays=["a", "b"]),
    Ob("eps-tuple", "drv.ntp.errors_tuple", "ref.ntp.errors_tuple", what="errors on a bare edge list: unit distance", **Q),
    Ob("eps-grid", "drv.ntp.errors_grid", "ref.ntp.errors_grid", what="errors on a grid are divided by its distances", **Q),
    Ob("eps-unit", "drv.ntp.errors_unit", "ref.ntp.errors_unit", what="a grid without distances has unit distances", **Q),
    Ob("eps-norms", "drv.ntp.norms", "ref.ntp.norms", what="area-weighted RMS and MAV of the errors", **Q),
    Ob("eps-norms-unit", "drv.ntp.norms_unit", "ref.ntp.norms_unit", what="norms on a grid without distances", **Q),
]

from core import Ob, helper

V = "neutralocean.surface._vertsolve."
VO = ("brent", "guess_to_bounds", "valid_range_1_two", "ppval_1_nonan_two")
D3 = dict(ndim={"S": 3, "T": 3, "P": 3}, same=[("S", "T", "P")])
OBS = [
    Ob("vertsolve-potential", "drv.surf.vs_potential", "ref.surf.potential", opaque=VO, what="per-cast solve of potential density = isovalue", **D3),
    Ob("vertsolve-anomaly", "drv.surf.vs_anomaly", "ref.surf.anomaly", opaque=VO, what="per-cast solve of in-situ density anomaly = isovalue", **D3),
    Ob("vertsolve-omega", "drv.surf.vs_omega", "ref.surf.omega", opaque=VO, what="per-cast move by a prescribed density change", ndim={"S": 2, "T": 2, "P": 2, "s": 1, "t": 1, "p": 1, "phi": 1}, same=[("S", "T", "P"), ("s", "t", "p", "phi")]),
]
L = "neutralocean.lib."
helper("make_vertsolve", V + "_make_vertsolve", V + "_make_vertsolve")
helper("xrs_in", L + "_xrs_in", "ref.lib.xrs_in", nout=3)
helper("xr_out", L + "_xr_out", "ref.lib.xr_out")
helper("pin_cast", L + "_process_pin_cast", "ref.lib.process_pin_cast")
helper("process_eos", L + "_process_eos", "ref.lib.process_eos", nout=2)
helper("eps_norms", "neutralocean.ntp.ntp_epsilon_errors_norms", "neutralocean.ntp.ntp_epsilon_errors_norms", nout=2)
IO = ("make_vertsolve", "xrs_in", "xr_out", "pin_cast", "process_eos", "eps_norms", "process_casts", "make_pp", "valid_range_1", "ppval_1_two")
OBS += [
    Ob("potential-surf", "drv.surf.potential", "ref.surf.potential_api", opaque=IO, what="potential density surface: reference, isovalue, pinning, diagnostics, labels"),
    Ob("anomaly-surf", "drv.surf.anomaly", "ref.surf.anomaly_api", opaque=IO, what="in-situ density anomaly surface: reference, isovalue, pinning, diagnostics, labels"),
    Ob("anomaly-surf-pair", "drv.surf.anomaly_pair", "ref.surf.anomaly_pair", opaque=IO, what="in-situ density anomaly surface with a reference pair"),
    Ob("anomaly-surf-noref", "drv.surf.anomaly_noref", "ref.surf.anomaly_noref", opaque=IO, what="in-situ density anomaly surface referenced to the pinning cast"),
]

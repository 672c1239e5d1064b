from core import Ob, helper

O = "neutralocean.surface.omega."
helper("wet_perim", "neutralocean.bfs.bfs_conncomp1_wet_perim", "neutralocean.bfs.bfs_conncomp1_wet_perim", mut=("s", "t", "p"))
helper("vertsolve_omega", "neutralocean.surface._vertsolve._vertsolve_omega", "neutralocean.surface._vertsolve._vertsolve_omega", mut=("s", "t", "p"))
helper("poisson", O + "_omega_matsolve_poisson", "ref.omega.poisson")
helper("gradient", O + "_omega_matsolve_gradient", "ref.omega.gradient")
helper("matsolve_helper", O + "_omega_matsolve_helper", "ref.omega.helper", nout=5)
helper("csr", "neutralocean.grid.graph.edges_to_csr", "ref.grid.edges_to_csr", nout=2)
helper("mixed_layer", "neutralocean.mixed_layer.mixed_layer", "neutralocean.mixed_layer.mixed_layer")
helper("eps", "neutralocean.ntp.ntp_epsilon_errors", "neutralocean.ntp.ntp_epsilon_errors")
IO = ("wet_perim", "vertsolve_omega", "poisson", "gradient", "csr", "mixed_layer", "xrs_in", "xr_out", "process_eos", "eps_norms", "process_casts", "make_pp", "bfs_conncomp1", "aggsum")
A = dict(intarrays=["m", "edges"], ints=["mref"], ndim={"m": 1})
Y = {"dist": "array", "distperp": "array"}
OBS = [
    Ob("matsolve-helper", O + "_omega_matsolve_helper", "ref.omega.helper", opaque=("eps",), what="edges inside the connected set, weighted errors, renumbering", **A),
    Ob("matsolve-poisson", O + "_omega_matsolve_poisson", "ref.omega.poisson", opaque=("aggsum", "matsolve_helper"), what="Poisson problem: weighted graph Laplacian, divergence of the errors, pinning", **A),
    Ob("matsolve-gradient", O + "_omega_matsolve_gradient", "ref.omega.gradient", opaque=("matsolve_helper",), what="gradient problem: one row per edge, pinning row", **A),
    Ob("omega-point", "drv.surf.omega_point", "ref.omega.point", opaque=IO, types=dict(Y, p0="float", p_ml="array", pin="int"), what="omega iteration from a point, Poisson, with diagnostics and a mixed layer"),
    Ob("omega-mixed", "drv.surf.omega_mixed", "ref.omega.mixed", opaque=IO, types=dict(Y, p0="float", p_ml="dict", pin="int"), notnone=("mixed_layer",), what="omega iteration from a point, Poisson, mixed layer by parameters"),
    Ob("omega-surface", "drv.surf.omega_surface", "ref.omega.surface", opaque=IO + ("pin_cast",), types=dict(Y, p_init="array"), what="omega iteration from a surface, gradient formulation, no diagnostics"),
]

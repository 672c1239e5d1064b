from core import Ob, helper

TR = "neutralocean.traj."
helper("process_casts", "neutralocean.lib._process_casts", "neutralocean.lib._process_casts", nout=3)
helper("make_eos", "neutralocean.eos.tools.make_eos", "neutralocean.eos.tools.make_eos", idem=True)
helper("make_eos_s_t", "neutralocean.eos.tools.make_eos_s_t", "neutralocean.eos.tools.make_eos_s_t", idem=True)
helper("make_pp", "neutralocean.ppinterp.tools.make_pp", "neutralocean.ppinterp.tools.make_pp")
helper("pot_dens_diff", TR + "_pot_dens_diff", "ref.traj._pot_dens_diff")
C = dict(ndim={"S": 1, "T": 1, "P": 1}, same=[("S", "T", "P")])
CC = dict(ndim={"S": 1, "T": 1, "P": 1}, same=[("S", "T", "P")], ints=["k", "K"])
OBS = [
    Ob("pot-dens-diff", TR + "_pot_dens_diff", "ref.traj._pot_dens_diff", opaque=("ppval_1_nonan_two",), what="density difference of bottle and cast at the mid pressure"),
    Ob("ntp-link", TR + "_ntp_bottle_to_cast", "ref.traj._ntp_bottle_to_cast", opaque=("ppval_1_nonan_two", "brent", "guess_to_bounds", "pot_dens_diff"), what="neutral link between a bottle and a cast", **CC),
    Ob("ntp-link-ppc", TR + "_ntp_bottle_to_cast_ppc", "ref.traj._ntp_bottle_to_cast_ppc", opaque=("brent", "guess_to_bounds", "pot_dens_diff"), ndim={"P": 1}, what="neutral link given the cast's interpolant"),
    Ob("ntp-bottle-to-cast", TR + "ntp_bottle_to_cast", "ref.traj.ntp_bottle_to_cast", public=True, free=True, opaque=("make_eos", "make_pp", "valid_range_1_two", "ntp_link"), what="public neutral link: valid data, equation of state, interpolant, tolerance", **C),
    Ob("neutral-trajectory", TR + "neutral_trajectory", "ref.traj.neutral_trajectory", public=True, free=True, opaque=("make_eos", "make_pp", "valid_range_1_two", "ntp_link", "process_casts", "ppval_1_nonan_two"), what="chain of neutral links, NaN from the first cast that cannot be reached"),
]

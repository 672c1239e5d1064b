"""Array accesses past the end."""
import time

import bounds
import core
from obs_parts import MODULES, part

N, NM = ["n"], ["n", "m"]
_pp = "neutralocean.ppinterp."
# documented sizes: the arrays of one interpolation problem have one datum (and one row of coefficients) per level
SIZES = {
    _pp + "lib.valid_range_1": {"X": N}, _pp + "lib.valid_range_1_two": {"X": N, "Y": N},
    _pp + "linear.linear_coeffs_1": {"X": N, "Y": N}, _pp + "linear.linear_interp_1": {"X": N, "Y": N}, _pp + "linear.linear_interp_1_two": {"X": N, "Y": N, "Z": N},
    _pp + "pchip.pchip_coeffs_1": {"X": N, "Y": N}, _pp + "pchip.pchip_coeffs_1_nonan": {"X": N, "Y": N}, _pp + "pchip._pchip_coeffs_1": {"X": N, "Y": N},
    _pp + "pchip.pchip_interp_1": {"X": N, "Y": N}, _pp + "pchip.pchip_interp_1_two": {"X": N, "Y": N, "Z": N},
    _pp + "ppinterp.ppval_1": {"X": N, "Yppc": NM}, _pp + "ppinterp.ppval_1_nonan": {"X": N, "Yppc": NM},
    _pp + "ppinterp.ppval_1_two": {"X": N, "Yppc": NM, "Zppc": NM}, _pp + "ppinterp.ppval_1_nonan_two": {"X": N, "Yppc": NM, "Zppc": NM},
}


class BoundsOb:
    public = False

    def __init__(self, name):
        self.part = name
        self.name = "bounds:" + name
        self.what = "no counted access past the end of an array in %s" % (name if name != "others" else "the other modules")

    def run(self, prog):
        t0 = time.time()
        c = bounds.Checker(prog, SIZES)
        mods = [m for m in sorted(prog.modules) if m.split(".")[0] == "neutralocean" and part(m) == self.part]
        for m in mods:
            c.run(m)
        stats = {"functions_inlined": sorted(c.functions), "call_sites": 0, "accesses_proven_inside": c.proven, "accesses_not_decided": c.open, "value_graphs_compared": 0}
        if c.reports:
            r = c.reports[0]
            return core.Verdict(self, "violated", "; ".join("%s at %s" % (x.text, x.where) for x in c.reports[:4]), r.where, stats, time.time() - t0)
        if not mods and self.part != "others":
            return core.Verdict(self, "undecided", "module not found", "", stats, time.time() - t0)
        return core.Verdict(self, "holds", "", "", stats, time.time() - t0)


OBS = [BoundsOb(m) for m in MODULES + ["others"]]

import time

import compiled
import core

RULES = {"fast-math": "fast-math", "precision": "precision", "layout": "layout", "race": "race"}
MODULES = ["bfs", "eos.gsw", "eos.gswc", "eos.jmd95", "eos.jmdfwg06", "eos.tools", "fzero", "label", "lib", "ntp", "ppinterp.lib", "ppinterp.linear", "ppinterp.pchip", "ppinterp.ppinterp",
           "surface._vertsolve", "traj"]


class CompiledOb:
    public = False

    def __init__(self, mods, name):
        self.mods = mods
        self.name = name
        self.what = "compiled functions of %s: options, signatures, layouts, parallel loops" % (mods[0] if len(mods) == 1 else "the other modules")

    def run(self, prog):
        t0 = time.time()
        c = compiled.Checker(prog)
        mods = ["neutralocean." + m for m in self.mods] if self.name != "compiled:others" else [m for m in prog.modules if m not in {"neutralocean." + x for x in MODULES} and m.startswith("neutralocean")]
        mods = [m for m in mods if m in prog.modules]
        for m in sorted(mods):
            c.run(m)
        stats = {"functions_inlined": sorted(c.functions), "call_sites": c.signatures, "writes_examined": c.loops, "value_graphs_compared": 0}
        if c.reports:
            r = c.reports[0]
            return core.Verdict(self, "violated", "; ".join("%s: %s at %s" % (x.rule, x.text, x.where) for x in c.reports[:4]), r.where, stats, time.time() - t0)
        if c.unknown:
            return core.Verdict(self, "undecided", "not evaluated: " + ", ".join(sorted(set(c.unknown))[:5]), "", stats, time.time() - t0)
        if not mods:
            return core.Verdict(self, "undecided", "module not found", "", stats, time.time() - t0)
        return core.Verdict(self, "holds", "", "", stats, time.time() - t0)


OBS = [CompiledOb([m], "compiled:" + m) for m in MODULES] + [CompiledOb([], "compiled:others")]

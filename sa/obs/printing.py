"""Printing and writing: what each public function may do with the options that ask for quiet."""
import time

import core
import quiet

# public functions with options that silence them: each alone is enough
SILENCERS = {"surface.isopycnal.potential_surf": ("output", "diags"), "surface.isopycnal.anomaly_surf": ("output", "diags"), "surface.omega.omega_surf": ("output", "diags"), "stability.stabilize_ST": ("verbose",)}
# where the documented lines are printed: once, or for each iteration (cast)
LINES = {"surface.isopycnal.potential_surf": ("once",), "surface.isopycnal.anomaly_surf": ("once",), "surface.omega.omega_surf": ("once", "each"), "stability.stabilize_ST": ("each",)}


class QuietOb:
    public = True

    def __init__(self, q, options, loud=False):
        self.q, self.options, self.loud = q, options, loud
        self.name = "%s:%s%s" % ("loud" if loud else "quiet", q, ":" + "+".join("%s=%s" % kv for kv in options.items()) if options and not loud else "")
        opts = " with " + ", ".join("%s=%s" % kv for kv in options.items()) if options else ""
        self.what = "%s%s %s" % (q, opts, "prints what it found" if loud else "prints nothing and writes no file")

    def run(self, prog):
        t0 = time.time()
        mod, f = ("neutralocean." + self.q).rsplit(".", 1)
        r = prog.resolve(mod, f) if mod in prog.modules else None
        if r is None:
            return core.Verdict(self, "missing", "%s is not defined" % self.q)
        if r[0] != "func":
            return core.Verdict(self, "undecided", "%s is not a function definition" % self.q, "", {}, time.time() - t0)
        w = quiet.Walker(prog, self.options).entry(r[1], r[2])
        stats = {"functions_inlined": sorted(x for x in w.functions if x.startswith("neutralocean.")), "call_sites": w.calls, "value_graphs_compared": 0, "prints_met": len(w.found)}
        found = sorted(w.found.values(), key=lambda x: (not x.sure, x.where))
        if self.loud:
            prints = [x for x in found if not x.text.startswith("write")]
            where = [k for k in LINES[self.q] if not any(x.loop == (k == "each") for x in prints)]
            if where:
                return core.Verdict(self, "violated", "nothing is printed%s although %s" % ("" if not prints else " in the loop" if where == ["each"] else " outside the loop", " and ".join("%s=%s" % kv for kv in self.options.items())), "%s:%d (%s)" % (r[1].path[len(prog.root):].lstrip("/"), r[2].lineno, self.q),
                                    stats, time.time() - t0)
            return core.Verdict(self, "holds", "", "", stats, time.time() - t0)
        if not found:
            return core.Verdict(self, "holds", "", "", stats, time.time() - t0)
        x = found[0]
        if x.sure or x.text.startswith("write"):
            return core.Verdict(self, "violated", "%s at %s via %s" % (x.text, x.where, " > ".join(x.via)), "%s (%s)" % (x.where, x.via[-1]), stats, time.time() - t0)
        return core.Verdict(self, "undecided", "%s at %s is behind a test that is not evaluated" % (x.text, x.where), "", stats, time.time() - t0)


def _public():
    import ast
    import os
    src = ast.parse(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "wf.py")).read())
    for s in src.body:
        if isinstance(s, ast.Assign) and s.targets[0].id == "SIGNATURES":
            return [k.value for k in s.value.keys]


OBS = []
for _q in _public():
    if _q in SILENCERS:
        OBS += [QuietOb(_q, {o: False}) for o in SILENCERS[_q]] + [QuietOb(_q, {o: True for o in SILENCERS[_q]}, True)]
    else:
        OBS.append(QuietOb(_q, {}))

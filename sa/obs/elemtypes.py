"""Element types of results and of everything stored on the way, with real numbers given as floats and as integers."""
import time

import core
import dtypes as DT
from dtypes import C, D, Dic, Fn, Tup

# what each parameter is given: A real array, a real number, I index array, B boolean array, i integer, e edges, g grid, d dimensions, w periodicity, S equation of state, S2 its pair, L coefficients function, G interpolant
KIND = {}
for _k, _ns in {"A": "S T P s t p X Y Z nodevals vector edgedata area sB0 p_ml", "a": "x p0 p1 p_ref sB tB pB tol_p b dp A B t0", "I": "indptr indices idx", "B": "good", "e": "edges", "g": "grid", "i": "N n d root n_rep k K", "d": "dims", "w": "periodic"}.items():
    for _n in _ns.split():
        KIND[_n] = _k
# function: (arguments that differ from the table above, what is returned)
SPEC = {
    "grid.rectilinear.build_grid": (dict(dxC="A", dyC="A", dyG="A", dxG="A"), {"edges": "ii", "dist": "n", "distperp": "n"}),
    "grid.rectilinear.edgedata_to_maps": ({}, "ff"),
    "grid.tripolar.build_grid": (dict(e1u="A", e2v="A", e2u="A", e1v="A"), {"edges": "ii", "dist": "n", "distperp": "n"}),
    "grid.tripolar.edgedata_to_maps": ({}, "nn"),
    "grid.xgcm.build_grid": (dict(n="i", face_connections="?", dims="?", xsh="?", ysh="?", dxC="A", dyC="A", dyG="A", dxG="A"), {"edges": "ii", "dist": "f", "distperp": "f"}),
    "grid.xgcm.edgedata_to_maps": (dict(n="i", face_connections="?", dims="?", xsh="?", ysh="?"), "ff"),
    "grid.graph.edges_to_csr": ({}, "ii"),
    "grid.graph.graph_binary_fcn": (dict(binary_fcn="avg"), "f"),
    "grid.tools.divergence": (dict(distperp="A"), "f"),
    "bfs.bfs_conncomp1": ({}, "i"),
    "bfs.bfs_conncomp1_wet": (dict(s="F", t="F", p="F", S="F", T="F", P="F", p_ml="F", eos="S", ppc_fn="L"), "ii"),
    "bfs.bfs_conncomp1_wet_perim": (dict(s="F", t="F", p="F", S="F", T="F", P="F", p_ml="F", eos="S", ppc_fn="L"), "i"),
    "label.veronis": (dict(p1="a"), "f"),
    "lib.find_first_nan": (dict(a="F"), "i"),
    "lib.take_fill": (dict(a="F"), "f"),
    "lib.take_fill/int": (dict(a="I", fillval="i"), "i"),
    "lib.aggsum": (dict(a="A"), "n"),
    "lib._process_casts": (dict(vert_dim="i"), "fff"),
    "lib.val_at": (dict(T="F", k="I"), "f"),
    "mixed_layer.mixed_layer": ({}, ""),
    "ntp.ntp_epsilon_errors": (dict(eos_s_t="S2"), "f"),
    "ntp.ntp_epsilon_errors_norms": (dict(eos_s_t="S2"), "ff"),
    "ppinterp.lib.diff_1d_samesize": (dict(x="A"), "f"),
    "ppinterp.lib.valid_range_1": (dict(X="F"), "ii"),
    "ppinterp.lib.valid_range_1_two": (dict(X="F", Y="F"), "ii"),
    "ppinterp.linear.linear_coeffs": ({}, "f"),
    "ppinterp.linear.linear_coeffs_1": ({}, "f"),
    "ppinterp.linear.linear_interp_1": ({}, ""),
    "ppinterp.linear.linear_interp_1_two": ({}, ""),
    "ppinterp.pchip.pchip_coeffs": ({}, "f"),
    "ppinterp.pchip.pchip_coeffs_1": ({}, "f"),
    "ppinterp.pchip.pchip_coeffs_1_nonan": ({}, "f"),
    "ppinterp.pchip.pchip_interp_1": ({}, ""),
    "stability.stabilize_ST": (dict(S="F", T="F"), ""),
    "surface.isopycnal.potential_surf": (dict(grid="g", ref="a", isoval="a"), "fff"),
    "surface.isopycnal.potential_surf/pin": (dict(grid="g", ref="a", pin_cast="d", pin_p="a"), "fff"),
    "surface.isopycnal.anomaly_surf": (dict(grid="g", ref=("a", "a"), isoval="a"), "fff"),
    "surface.isopycnal.anomaly_surf/pin": (dict(grid="g", pin_cast="d", pin_p="a"), "fff"),
    "surface.omega.omega_surf": (dict(p_init="A", pin_c="d"), "fff"),
    "surface.omega.omega_surf/scalar": (dict(p_init="a", pin_c="d"), "fff"),
    "surface.omega.omega_surf/gradient": (dict(p_init="A", pin_c="d", OMEGA_FORMULATION="=gradient"), "fff"),
    "synthocean.synthocean": (dict(shape=("i", "i", "i"), wrap="w"), ""),
    "traj.neutral_trajectory": (dict(p0="a"), "fff"),
    "traj.ntp_bottle_to_cast": ({}, "fff"),
}


def make(prog, k, real):
    if isinstance(k, tuple):
        return Tup([make(prog, x, real) for x in k])
    if k.startswith("="):
        return C(k[1:])
    fn = lambda q: Fn(prog.modules["neutralocean." + q.rsplit(".", 1)[0]], prog.resolve("neutralocean." + q.rsplit(".", 1)[0], q.rsplit(".", 1)[1])[2], None)
    return {"A": lambda: D(real, True), "a": lambda: D("pi" if real == "i8" else "pf", False), "F": lambda: D("f8", True), "I": lambda: D("i8", True), "B": lambda: D("b", True), "i": lambda: D("pi", False),
            "e": lambda: Tup([D("i8", True), D("i8", True)]), "d": lambda: Tup([D("pi", False), D("pi", False)]), "w": lambda: Tup([D("b", False), D("b", False)]),
            "g": lambda: Dic({"edges": make(prog, "e", real), "dist": make(prog, "A", real), "distperp": make(prog, "A", real)}),
            "S": lambda: fn("eos.jmd95.rho"), "S2": lambda: fn("eos.jmd95.rho_s_t"), "L": lambda: fn("ppinterp.linear.linear_coeffs_1"), "avg": lambda: AVG(prog), "?": lambda: DT.UNK}[k]()


def AVG(prog):
    import ast
    e = ast.parse("lambda a, b: (a + b) / 2.0", mode="eval").body
    return Fn(prog.modules["neutralocean.lib"], e, {})


OK = {"f": lambda k, real: k in ("f8", "pf", DT.UNK), "i": lambda k, real: k in ("i8", "pi", "u8", DT.UNK), "n": lambda k, real: k in ("f8", "pf", DT.UNK, real) or real == "i8" and k == "pi"}
GIVEN = {"f8": "float", "i8": "int", "f4": "single"}
WORD = {"f": "floats in double precision", "i": "64-bit integers", "n": "numbers at least as wide as the input"}


class TypesOb:
    public = True

    def __init__(self, q, real):
        self.q, self.real = q, real
        self.name = "types:%s:%s" % (q, GIVEN[real])
        self.what = "%s keeps element types with real numbers given as %s" % (q.replace("/", " "), dict(f8="floats", i8="integers", f4="single precision floats")[real])

    def run(self, prog):
        t0 = time.time()
        q = self.q.split("/")[0]
        mod, f = ("neutralocean." + q).rsplit(".", 1)
        r = prog.resolve(mod, f) if mod in prog.modules else None
        if r is None:
            return core.Verdict(self, "missing" if not f.startswith("_") else "undecided", "%s is not defined" % q, "", {}, time.time() - t0)
        if r[0] != "func":
            return core.Verdict(self, "undecided", "%s is not a function definition" % q, "", {}, time.time() - t0)
        own, want = SPEC[self.q]
        names = [x.arg for x in r[2].args.posonlyargs + r[2].args.args]
        nd = len(names) - len(r[2].args.defaults)
        w = DT.Types(prog)
        given = {}
        for i, n in enumerate(names):
            k = own.get(n, KIND.get(n) if i < nd else None)
            if k is not None:
                given[n] = make(prog, k, self.real)
        for n, k in own.items():
            if n not in given and (r[2].args.kwarg is not None or n in [x.arg for x in r[2].args.kwonlyargs]):
                given[n] = make(prog, k, self.real)
        sig = DT.signature(r[2])
        if sig is not None:
            out = w.call_fn(Fn(r[1], r[2], None), [given.get(n, DT.UNK) for n in names], {})
        else:
            out = w.call_fn(Fn(r[1], r[2], None), [], given)
        stats = {"functions_inlined": sorted(x for x in w.functions if x.startswith("neutralocean.")), "call_sites": w.calls, "value_graphs_compared": 0, "stores": w.stores, "indices": w.indices}
        if w.reports:
            (where, text), chain = sorted(w.reports.items())[0]
            return core.Verdict(self, "violated", "%s%s" % (text, " via " + " > ".join(c.rsplit(".", 1)[-1] for c in chain)), where, stats, time.time() - t0)
        bad = self.mismatch(out, want)
        if bad:
            return core.Verdict(self, "violated", bad, "%s:%d (%s)" % (r[1].path[len(prog.root):].lstrip("/"), r[2].lineno, q), stats, time.time() - t0)
        return core.Verdict(self, "holds", "", "", dict(stats, result=repr(out)[:200]), time.time() - t0)

    def mismatch(self, out, want, at="the result"):
        if isinstance(want, dict):
            if isinstance(out, Dic):
                for k, v in want.items():
                    b = self.mismatch(out.d.get(k, DT.UNK), v, "%s[%r]" % (at, k))
                    if b:
                        return b
            return None
        if len(want) > 1:
            if isinstance(out, Tup):
                for i, (x, y) in enumerate(zip(out.xs, want)):
                    b = self.mismatch(x, y, "%s[%d]" % (at, i))
                    if b:
                        return b
            return None
        if want and isinstance(out, D) and DT.UNK not in out.k:
            bad = [k for k in sorted(out.k) if not OK[want](k, self.real)]
            if bad:
                return "%s is %s instead of %s" % (at, DT.TEXT.get(bad[0], bad[0]), WORD[want])
        return None


OBS = [TypesOb(q, real) for q in SPEC for real in GIVEN]

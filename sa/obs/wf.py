"""Names, calls and unpackings that fit together; public signatures."""
import ast
import time

import core
import wellformed
from obs_parts import MODULES, part

# parameters in documented order, how many must be given, open argument lists
SIGNATURES = {
    "bfs.bfs_conncomp1": ("indptr indices root good", 4, ""),
    "bfs.bfs_conncomp1_wet": ("s t p indptr indices root S T P tol_p eos ppc_fn p_ml", 13, ""),
    "bfs.bfs_conncomp1_wet_perim": ("s t p indptr indices root S T P tol_p eos ppc_fn p_ml n_rep", 14, ""),
    "eos.tools.make_eos": ("eos grav rho_c", 1, ""),
    "eos.tools.make_eos_s_t": ("eos grav rho_c", 1, ""),
    "eos.tools.make_eos_p": ("eos grav rho_c", 1, ""),
    "eos.tools.make_bsq": ("fn grav rho_c num_p_derivs", 3, ""),
    "eos.tools.vectorize_eos": ("eos", 1, ""),
    "eos.gswc.rho": ("s t p", 3, ""),
    "eos.gswc.rho_s_t": ("s t p", 3, ""),
    "eos.gswc.rho_p": ("s t p", 3, ""),
    "eos.jmd95.rho": ("s t p", 3, ""),
    "eos.jmd95.rho_s_t": ("s t p", 3, ""),
    "eos.jmd95.rho_p": ("s t p", 3, ""),
    "eos.jmdfwg06.rho": ("s t p", 3, ""),
    "eos.jmdfwg06.rho_s_t": ("s t p", 3, ""),
    "eos.jmdfwg06.rho_p": ("s t p", 3, ""),
    "fzero.brent_guess": ("f x A B t args", 5, ""),
    "fzero.brent": ("f a b t args", 4, ""),
    "fzero.guess_to_bounds": ("f x A B args", 4, ""),
    "grid.graph.graph_binary_fcn": ("edges nodevals binary_fcn", 3, ""),
    "grid.graph.edges_to_graph": ("edges N weights", 1, ""),
    "grid.graph.edges_to_csr": ("edges N", 1, ""),
    "grid.graph.build_grid": ("G", 1, ""),
    "grid.graph.sym_structure": ("A", 1, ""),
    "grid.graph.triu_if_sym": ("A", 1, ""),
    "grid.graph.triu_if_sym_structure": ("A", 1, ""),
    "grid.rectilinear.build_grid": ("dims periodic dxC dyC dyG dxG", 2, ""),
    "grid.rectilinear.edgedata_to_maps": ("edgedata dims periodic", 3, ""),
    "grid.tools.divergence": ("vector edges distperp area", 2, ""),
    "grid.tripolar.build_grid": ("dims e1u e2v e2u e1v", 1, ""),
    "grid.tripolar.edgedata_to_maps": ("edgedata dims", 2, ""),
    "grid.xgcm.build_grid": ("n face_connections dims xsh ysh dxC dyC dyG dxG", 5, ""),
    "grid.xgcm.edgedata_to_maps": ("edgedata n face_connections dims xsh ysh", 6, ""),
    "label.veronis": ("p1 S T P p0 p_ref b dp interp eos grav rho_c", 4, ""),
    "label.pot_dens_1": ("p0 p_ref P Sppc Tppc eos", 6, ""),
    "lib.find_first_nan": ("a axis", 1, ""),
    "lib.take_fill": ("a idx fillval", 2, ""),
    "lib.aggsum": ("a idx n", 3, ""),
    "lib.val_at": ("T k", 2, ""),
    "lib.xr_to_np": ("S", 1, ""),
    "mixed_layer.mixed_layer": ("S T P eos grav rho_c pot_dens_diff ref_p bottle_index interp vert_dim", 3, ""),
    "ntp.ntp_epsilon_errors": ("s t p grid eos_s_t grav rho_c", 4, ""),
    "ntp.ntp_epsilon_errors_norms": ("s t p grid eos_s_t grav rho_c", 4, ""),
    "ppinterp.lib.diff_1d_samesize": ("x", 1, ""),
    "ppinterp.lib.valid_range_1": ("X", 1, ""),
    "ppinterp.lib.valid_range": ("X k K", 3, ""),
    "ppinterp.lib.valid_range_1_two": ("X Y", 2, ""),
    "ppinterp.linear.linear_coeffs": ("X Y", 2, ""),
    "ppinterp.linear.linear_coeffs_1": ("X Y", 2, ""),
    "ppinterp.linear.linear_interp_1": ("x X Y d", 3, ""),
    "ppinterp.linear.linear_interp_1_two": ("x X Y Z d", 4, ""),
    "ppinterp.linear.linear_interp": ("x X Y d y", 5, ""),
    "ppinterp.linear.linear_interp_two": ("x X Y Z d y z", 7, ""),
    "ppinterp.pchip.pchip_coeffs": ("X Y", 2, ""),
    "ppinterp.pchip.pchip_interp": ("x X Y d", 3, ""),
    "ppinterp.pchip.pchip_interp_two": ("x X Y Z d", 4, ""),
    "ppinterp.pchip.pchip_coeffs_1": ("X Y", 2, ""),
    "ppinterp.pchip.pchip_coeffs_1_nonan": ("X Y", 2, ""),
    "ppinterp.pchip.pchip_interp_1": ("x X Y d", 3, ""),
    "ppinterp.pchip.pchip_interp_1_two": ("x X Y Z d", 4, ""),
    "ppinterp.ppinterp.pval": ("x C d", 2, ""),
    "ppinterp.ppinterp.ppval_1": ("x X Yppc d", 3, ""),
    "ppinterp.ppinterp.ppval_1_nonan": ("x X Yppc d", 3, ""),
    "ppinterp.ppinterp.ppval": ("x X Yppc d y", 5, ""),
    "ppinterp.ppinterp.ppinterp_1": ("f x X Y d", 4, ""),
    "ppinterp.ppinterp.ppinterp_1_two": ("f x X Y Z d", 5, ""),
    "ppinterp.ppinterp.ppval_1_two": ("x X Yppc Zppc d", 4, ""),
    "ppinterp.ppinterp.ppval_1_nonan_two": ("x X Yppc Zppc d", 4, ""),
    "ppinterp.ppinterp.ppval_two": ("x X Yppc Zppc d y z", 7, ""),
    "ppinterp.tools.make_pp": ("interpolant kind out nans num_dep_vars", 0, ""),
    "stability.count_unstable": ("S T P", 3, "**"),
    "stability.stabilize_ST": ("S T P eos", 4, "**"),
    "stability.calc_dLRPDdp_fd_1": ("S T P eos", 4, ""),
    "surface.isopycnal.potential_surf": ("S T P", 3, "**"),
    "surface.isopycnal.anomaly_surf": ("S T P", 3, "**"),
    "surface.omega.omega_surf": ("S T P grid pin_cast p_init", 6, "**"),
    "synthocean.synthocean": ("shape pbot SSSSa zonally_uniform wrap", 1, ""),
    "traj.ntp_bottle_to_cast": ("sB tB pB S T P tol_p interp eos grav rho_c", 6, ""),
    "traj.neutral_trajectory": ("S T P p0 vert_dim tol_p interp eos grav rho_c", 4, ""),
    "eos.gsw.specvol": ("SA CT p", 3, ""),
    "eos.gsw.specvol_first_derivs": ("SA CT p", 3, ""),
    "eos.gsw.specvol_second_derivs": ("SA CT p", 3, ""),
    "eos.gsw.specvol_third_derivs": ("SA CT p", 3, ""),
    "eos.gsw.specvol_s_t": ("SA CT p", 3, ""),
    "eos.gsw.specvol_p": ("SA CT p", 3, ""),
    "eos.gsw.specvol_s_t_ss_st_tt_sp_tp": ("SA CT p", 3, ""),
    "eos.gsw.specvol_s_t_ss_st_tt_sp_tp_sss_sst_stt_ttt_ssp_stp_ttp_spp_tpp": ("SA CT p", 3, ""),
}
# documented import paths
EXPORTS = {"eos": ("make_eos", "make_eos_s_t", "make_eos_p", "vectorize_eos"), "grid": ("divergence",), "surface": ("potential_surf", "anomaly_surf", "omega_surf"),
           "ppinterp": ("valid_range_1", "valid_range_1_two", "valid_range", "make_pp", "pval", "ppval_1_nonan", "ppval_1_nonan_two", "ppval", "ppval_1", "ppval_two", "ppval_1_two")}


class WellFormedOb:
    public = False

    def __init__(self, name):
        self.part = name
        self.name = "names:" + name
        self.what = "names bound, calls and unpackings matching in %s" % (name if name != "others" else "the other modules")

    def run(self, prog):
        t0 = time.time()
        c = wellformed.Checker(prog)
        mods = [m for m in sorted(prog.modules) if m.split(".")[0] == "neutralocean" and part(m) == self.part]
        for m in mods:
            c.run(m)
        stats = {"functions_inlined": sorted(f for f in c.functions), "call_sites": c.calls, "names_resolved": c.names, "unpackings": c.unpacks, "value_graphs_compared": 0}
        if c.reports:
            r = c.reports[0]
            return core.Verdict(self, "violated", "; ".join("%s: %s at %s" % (x.rule, x.text, x.where) for x in c.reports[:4]), r.where, stats, time.time() - t0)
        if not mods and self.part != "others":
            return core.Verdict(self, "undecided", "module not found", "", stats, time.time() - t0)
        return core.Verdict(self, "holds", "", "", stats, time.time() - t0)


class SignatureOb:
    public = False

    def __init__(self, q):
        self.q = q
        self.name = "signature:" + q
        self.what = "%s takes its parameters by the documented names and in the documented order" % q

    def run(self, prog):
        t0 = time.time()
        mod, f = ("neutralocean." + self.q).rsplit(".", 1)
        r = prog.resolve(mod, f) if mod in prog.modules else None
        if r is None or r[0] != "func" or not isinstance(r[2], ast.FunctionDef):
            return core.Verdict(self, "undecided", "%s is not a plain function" % self.q, "", {}, time.time() - t0)
        names, need, open_ = SIGNATURES[self.q]
        names = names.split()
        fn = r[2]
        where = "%s:%d (%s)" % (r[1].path[len(prog.root):].lstrip("/"), fn.lineno, self.q)
        stats = {"functions_inlined": [r[1].name + "." + fn.name], "call_sites": 0, "parameters": len(names), "value_graphs_compared": 0}
        a = fn.args
        kind = wellformed.plain(prog, r[1], fn)
        pos = [x.arg for x in a.posonlyargs + a.args]
        given = len(pos) - len(a.defaults)

        def out(st, why=""):
            return core.Verdict(self, st, why, where if why else "", stats, time.time() - t0)
        if kind is None or a.vararg and pos[:len(names)] != names:
            return out("undecided", "decorated or open argument list")
        if kind == "gufunc":
            return out("holds")       # called by position only
        for k, n in enumerate(names):
            if k < len(pos) and pos[k] == n:
                if k < len(a.posonlyargs):
                    return out("violated", "argument %s can no longer be given by name" % n)
                continue
            if n in pos:
                return out("violated", "argument %s is in place %d instead of %d" % (n, pos.index(n) + 1, k + 1))
            if n in [x.arg for x in a.kwonlyargs]:
                return out("violated", "argument %s can no longer be given by position" % n)
            if a.kwarg:
                return out("undecided", "argument %s is taken from an open list" % n)
            return out("violated", "argument %s is gone" % n)
        if given > need:
            return out("violated", "argument %s has become required" % (names[need] if need < len(names) else pos[need]))
        if any(d is None for d in a.kw_defaults):
            return out("violated", "a new keyword argument is required")
        if "**" in open_ and not a.kwarg and not a.kwonlyargs and len(pos) == len(names):
            return out("violated", "the documented options can no longer be given")
        return out("holds")


class ExportOb:
    public = False

    def __init__(self, pkg):
        self.pkg = pkg
        self.name = "exports:" + pkg
        self.what = "neutralocean.%s provides its documented names" % pkg

    def run(self, prog):
        t0 = time.time()
        m = "neutralocean." + self.pkg
        if m not in prog.modules:
            return core.Verdict(self, "undecided", "package not found", "", {}, time.time() - t0)
        stats = {"functions_inlined": [], "call_sites": 0, "names_resolved": len(EXPORTS[self.pkg]), "value_graphs_compared": 0}
        ck = wellformed.Checker(prog)
        for n in EXPORTS[self.pkg]:
            r = prog.resolve(m, n)
            if r is None and not ck.defines(m, n) and ck.closed(m):
                return core.Verdict(self, "violated", "%s has no %s" % (m, n), prog.modules[m].path[len(prog.root):].lstrip("/") + ":1", stats, time.time() - t0)
            if r is not None and r[0] == "func" and r[2].name != n:
                return core.Verdict(self, "undecided", "%s.%s is %s" % (m, n, r[2].name), "", stats, time.time() - t0)
        return core.Verdict(self, "holds", "", "", stats, time.time() - t0)


NAMES = [WellFormedOb(m) for m in MODULES + ["others"]]
IFACE = [SignatureOb(q) for q in SIGNATURES] + [ExportOb(p) for p in EXPORTS]
OBS = NAMES + IFACE

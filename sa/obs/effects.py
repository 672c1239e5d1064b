import os
import sys
import time

import core
import effects

M = "neutralocean."
# public functions, the arguments documented to be modified, and the arguments that are arrays (for `x += ...`)
STP = ("S", "T", "P")
stp = ("s", "t", "p")
PUBLIC = {
    "bfs.bfs_conncomp1": (("good",), ("indptr", "indices")),
    "bfs.bfs_conncomp1_wet": (stp, STP + ("indptr", "indices", "p_ml")),
    "bfs.bfs_conncomp1_wet_perim": (stp, STP + ("indptr", "indices", "p_ml")),
    "eos.tools.make_eos": ((), ()),
    "eos.tools.make_eos_s_t": ((), ()),
    "eos.tools.make_eos_p": ((), ()),
    "eos.tools.make_bsq": ((), ()),
    "eos.tools.vectorize_eos": ((), ()),
    "eos.gswc.rho": ((), stp),
    "eos.gswc.rho_s_t": ((), stp),
    "eos.gswc.rho_p": ((), stp),
    "eos.jmd95.rho": ((), stp),
    "eos.jmd95.rho_s_t": ((), stp),
    "eos.jmd95.rho_p": ((), stp),
    "eos.jmdfwg06.rho": ((), stp),
    "eos.jmdfwg06.rho_s_t": ((), stp),
    "eos.jmdfwg06.rho_p": ((), stp),
    "fzero.brent_guess": ((), ()),
    "fzero.brent": ((), ()),
    "fzero.guess_to_bounds": ((), ()),
    "grid.graph.graph_binary_fcn": ((), ("edges", "nodevals")),
    "grid.graph.edges_to_graph": ((), ("edges", "weights")),
    "grid.graph.edges_to_csr": ((), ("edges",)),
    "grid.graph.build_grid": ((), ("G",)),
    "grid.graph.sym_structure": ((), ("A",)),
    "grid.graph.triu_if_sym": ((), ("A",)),
    "grid.graph.triu_if_sym_structure": ((), ("A",)),
    "grid.rectilinear.build_grid": ((), ("dims", "periodic", "dxC", "dyC", "dyG", "dxG")),
    "grid.rectilinear.edgedata_to_maps": ((), ("edgedata", "dims", "periodic")),
    "grid.tools.divergence": ((), ("vector", "edges", "distperp", "area")),
    "grid.tripolar.build_grid": ((), ("dims", "e1u", "e2v", "e2u", "e1v")),
    "grid.tripolar.edgedata_to_maps": ((), ("edgedata", "dims")),
    "grid.xgcm.build_grid": ((), ("face_connections", "dims", "xsh", "ysh", "dxC", "dyC", "dyG", "dxG")),
    "grid.xgcm.edgedata_to_maps": ((), ("edgedata", "face_connections", "dims", "xsh", "ysh")),
    "label.veronis": ((), STP),
    "label.pot_dens_1": ((), ("P", "Sppc", "Tppc")),
    "lib.find_first_nan": ((), ("a",)),
    "lib.take_fill": ((), ("a", "idx")),
    "lib.aggsum": ((), ("a", "idx")),
    "lib.val_at": ((), ("T", "k")),
    "lib.xr_to_np": ((), ("S",)),
    "mixed_layer.mixed_layer": ((), STP + ("interp",)),
    "ntp.ntp_epsilon_errors": ((), stp + ("grid",)),
    "ntp.ntp_epsilon_errors_norms": ((), stp + ("grid",)),
    "ppinterp.lib.diff_1d_samesize": ((), ("x",)),
    "ppinterp.lib.valid_range_1": ((), ("X",)),
    "ppinterp.lib.valid_range": ((), ("X",)),
    "ppinterp.lib.valid_range_1_two": ((), ("X", "Y")),
    "ppinterp.linear.linear_coeffs": ((), ("X", "Y")),
    "ppinterp.linear.linear_coeffs_1": ((), ("X", "Y")),
    "ppinterp.linear.linear_interp_1": ((), ("X", "Y")),
    "ppinterp.linear.linear_interp_1_two": ((), ("X", "Y", "Z")),
    "ppinterp.linear.linear_interp": ((), ("x", "X", "Y")),
    "ppinterp.linear.linear_interp_two": ((), ("x", "X", "Y", "Z")),
    "ppinterp.pchip.pchip_coeffs": ((), ("X", "Y")),
    "ppinterp.pchip.pchip_interp": ((), ("x", "X", "Y")),
    "ppinterp.pchip.pchip_interp_two": ((), ("x", "X", "Y", "Z")),
    "ppinterp.pchip.pchip_coeffs_1": ((), ("X", "Y")),
    "ppinterp.pchip.pchip_coeffs_1_nonan": ((), ("X", "Y")),
    "ppinterp.pchip.pchip_interp_1": ((), ("X", "Y")),
    "ppinterp.pchip.pchip_interp_1_two": ((), ("X", "Y", "Z")),
    "ppinterp.ppinterp.pval": ((), ("C",)),
    "ppinterp.ppinterp.ppval_1": ((), ("X", "Yppc")),
    "ppinterp.ppinterp.ppval_1_nonan": ((), ("X", "Yppc")),
    "ppinterp.ppinterp.ppval": ((), ("x", "X", "Yppc")),
    "ppinterp.ppinterp.ppinterp_1": ((), ("X", "Y")),
    "ppinterp.ppinterp.ppinterp_1_two": ((), ("X", "Y", "Z")),
    "ppinterp.ppinterp.ppval_1_two": ((), ("X", "Yppc", "Zppc")),
    "ppinterp.ppinterp.ppval_1_nonan_two": ((), ("X", "Yppc", "Zppc")),
    "ppinterp.ppinterp.ppval_two": ((), ("x", "X", "Yppc", "Zppc")),
    "ppinterp.tools.make_pp": ((), ()),
    "stability.count_unstable": ((), STP),
    "stability.stabilize_ST": (("S", "T"), ("P", "min_dLRPDdp", "options")),
    "stability.calc_dLRPDdp_fd_1": ((), STP),
    "surface.isopycnal.potential_surf": ((), STP + ("grid", "ref", "pin_cast")),
    "surface.isopycnal.anomaly_surf": ((), STP + ("grid", "ref", "pin_cast")),
    "surface.omega.omega_surf": ((), STP + ("grid", "pin_cast", "p_init", "p_ml")),
    "synthocean.synthocean": ((), ("dims", "wrap")),
    "traj.ntp_bottle_to_cast": ((), STP),
    "traj.neutral_trajectory": ((), STP + ("p0",)),
}
for _m in ("specvol", "specvol_first_derivs", "specvol_second_derivs", "specvol_third_derivs", "specvol_s_t", "specvol_p", "specvol_s_t_ss_st_tt_sp_tp",
           "specvol_s_t_ss_st_tt_sp_tp_sss_sst_stt_ttt_ssp_stp_ttp_spp_tpp"):
    PUBLIC["eos.gsw." + _m] = ((), ("SA", "CT", "p"))
KINDS = {"argument": "an argument is modified", "module-state": "module-level state is modified", "default": "a shared default value is modified", "cached": "the shared result of a memoised function is modified",
         "cell": "state kept inside a memoised function is modified", "function-attribute": "state is kept on a function or module", "random": "random numbers without a fixed seed",
         "environment": "a hidden input is read", "process-state": "process-wide state is changed", "clock": "the result depends on the time"}
_CACHE = {}


def analyse(prog, name):
    k = (id(prog), name)
    if k not in _CACHE:
        mutable, arrays = PUBLIC[name]
        a = effects.Analyser(prog)
        ok = a.entry(M + name, mutable, arrays)
        _CACHE[k] = (ok, a)
    return _CACHE[k]


class EffectOb:
    public = True

    def __init__(self, name, rules, what):
        self.fn = name
        self.rules = rules
        self.name = ("args:" if "argument" in rules else "state:") + name
        self.what = what

    def run(self, prog):
        t0 = time.time()
        ok, a = analyse(prog, self.fn)
        if not ok:
            return core.Verdict(self, "missing", "%s is not defined" % (M + self.fn))
        stats = {"functions_inlined": sorted(a.inlined), "call_sites": a.sites, "writes_examined": a.writes, "value_graphs_compared": 0}
        bad = [r for r in a.reports.values() if r.rule in self.rules]
        if not bad:
            return core.Verdict(self, "holds", "", "", stats, time.time() - t0)
        r = bad[0]
        text = "; ".join("%s: %s [%s] at %s via %s" % (KINDS[x.rule], x.text, x.label, x.where, " > ".join(x.via)) for x in bad[:4])
        return core.Verdict(self, "violated", text, r.where, stats, time.time() - t0)


ARGS = [EffectOb(n, ("argument",), "no write reaches an argument" + (" other than " + ", ".join(PUBLIC[n][0]) if PUBLIC[n][0] else "")) for n in PUBLIC]
STATE = [EffectOb(n, tuple(k for k in KINDS if k != "argument"), "no state outlives the call, no hidden inputs") for n in PUBLIC]
OBS = ARGS + STATE

import time

import core
import rat
import terms as T
from core import Ob, Verdict, helper

E = "neutralocean.eos."
helper("gsw_specvol", E + "gsw.specvol", "ref.eos.specvol")
helper("gsw_specvol_s_t", E + "gsw.specvol_s_t", "ref.eos.specvol_s_t", nout=2)
helper("gsw_specvol_p", E + "gsw.specvol_p", "ref.eos.specvol_p")
for m in ("jmd95", "jmdfwg06"):
    helper(m + "_rho", E + m + ".rho", "ref.eos.rho_jmd")
    helper(m + "_rho_s_t", E + m + ".rho_s_t", "ref.eos.rho_s_t", nout=2)
    helper(m + "_rho_p", E + m + ".rho_p", "ref.eos.rho_p")


class Derivs:
    """outputs of `fn` are the partial derivatives of `val` named by `words`"""
    public = True

    def __init__(self, name, val, fn, words, names):
        self.name, self.val, self.fn, self.words, self.names = name, val, fn, words, names
        self.what = "outputs are, in order, the partial derivatives %s of the value function" % ", ".join(words)

    def run(self, prog):
        t0 = time.time()
        T.reset()
        for q in (self.val, self.fn):
            if prog.func(q) is None:
                return Verdict(self, "missing", "anchor %s is gone" % q)
        ob = Ob("x", self.val, self.val)
        try:
            v, _, I1, n1 = core.analyse(prog, self.val, ob, {})
            d, _, I2, n2 = core.analyse(prog, self.fn, ob, {}, n1)
            stats = {"functions_inlined": sorted(I1.touched | I2.touched), "branches": I1.branches + I2.branches, "loops": I1.loops + I2.loops,
                     "call_sites": I1.callsites + I2.callsites, "value_graphs_compared": len(self.words)}
            items = list(d.args) if d.op == "tuple" else [d]
            where = core.locate(prog, items[0], prog.func(self.fn), Ob("x", self.fn, self.fn))
            if len(items) != len(self.words):
                if d.op != "tuple" and len(self.words) > 1:
                    return Verdict(self, "undecided", "result is not a tuple display", where, stats, time.time() - t0)
                return Verdict(self, "violated", "returns %d outputs, expected %d" % (len(items), len(self.words)), where, stats, time.time() - t0)
            C = rat.Conv([v] + items, n1)
            rv = C.conv(v)
            for x, w in zip(items, self.words):
                bad = rat.compare(C.conv(x), C.der(rv, w), conv=C)
                if bad:
                    return Verdict(self, "violated", "output '%s' is not d/d%s of the value function: after clearing denominators the coefficient of r^%d t^%d p^%d is %.12g, derivative has %.12g"
                                   % (w, w, *bad[1][:3], float(bad[2]), float(bad[3])), core.locate(prog, x, prog.func(self.fn), Ob("x", self.fn, self.fn)), stats, time.time() - t0)
            if C.clamped:
                raise rat.NotRational("temperature or pressure is cut off at zero")
        except (rat.NotRational, core.interp.Unsupported, T.Blowup) as e:
            return Verdict(self, "undecided", str(e), secs=time.time() - t0)
        return Verdict(self, "holds", stats=stats, secs=time.time() - t0)


class Value:
    """value function equals the published formula"""
    public = True

    def __init__(self, name, fn, ref, names, what):
        self.name, self.fn, self.ref, self.names, self.what = name, fn, ref, names, what

    def run(self, prog):
        ob = Ob(self.name, self.fn, self.ref, public=True)
        v = core.check(ob, prog)
        if v.status in ("holds", "missing", "undecided"):
            v.ob = self
            return v
        t0 = time.time()
        T.reset()
        try:
            r, _, _, n1 = core.analyse(prog, self.ref, ob, {})
            c, _, _, _ = core.analyse(prog, self.fn, ob, {}, n1)
            C = rat.Conv([r, c], n1)
            if any(a.op == "max" for a in rat.atoms_of(r)) != any(a.op == "max" for a in rat.atoms_of(c)):
                return v
            bad = rat.compare(C.conv(c), C.conv(r), conv=C)
            if bad is None and C.clamped:
                return v
            if bad is None:
                return Verdict(self, "holds", "to 1e-9 in every coefficient", stats=v.stats, secs=time.time() - t0)
            return Verdict(self, "violated", "after clearing denominators the coefficient of r^%d t^%d p^%d is %.12g, published formula has %.12g" % (*bad[1][:3], float(bad[2]), float(bad[3])),
                           v.where, v.stats, time.time() - t0)
        except (rat.NotRational, core.interp.Unsupported, T.Blowup) as e:
            return Verdict(self, "undecided", str(e), secs=time.time() - t0)


G = E + "gsw.specvol"
SN = ("SA", "CT", "p")
_d = [("_first_derivs", "s t p"), ("_second_derivs", "ss st tt sp tp pp"), ("_third_derivs", "sss sst stt ttt ssp stp ttp spp tpp ppp"), ("_s_t", "s t"), ("_p", "p"),
      ("_s_t_ss_st_tt_sp_tp", "s t ss st tt sp tp"),
      ("_s_t_ss_st_tt_sp_tp_sss_sst_stt_ttt_ssp_stp_ttp_spp_tpp", "s t ss st tt sp tp sss sst stt ttt ssp stp ttp spp tpp")]
DERIVS = [Derivs("derivs-gsw" + f, G, G + f, w.split(), SN) for f, w in _d]
for m in ("jmd95", "jmdfwg06"):
    DERIVS += [Derivs("derivs-%s_s_t" % m, E + m + ".rho", E + m + ".rho_s_t", ["s", "t"], ("s", "t", "p")), Derivs("derivs-%s_p" % m, E + m + ".rho", E + m + ".rho_p", ["p"], ("s", "t", "p"))]
VALUES = [Value("value-gsw", G, "ref.eos.specvol", SN, "TEOS-10 75-term specific volume"),
          Value("value-jmd95", E + "jmd95.rho", "ref.eos.rho_jmd95", ("s", "t", "p"), "Jackett & McDougall (1995) in-situ density"),
          Value("value-jmdfwg06", E + "jmdfwg06.rho", "ref.eos.rho_jmdfwg06", ("s", "t", "p"), "Jackett et al. (2006) in-situ density")]
BT = {"grav": "float", "rho_c": "float", "eos": "callable"}
MAKE = []
for e in ("gsw", "jmd95", "jmdfwg06"):
    for f in ("", "_s_t", "_p"):
        opq = ("gsw_specvol" + f,) if e == "gsw" else (e + "_rho" + f,)
        r = "gsw" if e == "gsw" else "jmd"
        MAKE.append(Ob("make-%s%s" % (e, f), "drv.eos.plain_%s%s" % (e, f), "ref.eos.plain_%s%s" % (r, f), opaque=opq, what="named equation of state without Boussinesq parameters"))
        for x, q in (("g", "grav"), ("r", "rho_c")):
            MAKE.append(Ob("make-%s%s-only-%s" % (e, f, q), "drv.eos.plain%s_%s%s" % (x, e, f), "ref.eos.plain_%s%s" % (r, f), opaque=opq, types={q: "float"}, what="only both Boussinesq parameters together make the Boussinesq form"))
        MAKE.append(Ob("make-%s%s-bsq" % (e, f), "drv.eos.bsq_%s%s" % (e, f), "ref.eos.bsq_%s%s" % (r, f), opaque=opq, types=BT, what="Boussinesq form: pressure 1e-4 grav rho_c z and chain rule"))
for f in ("", "_s_t", "_p"):
    MAKE.append(Ob("make-own%s" % f, "drv.eos.plain_own" + f, "ref.eos.own", types=BT, what="a user-supplied function is used as is"))
    MAKE.append(Ob("make-own%s-bsq" % f, "drv.eos.bsq_own" + f, "ref.eos.bsq_own" + (f if f == "_p" else ""), types=BT, what="Boussinesq form of a user-supplied function"))
MAKE += [Ob("vectorize-eos", "drv.eos.vec", "ref.eos.own", what="vectorised function computes the same values"),
         Ob("make-bsq", "drv.eos.bsq_direct", "ref.eos.bsq_own", what="Boussinesq wrapper"),
         Ob("make-bsq-p", "drv.eos.bsq_direct_p", "ref.eos.bsq_own_p", what="Boussinesq wrapper of a pressure derivative"),
         Ob("make-bsq-pp", "drv.eos.bsq_direct_pp", "ref.eos.bsq_own_pp", what="Boussinesq wrapper of a second pressure derivative"),
         Ob("gswc-rho", E + "gswc.rho", "ref.eos.gswc_rho", what="GSW-C density"), Ob("gswc-s-t", E + "gswc.rho_s_t", "ref.eos.gswc_s_t", what="GSW-C density derivatives"), Ob("gswc-p", E + "gswc.rho_p", "ref.eos.gswc_p", what="GSW-C density derivative per dbar")]
OBS = DERIVS + VALUES + MAKE

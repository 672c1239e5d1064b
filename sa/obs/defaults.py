"""Defaults: what an argument or option is when it is not given, against the documentation."""
import ast
import time

import core
import wellformed

EOS = {"eos": "gsw", "grav": None, "rho_c": None}
# arguments with a documented default (or one shown in the signature), by public function
ARGUMENTS = {
    "eos.tools.make_eos": {"grav": None, "rho_c": None},
    "eos.tools.make_eos_s_t": {"grav": None, "rho_c": None},
    "eos.tools.make_eos_p": {"grav": None, "rho_c": None},
    "eos.tools.make_bsq": {"num_p_derivs": 0},
    "fzero.brent_guess": {"args": ()},
    "fzero.brent": {"args": ()},
    "fzero.guess_to_bounds": {"args": ()},
    "grid.graph.edges_to_graph": {"N": -1, "weights": None},
    "grid.graph.edges_to_csr": {"N": -1},
    "grid.rectilinear.build_grid": {"dxC": 1.0, "dyC": 1.0, "dyG": 1.0, "dxG": 1.0},
    "grid.tools.divergence": {"distperp": 1.0, "area": 1.0},
    "grid.tripolar.build_grid": {"e1u": 1.0, "e2v": 1.0, "e2u": 1.0, "e1v": 1.0},
    "grid.xgcm.build_grid": {"dxC": 1.0, "dyC": 1.0, "dyG": 1.0, "dxG": 1.0},
    "label.veronis": {"p0": None, "p_ref": 0.0, "b": 1.0, "dp": 1.0, "interp": "linear", **EOS},
    "lib.find_first_nan": {"axis": -1},
    "lib.take_fill": {"fillval": float("nan")},
    "mixed_layer.mixed_layer": {"pot_dens_diff": 0.03, "ref_p": 100.0, "bottle_index": 1, "interp": "linear", "vert_dim": -1, **EOS},
    "ntp.ntp_epsilon_errors": {"eos_s_t": "gsw", "grav": None, "rho_c": None},
    "ntp.ntp_epsilon_errors_norms": {"eos_s_t": "gsw", "grav": None, "rho_c": None},
    "ppinterp.linear.linear_interp_1": {"d": 0},
    "ppinterp.linear.linear_interp_1_two": {"d": 0},
    "ppinterp.pchip.pchip_interp": {"d": 0},
    "ppinterp.pchip.pchip_interp_two": {"d": 0},
    "ppinterp.pchip.pchip_interp_1": {"d": 0},
    "ppinterp.pchip.pchip_interp_1_two": {"d": 0},
    "ppinterp.ppinterp.pval": {"d": 0},
    "ppinterp.ppinterp.ppval_1": {"d": 0},
    "ppinterp.ppinterp.ppval_1_nonan": {"d": 0},
    "ppinterp.ppinterp.ppinterp_1": {"d": 0},
    "ppinterp.ppinterp.ppinterp_1_two": {"d": 0},
    "ppinterp.ppinterp.ppval_1_two": {"d": 0},
    "ppinterp.ppinterp.ppval_1_nonan_two": {"d": 0},
    "ppinterp.tools.make_pp": {"interpolant": "linear", "kind": "u", "out": "coeffs", "nans": True, "num_dep_vars": 1},
    "synthocean.synthocean": {"pbot": 4000.0, "SSSSa": 0.3, "zonally_uniform": False, "wrap": (False, False)},
    "traj.ntp_bottle_to_cast": {"tol_p": 1e-4, "interp": "linear", **EOS},
    "traj.neutral_trajectory": {"vert_dim": -1, "tol_p": 1e-4, "interp": "linear", **EOS},
}
# options taken from open keyword lists or from the grid, by module: the functions that document them, and the documented defaults
OPTIONS = {
    "surface.isopycnal": (("potential_surf", "anomaly_surf"),
                          {"vert_dim": -1, "eos": "gsw", "grav": None, "rho_c": None, "interp": "linear", "diags": True, "output": True, "TOL_P_SOLVER": 1e-4,
                           "grid": None, "ref": None, "isoval": None, "pin_p": None, "pin_cast": None}),
    "surface.omega": (("omega_surf",),
                      {"vert_dim": -1, "eos": "gsw", "grav": None, "rho_c": None, "interp": "linear", "diags": True, "output": True, "TOL_P_SOLVER": 1e-4, "ITER_MIN": 1, "ITER_MAX": 10,
                       "ITER_START_WETTING": 1, "ITER_STOP_WETTING": 5, "TOL_LRPD_MAV": 1e-7, "TOL_P_CHANGE_RMS": 0.0, "p_ml": None, "OMEGA_FORMULATION": "poisson", "dist": 1.0, "distperp": 1.0}),
    "stability": (("stabilize_ST", "count_unstable"),
                  {"vert_dim": -1, "min_dLRPDdp": 1e-6, "weight": 10.0, "tol": 1e-10, "method": "SLSQP", "options": {"maxiter": 1000}, "verbose": True, "interp_two": None}),
    "ntp": (("ntp_epsilon_errors", "ntp_epsilon_errors_norms"), {"dist": 1.0, "distperp": 1.0}),
}
UNKNOWN = object()
ALWAYS = {"grav", "rho_c"}       # None has a meaning of its own here


def literal(prog, mod, e, depth=0):
    """value of a constant expression, following names of module-level constants"""
    try:
        return ast.literal_eval(e)
    except Exception:
        pass
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ("np", "numpy", "math") and e.attr in ("nan", "inf", "NaN"):
        return float(e.attr)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("float", "int", "tuple", "dict") and not e.keywords:
        a = [literal(prog, mod, x, depth) for x in e.args]
        if UNKNOWN not in [x if x is UNKNOWN else None for x in a] and len(a) < 2:
            try:
                return {"float": float, "int": int, "tuple": tuple, "dict": dict}[e.func.id](*a)
            except Exception:
                return UNKNOWN
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "dict" and not e.args:
        d = {k.arg: literal(prog, mod, k.value, depth) for k in e.keywords}
        return UNKNOWN if any(v is UNKNOWN for v in d.values()) or None in d else d
    if isinstance(e, ast.Name) and depth < 4:
        found = [s for s in ast.walk(mod.tree) if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Global)) and
                 any(isinstance(x, ast.Name) and x.id == e.id for t in (s.targets if isinstance(s, ast.Assign) else [getattr(s, "target", None)]) if t is not None for x in ast.walk(t))]
        top = [s for s in mod.tree.body if s in found]
        if len(found) == 1 and len(top) == 1 and isinstance(top[0], ast.Assign) and isinstance(top[0].targets[0], ast.Name):
            return literal(prog, mod, top[0].value, depth + 1)
    return UNKNOWN


def equal(a, b):
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return a == b


def judge(name, want, got):
    """'holds' / 'violated' / 'undecided' for a default"""
    if got is UNKNOWN:
        return "undecided"
    if (want is None) != (got is None):
        return "violated" if want is None and name in ALWAYS else "undecided"        # None may be filled in by what follows
    if isinstance(want, bool) and not isinstance(got, (bool, int)):
        return "undecided"
    return "holds" if equal(want, got) else "violated"


class ArgumentOb:
    public = False

    def __init__(self, q):
        self.q = q
        self.name = "defaults:" + q
        self.what = "the arguments of %s that are left out are what the documentation says" % q

    def run(self, prog):
        t0 = time.time()
        mod, f = ("neutralocean." + self.q).rsplit(".", 1)
        r = prog.resolve(mod, f) if mod in prog.modules else None
        if r is None or r[0] != "func" or not isinstance(r[2], ast.FunctionDef):
            return core.Verdict(self, "undecided", "%s is not a plain function" % self.q, "", {}, time.time() - t0)
        fn = r[2]
        a = fn.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        have = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        have.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None})
        want = ARGUMENTS[self.q]
        stats = {"functions_inlined": [r[1].name + "." + fn.name], "call_sites": 0, "defaults": len(want), "value_graphs_compared": 0}
        where = "%s:%d (%s)" % (r[1].path[len(prog.root):].lstrip("/"), fn.lineno, self.q)
        open_ = []
        for n, w in want.items():
            if n not in have:
                open_.append(n)
                continue
            g = literal(prog, r[1], have[n])
            j = judge(n, w, g)
            if j == "violated":
                return core.Verdict(self, "violated", "argument %s is %r when not given, documented as %r" % (n, g, w), where, stats, time.time() - t0)
            if j == "undecided":
                open_.append(n)
        if open_:
            return core.Verdict(self, "undecided", "default of %s not read from the signature" % ", ".join(open_), "", stats, time.time() - t0)
        return core.Verdict(self, "holds", "", "", stats, time.time() - t0)


class OptionOb:
    public = False

    def __init__(self, m):
        self.m = m
        self.name = "options:" + m
        self.what = "the options of %s that are left out are what the documentation says, and are read" % ", ".join(OPTIONS[m][0])

    def run(self, prog):
        t0 = time.time()
        mod = prog.modules.get("neutralocean." + self.m)
        if mod is None:
            return core.Verdict(self, "undecided", "module not found", "", {}, time.time() - t0)
        want = OPTIONS[self.m][1]
        path = mod.path[len(prog.root):].lstrip("/")
        seen, open_, n = set(), set(), 0
        stats = {"functions_inlined": ["neutralocean.%s.%s" % (self.m, f) for f in OPTIONS[self.m][0]], "call_sites": 0, "defaults": len(want), "value_graphs_compared": 0}
        for c in ast.walk(mod.tree):
            name = got = None
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.attr in ("get", "pop", "setdefault") and c.args \
                    and isinstance(c.args[0], ast.Constant) and c.args[0].value in want and not c.keywords:
                name = c.args[0].value
                if len(c.args) == 1 and c.func.attr == "pop":
                    open_.add(name)
                    continue
                got = literal(prog, mod, c.args[1]) if len(c.args) > 1 else None
            elif isinstance(c, ast.FunctionDef) and c.name in OPTIONS[self.m][0]:
                a = c.args
                pos = [x.arg for x in a.posonlyargs + a.args]
                for x, y in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x.arg, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None]:
                    if x in want:
                        seen.add(x)
                        g = literal(prog, mod, y)
                        if judge(x, want[x], g) == "violated":
                            return core.Verdict(self, "violated", "option %s is %r when not given, documented as %r" % (x, g, want[x]), "%s:%d" % (path, y.lineno), stats, time.time() - t0)
                continue
            if name is None:
                continue
            n += 1
            seen.add(name)
            j = judge(name, want[name], got)
            if j == "violated":
                return core.Verdict(self, "violated", "option %s is %r when not given, documented as %r" % (name, got, want[name]), "%s:%d" % (path, c.lineno), stats, time.time() - t0)
            if j == "undecided":
                open_.add(name)
        stats["call_sites"] = n
        strings = {x.value for m in prog.modules.values() if m.name.startswith("neutralocean.") for x in ast.walk(m.tree) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
        strings |= {x.arg for m in prog.modules.values() if m.name.startswith("neutralocean.") for x in ast.walk(m.tree) if isinstance(x, ast.arg)}
        for o in want:
            if o not in seen:
                if o not in strings:
                    return core.Verdict(self, "violated", "the documented option %s is read nowhere" % o, "%s:1" % path, stats, time.time() - t0)
                open_.add(o)
        if open_:
            return core.Verdict(self, "undecided", "default of %s not read from a constant" % ", ".join(sorted(open_)), "", stats, time.time() - t0)
        return core.Verdict(self, "holds", "", "", stats, time.time() - t0)


OBS = [ArgumentOb(q) for q in ARGUMENTS] + [OptionOb(m) for m in OPTIONS]

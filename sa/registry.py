"""All obligations, and the property each belongs to."""
import importlib.util
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "obs"))

OBS = {}
MODS = {}
for _f in sorted(os.listdir(os.path.join(HERE, "obs"))):
    if _f.endswith(".py"):
        _spec = importlib.util.spec_from_file_location("obs_" + _f[:-3], os.path.join(HERE, "obs", _f))
        _m = importlib.util.module_from_spec(_spec)
        _spec.loader.exec_module(_m)
        MODS[_f[:-3]] = _m
        for _o in _m.OBS:
            assert _o.name not in OBS, _o.name
            OBS[_o.name] = _o

COMMON = ["IEEE-754 rounding is ignored: values are compared as real-number (plus NaN) expressions",
          "numba-compiled functions behave as their Python source",
          "obligations the analysis cannot decide (listed with status 'undecided') are not counted as holding"]
PROPS = {}


def prop(pid, level, obs, explain, assume=()):
    for o in obs:
        assert o in OBS, o
    PROPS[pid] = {"level": level, "obs": list(dict.fromkeys(obs)), "explain": explain, "assume": list(assume) + COMMON}


from catalog import CATALOG          # noqa: E402

GROUPS = {"@DERIVS": [o.name for o in MODS["eos"].DERIVS], "@VALUES": [o.name for o in MODS["eos"].VALUES], "@MAKE": [o.name for o in MODS["eos"].MAKE],
          "@COEF": MODS["pp"]._coef, "@EVAL": MODS["pp"]._eval,
          "@DEFAULTS": [o.name for o in MODS["dflt"].OBS] + [o.name for o in MODS["defaults"].OBS],
          "@ARGS": [o.name for o in MODS["effects"].ARGS], "@BOUNDS": [o.name for o in MODS["bnd"].OBS], "@NAMES": [o.name for o in MODS["wf"].NAMES], "@IFACE": [o.name for o in MODS["wf"].IFACE], "@REFUSE": [o.name for o in MODS["refuse"].OBS], "@QUIET": [o.name for o in MODS["printing"].OBS], "@TYPES": [o.name for o in MODS["elemtypes"].OBS], "@COMPILED": [o.name for o in MODS["comp"].OBS], "@STATE": [o.name for o in MODS["effects"].STATE]}
for _p in CATALOG:
    prop(_p["id"], _p["level"], [n for g in _p["obs"] for n in GROUPS.get(g, [g])], _p["explain"], _p["assume"])

"""Unsupported requests are refused."""
from core import Ob

ONE = ["eos_name", "eos_case", "eos_s_t_name", "eos_p_name", "eos_module", "eos_number", "eos_none", "pp_name", "pp_kind", "pp_out", "pp_num0", "pp_num3", "pp_coeffs2", "pp_coeffs2u",
       "pp_nonan_interp", "pp_nonan_interp2", "pp_nonan_u"]
OBS = [Ob("refuse:" + n, "drv.refuse." + n, "ref.refuse.refused", what="a request that is not supported ends in an error") for n in ONE]
OBS += [Ob("refuse:" + n, "drv.refuse." + n, "ref.refuse.unknown_name", types={"name": "str"}, what="an equation of state of any other name is refused") for n in ("eos_any", "eos_any_s_t", "eos_any_p")]
OBS += [Ob("refuse:eos_bsq", "drv.refuse.eos_bsq", "ref.refuse.unknown_name_bsq", types={"name": "str", "grav": "float", "rho_c": "float"}, what="an equation of state of any other name is refused"),
        Ob("refuse:pp_any", "drv.refuse.pp_any", "ref.refuse.unknown_interpolant", types={"name": "str"}, what="an interpolant of any other name is refused")]

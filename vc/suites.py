import c_interval
import c_traits
import c_mod_int
import c_ipow
import c_trans
import c_util
import c_poly
import c_pdiv
import c_alg
import c_sel
import c_biv
import c_pow
import c_cache
import c_gcd
SUITES = {"interval": c_interval, "traits": c_traits, "mod_int": c_mod_int, "ipow": c_ipow, "trans": c_trans, "util": c_util, "poly": c_poly, "pdiv": c_pdiv, "alg": c_alg, "sel": c_sel, "biv": c_biv, "pow": c_pow, "cache": c_cache, "gcd": c_gcd}

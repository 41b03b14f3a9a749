"""check.py <property> [quick|thorough]: decides one property on /repo's current working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import importlib
TABLE = {"A": "c_ad", "Q07": "c_pre", "D01": "c_nlp", "S": "c_sqp", "O": "c_ocp", "M": "c_mpc", "P": "c_poly", "C": "c_legacy", "L": "c_lqr", "N": "c_ipopt", "Q": "c_qp"}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module(TABLE.get(pid) or TABLE[pid[0]])
    c = vlib.Check(pid, tier)
    try:
        getattr(mod, pid.lower())(c)
    except vlib.BuildError as e:
        if not vlib.toolchain_ok():
            raise
        # the compiler works, so the library no longer accepts a use it documents
        c.violate("the library no longer compiles in a use this property covers", {"error": str(e)})
    except vlib.ModelError as e:
        print(e)
        if not c.violations:
            sys.exit(2)
    c.finish()


main()

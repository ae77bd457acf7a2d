"""python3 -m sa.run P06 [quick|thorough]"""
import os
import sys
import threading

from . import c_grammar, c_nodes, c_parse, c_state, c_tree, c_val
from .check import Check
from .engine import AnchorError

CHECKS = {}
for n in ("p06", "p08", "p09", "p10", "p11", "p12", "p13", "p14"):
    CHECKS[n.upper()] = getattr(c_tree, n)
for n in ("p01", "p02", "p03", "p04", "p05"):
    CHECKS[n.upper()] = getattr(c_parse, n)
for n in ("p07", "p15", "p16", "p17"):
    CHECKS[n.upper()] = getattr(c_nodes, n)
for n in ("p20", "p21", "p22", "p23", "p24", "p25", "p26"):
    CHECKS[n.upper()] = getattr(c_val, n)
for n in ("p18", "p19"):
    CHECKS[n.upper()] = getattr(c_state, n)
for n in ("p27", "p28", "p29", "p30", "p31"):
    if hasattr(c_grammar, n):
        CHECKS[n.upper()] = getattr(c_grammar, n)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ck = Check(prop, tier, seed)
    fn = CHECKS[prop]
    try:
        fn(ck)
    except AnchorError as e:
        ck.undecided(f"{e}")
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            raise
        ck.undecided(f"the analysis stopped: {type(e).__name__}: {e}")
    return ck.finish((fn.__doc__ or "").strip() or "static analysis of the current source, see rule")


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]

    def go():
        rc[0] = main()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])

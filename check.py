#!/usr/bin/env python3
"""check.py <property> quick|thorough : decide one property on /repo's working tree."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
for k, v in {"HOME": "/root", "LC_ALL": "C.UTF-8"}.items():
    os.environ[k] = v
for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH", "C_INCLUDE_PATH", "LD_PRELOAD"):
    os.environ.pop(k, None)
import emcheck

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    from registry import CHECKS
    mod, fn = CHECKS[prop][:2]
    c = emcheck.Check(prop, tier)
    try:
        getattr(importlib.import_module(mod), fn)(c)
    except Exception:
        # what was found before the exploration broke off still counts
        if not c.violations:
            raise
        traceback.print_exc()
    return c.finish()

if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)

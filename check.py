#!/usr/bin/env python3
"""check.py ID: run the check of one property (VERIF_TIER=quick|thorough)."""
import importlib, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
sys.dont_write_bytecode = True
if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        # nothing to prebuild: each check compiles /repo's working tree; make sure the tools are here
        import shutil
        sys.exit(0 if all(shutil.which(t) for t in ("gcc", "clang", "flex", "bison", "objcopy")) else 1)
    importlib.import_module(sys.argv[1].lower()).main()

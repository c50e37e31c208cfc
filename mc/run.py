"""python -m mc.run C01 [--tier quick|thorough]"""
import argparse
import importlib
import os
import sys
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from mc import boot  # noqa: F401
    from mc import core
    from mc.registry import REG

    mod, fn, level = REG[a.property]
    ctx = core.Ctx(a.property, a.tier, seed, level)
    getattr(importlib.import_module(mod), fn)(ctx)
    return ctx.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)

#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]: decide one property."""
import argparse, importlib, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
ENV = {"HOME": "/root", "MPLBACKEND": "agg", "QT_QPA_PLATFORM": "offscreen", "PYTHONHASHSEED": "0",
       "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "VERIF_CHILD": "1",
       "PYTHONWARNINGS": "ignore"}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if os.environ.get("VERIF_CHILD") != "1":
        env = dict(os.environ)
        env.update(ENV)
        os.execve(VENV, [VENV, os.path.join(HERE, "check.py")] + sys.argv[1:], env)
    sys.path[:0] = [HERE, os.environ.get("VERIF_REPO", "/repo")]
    from harness import common
    import logging, warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    ctx = common.Ctx(a.prop, a.tier, a.seed)
    try:
        mod = importlib.import_module(f"harness.checks.{a.prop.lower()}")
        if a.replay:
            mod.replay(ctx, a.replay)
        else:
            mod.run(ctx)
        rc = common.finish(ctx)
    except common.MachineryError as e:
        print(f"MACHINERY-ERROR {a.prop}: {e}", file=sys.stderr)
        rc = 2
    finally:
        ctx.cleanup()
    sys.stdout.flush()
    os._exit(rc)


main()

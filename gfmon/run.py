"""Command line: `python -m gfmon.run PROPERTY [tier] [--replay FILE]`."""
import argparse
import importlib
import json
import logging
import os
import sys
import traceback

from . import core, target

logging.lastResort = logging.NullHandler()  # log records of the code under test are not printed (monitors attach their own handlers)


def main(argv=None):
    par = argparse.ArgumentParser()
    par.add_argument("prop")
    par.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER") or "quick",
                     choices=["quick", "thorough"])
    par.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    par.add_argument("--replay")
    args = par.parse_args(argv)
    try:
        target.load()
    except Exception:  # noqa: BLE001  the package does not even import
        traceback.print_exc()
        os.makedirs(os.path.join(core.EVIDENCE, "replay"), exist_ok=True)
        path = os.path.join(core.EVIDENCE, "replay", f"{args.prop}-import.txt")
        with open(path, "w", encoding="utf-8") as fh:
            fh.write(traceback.format_exc())
        print(f"VIOLATION property={args.prop} replay={path}")
        return 1
    mod = importlib.import_module(f"gfmon.props.{args.prop.lower()}")
    if args.replay:
        with open(args.replay, encoding="utf-8") as fh:
            rep = json.load(fh)
        cs = next(c for c in mod.CASES if c.name == rep["case"])
        ctx, viol, _ = core.run_case(args.prop, cs, rep["seed"], rep["idx"], rep["tier"])
        print(json.dumps({"event": ctx.last, "violation": viol}, indent=1, default=str))
        return 1 if viol else 0
    return core.run_property(args.prop, mod, args.tier, args.seed)


if __name__ == "__main__":
    sys.exit(main())

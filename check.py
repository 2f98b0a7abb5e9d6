#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current tree."""
import importlib, os, subprocess, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib

AREAS = {  # property -> areas that decide it
    "V01": ["pki"], "V02": ["pki"], "V03": ["pki"], "V04": ["res", "pki"], "V05": ["pki"], "V06": ["pki", "res"],
    "V09": ["dir"], "V10": ["api"],
    "V07": ["pki", "publish"], "V08": ["corrupt", "xml", "pki", "ber", "confine"],
    "S01": ["xml", "rrdp", "octo"], "S02": ["xml", "rrdp", "octo"], "S04": ["octo"], "S05": ["octo"], "S06": ["octo"],
    "S03": ["confine"],
    "O01": ["octo"], "O02": ["octo"], "O03": ["octo", "publish"], "O04": ["octo"], "O05": ["octo"], "O06": ["octo"], "O07": ["octo"], "T01": ["octo"], "T02": ["ct"],
    "L01": ["ov"], "L02": ["ber"], "L03": ["tal"], "L04": ["codec", "tal"], "L05": ["sign"], "L06": ["sign"], "L07": ["place"],
}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = vlib.Ctx(prop, tier, seed)
    try:
        for a in AREAS[prop]:
            importlib.import_module("areas." + a).run(ctx)
    except vlib.ToolError as e:
        # a violation already found stands; otherwise there is no answer
        print("ERROR:", e)
        if not [v for v in ctx.violations if prop in v.props]:
            return 2
    except subprocess.TimeoutExpired as e:
        print("ERROR: timeout", e)
        if not [v for v in ctx.violations if prop in v.props]:
            return 2
    return ctx.finish("model_checking")


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)

"""python -m dst.main C01 [--tier quick|thorough] [--count N] | replay FILE | digests ... | show ..."""
import importlib
import json
import os
import sys

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.environ.get("REPO", "/repo"), "python"))

import warnings

import numpy as np

np.seterr(all="ignore")
warnings.simplefilter("ignore")


def load(prop):
    return importlib.import_module("dst.checks." + prop.lower())


def main(argv):
    from . import engine
    seed = os.environ.get("VERIF_SEED", "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if argv[0] == "replay":
        rec = json.load(open(argv[1]))
        check = load(rec["property"])
        ctx, bad = engine.run_one(check, rec["scenario"])
        if bad is None:
            print(f"REPLAY property={rec['property']} no violation")
            return 0
        print(f"REPLAY property={rec['property']} kind={bad[0]} {bad[1]}")
        print(f"VIOLATION property={rec['property']} replay={argv[1]}")
        return 1
    if argv[0] == "digests":
        check = load(argv[1])
        out = {}
        for i in map(int, argv[4].split(",")):
            scn = check.generate(engine.rng_for(argv[2], check.PROP, i), argv[3], i)
            ctx, bad = engine.run_one(check, scn)
            out[i] = ctx.h.hexdigest()
        print(json.dumps(out))
        return 0
    if argv[0] == "show":
        check = load(argv[1])
        print(json.dumps(check.generate(engine.rng_for(seed, check.PROP, int(argv[2])), tier, int(argv[2])), indent=1))
        return 0
    if argv[0] == "one":
        check = load(argv[1])
        scn = check.generate(engine.rng_for(seed, check.PROP, int(argv[2])), tier, int(argv[2]))
        ctx, bad = engine.run_one(check, scn)
        print(bad, engine.summary(ctx, bad))
        return 0
    check = load(argv[0])
    count = None
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a == "--tier":
            tier = rest.pop(0)
        elif a == "--count":
            count = int(rest.pop(0))
        elif a == "--seed":
            seed = rest.pop(0)
        elif a == "--workers":
            os.environ["DST_WORKERS"] = rest.pop(0)
        else:
            raise SystemExit(f"unknown argument {a}")
    return engine.run_check(check, seed, tier, count=count)


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(code)

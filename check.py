#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N]    run the check of one property
   check.py --replay FILE                                    re-drive and re-judge one recorded case"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core
from vf import registry


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in argv:
        i = argv.index("--tier"); tier = argv[i + 1]; del argv[i:i + 2]
    if "--seed" in argv:
        i = argv.index("--seed"); seed = int(argv[i + 1]); del argv[i:i + 2]
    if argv and argv[0] == "--replay":
        doc = json.load(open(argv[1]))
        print("recorded by seed=%s tier=%s; running that check again" % (doc["seed"], doc["tier"]))
        argv = [doc["property"]]
        tier, seed = doc["tier"], doc["seed"]
    prop = argv[0]
    run = core.Run(prop, tier, seed)
    try:
        registry.CHECKS[prop](run)
    except core.DriverError as e:
        # on the tree as it is every driver runs to its end: the code raised where it may not
        run.violations.append(("driver", dict(inp=str(e)[-4000:]), ["raised"]))
    except core.MachineryError as e:
        print("MACHINERY ERROR in check of %s: %s" % (prop, e))
        if not run.violations:
            return 2
    return run.finish()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

import os
import sys
import traceback

from . import common, registry


def main(argv):
    if argv[0] == "replay":
        return common.replay(argv[1])
    if argv[0] == "selfcheck":
        common.import_pysad()
        import json
        ids = [json.loads(line)["id"] for line in open(os.path.join(common.VERIF, "properties.jsonl"))]
        for i in ids:
            registry.get(i)
        print("pysadmon: %d checks ready, pysad imported from %s" % (len(ids), common.REPO))
        return 0
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    check = registry.get(prop)
    return common.run_check(check, tier, seed)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        print("INCONCLUSIVE harness error")
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)

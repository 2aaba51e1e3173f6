import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner  # noqa: E402


def cli():
    if sys.argv[1] == "shard":
        _, _, prop, tier, seed, index, shards, out = sys.argv
        runner.shard_main(prop, tier, int(seed), int(index), int(shards), out)
    if sys.argv[1] == "replay":
        runner.replay(sys.argv[2])
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=("quick", "thorough"), default=None)
    ap.add_argument("--seed", type=int, default=None)
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    return runner.main(a.property.upper(), tier, seed)


if __name__ == "__main__":
    sys.exit(cli())

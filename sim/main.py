import argparse
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--digests", help="A:B: print the digests of runs A..B-1")
    a = ap.parse_args()
    from . import core, engine

    try:
        if a.replay:
            return engine.replay(a.replay)
        if a.digests:
            lo, hi = map(int, a.digests.split(":"))
            return engine.dump(a.prop, a.tier, a.seed, range(lo, hi), a.workers or 8)
        if a.prop not in engine.PROPS:
            print("unknown property", a.prop, file=sys.stderr)
            return 2
        return engine.check(a.prop, a.tier, a.seed, a.runs, a.workers)
    except core.HarnessError as e:
        print("HARNESS-ERROR", e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)

"""Run the sessions of a property against the library, and record them.

usage: driver.py PROPERTY OUT SHARD SHARDS SEED EVENTS [CASES]
"""
import os
import random
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("REPO", "/repo"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def unescape(line):
    return line.encode().decode("unicode_escape")


def cases(path, shard, shards):
    """The cases of our shard; line k belongs to shard k modulo shards."""
    with open(path) as f:
        for k, line in enumerate(f):
            if k % shards == shard:
                yield line


def main():
    prop, out, shard, shards, seed, events = sys.argv[1:7]
    shard, shards, events = int(shard), int(shards), int(events)
    import json

    from session import Session
    import plans
    try:
        import ndplans
    except ImportError:
        ndplans = None

    plan = plans.RANDOM.get(prop)
    case = plans.CASE.get(prop)
    if ndplans and prop in ndplans.RANDOM:
        plan, case = ndplans.RANDOM[prop], ndplans.CASE.get(prop)
    import twin
    pristine = twin.Pristine() if prop in ("C10", "C19") else None
    elsewhere = twin.Elsewhere((int(seed) * 7919 + shard + 1) % 4294967295) if prop == "C11" else None
    with open(out, "w") as f:
        s = Session(f, pristine, elsewhere)
        if len(sys.argv) > 7:
            for line in cases(sys.argv[7], shard, shards):
                c = json.loads(line)
                case(s, c["set"], c["case"])
        rng = random.Random(f"{prop}/{seed}/{shard}")
        start, k = s.n, 0
        while s.n - start - s.extra < events:
            k += 1
            plan(s, random.Random(rng.random()))
            if k > 20 * events + 100:
                break


if __name__ == "__main__":
    main()

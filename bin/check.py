#!/usr/bin/env python3
"""Decide one property: check.py PROPERTY  (VERIF_TIER, VERIF_SEED in the environment).

1. TLC explores the specification exhaustively within bounds and checks its
   invariants; the behaviours it visits are exported.
2. The exported behaviours, and random ones, are run on the library in
   /repo; every call and its outcome is recorded.
3. TLC validates the records against the specification; an event that is no
   step of it is a violation, unless known-findings.json lists it.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
REPO = os.environ.get("REPO", "/repo")
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 1)

from registry import CHECKS  # noqa: E402


class CheckError(Exception):
    """The check itself failed: no verdict."""


def tlc(module, cfg, work, workers, heap, timeout, name):
    """Run TLC in work; its output."""
    path = os.path.join(work, name + ".cfg")
    with open(path, "w") as f:
        f.write(cfg)
    log = os.path.join(work, name + ".log")
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(1, min(workers, 4))}",
           "-Djava.io.tmpdir=" + work, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", os.path.join(work, "md-" + name), "-config", path,
           os.path.join(VERIF, "spec", module + ".tla")]
    with open(log, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), stdout=f, stderr=subprocess.STDOUT,
                                timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC did not finish {module} ({name}) in {timeout} s")
    with open(log, errors="replace") as f:
        out = f.read()
    return rc, out, log


def err_part(out):
    k = out.find("Error:")
    return out[k:k + 1500] if k >= 0 else out[-1500:]


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


def constants(d):
    def lit(v):
        if isinstance(v, bool):
            return "TRUE" if v else "FALSE"
        if isinstance(v, (set, frozenset, list, tuple)):
            return "{" + ", ".join(lit(x) for x in sorted(v)) + "}"
        return json.dumps(v) if isinstance(v, str) else str(v)
    return "CONSTANTS\n" + "".join(f"  {k} = {lit(v)}\n" for k, v in d.items())


def explore(i, mc, work, workers, timeout):
    """Exhaustive exploration of a bounded model; and its exported cases."""
    name = f"mc{i}"
    cfg = f"SPECIFICATION {mc.get('spec', 'Spec')}\nCHECK_DEADLOCK FALSE\n" + constants(mc["constants"])
    if mc.get("invariants"):
        cfg += "INVARIANTS " + " ".join(mc["invariants"]) + "\n"
    if mc.get("properties"):
        cfg += "PROPERTIES " + " ".join(mc["properties"]) + "\n"
    rc, out, log = tlc(mc["module"], cfg, work, workers, mc.get("heap", "3g"), timeout, name)
    if rc != 0 or "No error has been found" not in out:
        raise CheckError(f"TLC found the specification itself in error: {mc}\n" + err_part(out))
    gen, distinct = counts(out)
    cases = list(dict.fromkeys(json.loads(line)[5:] for line in out.splitlines() if line.startswith('"CASE ')))
    cases = [json.loads(c) for c in cases]
    return {"module": mc["module"], "constants": {k: str(v) for k, v in mc["constants"].items()},
            "states": distinct, "transitions": gen, "set": mc.get("set"), "cases": cases}


def drive(prop, work, shard, shards, seed, events, cases, timeout):
    out = os.path.join(work, f"trace{shard}.ndjson")
    err = os.path.join(work, f"driver{shard}.err")
    env = dict(os.environ, REPO=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str((int(seed) * 31 + shard) % 4294967295),
               PYTHONPYCACHEPREFIX=os.path.join(work, "pyc"), DRIVER_WORK=work)
    cmd = [PYTHON, "-B", os.path.join(VERIF, "harness", "driver.py"), prop, out, str(shard), str(shards), str(seed),
           str(events)] + ([cases] if cases else [])
    why = None
    with open(err, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=work, env=env, stdout=f, stderr=f, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc, why = None, f"the library gave no answer in {timeout} s"
    if rc not in (0, None):
        text = open(err, errors="replace").read()
        if rc < 0:
            why = f"the library ended the interpreter (signal {-rc})"
        elif os.path.join(REPO, "") in text:
            why = "the library cannot be used: " + text.strip().splitlines()[-1][:200]
        else:
            raise CheckError(f"the driver failed: {text[-1500:]}")
    return out, why


def validate(prop, spec, work, quick, shard, path, timeout):
    """TLC checks a recorded trace; the events it rejects."""
    with open(path) as f:
        lines = f.read().split("\n")
    lines = lines[:-1]          # an unfinished line, after a crash, goes
    with open(path, "w") as f:
        f.write("\n".join(lines) + ("\n" if lines else ""))
    if not lines:
        return [], 0, 0, 0
    cfg = ("SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n"
           + constants({"TraceFile": path, "Clauses": spec["clauses"],
                        **spec.get("constants", ({}, {}))[0 if quick else 1]}))
    rc, out, log = tlc(spec["trace"], cfg, work, 1, "2500m", timeout, f"val{shard}")
    if rc != 0 or "No error has been found" not in out:
        raise CheckError(f"TLC could not validate {path}:\n" + err_part(out))
    gen, distinct = counts(out)
    if distinct != len(lines) + 1:
        raise CheckError(f"TLC validated {distinct - 1} of {len(lines)} events of {path}")
    bad = []
    for line in out.splitlines():
        if line.startswith('"BAD '):
            bad.append(json.loads(json.loads(line)[4:]))
    sessions = sum('"e": "new"' in x or '"e": "proof"' in x for x in lines)
    return [(b, lines, path) for b in bad], distinct, gen, sessions


def session_of(lines, k):
    """The session that event number k (from 0) belongs to, up to it."""
    start = k
    while start > 0 and '"e": "new"' not in lines[start]:
        start -= 1
    return [json.loads(x) for x in lines[start:k + 1]]


def readable(x):
    """Character codes to text, for those who read the replay file."""
    if isinstance(x, list):
        if x and all(isinstance(c, int) and not isinstance(c, bool) and 9 <= c < 0x110000 for c in x):
            return "".join(map(chr, x))
        return [readable(y) for y in x]
    if isinstance(x, dict):
        return {k: (v if k in ("args",) else readable(v)) for k, v in x.items()}
    return x


def known_findings(prop):
    with open(os.path.join(VERIF, "known-findings.json")) as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == prop]


def matches(finding, ev):
    """A finding lists the fields of the event that fails, exactly."""
    return all(ev.get(k) == v for k, v in finding["event"].items())


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[prop]
    t0 = time.time()
    quick = tier != "thorough"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        return run(prop, spec, tier, quick, seed, work, t0)
    except CheckError as e:
        print(f"ERROR: {e}", file=sys.stderr)
        return 2
    finally:
        if not os.environ.get("KEEP"):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept", work)


def run(prop, spec, tier, quick, seed, work, t0):
    limit = 800 if quick else 6 * 3600
    mcs = [m for m in spec.get("mc", []) if m.get("tier", tier) == tier]
    events = spec["events"][0 if quick else 1]

    # 1. the specification
    models = []
    with cf.ThreadPoolExecutor(max_workers=min(CORES, max(1, len(mcs)))) as ex:
        w = max(1, CORES // max(1, len(mcs)))
        futures = [ex.submit(explore, i, m, work, w, limit) for i, m in enumerate(mcs)]
        models = [f.result() for f in futures]
    casefile, ncases = None, 0
    allcases = [(m["set"], c) for m in models for c in sorted(m["cases"], key=json.dumps)]
    if allcases:
        casefile = os.path.join(work, "cases.ndjson")
        with open(casefile, "w") as f:
            for st, c in allcases:
                f.write(json.dumps({"set": st, "case": c}) + "\n")
        ncases = len(allcases)
    t1 = time.time()

    # 2. the library
    shards = spec.get("shards", (CORES, CORES * 4))[0 if quick else 1]
    with cf.ThreadPoolExecutor(max_workers=CORES) as ex:
        futures = [ex.submit(drive, prop, work, k, shards, seed, events // shards, casefile, limit)
                   for k in range(shards)]
        traces = [f.result() for f in futures]
    t2 = time.time()

    # 3. does what the library did follow the specification?
    violations, states, transitions, sessions = [], 0, 0, 0
    with cf.ThreadPoolExecutor(max_workers=CORES) as ex:
        futures = [ex.submit(validate, prop, spec, work, quick, k, p, limit) for k, (p, _) in enumerate(traces)]
        results = [f.result() for f in futures]
    for bad, d, g, n in results:
        violations += bad
        states += d
        transitions += g
        sessions += n
    known = known_findings(prop)
    seen_known, new = {}, []
    for b, lines, path in violations:
        ev = json.loads(lines[b["line"] - 1])
        hit = [k for k in known if matches(k, ev)]
        if hit:
            seen_known[hit[0]["what"]] = True
        else:
            new.append((b, lines, path, ev))
    dead = [(k, why) for k, (_, why) in enumerate(traces) if why]

    sample = []
    for p, _ in traces[:1]:
        with open(p) as f:
            head = [json.loads(x) for _, x in zip(range(400), f)]
        sample = [readable(x) for x in head if x["e"] not in ("new", "leaf")][-3:]
    samples = [m["cases"][len(m["cases"]) // 2] for m in models if m["cases"]][:3] + sample
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(m["states"] for m in models) + states,
            "transitions": sum(m["transitions"] for m in models) + transitions,
            "traces_validated_against_impl": sessions,
            "samples": samples or [{"models": [m["module"] for m in models]}],
            "spec_states": sum(m["states"] for m in models),
            "spec_models": [{k: m[k] for k in ("module", "constants", "states", "transitions")}
                            | {"exported": len(m["cases"])} for m in models],
            "events_validated": states - len([r for r in results if r[1]]),
            "behaviours_of_the_spec_replayed": ncases,
            "clauses": sorted(spec["clauses"]),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new) + len(dead),
    }
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for what in seen_known:
        print(f"KNOWN-FINDING: property={prop} {what}")
    print(f"{prop} {tier}: {len(models)} models, {evidence['coverage']['spec_states']} states, {ncases} cases; "
          f"{sessions} sessions, {evidence['coverage']['events_validated']} events; "
          f"{t1 - t0:.1f}+{t2 - t1:.1f}+{time.time() - t2:.1f} s")
    if new or dead:
        replay = os.path.join(VERIF, "evidence", f"{prop}.replay.json")
        record = {"property": prop, "seed": seed, "tier": tier, "count": len(new) + len(dead), "violations": []}
        for b, lines, path, ev in sorted(new, key=lambda x: len(session_of(x[1], x[0]["line"] - 1)))[:10]:
            record["violations"].append({"clauses": b["clauses"], "event": readable(ev),
                                         "session": [readable(x) for x in session_of(lines, b["line"] - 1)]})
        for k, why in dead:
            with open(traces[k][0]) as f:
                tail = f.read().split("\n")[-20:]
            record["violations"].append({"clauses": ["answer"], "why": why, "last_events": tail})
        with open(replay, "w") as f:
            json.dump(record, f, indent=1)
        for v in record["violations"][:3]:
            print("  " + json.dumps({k: v.get(k) for k in ("clauses", "event", "why")})[:400])
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())

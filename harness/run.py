#!/opt/venv/bin/python
"""Decide one property: ``run.py C17`` (VERIF_SEED, VERIF_TIER), or replay a
saved failure: ``run.py --replay FILE``."""

import json
import os
import sys
import tempfile
import time
import shutil

BASE_SCALE = 8.0    # case counts of the laws are written for about two seconds
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

for var in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[var] = "1"
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True
SCRATCH = tempfile.mkdtemp(prefix="tftb-verif-")
os.environ["MPLCONFIGDIR"] = SCRATCH
os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(SCRATCH, "hypothesis")
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)


def main(argv):
    import core
    replay = None
    if argv[:1] == ["--replay"]:
        replay = json.load(open(argv[1]))
        prop = replay["property"]
    else:
        prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1 and argv[1] in ("quick", "thorough"):
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        import tftb  # noqa: F401
        if not os.path.abspath(tftb.__file__).startswith(os.path.abspath(REPO) + os.sep):
            print("tftb comes from %s, not from %s" % (tftb.__file__, REPO))
            return 2
        import registry
        laws, meta = registry.load(prop)
    except ImportError as e:
        if "tftb" not in str(e):
            raise
        return report_violation(core, prop, "import", {}, "import failed: %s" % e)
    known = core.KnownFinding(os.path.join(VERIF, "known-findings.txt"))

    if replay is not None:
        law = [l for l in laws if l.name == replay["law"]][0]
        try:
            core.evaluate(law, replay["case"])
        except core.Violation as v:
            print("reproduced: %s" % v)
            print("VIOLATION property=%s replay=%s" % (prop, argv[1]))
            return 1
        print("not reproduced: the law holds on this case")
        return 0

    only = os.environ.get("VERIF_LAW")
    if only:
        laws = [l for l in laws if any(o in l.name for o in only.split(","))]
    start = time.time()
    wall_limit = 240 if tier == "quick" else 3000
    results = core.run_property(
        prop, laws, tier, seed, int(os.environ.get("VERIF_WORKERS", "8")),
        wall_limit, known, scale=BASE_SCALE * float(os.environ.get("VERIF_SCALE", "1")))

    rows, distinct, samples, errors, violations = {}, 0, [], [], []
    known_hits = {}
    for law in laws:
        mine = [r for r in results if r["law"] == law.name]
        keys = set()
        row = dict(evaluations=0, nontrivial=0, skipped_by_time_budget=0, classes={},
                   cpu_s=0.0)
        for r in sorted(mine, key=lambda r: -len(r["samples"])):
            row["evaluations"] += r["evaluations"]
            row["nontrivial"] += r["nontrivial"]
            row["skipped_by_time_budget"] += r["skipped"]
            row["cpu_s"] += r["wall"]
            keys |= r["distinct"]
            for k, v in r["classes"].items():
                row["classes"][k] = row["classes"].get(k, 0) + v
            for k, v in r["known"].items():
                known_hits[k] = known_hits.get(k, 0) + v
            if r["error"]:
                errors.append((law.name, r["error"]))
            if r["violation"]:
                violations.append((law.name, r["violation"]))
        row["distinct_nontrivial"] = len(keys)
        row["cpu_s"] = round(row["cpu_s"], 2)
        row["classes"] = dict(sorted(row["classes"].items(), key=lambda kv: -kv[1])[:12])
        if law.rule:
            row["rule"] = law.rule
        distinct += len(keys)
        rows[law.name] = row
        for s in (mine[0]["samples"][:2] if mine else []):
            samples.append(dict(law=law.name, case=s))
    if len(samples) > 24:
        samples = samples[::max(1, len(samples) // 24)][:24]
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(r["evaluations"] for r in rows.values()),
            distinct_nontrivial=distinct,
            rule=("Cases are drawn by Hypothesis from the structured strategies of the laws "
                  "listed under 'laws' (seeded by VERIF_SEED); a case is non-trivial unless "
                  "its law classified it as 'trivial'. " + meta.get("rule", "")),
            samples=samples, laws=rows),
        assumptions=meta.get("assumptions", []),
        wall_s=round(time.time() - start, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1)

    for e in known.entries:
        if e["property"] == prop and known_hits.get(e["id"]):
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    code = 0
    seen = set()
    for law, v in sorted(violations, key=lambda lv: (lv[0], lv[1]["size"])):
        if law in seen:
            continue
        seen.add(law)
        code = report_violation(core, prop, law, v["case"], v["message"])
    if code == 0 and errors:
        for law, e in errors[:3]:
            print("HARNESS ERROR in %s/%s:\n%s" % (prop, law, e))
        return 2
    if code == 0:
        print("%s held on %d cases (%d distinct non-trivial), %d laws, %.1f s" % (
            prop, evidence["coverage"]["evaluations"], distinct, len(laws),
            evidence["wall_s"]))
    return code


def report_violation(core, prop, law, case, message):
    path = os.path.join(VERIF, "replays")
    os.makedirs(path, exist_ok=True)
    path = os.path.join(path, "%s-%s.json" % (prop, law))
    with open(path, "w") as fh:
        json.dump(dict(property=prop, law=law, case=case, message=message), fh, indent=1)
    print("%s/%s: %s\n  minimal case: %s" % (prop, law, message, json.dumps(case)[:600]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)

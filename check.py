#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]   decide one property
check.py --replay <file>                                  run a stored failing case once more"""
import argparse
import json
import os
import resource
import shutil
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import checks  # noqa: E402
import explore  # noqa: E402
import vbuild  # noqa: E402

FINDINGS = os.path.join(HERE, "known-findings.jsonl")


def findings(prop):
    res = {}
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d["property"] == prop and d["status"] == "finding":
                    res[d["id"]] = d
    return res


def replay(path):
    d = json.load(open(path))
    build = vbuild.ensure("asan")
    if d["driver"] == "trace":
        case = d["case"]
        if case.get("history"):
            h = case["history"]
            out = explore._trace_job(case["prop"], (), case["profile"], h["seeds"], h["steps"], shrinking=False).failures
            r = out[0] if out else None
        else:
            r = explore.run_trace(build, explore.profiles.PROFILES[case["profile"]], case["ops"])
    else:
        out = explore._driver_job("replay", (), d["driver"], d["case"], False)
        r = out.failures[0] if out.failures else None
    if r is None:
        print("does not fail")
        return 0
    print(json.dumps({k: v for k, v in r.items() if k != "case"}, indent=1)[:6000])
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    resource.setrlimit(resource.RLIMIT_NOFILE, (min(hard, 65536), hard))
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    prop = a.prop
    spec = checks.CHECKS[prop]
    # another checkout than the usual one: leave the usual evidence alone
    own = os.environ.get("VERIF_REPO") is None
    res = explore.explore(prop, checks.plan(prop, a.tier, a.scale), a.seed, relevant=spec.get("relevant", ()))
    outdir = os.path.join(HERE, "out", prop)
    if own and os.path.isdir(outdir) and outdir.startswith(HERE + "/out/"):
        shutil.rmtree(outdir)
    os.makedirs(outdir, exist_ok=True)
    listed = findings(prop)
    code = 0
    violations = 0
    seen = set()
    for k in res.known:
        if k["property"] != prop:
            continue
        if k["id"] in listed:
            if k["id"] not in seen:
                print("KNOWN-FINDING: property=%s %s" % (prop, listed[k["id"]]["what"]))
            seen.add(k["id"])
        else:
            res.failures.append({"type": "divergence", "kind": k["id"], "detail": k["detail"], "labels": [prop], "driver": k["driver"], "case": k["case"]})
    others = 0
    for i, f in enumerate(res.failures):
        mine = prop in f["labels"] or "*" in f["labels"]
        others += not mine
        if not mine and others > 12:
            continue
        path = os.path.join(outdir, "%s%d.json" % ("" if mine else "other-", i))
        json.dump(f, open(path, "w"), indent=1)
        if mine:
            violations += 1
            code = 1
            print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s %s\n    %s" % ("violation" if mine else "divergence that concerns %s, not %s" % (",".join(f["labels"]), prop), f["type"], f["kind"], f["detail"][:1500].replace("\n", "\n    ")))
    for u in res.unreproduced:
        print("  not reproduced, not counted: %s" % json.dumps(u)[:600])
    cov = {
        "evaluations": res.evaluations,
        "distinct_nontrivial": len(res.nontrivial),
        "rule": "Cases are random state-aware operation traces (profiles) and the cases of the drivers, made from the seed; a case counts as non-trivial when "
                + spec["nontrivial"] + ", and as distinct by the hash of its operations.",
        "samples": [res.samples[i] for i in range(0, len(res.samples), max(1, len(res.samples) // 6))][:8],
        "monitor_events": dict(sorted(res.stats.items())),
        "operations_by_kind": res.kinds,
        "distinct_operation_in_state": len(res.sigs),
        "unreproduced": len(res.unreproduced),
    }
    ev = {"property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": spec.get("level", "exploration"), "coverage": cov,
          "assumptions": checks.ASSUMPTIONS + spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": violations}
    if own:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        p = os.path.join(HERE, "evidence", prop + ".json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1)
        os.replace(p + ".tmp", p)
    print("%s %s seed %d: %d cases, %d distinct non-trivial, %d observed messages, %d violations, %.1f s" % (
        prop, a.tier, a.seed, res.evaluations, len(res.nontrivial), res.stats.get("observed_messages", 0), violations, time.time() - t0))
    if code == 0 and len(res.nontrivial) == 0:
        print("nothing was explored")
        return 3
    return code


if __name__ == "__main__":
    try:
        rc = main()
    except (explore.Harness, vbuild.BuildError) as e:
        sys.stderr.write("the check could not run: %s\n" % e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)

"""Runs many traces in parallel, shrinks and attributes what diverges."""
import hashlib
import json
import multiprocessing
import os
import random
import ssl
import struct
import time
import traceback

import drivers
import gen as G
import profiles
import scripts
import sim
import vbuild
from hproc import Crash

OUT = os.path.join(vbuild.VERIF, "out")


class Harness(Exception):
    """The check itself does not work."""


# what comes out of evaluating output which does not have the expected shape, or of using what is not there
SHAPE = (ValueError, LookupError, TypeError, AttributeError, struct.error, ConnectionError, FileNotFoundError, TimeoutError, ssl.SSLError)


def misshapen():
    t = traceback.format_exc().splitlines()
    return {"type": "divergence", "kind": "unexpected_output", "conn": "", "detail": "what was observed cannot be evaluated: %s\n%s" % (t[-1][:400], "\n".join(x for x in t if x.startswith("  File"))[-1500:]), "labels": ["*"]}


def world_for(build, prof):
    return sim.World(build, ssl=prof.get("ssl", False), inactive=prof.get("inactive", 8000), sync=prof.get("sync", True))


def run_trace(build, prof, ops, end=True, patience=25):
    """Replays a trace in a fresh process: None, or a result dict describing what went wrong."""
    w = None
    try:
        w = world_for(build, prof)
        w.patience = patience
        w.run(ops)
        if end:
            w.close()
        return None
    except sim.Divergence as d:
        return {"type": "divergence", "kind": d.kind, "conn": str(d.conn), "detail": d.detail, "labels": sorted(d.labels), "op": w.ops_done if w else 0}
    except Crash as c:
        return {"type": "crash", "kind": c.kind, "detail": c.report, "labels": ["*"], "op": w.ops_done if w else 0}
    except SHAPE:
        return dict(misshapen(), op=w.ops_done if w else 0)
    finally:
        if w is not None:
            w.close(quiet=True)


def same(a, b):
    if a is None or b is None or a["type"] != b["type"]:
        return False
    return a["type"] == "crash" or a["kind"] == b["kind"]


def shrink(build, prof, ops, res, budget=25.0, tries=400):
    """Removes operations as long as the same kind of failure stays."""
    t0 = time.monotonic()
    ops = list(ops[:res["op"]]) if res.get("op") else list(ops)
    r = run_trace(build, prof, ops)
    if not same(r, res):
        return None, None
    best = r
    ops0, best0 = ops, r
    n = 2
    while len(ops) > 1 and time.monotonic() - t0 < budget and tries > 0:
        size = max(1, len(ops) // n)
        i, removed = 0, False
        while i < len(ops) and time.monotonic() - t0 < budget and tries > 0:
            cand = ops[:i] + ops[i + size:]
            tries -= 1
            r = run_trace(build, prof, cand, patience=5)
            if same(r, res):
                ops, best, removed = cand, r, True
            else:
                i += size
        if not removed:
            if size == 1:
                break
            n = min(len(ops), n * 2)
    # also split up the send operations: fewer parts, no cuts
    for i, o in enumerate(list(ops)):
        if o["op"] != "send" or time.monotonic() - t0 > budget:
            continue
        for key in ("cuts", "frags"):
            if key in o:
                cand = ops[:i] + [{k: v for k, v in o.items() if k != key}] + ops[i + 1:]
                r = run_trace(build, prof, cand, patience=5)
                if same(r, res):
                    ops, best = cand, r
                    o = ops[i]
        j = 0
        while len(o["parts"]) > 1 and j < len(o["parts"]) and time.monotonic() - t0 < budget:
            cand = ops[:i] + [dict(o, parts=o["parts"][:j] + o["parts"][j + 1:])] + ops[i + 1:]
            r = run_trace(build, prof, cand, patience=5)
            if same(r, res):
                ops, best = cand, r
                o = ops[i]
            else:
                j += 1
    r = run_trace(build, prof, ops)
    return (ops, r) if same(r, res) else (ops0, best0)


def merged(ops):
    """The same trace with every send operation as one read (deferred remainders stay)."""
    return [{k: v for k, v in o.items() if k != "cuts"} if o["op"] == "send" else o for o in ops]


def separated(ops):
    """The same trace with every part of a send operation on its own."""
    res = []
    for o in ops:
        if o["op"] == "send" and len(o["parts"]) > 1:
            res += [dict({k: v for k, v in o.items() if k != "cuts"}, parts=[p]) for p in o["parts"]]
        else:
            res.append(o)
    return res


class Result:
    """What a run of a check observed."""

    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()   # hashes of distinct non-trivial cases
        self.stats = {}           # events seen by the monitors and models
        self.kinds = {}           # operations applied
        self.sigs = set()         # (operation, abstract state) pairs
        self.failures = []
        self.samples = []
        self.known = []
        self.unreproduced = []

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def add(self, o):
        self.evaluations += o.evaluations
        for a in ("stats", "kinds"):
            d = getattr(self, a)
            for k, v in getattr(o, a).items():
                d[k] = d.get(k, 0) + v
        self.sigs |= o.sigs
        self.nontrivial |= o.nontrivial
        self.failures += o.failures
        self.samples += o.samples
        self.known += o.known
        self.unreproduced += o.unreproduced


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


def _trace_job(prop, relevant, prof_name, seeds, steps, shrinking=True):
    res = Result()
    build = vbuild.ensure("asan")
    prof = profiles.PROFILES[prof_name]
    w = None
    try:
        for k, seed in enumerate(seeds):
            rng = random.Random("%s/%s/%s" % (prop, prof_name, seed))
            g = None
            fail = None
            try:
                if w is None or k % 20 == 0:
                    if w is not None:
                        w.close()
                        _collect(res, w)
                    w = world_for(build, prof)
                else:
                    w.op({"op": "stop"})
                    w.op({"op": "start"})
                    w.model.flags.clear()
                before = dict(w.model.stats)
                g = G.Gen(rng, w, prof)
                script = prof.get("script")
                if script:
                    getattr(scripts, script)(g, steps)
                else:
                    g.run(steps)
                res.evaluations += 1
                delta = {k2: v - before.get(k2, 0) for k2, v in w.model.stats.items()}
                if not relevant or any(delta.get(r, 0) for r in relevant):
                    res.nontrivial.add(digest(g.trace))
                if len(res.samples) < 1:
                    res.samples.append({"profile": prof_name, "seed": seed, "operations": len(g.trace), "trace": [_short(o) for o in g.trace[:8]],
                                        "events": {k2: v for k2, v in delta.items() if v}})
            except sim.Divergence as d:
                fail = {"type": "divergence", "kind": d.kind, "conn": str(d.conn), "detail": d.detail, "labels": sorted(d.labels)}
            except Crash as c:
                fail = {"type": "crash", "kind": c.kind, "detail": c.report, "labels": ["*"]}
            except SHAPE:
                fail = misshapen()
            if fail is not None:
                _collect(res, w)
                if w is not None:
                    w.close(quiet=True)
                w = None
                if not shrinking:
                    res.failures.append(fail)
                    return res
                if prop not in fail["labels"] and "*" not in fail["labels"] and prop != "C11" and prop not in prof.get("labels", {}).get(fail["kind"], ()):
                    # of no concern here
                    res.failures.append(dict(fail, driver="trace", case={"profile": prof_name, "seed": seed, "ops": list(g.trace) if g else [], "history": None, "prop": prop}))
                    continue
                fail["op"] = len(g.trace) if g else 0
                ops = list(g.trace) if g else []
                sops, sres = shrink(build, prof, ops, fail)
                if sops is None:
                    # depends on what happened before in this process: run all of it once more
                    again = _trace_job(prop, relevant, prof_name, seeds[:k + 1], steps, shrinking=False).failures
                    if not any(same(a, fail) for a in again):
                        res.unreproduced.append({"kind": fail["kind"], "detail": fail["detail"][:500], "profile": prof_name, "seed": seed})
                        continue
                    sops, sres = ops, fail
                    sres["history"] = {"seeds": seeds[:k + 1], "steps": steps}
                sres["driver"] = "trace"
                sres["case"] = {"profile": prof_name, "seed": seed, "ops": sops, "history": sres.pop("history", None), "prop": prop}
                if sres["type"] == "divergence" and prop == "C11":
                    # does it depend on how the bytes were cut or merged?
                    for other in (merged(sops), separated(sops)):
                        if other != sops and not same(run_trace(build, prof, other), sres):
                            sres["labels"] = sorted(set(sres["labels"]) | {"C11"})
                if sres["type"] == "divergence":
                    sres["labels"] = sorted(set(sres["labels"]) | set(prof.get("labels", {}).get(sres["kind"], ())))
                res.failures.append(sres)
                if sum(prop in f["labels"] or "*" in f["labels"] for f in res.failures) >= 2:
                    break
        if w is not None:
            try:
                w.close()
            except Crash as c:
                res.failures.append({"type": "crash", "kind": c.kind, "detail": c.report, "labels": ["*"], "driver": "trace",
                                     "case": {"profile": prof_name, "ops": [], "history": {"seeds": seeds, "steps": steps}, "prop": prop}})
            _collect(res, w)
            w = None
    finally:
        if w is not None:
            w.close(quiet=True)
    return res


def _short(o):
    t = json.dumps(o)
    return o if len(t) < 400 else t[:400] + "..."


def _collect(res, w):
    if w is None or getattr(w, "collected", False):
        return
    w.collected = True
    res.count("observed_messages", w.events)
    res.count("settle_retries", w.retries)
    res.count("operations", w.ops_done)
    for k, v in w.model.stats.items():
        res.count("model_" + k, v)
    for k, v in w.kinds.items():
        res.kinds[k] = res.kinds.get(k, 0) + v
    res.sigs |= w.state_sigs


def _driver_job(prop, relevant, name, case, confirm):
    """Runs one case of a driver; a failure has to show again (up to two more attempts)."""
    drv = drivers.get(name)
    res = Result()
    tries = 3 if confirm else 1
    first = None
    for i in range(tries):
        if i == 1 and not any(prop in f["labels"] or "*" in f["labels"] for f in first.failures):
            res.add(first)   # of no concern here
            break
        one = Result()
        try:
            drv.run(one, case)
        except sim.Divergence as d:
            one.failures.append({"type": "divergence", "kind": d.kind, "conn": str(d.conn), "detail": d.detail, "labels": sorted(d.labels)})
        except Crash as c:
            one.failures.append({"type": "crash", "kind": c.kind, "detail": c.report, "labels": ["*"]})
        except SHAPE:
            one.failures.append(misshapen())
        for f in one.failures:
            f.setdefault("driver", name)
            f.setdefault("case", case)
        if i == 0:
            first = one
            res.evaluations += 1
            if not one.failures and (not relevant or any(one.stats.get(r) for r in relevant)):
                one.nontrivial.add(digest([name, case]))
            if not one.failures:
                res.add(one)
                break
        elif one.failures:
            res.add(one)
            break
    else:
        if tries == 1:
            res.add(first)
        else:
            f = first.failures[0]
            res.unreproduced.append({"kind": f["kind"], "detail": f["detail"][:500], "driver": name, "case": case})
    return res


def _job(args):
    try:
        if args[0] == "trace":
            return _trace_job(*args[1:])
        return _driver_job(*args[1:])
    except Exception:
        return traceback.format_exc()


def explore(prop, plan, seed, relevant=(), procs=None, enough=4):
    """plan: ("trace", profile name, number of traces, steps per trace) or ("driver", name, tier)."""
    vbuild.ensure("asan")
    jobs = []
    for p in plan:
        if p[0] == "trace":
            _, prof, n, steps = p
            per = max(1, min(10, n // 8 or 1))
            ids = ["%s:%d" % (seed, i) for i in range(n)]
            for i in range(0, n, per):
                jobs.append(("trace", prop, relevant, prof, ids[i:i + per], steps))
        else:
            drv = drivers.get(p[1])
            for case in drv.cases(random.Random("%s/%s/%s" % (prop, p[1], seed)), p[2]):
                jobs.append(("driver", prop, relevant, p[1], case, True))
    # long cases first
    jobs.sort(key=lambda j: 0 if j[0] == "driver" else 1)
    total = Result()
    t0 = time.monotonic()
    procs = procs or min(8, os.cpu_count() or 4)
    with multiprocessing.Pool(procs, maxtasksperchild=4) as pool:
        for r in pool.imap_unordered(_job, jobs):
            if isinstance(r, str):
                pool.terminate()
                raise Harness(r)
            total.add(r)
            mine = [f for f in total.failures if prop in f["labels"] or "*" in f["labels"]]
            if len(mine) >= enough or (mine and len(total.failures) >= 12) or len(total.failures) >= 100 or (total.failures and time.monotonic() - t0 > 420):
                pool.terminate()
                break
    return total

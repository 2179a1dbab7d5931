"""Histories and library use under valgrind: uses of uninitialised memory, which the compiler's sanitizers do not see."""
import importlib
import random

import gen as G
import model as M
import profiles
import sim
import vbuild
from hproc import HProc

VALGRIND = ["valgrind", "-q", "--error-exitcode=97", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=20", "--vgdb=no"]


def cases(rng, tier):
    res = []
    deep = tier == "deep"
    for prof in ("mix", "mix_async", "mix_plain", "mix_tls", "restart", "monitor_plain") * (6 if deep else 1):
        res.append({"prof": prof, "steps": 300 if deep else 50, "seed": rng.randrange(1 << 30)})
    for kind in ("tcp", "ws") * (4 if deep else 1):
        res.append({"lib": kind, "rounds": 20 if deep else 4, "seed": rng.randrange(1 << 30)})
    for what in ("monitor", "ends", "mixed") * (8 if deep else 1):
        res.append({"driver": "drv_hostile", "case": {"kit": {"ssl": r2(rng), "log": r2(rng), "valgrind": True}, "what": what, "rounds": 4 if deep else 1, "seed": rng.randrange(1 << 30)}})
    for i in range(16 if deep else 2):
        import drv_endings
        c = dict(rng.choice([x for x in drv_endings.cases(rng, "quick") if x["role"] != "crowd"]))
        c["ends"] = c["ends"][:15 if deep else 4]
        c["kit"] = dict(c["kit"], valgrind=True)
        res.append({"driver": "drv_endings", "case": c})
    return res


def r2(rng):
    return rng.random() < 0.5


def run(res, case):
    if "driver" in case:
        importlib.import_module(case["driver"]).run(res, case["case"])
        res.count("memcheck_operations")
        return
    r = random.Random(case["seed"])
    build = vbuild.ensure("plain")
    if "prof" in case:
        prof = profiles.PROFILES[case["prof"]]
        w = sim.World(build, ssl=prof.get("ssl", False), sync=prof.get("sync", True), prefix=VALGRIND)
        try:
            G.Gen(r, w, prof).run(case["steps"])
            w.op({"op": "stop"})
            w.op({"op": "start"})
            res.count("memcheck_operations", w.ops_done)
            res.count("observed_messages", w.events)
            w.close()
        finally:
            w.close(quiet=True)
    else:
        import drv_libclient
        import drv_libserver
        import fakeproxy
        class Checked(HProc):
            def __init__(self, exe, b, d):
                super().__init__(vbuild.ensure("plain").clientd, build, d, prefix=VALGRIND)
        old = fakeproxy.HProc
        fakeproxy.HProc = Checked
        try:
            drv_libclient.run(res, {"kind": case["lib"], "attempts": case["rounds"], "hooks": True, "seed": case["seed"]})
        finally:
            fakeproxy.HProc = old
        res.count("memcheck_operations")
    res.samples.append({"driver": "memcheck", "case": case})

"""More connections than the server process may have descriptors: the others are served during it, everybody afterwards."""
import os
import random

import drv_hostile
import peers as P
import sim
from realkit import RealKit

KNOWN = "unix-listener-descriptors"


def cases(rng, tier):
    n = 12 if tier == "deep" else 1
    return [{"kind": k, "ssl": s, "seed": rng.randrange(1 << 30)} for _ in range(n) for k in ("tcp", "ws", "unix", "monitor") for s in (False, True)]


def run(res, case):
    r = random.Random(case["seed"])
    k = RealKit(res, ssl=case["ssl"], prefix=["prlimit", "--nofile=80"], start=False)
    # UBSan's vptr check probes memory by means of a pipe, which it cannot open when the descriptors are used up
    sup = os.path.join(k.dir, "suppressions")
    open(sup, "w").write("vptr:*\n")
    k.env = {"UBSAN_OPTIONS": k.build.env()["UBSAN_OPTIONS"] + ":suppressions=" + sup}
    try:
        k.start()
        w = drv_hostile.Watch(k, r, case["ssl"])
        w.exchange()
        kind = case["kind"]
        hostile = []
        refused = None
        for i in range(110):
            try:
                if kind in ("tcp", "ws"):
                    p = drv_hostile.raw(k, kind == "ws")
                else:
                    p = k.peer(kind, wait=False)
            except OSError as e:
                refused = e
                break
            hostile.append(p)
            k.step()
            if i % 10 == 0:
                w.exchange()
        w.exchange()
        res.count("hostile_descriptors", len(hostile))
        for p in hostile:
            p.close()
        k.adv(300)
        w.exchange()
        if kind in ("unix", "monitor"):
            try:
                p = k.peer(kind, wait=False)
                p.close()
            except OSError as e:
                # exactly this listener is gone, see known-findings.jsonl
                res.known.append({"id": KNOWN, "property": "C15", "detail": "the %s listener does not accept connections any more after the descriptors have been used up (%s)" % (kind, refused or e), "driver": "descriptors", "case": case})
        s = k.server("tls" if case["ssl"] else "tcp", 7001)
        for i, x in enumerate(("tls", "wss") if case["ssl"] else ("tcp", "ws")):
            c, a = k.client(x, 7002 + i, s, 7001)
            c.send(b"hi there")
            f = k.frame(s)
            if f != (a, b"hi there"):
                k.fail("not_served", "no tunnel over %s after the descriptors have been used up: %r" % (x, f), {"C15"})
        res.count("fresh_tunnels_used", 2)
        if kind != "unix":
            k.peer("unix", wait=False).close()
        if kind != "monitor":
            k.monitor()
        k.end()
        res.samples.append({"driver": "descriptors", "case": case})
    finally:
        k.kill()

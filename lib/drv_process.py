"""The server executable itself: signals under load (C18) and more connections than descriptors (C15)."""
import os
import random
import signal
import time

import drv_listeners
import peers as P
import sim
from hproc import Crash
from realkit import RealKit

SIGNALS = [signal.SIGTERM, signal.SIGINT, signal.SIGQUIT, signal.SIGHUP]
KNOWN = "unix-listener-descriptors"
BOUND = 40  # seconds, for a sanitized executable on a busy machine


def cases(rng, tier):
    res = []
    n = 2400 if tier == "deep" else 256
    for i in range(n):
        res.append({"what": "signal", "sig": int(SIGNALS[i % 4]), "ssl": i % 8 >= 4, "when": ["load", "load", "startup", "burst", "idle", "flood"][i // 8 % 6], "log": rng.random() < 0.5, "seed": rng.randrange(1 << 30)})
    return res


def flood(k, r, ssl):
    """Keeps the process busy: lots of small requests and payload on their way."""
    from kit import req
    ps = drv_listeners.load(k, ssl, r)
    for _ in range(4):
        p = k.peer("unix")
        p.paused = True
        p.send(req("RemoteProxy.Introspect", {}) * 300)
        ps.append(p)
    return ps


def run(res, case):
    r = random.Random(case["seed"])
    k = RealKit(res, ssl=case["ssl"], start=False)
    try:
        args = ["-l", os.path.join(k.dir, "log", "proxy.log")] if case["log"] else []
        sig = signal.Signals(case["sig"])
        when = case["when"]
        ps = []
        if when == "startup":
            k.start(args, wait=False)
            # the handlers are in place from here on
            pid = k.server_exe.p.pid
            end = time.monotonic() + BOUND
            while True:
                k.server_exe.check()
                if os.path.lexists(k.conf.unix):
                    res.count("signals_at_first_sight")
                    break   # it serves, so it has to obey
                caught = int([l for l in open("/proc/%d/status" % pid) if l.startswith("SigCgt")][0].split()[1], 16)
                if case["seed"] % 2 and all(caught >> (s - 1) & 1 for s in SIGNALS):
                    break
                if time.monotonic() > end:
                    raise sim.Divergence("not_served", "server", "the termination signals are not handled", {"C18"})
                time.sleep(0.0002)
            if r.random() < 0.7:
                time.sleep(r.choice([0, 0, 0.01, 0.05, 0.1, 0.2, 0.4]) * r.random())
        else:
            k.start(args)
            if when in ("load", "burst"):
                ps = drv_listeners.load(k, case["ssl"], r)
            elif when == "flood":
                ps = flood(k, r, case["ssl"])
            if r.random() < 0.5:
                time.sleep(r.random() * 0.02)
        pid = k.server_exe.p.pid
        k.server_exe.check()
        os.kill(pid, sig)
        if when == "burst" or r.random() < 0.3:
            for _ in range(r.choice([1, 5, 40])):
                try:
                    os.kill(pid, r.choice(SIGNALS))
                except ProcessLookupError:
                    break
                if r.random() < 0.5:
                    time.sleep(r.random() * 0.01)
        rc = None
        end = time.monotonic() + BOUND
        while rc is None and time.monotonic() < end:
            rc = k.server_exe.wait(0.01)
            if r.random() < 0.5:
                k.step()
        rep = k.server_exe.report()
        if rep:
            raise Crash(rep.splitlines()[0], rep)
        what = "%s (%s)" % (sig.name, when)
        if rc is None:
            raise sim.Divergence("close_missing", "server", "%s: the process is still running after %d s\n%s" % (what, BOUND, k.server_exe.texts()[0][-1500:]), {"C18"})
        if rc != 0:
            raise sim.Divergence("close_missing", "server", "%s: exit status %d\n%s" % (what, rc, k.server_exe.texts()[0][-1500:]), {"C18"})
        for f in (k.conf.unix, k.conf.monitor):
            if os.path.lexists(f):
                raise sim.Divergence("close_missing", "server", "%s: %s is left behind" % (what, os.path.basename(f)), {"C18"})
        for p in ps:
            p.paused = False
        k.until(lambda: all(p.closed or p.local_closed for p in ps))
        bad = [p.kind for p in ps if not p.closed and not p.local_closed]
        if bad:
            raise sim.Divergence("close_missing", "server", "%s: connections not closed: %s" % (what, bad), {"C18"})
        res.count("signals_" + when)
        res.count("processes_ended")
        res.count("connections_ended_by_signal", len(ps))
        res.samples.append({"driver": "process", "case": case})
    finally:
        k.kill()

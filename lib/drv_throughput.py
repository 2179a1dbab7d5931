"""The throughput shown to monitors: every forwarded payload byte counts once, in its second."""
import json
import random

import model as M
from kit import req, with_kit


def cases(rng, tier):
    return [{"kit": {"ssl": ssl}, "steps": 160 if tier != "deep" else 600, "seed": rng.randrange(1 << 30)} for ssl in (False, True) for _ in range(4 if tier != "deep" else 30)]


class Oracle:
    """All ways to cut the time into seconds which agree with what was shown so far."""
    STEP = 50

    def __init__(self):
        self.cum = [0]
        # (step of the last cut, number shown since)
        self.states = {(-i, 0) for i in range(23)}

    def step(self, total, shown):
        i = len(self.cum)
        self.cum.append(total)
        new = set()
        for last, value in self.states:
            age = (i - last) * self.STEP
            if age < 1100:
                new.add((last, value))
            if 950 <= age <= 1100:
                new.add((i, total - self.cum[max(last, 0)]))
        new = {s for s in new if s[1] == shown}
        if not new:
            return False
        self.states = new
        return True


@with_kit
def run(k, case):
    r = random.Random(case["seed"])
    kinds = ["tls", "wss", "unix"] if case["kit"]["ssl"] else ["tcp", "ws", "unix"]
    servers = []
    no = 0
    k.adv(2500)
    for _ in range(2):
        no += 1
        s = k.server(r.choice([kinds[0], "unix"]), no)
        sn = no
        cl = []
        for _ in range(r.randrange(1, 4)):
            no += 1
            cl.append(k.client(r.choice(kinds), no, s, sn))
        servers.append((s, cl))
    o = Oracle()
    total = 0
    mode = "mixed"
    for i in range(case["steps"]):
        if i % 25 == 0:
            mode = r.choice(["mixed", "idle", "burst", "up", "down", "control"])
        for _ in range({"idle": 0, "burst": 12 if i % 25 == 3 else 0}.get(mode, r.choice([0, 0, 1, 2, 4]))):
            s, cl = r.choice(servers)
            c, a = r.choice(cl)
            n = r.choice([1, 2, 100, 1000, 40000, r.randrange(1, 70000)])
            x = r.randrange(6) if mode in ("mixed", "burst") else {"up": 0, "down": 1, "control": r.randrange(2, 6)}[mode]
            if x == 0:
                c.send(bytes([r.choice([0x41, 0xC0, 0xDB])]) * n if c.kind not in ("ws", "wss") else b"z" * n)
                total += n
            elif x == 1:
                # special bytes are two on the wire and still count once
                s.send(M.frame(a, bytes([r.choice([0x41, 0xC0, 0xDB])]) * n if c.kind not in ("ws", "wss") else b"q" * n))
                total += n
            elif x == 2:
                s.send(M.frame(0, req("TunnelProxy.Ping", {"timestamp": i})))
            elif x == 3:
                s.send(M.frame(0x7777, b"nobody"))
            elif x == 4:
                s.send(b"\xc0")
            else:
                s.send(M.frame(a, b""))
            if r.random() < 0.5:
                k.quiet()
        k.quiet()
        k.h.cmd("A 50 50")
        k.quiet()
        shown = k.monitor()["troughput"]
        k.res.count("throughput_readings")
        if shown:
            k.res.count("throughput_nonzero")
        if not o.step(total, shown):
            k.fail("mon", "throughput %d after %d ms does not fit any second; forwarded before in steps of 50 ms: %s" % (
                shown, 50 * (i + 1), [b - a for a, b in zip(o.cum, o.cum[1:])][-45:]), {"C19"}, "monitor")
        for p in k.peers:
            p.rx.clear()

"""Peers which do not read for a while: everybody else is served meanwhile, and in the end nothing is missing."""
import random

import model as M
import sim
from kit import req, with_kit


def cases(rng, tier):
    res = []
    for ssl, kinds in ((False, ["tcp", "unix", "ws"]), (True, ["tls", "wss"])):
        for k in kinds:
            for i in range(6 if tier == "deep" else 1):
                size = rng.choice([20, 40, 80]) if tier == "deep" else 6
                res.append({"kit": {"ssl": ssl}, "kind": k, "who": "client", "mb": size, "seed": rng.randrange(1 << 30)})
                if k not in ("ws", "wss"):
                    res.append({"kit": {"ssl": ssl}, "kind": k, "who": "server", "mb": size, "seed": rng.randrange(1 << 30)})
    return res


def chunk(r, text):
    n = r.choice([1, 10, 1000, 16384, 40000, 65536, 100000])
    if text:
        unit = "".join(r.choice("ab\n{}\u00e4\u20ac\U0001F600") for _ in range(50)).encode()
    else:
        unit = r.randbytes(97) + bytes([0xC0, 0xDB, 0xDC, 0xDD])
    return (unit * (n // len(unit) + 1))[:n] if not text else unit * (n // len(unit) + 1)


@with_kit
def run(k, case):
    r = random.Random(case["seed"])
    kind, total = case["kind"], case["mb"] << 20
    text = kind in ("ws", "wss")
    small = {"rcvbuf": 8192} if kind != "unix" else {}
    if case["who"] == "client":
        s = k.server("unix", 1)
        a, aa = k.client(kind, 2, s, 1, **small)
        b, ba = k.client(r.choice([kind, "unix"]), 3, s, 1)
        t = k.server("unix", 4)
        c, ca = k.client(r.choice([kind, "unix"]), 5, t, 4)
        a.paused = True
        want, n = bytearray(), 0
        while len(want) < total:
            d = chunk(r, text)
            want += d
            s.send(M.frame(aa, d))
            if r.random() < 0.3:
                n += 1
                m = b"b%d" % n
                s.send(M.frame(ba, m))
                k.until(lambda: len(b.rx) >= len(m))
                if bytes(b.rx) != m:
                    k.fail("payload_s2c", "while another client does not read: %r instead of %r" % (bytes(b.rx)[:60], m), {"C02", "C01"})
                b.rx.clear()
                c.send(m)
                if k.frame(t) != (ca, m):
                    k.fail("payload_c2s", "while a client of another server does not read", {"C02", "C01"})
                if a.message_based or r.random() < 0.5:
                    a.send(b"up" + m)
                    if k.frame(s) != (aa, b"up" + m):
                        k.fail("payload_c2s", "from the client which does not read", {"C01"})
            elif r.random() < 0.2:
                k.quiet()
        k.quiet()
        k.res.count("backlog_bytes", len(want) - len(a.rx))
        a.paused = False
        k.until(lambda: len(a.rx) >= len(want) or a.closed)
        k.quiet()
        if a.rx != want:
            i = next((i for i, (x, y) in enumerate(zip(a.rx, want)) if x != y), min(len(want), len(a.rx)))
            k.fail("payload_s2c", "a client which did not read for a while got %d bytes instead of %d, different from %d on%s" % (len(a.rx), len(want), i, ", closed" if a.closed else ""), {"C01"})
        k.res.count("s2c_bytes", len(want))
    else:
        s = k.server(kind, 1, **small)
        cl = [k.client(x, 2 + i, s, 1) for i, x in enumerate(["tcp" if not case["kit"]["ssl"] else "tls", "unix", "unix"])]
        t = k.server("unix", 9)
        o, oa = k.client("unix", 10, t, 9)
        s.paused = True
        want = {a: bytearray() for _, a in cl}
        n = 0
        while sum(map(len, want.values())) < total:
            c, a = r.choice(cl)
            d = chunk(r, False)
            want[a] += d
            c.send(d)
            if r.random() < 0.3:
                n += 1
                m = b"o%d" % n
                o.send(m)
                if k.frame(t) != (oa, m):
                    k.fail("payload_c2s", "while another server does not read", {"C02", "C01"})
                t.send(M.frame(oa, m))
                k.until(lambda: len(o.rx) >= len(m))
                if bytes(o.rx) != m:
                    k.fail("payload_s2c", "while another server does not read: %r" % bytes(o.rx)[:60], {"C02", "C01"})
                o.rx.clear()
                # and downwards to a client of that server
                c, a = r.choice(cl)
                s.send(M.frame(a, m))
                k.until(lambda: len(c.rx) >= len(m))
                if bytes(c.rx) != m:
                    k.fail("payload_s2c", "from the server which does not read: %r" % bytes(c.rx)[:60], {"C01"})
                c.rx.clear()
            elif r.random() < 0.3:
                k.quiet()
        gone = None
        if r.random() < 0.5:
            gone = r.choice(cl)
            k.until(lambda: not gone[0].out)
            k.quiet()
            gone[0].close("fin")
        k.quiet()
        s.paused = False
        # the backlog has one order: all data of a client before the note of its end
        done = lambda: not any(want.values())
        while not done():
            f = k.frame(s)
            if f is None:
                k.fail("payload_c2s", "%d bytes for a server which did not read for a while are missing" % sum(map(len, want.values())), {"C01"})
            if f[0] not in want:
                k.fail("stray", "frame for %#x: %s" % (f[0], sim.clip(repr(f[1]))), {"C02", "C05"})
            w = want[f[0]]
            if not w.startswith(f[1]):
                k.fail("payload_c2s", "wrong payload on address %#x" % f[0], {"C01"})
            k.res.count("c2s_bytes", len(f[1]))
            del w[:len(f[1])]
        if gone:
            k.gone(s, gone[1], ("C05", "C06"))
        k.quiet()
        if s.rx:
            k.fail("stray", "surplus %s" % sim.clip(repr(bytes(s.rx))), {"C01", "C02"})
    k.works(kind, ("C01", "C02"))

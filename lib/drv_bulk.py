"""Much data at once: single huge frames and messages, huge backlogs, and data still under way when the tunnel is ended."""
import json
import random

import model as M
import sim
from kit import reg_client, req, uuid, with_kit


def cases(rng, tier):
    res = []
    deep = tier == "deep"
    for ssl, kinds in ((False, ["tcp", "unix", "ws"]), (True, ["tls", "wss"])):
        for k in kinds:
            text = k in ("ws", "wss")
            for i in range(4 if deep else 1):
                res.append({"kit": {"ssl": ssl}, "what": "single", "kind": k, "sizes": sorted(rng.choice([65533, 65536, 70000, 131072, 300000, 524289, 1048577, 2500000]) for _ in range(4)) + [6 << 20] * deep, "seed": rng.randrange(1 << 30)})
                for how in ("kick", "left", "left_rst"):
                    res.append({"kit": {"ssl": ssl}, "what": "ending", "kind": k, "how": how, "mb": rng.choice([1, 3, 9]) if deep else 5, "seed": rng.randrange(1 << 30)})
            if k in ("tcp", "unix") or deep:
                res.append({"kit": {"ssl": ssl}, "what": "backlog", "kind": k, "mb": 96 if deep else 24, "seed": rng.randrange(1 << 30)})
    res.append({"kit": {}, "what": "alias", "clients": 300 if deep else 12, "seed": rng.randrange(1 << 30)})
    if tier in ("alias", "ending", "kick"):
        res = [c for c in res if tier in (c["what"], c.get("how"))]
    return res


def payload(r, n, text):
    if text:
        unit = "".join(r.choice("abc\n{}\"\u00e4\u20ac\U0001F600") for _ in range(61)).encode()
        return unit * (n // len(unit) + 1)
    unit = r.randbytes(251) + bytes([0xC0, 0xDB, 0xDC, 0xDD, 0x0A, 0x00])
    return (unit * (n // len(unit) + 1))[:n]


def compare(k, what, got, want, kind, labels=("C01",)):
    if bytes(got) != bytes(want):
        i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(want), len(got)))
        k.fail(kind, "%s: %d bytes instead of %d, different from %d on" % (what, len(got), len(want), i), set(labels))


def frames(k, s, addr, want, what):
    """The payloads of the next frames on s are want."""
    got = bytearray()
    while len(got) < len(want):
        f = k.frame(s)
        if f is None or f[0] != addr:
            k.fail("payload_c2s", "%s: %d of %d bytes, then %s" % (what, len(got), len(want), sim.clip(repr(f))), {"C01"})
        got += f[1]
    compare(k, what, got, want, "payload_c2s")
    k.res.count("c2s_bytes", len(want))


@with_kit
def run(k, case):
    r = random.Random(case["seed"])
    {"single": single, "ending": ending, "backlog": backlog, "alias": alias}[case["what"]](k, case, r)


def single(k, case, r):
    kind = case["kind"]
    text = kind in ("ws", "wss")
    s = k.server("unix" if text else kind, 1)
    c, a = k.client(kind, 2, s, 1)
    o, oa = k.client("unix", 3, s, 1)
    for n in case["sizes"]:
        d = payload(r, n, text)
        s.send(M.frame(a, d))
        k.until(lambda: len(c.rx) >= len(d) or c.closed)
        compare(k, "one frame of %d bytes" % n, c.rx, d, "payload_s2c", ("C01", "C12"))
        k.res.count("s2c_bytes", len(d))
        c.rx.clear()
        d = payload(r, n, text)
        c.send(d)
        frames(k, s, a, d, "%d bytes sent at once" % n)
    o.send(b"end")
    if k.frame(s) != (oa, b"end"):
        k.fail("payload_c2s", "after huge frames", {"C01", "C12"})


def pile(k, r, s, addr, total, text, res):
    while len(res) < total:
        d = payload(r, r.choice([1000, 20000, 65536, 100000]), text)
        res += d
        s.send(M.frame(addr, d))
        if r.random() < 0.1:
            k.quiet()
    k.quiet()


def ending(k, case, r):
    """What was sent before the tunnel is ended still arrives, if the client reads it in time."""
    kind, how = case["kind"], case["how"]
    text = kind in ("ws", "wss")
    s = k.server("unix", 1)
    c, a = k.client(kind, 2, s, 1, **({"rcvbuf": 8192} if kind != "unix" else {}))
    o, oa = k.client("unix", 3, s, 1)
    c.paused = True
    want = bytearray()
    pile(k, r, s, a, case["mb"] << 20, text, want)
    k.res.count("backlog_bytes", len(want) - len(c.rx))
    if how == "kick":
        s.send(M.frame(0, req("TunnelProxy.DisconnectClient", {"socketAddress": a}, 5)))
        f = k.frame(s)
        if f is None or f[0] != 0 or json.loads(f[1]).get("id") != 5:
            k.fail("resp_missing", "answer to the disconnect request: %s" % sim.clip(repr(f)), {"C07", "C10"})
        # the UUID belongs to one connection at a time, may the old one still be there or not
        p = k.peer(r.choice(["unix", kind]))
        p.send(reg_client(2, 1, id=6))
        m = k.line(p)
        err = (m or {}).get("params", {}).get("tunnelProxyError")
        if err not in ("TunnelProxyErrorNoError", "TunnelProxyErrorAlreadyRegistered"):
            k.fail("resp_value", "registration with the UUID of a client being disconnected: %r" % (m,), {"C04", "C09"})
        again = err == "TunnelProxyErrorNoError"
        k.res.count("uuid_probes")
    else:
        k.until(lambda: not s.out)
        s.close("fin" if how == "left" else "rst")
        again = False
    k.quiet()
    c.paused = False
    k.until(lambda: c.closed)
    if not c.closed:
        k.fail("close_missing", "the client is still connected", {"C06", "C10"})
    compare(k, "data sent before the end of the tunnel (%s)" % how, c.rx, want, "payload_s2c", ("C01", "C06"))
    k.res.count("s2c_bytes", len(want))
    if how == "kick":
        seen = set()
        na = None
        while True:
            f = k.frame(s)
            if f is None:
                break
            m = json.loads(f[1]) if f[0] == 0 else {}
            x = (m.get("notification"), m.get("params", {}).get("socketAddress"))
            if x in seen:
                k.fail("notif_surplus", "%r twice" % (x,), {"C05"})
            seen.add(x)
            if x[0] == "TunnelProxy.ClientConnected":
                na = x[1]
        want = {("TunnelProxy.ClientDisconnected", a)} | ({("TunnelProxy.ClientConnected", na)} if again else set())
        if seen != want:
            k.fail("notif_missing", "got %r instead of %r" % (sorted(seen), sorted(want)), {"C05", "C04"})
        if again:
            # it is the one holder now
            p.send(b"mine")
            if k.frame(s) != (na, b"mine"):
                k.fail("payload_c2s", "from a client which took over the UUID", {"C04", "C06"})
            q = k.peer("unix")
            q.send(reg_client(2, 1, id=6))
            m = k.line(q)
            if (m or {}).get("params", {}).get("tunnelProxyError") != "TunnelProxyErrorAlreadyRegistered":
                k.fail("resp_value", "the UUID has a holder: %r" % (m,), {"C04"})
        else:
            k.until(lambda: p.closed)
            p, na = k.client("unix", 2, s, 1)
        o.send(b"still here")
        if k.frame(s) != (oa, b"still here"):
            k.fail("payload_c2s", "the other client of the server is cut off", {"C06", "C02"})
    else:
        k.until(lambda: o.closed)
        if not o.closed:
            k.fail("close_missing", "a client of the lost server is still connected", {"C06"})
        s = k.server("unix", 1)
        k.client("unix", 2, s, 1)
    k.works("unix", ("C06",))


def backlog(k, case, r):
    """Nothing is dropped, however much piles up for a reader which is slow."""
    kind = case["kind"]
    text = kind in ("ws", "wss")
    s = k.server("unix" if text else kind, 1, **({"rcvbuf": 8192} if kind != "unix" and not text else {}))
    c, a = k.client(kind, 2, s, 1, **({"rcvbuf": 8192} if kind != "unix" else {}))
    big = payload(r, 500000, text)
    n = (case["mb"] << 20) // len(big)
    c.paused = True
    for i in range(n):
        s.send(M.frame(a, b"%08d" % i + big))
        k.quiet()
    c.paused = False
    for i in range(n):
        k.until(lambda: len(c.rx) >= len(big) + 8 or c.closed)
        compare(k, "frame %d of the backlog of a client" % i, c.rx[:len(big) + 8], b"%08d" % i + big, "payload_s2c")
        del c.rx[:len(big) + 8]
    k.res.count("s2c_bytes", n * len(big))
    if not text:
        s.paused = True
        for i in range(n):
            c.send(b"%08d" % i + big)
            k.quiet()
        s.paused = False
        for i in range(n):
            frames(k, s, a, b"%08d" % i + big, "message %d of the backlog of a server" % i)


def alias(k, case, r):
    """Frames for addresses which merely resemble those of clients reach nobody."""
    s = k.server(r.choice(["tcp", "unix"]), 1)
    t = k.server("unix", 2)
    cl = [k.client(r.choice(["tcp", "unix", "ws"]), 10 + i, s, 1) for i in range(case["clients"])]
    live = {a for _, a in cl}
    o, oa = k.client("unix", 3, t, 2)
    for n, (c, a) in enumerate(cl):
        others = {a ^ (1 << b) for b in range(16)} | {(a << 8 | a >> 8) & 0xFFFF, a ^ 0xFFFF, -a & 0xFFFF, a | 0xFF00, 0xFFFF, 0xFFFE, 0x8000} - {0}
        others = sorted(others - live - {0})
        r.shuffle(others)
        for x in others:
            s.send(M.frame(x, b"not for anyone %04x" % x))
            k.res.count("frames_unassigned")
        s.send(M.frame(a, b"for %d" % n))
        s.send(M.frame(0, req("TunnelProxy.Ping", {"timestamp": n}, n)))
        f = k.frame(s)
        if f is None or f[0] != 0 or json.loads(f[1]).get("params") != {"timestamp": n}:
            k.fail("resp_missing", "answer to a ping after frames for unassigned addresses: %s" % sim.clip(repr(f)), {"C02", "C07"})
        k.until(lambda: len(c.rx) >= len(b"for %d" % n))
        k.quiet()
        for i, (d, b) in enumerate(cl):
            w = b"for %d" % n if i == n else b""
            if bytes(d.rx) != w:
                k.fail("stray", "client %#06x got %s instead of %r after frames for addresses near %#06x" % (b, sim.clip(repr(bytes(d.rx))), w, a), {"C02", "C01"})
            d.rx.clear()
        if o.rx:
            k.fail("stray", "client of another server got %s" % sim.clip(repr(bytes(o.rx))), {"C02"})

"""Cycles of connecting, registering, transferring and ending: nothing may stay behind."""
import json
import random
import socket

import gen as G
import model as M
import peers as P
import profiles
import sim
import vbuild

SETS = {
    "fake": (["fake"], False), "tcp": (["tcp"], False), "unix": (["unix"], False), "ws": (["ws", "unix"], False), "tls": (["tls"], True), "wss": (["wss", "unix"], True),
}


def cases(rng, tier):
    res = []
    n = 24 if tier == "deep" else 10
    for k in SETS:
        res.append({"kind": k, "cycles": n, "steps": 40, "seed": rng.randrange(1 << 30), "what": "traffic"})
    for k in ("tcp", "ws", "unix", "tls", "wss"):
        res.append({"kind": k, "cycles": n, "seed": rng.randrange(1 << 30), "what": "odd"})
        res.append({"kind": k, "cycles": n, "seed": rng.randrange(1 << 30), "what": "fixed"})
    res.append({"kind": "monitor", "cycles": n, "seed": rng.randrange(1 << 30), "what": "odd"})
    return res


def odd(w, r, kind):
    """Connections that never get far."""
    c = w.conf
    for _ in range(12):
        try:
            if kind == "monitor":
                p = P.UnixPeer(c.monitor)
            elif kind == "unix":
                p = P.UnixPeer(c.unix)
            else:
                p = P.TcpPeer(c.host, c.ws_port if kind in ("ws", "wss") else c.tcp_port)
        except OSError:
            raise sim.Divergence("not_served", kind, "no connection", {"C15"})
        x = r.random()
        if x < 0.15:
            pass
        elif x < 0.3:
            p.send(b"GET / HTTP/1.1\r\nHost: x\r\n")
        elif x < 0.4:
            p.send(b"GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n" + b"\x81\xfe")
        elif x < 0.6:
            p.send(bytes(r.randrange(256) for _ in range(r.choice([1, 5, 50, 500]))))
        elif x < 0.7:
            p.send(b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03" + bytes(40))
        elif x < 0.85:
            p.send(b'{"method":"refresh","params":{"printAll":true}}\n' if kind == "monitor" else b'{"id":1,"method":"RemoteProxy.Hello"}\n')
        else:
            p.send(b'{"id":1,"method":"No.Such"}\n')
        for _ in range(r.randrange(0, 4)):
            w.h.cmd("P")
            p.poll()
        p.close(r.choice(["fin", "rst", "fin", "half"]))
        for _ in range(3):
            w.h.cmd("P")
        p.dispose()
        w.ops_done += 1
        w.events += 1


def run(res, case):
    kinds, ssl = SETS.get(case["kind"], (["unix"], False))
    w = sim.World(vbuild.ensure("asan"), ssl=ssl, fakes=2 if case["kind"] == "fake" else 0)
    stats = []
    try:
        if w.nfakes == 0:
            w.api = w.model.api = model_api()
        prof = dict(profiles.PROFILES["churn"], kinds=kinds, max_conns=16, big=0.01)
        g = None
        seed = case["seed"]
        for i in range(case["cycles"]):
            if case["what"] == "odd":
                r = random.Random(seed)
                odd(w, r, case["kind"])
            else:
                # the same connections again and again, or different ones
                r = random.Random(seed if case["what"] == "fixed" else seed + i)
                w.model.conns.clear()
                w.peers.clear()
                w.obs.clear()
                w.fakes.clear()
                w.model.flags.clear()
                g = G.Gen(r, w, dict(prof, kinds=kinds))
                g.uuid = 1000000 + 1000 * i + seed % 1000  # other UUIDs each time
                g.run(case.get("steps", 25))
                for c in sorted(w.model.conns.values(), key=lambda c: r.random()):
                    p = w.peers[c.id]
                    if p.local_closed and p.s is None if hasattr(p, "s") else p.local_closed:
                        continue
                    if not c.ended and not p.local_closed:
                        w.op({"op": "close", "c": c.id, "how": r.choice(["fin", "rst", "half"])})
                for p in w.peers.values():
                    p.dispose()
            w.h.cmd("P 20")
            w.h.cmd("A 12000 500")
            w.h.cmd("P 20")
            s = json.loads(w.h.ask("S", "stats"))
            mon = json.loads(w.h.ask("mon 1", "mon"))["tunnelProxyStatistic"]
            left = {k: v for k, v in mon.items() if k.endswith("Count") and v} or {k: v for k, v in mon["transports"].items() if v} or mon["tunnelConnections"]
            if left:
                raise sim.Divergence("leak", case["kind"], "after all connections have ended the monitor data still shows %s" % json.dumps(left)[:400], {"C16", "C19", "C05"})
            stats.append(s)
            res.count("cycles")
        base, last = stats[1], stats[-1]
        if case["kind"] == "wss" and case["what"] == "odd":
            # Qt's QWebSocketServer never deletes the socket of a connection whose TLS handshake did not succeed
            lost = {c: last["classes"].get(c, 0) - base["classes"].get(c, 0) for c in ("QSslSocket", "QTcpSocket", "QTimer")}
            if 0 < lost["QSslSocket"] <= 12 * (len(stats) - 2) and lost["QTcpSocket"] == lost["QTimer"] == lost["QSslSocket"]:
                res.known.append({"id": "wss-handshake-leak", "property": "C16", "detail": "%d connections without TLS handshake left %s" % (12 * (len(stats) - 2), lost), "driver": "cycles", "case": case})
                last["objects"] -= sum(lost.values())
        # objects which Qt creates once and late do not count
        if last["objects"] > base["objects"] + 2 or last["fds"] > base["fds"]:
            raise sim.Divergence("leak", case["kind"], "from cycle 2 to %d: objects %d -> %d, descriptors %d -> %d; %s" % (
                len(stats), base["objects"], last["objects"], base["fds"], last["fds"],
                {c: (base["classes"].get(c, 0), v) for c, v in last["classes"].items() if v > base["classes"].get(c, 0)}), {"C16"})
        heap = [s["heap"] for s in stats]
        res.samples.append({"case": case, "heap_per_cycle": heap, "objects": [s["objects"] for s in stats][:4]})
        half = len(heap) // 2
        grows = [b - a for a, b in zip(heap[half - 1:], heap[half:])]
        if not res.known and all(x > 0 for x in grows) and heap[-1] - heap[half - 1] > 200 * len(grows):
            raise sim.Divergence("leak", case["kind"], "the heap grows with every cycle: %s" % heap, {"C16"})
        res.count("observed_messages", w.events)
        res.count("operations", w.ops_done)
        w.h.quit()
    finally:
        w.close(quiet=True)


def model_api():
    """The API as the documentation describes it, enough for the generator."""
    w = sim.World(vbuild.ensure("asan"))
    try:
        return w.api
    finally:
        w.close(quiet=True)

"""Every way a connection can end, for every role on every transport: the others learn of it once and nothing is left."""
import json
import random
import struct

import model as M
import sim
from kit import reg_client, req, uuid, with_kit

ALL = ["fin", "rst", "half", "data_fin", "data_rst", "request_fin", "backlog_fin", "backlog_rst", "backlog_half"]
TLS = ["close_notify", "raw_junk"]
WS = ["binary", "binary_frags", "close_frame", "close_empty", "close_silent", "reserved_opcode", "rsv_bits", "long_control", "fragmented_control", "not_utf8", "data_binary", "close_data"]
BIG = b"x" * 50000


def cases(rng, tier):
    res = []
    for ssl, kinds in ((False, ["tcp", "unix", "ws"]), (True, ["tls", "wss"])):
        for k in kinds:
            ends = ALL + (TLS if ssl else []) + (WS if k in ("ws", "wss") else [])
            roles = ["client", "fresh"] + (["server"] if k not in ("ws", "wss") else [])
            for role in roles:
                for i in range(4 if tier == "deep" else 1):
                    e = list(ends)
                    rng.shuffle(e)
                    res.append({"kit": {"ssl": ssl}, "kind": k, "role": role, "ends": e, "seed": rng.randrange(1 << 30)})
            if k not in ("ws", "wss"):
                for i in range(6 if tier == "deep" else 2):
                    res.append({"kit": {"ssl": ssl}, "kind": k, "role": "crowd", "n": rng.choice([70, 140, 300]), "ends": rng.sample(["fin", "rst", "half", "data_fin", "data_rst"], 2), "seed": rng.randrange(1 << 30)})
    return res


def crowd(k, case, how, no, r):
    """A server with lots of clients ends; nothing else does."""
    kind = case["kind"]
    kinds = ["unix", "tls", "wss"] if case["kit"]["ssl"] else ["unix", "tcp", "ws"]
    base = 100000 * no
    s, t = k.server(kind, base), k.server("unix", base + 1)
    cs, others = [], []
    for i in range(case["n"]):
        c = k.client(r.choice(kinds), base + 10 + i, s, base)
        cs.append(c + (base + 10 + i,))
        if i % 10 == 0:
            others.append(k.client(r.choice(kinds), base + 90000 + i, t, base + 1))
    if len({a for _, a, _ in cs}) != len(cs):
        k.fail("addr_dup", "addresses of %d clients: %s" % (len(cs), sorted(a for _, a, _ in cs)), {"C03"})
    for c, a, n in r.sample(cs, 20):
        c.send(b"first %d" % n)
        if k.frame(s) != (a, b"first %d" % n):
            k.fail("payload_c2s", "data of one of many clients", {"C01", "C02"})
        s.send(M.frame(a, b"back"))
        k.until(lambda: len(c.rx) >= 4)
        if bytes(c.rx) != b"back":
            k.fail("payload_s2c", "one of many clients got %r" % bytes(c.rx), {"C01", "C02"})
    end(k, s, how, r)
    k.until(lambda: all(c.closed for c, _, _ in cs), 30)
    bad = [c.kind for c, _, _ in cs if not c.closed]
    if bad:
        k.fail("close_missing", "%d of %d clients of a server ended by %s are still connected" % (len(bad), len(cs), how), {"C06"})
    total(k, 1 + len(others), how)
    # refused until the server is back, then everybody may come again
    c, _, n = r.choice(cs)
    p = k.peer("unix")
    p.send(reg_client(n, base))
    m = k.line(p)
    if m is None or m["params"].get("tunnelProxyError") != "TunnelProxyErrorServerNotFound":
        k.fail("resp_value", "a client of a lost server is answered with %s" % m, {"C06"})
    s = k.server(kind, base)
    for c, _, n in r.sample(cs, 20):
        p, a = k.client("unix", n, s, base)
        p.send(b"again")
        if k.frame(s) != (a, b"again"):
            k.fail("payload_c2s", "data of a client which came again", {"C01", "C06"})
    for c, a in others:
        c.send(b"still here")
        if k.frame(t) != (a, b"still here"):
            k.fail("payload_c2s", "a client of another server is cut off", {"C06", "C02"})
    # the whole crowd leaves, one notification for each
    for c, a in others:
        c.close(r.choice(["fin", "rst"]))
    gone = []
    while len(gone) < len(others):
        f = k.frame(t)
        try:
            gone.append(json.loads(f[1])["params"]["socketAddress"])
        except (TypeError, ValueError, KeyError):
            k.fail("notif_missing", "%d of %d disconnect notifications, then %s" % (len(gone), len(others), sim.clip(repr(f))), {"C05"})
    if sorted(gone) != sorted(a for _, a in others):
        k.fail("notif_extra", "disconnect notifications %s for %s" % (gone, sorted(a for _, a in others)), {"C05"})
    for x in k.peers:
        x.close("fin")
    k.quiet()
    total(k, 0, how)
    k.res.count("crowds_ended")
    k.res.count("endings")
    k.res.count("ended_client", len(cs))
    for p in k.peers:
        p.dispose()
    k.peers.clear()


def wire(p, op, payload, fin=True, first=0):
    f = bytearray(p.frame(op, payload, fin))
    f[0] |= first
    p.wire_send(bytes(f))


def end(k, p, how, r):
    """Ends the connection of p; returns the payload it sent before as far as it has to be delivered."""
    sent = b""
    if how.startswith("data_") or how == "close_data":
        sent = b"last words %d" % r.randrange(1000)
        p.send(sent)
    if how in ("fin", "rst", "half"):
        p.close(how)
    elif how == "data_fin":
        k.until(lambda: not p.out)
        p.close("fin")
    elif how == "data_rst":
        k.quiet()
        p.close("rst")
    elif how == "request_fin":
        for i in range(20):
            p.send(req("RemoteProxy.Introspect", {}, i))
        p.close("fin")
        return None
    elif how.startswith("backlog_"):
        p.close(how[8:])
    elif how == "close_notify":
        try:
            p.tls.unwrap()
        except Exception:   # wants to read the answer
            pass
        p._tls_flush()
    elif how == "raw_junk":
        p.raw_send(b"this is no TLS record at all, not even remotely" * 3)
    elif how in ("binary", "data_binary"):
        wire(p, 2, b"\x00\x01binary")
    elif how == "binary_frags":
        wire(p, 2, b"bin", False)
        wire(p, 0, b"ary", True)
    elif how in ("close_frame", "close_data"):
        wire(p, 8, struct.pack(">H", 1000) + b"bye")
    elif how == "close_empty":
        wire(p, 8, b"")
    elif how == "close_silent":
        wire(p, 8, struct.pack(">H", 1001))
        p.close("half")
    elif how == "reserved_opcode":
        wire(p, 3, b"x")
    elif how == "rsv_bits":
        wire(p, 1, b"x", True, 0x40)
    elif how == "long_control":
        wire(p, 9, b"p" * 200)
    elif how == "fragmented_control":
        wire(p, 9, b"p", False)
    elif how == "not_utf8":
        wire(p, 1, b"a\xff\xfeb")
    else:
        raise AssertionError(how)
    return sent


def total(k, n, how, labels=("C16", "C06", "C19")):
    def ok():
        return k.monitor()["totalClientCount"] == n
    k.quiet()
    if not ok():
        # a WebSocket closing handshake may take a while
        k.adv(6000, 200)
    if not ok():
        k.fail("close_missing", "%d connections instead of %d after an end by %s" % (k.monitor()["totalClientCount"], n, how), set(labels))


def one(k, case, how, n, r):
    kind, role = case["kind"], case["role"]
    su, cu, ou = 10 * n + 1, 10 * n + 2, 10 * n + 3
    if role == "fresh":
        p = k.peer(kind)
        if how.startswith("backlog"):
            p.paused = True
            for i in range(900 if not hasattr(p, "ws_open") else 400):
                p.send(req("RemoteProxy.Introspect", {}, i))
                if i % 50 == 0:
                    k.quiet()
        elif r.random() < 0.5:
            p.send(req("RemoteProxy.Hello", {}))
            k.line(p)
        end(k, p, how, r)
        total(k, 0, how)
    elif role == "client":
        s = k.server("unix", su)
        o, oa = k.client(r.choice(["unix", kind]), ou, s, su)
        c, a = k.client(kind, cu, s, su)
        if r.random() < 0.5:
            c.send(b"first")
            if k.frame(s) != (a, b"first"):
                k.fail("payload_c2s", "first data did not arrive", {"C01"})
        if how.startswith("backlog"):
            c.paused = True
            for _ in range(120):
                s.send(M.frame(a, BIG))
                k.quiet()
        sent = end(k, c, how, r)
        k.quiet()
        k.until(lambda: b"ClientDisconnected" in s.rx, 20)
        total(k, 2, how, ("C16", "C06", "C19") if b"ClientDisconnected" in s.rx else ("C05", "C06", "C16", "C19"))
        if sent is None:
            # its bytes are tunnel payload
            got = b""
            want = b"".join(req("RemoteProxy.Introspect", {}, i) for i in range(20))
            while len(got) < len(want):
                f = k.frame(s)
                if f is None or f[0] != a:
                    k.fail("payload_c2s", "%d of %d bytes sent before the end arrived, then %s" % (len(got), len(want), sim.clip(repr(f))), {"C01", "C05"})
                got += f[1]
            if got != want:
                k.fail("payload_c2s", "other bytes than the sent ones arrived", {"C01"})
        elif sent:
            f = k.frame(s)
            if f != (a, sent):
                k.fail("payload_c2s", "data sent before an end by %s: %r" % (how, f), {"C01", "C05"})
        k.gone(s, a, ("C05", "C06"))
        k.quiet()
        if s.rx:
            k.fail("notif_extra", "after the disconnect notification (%s): %s" % (how, sim.clip(repr(bytes(s.rx)))), {"C05", "C02"})
        # the address belongs to nobody now
        s.send(M.frame(a, b"anybody there"))
        o.send(b"other")
        if k.frame(s) != (oa, b"other"):
            k.fail("payload_c2s", "the other client of the server is cut off after an end by %s" % how, {"C06", "C02"})
        s.send(M.frame(oa, b"to other"))
        k.until(lambda: len(o.rx) >= 8)
        if bytes(o.rx) != b"to other":
            k.fail("payload_s2c", "the other client got %r" % bytes(o.rx), {"C06", "C02"})
        d, da = k.client("unix", cu, s, su)
        if da in (oa, 0, 0xFFFF):
            k.fail("addr_dup", "address %#x" % da, {"C03"})
        for x in (d, o, s):
            x.close("fin")
        k.quiet()
        total(k, 0, how)
    else:
        s = k.server(kind, su)
        t = k.server("unix", su + 5)
        o, oa = k.client("unix", ou, t, su + 5)
        cs = [k.client(r.choice(["unix", kind]), cu + 10000 * i, s, su) for i in range(r.randrange(0, 4))]
        if how.startswith("backlog"):
            s.paused = True
            if cs:
                for _ in range(120):
                    cs[0][0].send(BIG)
                    k.quiet()
            else:
                for i in range(900):
                    s.send(M.frame(0, req("RemoteProxy.Introspect", {}, i)))
                    if i % 50 == 0:
                        k.quiet()
        sent = end(k, s, how if how != "request_fin" else "fin", r)
        del sent
        total(k, 2, how)
        k.until(lambda: all(c.closed for c, _ in cs))
        if not all(c.closed for c, _ in cs):
            k.fail("close_missing", "a client of a server ended by %s is still connected" % how, {"C06"})
        o.send(b"other")
        if k.frame(t) != (oa, b"other"):
            k.fail("payload_c2s", "another tunnel is cut off after the end of a server by %s" % how, {"C06", "C02"})
        s2 = k.server("unix", su)
        for x in [s2, o, t] + [c for c, _ in cs]:
            x.close("fin")
        k.quiet()
        total(k, 0, how)
    k.res.count("endings")
    k.res.count("ended_client")
    for p in k.peers:
        p.dispose()
    k.peers.clear()


@with_kit
def run(k, case):
    r = random.Random(case["seed"])
    base = None
    n = 1
    for rnd in range(3 if case["role"] == "fresh" else 2):
        for how in case["ends"]:
            (crowd if case["role"] == "crowd" else one)(k, case, how, n, r)
            n += 1
        k.quiet()
        k.adv(9000, 500)
        now = k.stats()
        m = k.monitor()
        left = {x: v for x, v in m.items() if x.endswith("Count") and v}
        if left or m["tunnelConnections"]:
            k.fail("leak", "the monitor still shows %s %s" % (left, json.dumps(m["tunnelConnections"])[:300]), {"C16", "C19"})
        if base and (now["fds"] > base["fds"] or now["objects"] > base["objects"] + 2):
            k.fail("leak", "%s %s: objects %d -> %d, descriptors %d -> %d; %s" % (case["kind"], case["role"], base["objects"], now["objects"], base["fds"], now["fds"],
                   {c: (base["classes"].get(c, 0), v) for c, v in now["classes"].items() if v > base["classes"].get(c, 0)}), {"C16"})
        base = now

"""Peers that do not read: what the proxy wants to close has to end all the same."""
import json

import model as M
import sim
from kit import reg_client, reg_server, req, uuid, with_kit

KINDS = {False: ["tcp", "unix", "ws"], True: ["tls", "wss"]}


def cases(rng, tier):
    res = []
    for ssl in (False, True):
        for k in KINDS[ssl]:
            for what in ("unregistered", "kicked", "server_closes", "badrequest"):
                res.append({"kit": {"ssl": ssl}, "kind": k, "what": what})
            if k in ("tcp", "unix", "tls"):
                res.append({"kit": {"ssl": ssl}, "kind": k, "what": "silent_server"})
    return res


def other(k):
    return "unix"


def counts(k, total, what, limit=12000):
    """The connection is over within a bounded time."""
    t = 0
    while k.monitor()["totalClientCount"] != total:
        if t >= limit:
            k.fail("close_missing", "%s: %d connections instead of %d after %d ms" % (what, k.monitor()["totalClientCount"], total, t), {"C13", "C16", "C06"})
        k.adv(500, 100)
        t += 500
    k.res.count("stuck_ended")
    return t


@with_kit
def run(k, case):
    kind, what = case["kind"], case["what"]
    big = b"x" * 60000
    kw = {"rcvbuf": 4096} if kind != "unix" else {}
    k.works(kind)
    k.adv(8000)
    base = k.stats()
    if what in ("unregistered", "badrequest"):
        p = k.peer(kind, **kw)
        p.paused = True
        # answers pile up: introspection is the largest one
        for i in range(4000 if kind != "ws" else 3000):
            p.send(req("RemoteProxy.Introspect", {}, i))
            p._flush()
            if i % 100 == 0:
                k.h.cmd("P")
        if what == "badrequest":
            for _ in range(200):
                k.h.cmd("P")
                p._flush()
            p.send(req("No.Such", {}))
            p._flush()
            k.quiet()
        k.adv(8000 + 500)
        counts(k, 0, "%s which does not read its answers" % kind)
    elif what == "kicked":
        s = k.server(other(k), 1)
        c, a = k.client(kind, 2, s, 1, **kw)
        o, oa = k.client(kind, 3, s, 1)
        c.paused = True
        for _ in range(200):
            s.send(M.frame(a, big))
            k.quiet()
        s.send(M.frame(0, req("TunnelProxy.DisconnectClient", {"socketAddress": a}, 5)))
        f = k.frame(s)
        if f is None or json.loads(f[1]).get("id") != 5:
            k.fail("resp_missing", "answer to the disconnect request: %r" % (f,), {"C07", "C10"})
        counts(k, 2, "client over %s which does not read" % kind)
        k.gone(s, a, ("C05", "C06", "C10"))
        o.send(b"still here")
        if k.frame(s) != (oa, b"still here"):
            k.fail("payload_c2s", "the other client of the server is cut off", {"C06", "C02"})
        # the UUID is free again
        d, da = k.client(kind, 2, s, 1)
        for x in (d, o, s):
            x.close()
    elif what == "server_closes":
        s = k.server(other(k), 1)
        c, a = k.client(kind, 2, s, 1, **kw)
        c.paused = True
        for _ in range(200):
            s.send(M.frame(a, big))
            k.quiet()
        s.close("fin")
        k.quiet()
        counts(k, 0, "client over %s which does not read, its server left" % kind)
        s = k.server(other(k), 1)
        d, da = k.client(kind, 2, s, 1)
        for x in (d, s):
            x.close()
    elif what == "silent_server":
        s = k.server(kind, 1, **kw)
        c, a = k.client(other(k), 2, s, 1)
        s.paused = True
        for _ in range(150):
            c.send(big)
            k.quiet()
        k.adv(64000, 500)
        counts(k, 0, "server over %s which neither reads nor sends" % kind)
        k.until(lambda: c.closed)
        if not c.closed:
            k.fail("close_missing", "the client of the lost server is still connected", {"C06"})
    for p in k.peers:
        p.dispose()
    k.quiet()
    k.adv(8000)
    now = k.stats()
    if now["fds"] != base["fds"] or now["objects"] > base["objects"] + 2:
        k.fail("leak", "%s %s: objects %d -> %d, descriptors %d -> %d; %s" % (kind, what, base["objects"], now["objects"], base["fds"], now["fds"],
               {c: (base["classes"].get(c, 0), v) for c, v in now["classes"].items() if v > base["classes"].get(c, 0)}), {"C16"})
    k.works(kind)

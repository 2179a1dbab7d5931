"""The JSON RPC client of the libraries: each finished reply carries the response to exactly its request."""
import json
import random

import model as M
from fakeproxy import LibKit, compact, hx, unhx
from drv_libserver import clip, some_name, uuid

C22 = {"C22"}
METHODS = {"hello": "RemoteProxy.Hello", "server": "TunnelProxy.RegisterServer", "client": "TunnelProxy.RegisterClient", "disconnect": "TunnelProxy.DisconnectClient", "ping": "TunnelProxy.Ping"}


def cases(rng, tier):
    deep = tier == "deep"
    return [{"many": n, "seed": rng.randrange(1 << 30)} for n in (66000, 700)] + [{"ops": 1200 if deep else 400, "seed": rng.randrange(1 << 30)} for _ in range(480 if deep else 96)]


class Run:
    def __init__(self, res, case):
        self.res, self.case = res, case
        self.r = random.Random(case["seed"])
        self.k = LibKit(res, ())
        self.calls = 0
        self.clients = {}           # client number -> {id: (call, method, params)}
        self.answered = {}          # client number -> ids of the past
        self.next = 0

    def fail(self, kind, detail):
        self.k.fail(kind, detail, C22)

    def value(self, d=0):
        r = self.r
        k = r.randrange(8 if d < 2 else 5)
        if k < 2:
            return r.choice([0, 1, -1, 4711, 2 ** 31, 65535])
        if k < 4:
            return some_name(r)
        if k == 4:
            return r.choice([True, False])
        if k == 5:
            return [self.value(d + 1) for _ in range(r.randrange(3))]
        return {some_name(r): self.value(d + 1) for _ in range(r.randrange(3))}

    def call(self, n):
        r = self.r
        m = r.choice(list(METHODS))
        arg = r.randrange(65536)
        self.calls += 1
        self.k.cmd("jrc call %d %d %s %d" % (n, self.calls, m, arg))
        ev = self.k.take()
        if len(ev) != 1 or ev[0][2] != "sent":
            self.fail("request", "a call of %s gave %s" % (m, ev))
        d = unhx(ev[0][3])
        if m in ("disconnect", "ping"):
            f = M.slip_decode(d[:-1])
            if d[-1:] != b"\xc0" or f is None or f[:2] != b"\0\0":
                self.fail("request", "malformed frame %s" % clip(d))
            d = f[2:]
        if not d.endswith(b"\n"):
            self.fail("request", "unterminated request %s" % clip(d))
        o = json.loads(d)
        p = o.get("params") or {}
        ok = o.get("method") == METHODS[m] and isinstance(o.get("id"), int)
        if m == "disconnect":
            ok = ok and p == {"socketAddress": arg}
        elif m == "ping":
            ok = ok and p == {"timestamp": arg}
        elif m == "server":
            ok = ok and p.get("serverName") == "s%d" % arg
        elif m == "client":
            ok = ok and p.get("clientName") == "c%d" % arg
        if not ok:
            self.fail("request", "a call of %s with %d sends %s" % (m, arg, o))
        if o["id"] in self.clients[n]:
            self.fail("ids", "request id %d is used for a second outstanding request (%s and %s)" % (o["id"], self.clients[n][o["id"]][1], m))
        self.clients[n][o["id"]] = (self.calls, METHODS[m])
        self.res.count("calls")
        self.res.mark("outstanding", min(len(self.clients[n]), 30)) if hasattr(self.res, "mark") else None

    def message(self, n, want):
        """A message of the proxy; what has to come of it is appended to want."""
        r = self.r
        out = self.clients[n]
        k = r.randrange(10)
        anyid = lambda: r.choice(list(out) + self.answered[n][-5:] + [0, 1, 999999])
        if k < 6 and out:
            i = r.choice(list(out))
            o = {"id": i, "status": "success" if r.random() < 0.7 else "error"}
            if o["status"] == "error":
                o["error"] = some_name(r)
            if r.random() < 0.8:
                o["params"] = {some_name(r): self.value() for _ in range(r.randrange(3))}
                if r.random() < 0.2:
                    o["params"]["notification"] = "TunnelProxy.ClientConnected"
            c, m = out.pop(i)
            self.answered[n].append(i)
            want.append(("reply", c, m, o))
            self.res.count("responses")
            return o
        if k == 6 and self.answered[n]:
            # once more, or to nobody
            i = r.choice(self.answered[n] + [10 ** 6])
            if i not in out:
                self.res.count("stray_responses")
                return {"id": i, "status": "success", "params": {"tunnelProxyError": "TunnelProxyErrorNoError"}}
        o = {"params": {}}
        if r.random() < 0.9:
            o["id"] = anyid()
            if o["id"] in out:
                self.res.count("notifications_with_outstanding_id")
        if r.random() < 0.2:
            o["status"] = "success"
        a = r.randrange(1, 65536)
        if r.random() < 0.5:
            u, name, peer = uuid(r), some_name(r), r.choice(["", "127.0.0.1", "::1", "x"])
            o["notification"] = "TunnelProxy.ClientConnected"
            o["params"] = {"clientName": name, "clientUuid": u, "clientPeerAddress": peer, "socketAddress": a}
            want.append(("conn", a, u, name, peer))
        elif r.random() < 0.8:
            o["notification"] = "TunnelProxy.ClientDisconnected"
            o["params"] = {"socketAddress": a}
            want.append(("disc", a))
        else:
            o["notification"] = r.choice(["TunnelProxy.Other", "Other.ClientConnected", "x", "Other.ClientDisconnected"])
            o["params"] = {"socketAddress": a}
        self.res.count("notifications")
        return o

    def feed(self, n):
        r = self.r
        want = []
        msgs = [compact(r, self.message(n, want)) + b"\n" for _ in range(r.choice([1, 1, 1, 2, 3, 8]))]
        if r.random() < 0.6:
            parts = [b"".join(msgs)]
        else:
            parts = msgs
        for p in parts:
            if r.random() < 0.1 and p.count(b"\n") == 1:
                p = p[:-1]          # a single message needs no end of line
            self.k.cmd("jrc feed %d %s" % (n, p.hex()))
        self.k.step()
        got = []
        for e in self.k.take():
            if int(e[1]) != n:
                self.fail("reply", "client %s reacted to data of client %d: %s" % (e[1], n, e[:5]))
            if e[2] == "reply":
                got.append(("reply", int(e[3]), e[4], json.loads(unhx(e[5]))))
            elif e[2] == "conn":
                got.append(("conn", int(e[3]), e[4], unhx(e[5]).decode(), unhx(e[6]).decode()))
            elif e[2] == "disc":
                got.append(("disc", int(e[3])))
            else:
                self.fail("reply", "unexpected %s" % e[:4])
        if got != want:
            for i, (g, w) in enumerate(zip(got + [None] * len(want), want + [None] * len(got))):
                if g != w:
                    self.fail("reply" if "reply" in (g or w)[0] else "notification", "after %s came %s instead of %s" % (clip(b"".join(msgs)[:300]), str(g)[:300], str(w)[:300]))
        self.res.count("outcomes_checked", len(want))

    def many(self):
        """Very many requests, some of which stay unanswered for long."""
        r, k = self.r, self.k
        k.cmd("jrc new 1")
        self.clients[1], self.answered[1] = {}, []
        out = self.clients[1]
        for i in range(self.case["many"]):
            self.call(1)
            if r.random() < 0.97 and len(out) > 20:
                # nearly all are answered, the oldest ones stay
                self.answer(r.choice(list(out)[-8:]))
        for i in r.sample(list(out), len(out)):
            self.answer(i)
        if out:
            self.fail("reply", "%d requests without reply" % len(out))
        k.end()

    def answer(self, i):
        c, m = self.clients[1].pop(i)
        o = {"id": i, "status": "success", "params": {"n": i % 1000}}
        self.k.cmd("jrc feed 1 %s" % (json.dumps(o).encode() + b"\n").hex())
        self.k.h.cmd("P")
        got = [(int(e[3]), e[4], json.loads(unhx(e[5]))) for e in self.k.take() if e[2] == "reply"]
        if got != [(c, m, o)]:
            self.fail("reply", "the response to call %d with id %d gave %s" % (c, i, str(got)[:300]))
        self.res.count("responses")

    def run(self):
        r, k = self.r, self.k
        for _ in range(self.case["ops"]):
            if len(self.clients) < 3 and (not self.clients or r.random() < 0.05):
                self.next += 1
                k.cmd("jrc new %d" % self.next)
                self.clients[self.next] = {}
                self.answered[self.next] = []
                continue
            n = r.choice(list(self.clients))
            x = r.random()
            if x < 0.02:
                # with replies outstanding
                k.cmd("jrc del %d" % n)
                k.step()
                del self.clients[n]
                if k.take():
                    self.fail("reply", "something was reported by a deleted client")
            elif x < 0.5 and len(self.clients[n]) < 25:
                for _ in range(r.choice([1, 1, 2, 6])):
                    self.call(n)
            else:
                self.feed(n)
        k.end()


def run(res, case):
    x = Run(res, case)
    try:
        x.many() if "many" in case else x.run()
    finally:
        x.k.kill()
    res.samples.append({"driver": "librpc", "case": case})

"""What the libraries tell the application about a connection that does not come about or ends (C26)."""
import json
import random

import model as M
from drv_libserver import some_name, uuid
from fakeproxy import LibKit, compact, hx, unhx

C26 = {"C26"}
REFUSED, UNTRUSTED, NO_HOST = "0", "13", "2"     # QAbstractSocket::ConnectionRefusedError, SslHandshakeFailedError, HostNotFoundError
NO_ERROR, CONNECTION_ERROR, NOT_CONNECTED = "0", "1", "3"    # TunnelProxySocketServer::Error
WAYS = ["shut", "shut", "untrusted", "untrusted", "hello_error", "refused", "refused_error", "fin", "rst", "stopped", "fin_early", "junk", "url", "accepted", "no_host"]


def cases(rng, tier):
    kinds = ["tcp", "tls", "ws", "wss"]
    return [{"kind": kinds[i % 4], "role": ["srv", "rc"][i // 4 % 2], "n": 24, "seed": rng.randrange(1 << 30)} for i in range(320 if tier == "deep" else 64)]


class Run:
    def __init__(self, res, case):
        self.res, self.case, self.r = res, case, random.Random(case["seed"])
        self.kind, self.role = case["kind"], case["role"]
        self.k = LibKit(res, (self.kind,))
        self.l = self.k.listeners[self.kind]
        self.secure = self.kind in ("tls", "wss")
        self.err, self.srverr, self.ssl, self.up, self.log = [], [], [], [], []
        self.id = 1
        self.trust = True

    def fail(self, kind, detail):
        self.k.fail(kind, "%s over %s, %s" % (self.role, self.kind, detail), C26)

    def take(self):
        for e in self.k.take():
            if e[0] == self.role and e[1] == str(self.id):
                self.log.append(" ".join(e[2:4]))
                if e[2] == "err":
                    self.err.append(e[3])
                elif e[2] == "srverr":
                    self.srverr.append(e[3])
                elif e[2] == "ssl":
                    self.ssl.append(int(e[3]))
                elif e[2] in ("running", "remote"):
                    self.up.append(e[3] == "1")

    def state(self):
        v = self.k.cmd("%s state %d" % (self.role, self.id)).split()
        if self.role == "srv":
            return {"up": v[1] == "1", "srverr": v[2], "err": v[3], "info": [unhx(x).decode() for x in v[4:8]]}
        return {"up": v[1] == "1", "err": v[2], "info": [unhx(x).decode() for x in v[3:7]]}

    def line(self, c, what):
        if not self.k.until(lambda: b"\n" in c.rx or c.closed) or b"\n" not in c.rx:
            self.fail("register", "no %s" % what)
        i = c.rx.index(b"\n")
        m = json.loads(bytes(c.rx[:i]))
        del c.rx[:i + 1]
        return m

    def settle(self):
        for _ in range(4):
            self.k.quiet()
            self.k.h.cmd("W 20")
        self.take()

    def begin(self):
        self.err, self.srverr, self.ssl, self.up, self.log = [], [], [], [], []
        self.k.take()

    def go(self, url=None):
        if self.role == "srv":
            return self.k.cmd("srv start 1 %s" % (url or self.l.url()))
        return self.k.cmd("rc connect 1 %s %s" % (url or self.l.url(), uuid(self.r)))

    def halt(self):
        self.k.cmd("srv stop 1" if self.role == "srv" else "rc disc 1")

    def one(self, way):
        r, k = self.r, self.k
        if way in ("untrusted", "accepted") and not self.secure or way == "url" and self.role == "rc":
            way = "shut"
        trust = way not in ("untrusted", "accepted")
        if self.secure and trust != self.trust:
            k.h.cmd("ssl %d" % trust)
            self.trust = trust
        if way == "shut":
            self.l.shut()
        else:
            self.l.open()
        self.l.how = "junk" if way == "junk" else "serve"
        before = len(self.l.conns)
        self.begin()
        if way == "url":
            # an address nobody can connect to is refused at once
            if self.k.cmd("srv start 1" + r.choice(["", " tcp://[", " tcp://a:b:c", " wss://127.0.0.1:99999", " tcp://127.0.0.1:-5"])) != "0":
                self.fail("url", "a URL which is none was accepted")
            self.settle()
            if len(self.l.conns) != before:
                self.fail("url", "connected all the same")
            self.res.count("bad_urls")
            return
        again = self.role == "srv" and way in ("shut", "untrusted") and r.random() < 0.5
        if r.random() < 0.3:
            # there is nothing yet whose errors could be ignored
            self.k.cmd("%s ignore %d" % (self.role, self.id))
            self.res.count("ignored_early")
        name = "nowhere.test" if way == "no_host" else "proxy-%s.test" % self.l.host.replace(".", "-") if r.random() < 0.4 else self.l.host
        self.res.count("names_looked_up", name != self.l.host)
        self.go(self.l.url().replace(self.l.host, name))
        if way == "accepted":
            # decided before the certificate is known
            self.k.cmd("%s ignore %d" % (self.role, self.id))
        for attempt in range(2 if again else 1):
            if attempt:
                # by itself, five seconds later
                self.begin()
                before = len(self.l.conns)
                k.h.cmd("A 5600 100")
                self.res.count("retries")
            getattr(self, way, self.served)(way, before)
            self.res.count("attempts_" + way)
        self.halt()
        self.settle()
        if self.state()["up"]:
            self.fail("state", "up after having been stopped")

    def shut(self, way, before):
        k = self.k
        k.until(lambda: self.take() or self.err, 30)
        self.settle()
        if self.err != [REFUSED]:
            self.fail("error", "a refused connection attempt was reported as %s: %s" % (self.err, self.log))
        if self.state()["err"] != REFUSED:
            self.fail("error", "error() is %s after a refused connection attempt" % self.state()["err"])
        if self.up or self.ssl:
            self.fail("state", "reported for a refused connection: %s" % self.log)

    def no_host(self, way, before):
        k = self.k
        k.until(lambda: self.take() or self.err, 30)
        self.settle()
        if self.err != [NO_HOST] or self.state()["err"] != NO_HOST:
            self.fail("error", "a name which is not known was reported as %s: %s" % (self.err, self.log))
        if self.up or self.ssl or len(self.l.conns) != before:
            self.fail("state", "reported for an unknown name: %s" % self.log)

    def untrusted(self, way, before):
        k = self.k
        k.until(lambda: len(self.l.conns) > before and (self.take() or self.err), 60)
        self.settle()
        if len(self.ssl) != 1 or self.ssl[0] < 1:
            self.fail("ssl", "an untrusted certificate was reported as %s" % self.log)
        if self.err != [UNTRUSTED]:
            self.fail("error", "an untrusted certificate which was not accepted was reported as %s: %s" % (self.err, self.log))
        for c in self.l.conns[before:]:
            if c.rx or getattr(c, "ready", False) and self.kind == "wss":
                self.fail("ssl", "sent over a session with an untrusted certificate: %r" % bytes(c.rx[:100]))
            if not k.until(lambda: c.closed):
                self.fail("ssl", "the session with an untrusted certificate stays")
        if self.up or self.state()["up"]:
            self.fail("state", "reported for an untrusted proxy: %s" % self.log)

    def junk(self, way, before):
        self.k.until(lambda: self.take() or self.err, 30)
        self.settle()
        if not self.err:
            self.fail("error", "a proxy which talks nonsense and hangs up was not reported: %s" % self.log)
        if self.up:
            self.fail("state", "up: %s" % self.log)

    def served(self, way, before):
        r, k = self.r, self.k
        if not k.until(lambda: len(self.l.conns) > before):
            self.fail("register", "no connection")
        c = self.l.conns[before]
        m = self.line(c, "Hello")
        if self.secure and len(self.ssl) != 1:
            self.take()
            if len(self.ssl) != 1:
                self.fail("ssl", "the certificate was reported as %s" % self.log)
        if way == "hello_error":
            c.send(compact(r, {"id": m["id"], "status": "error", "error": "no"}) + b"\n")
            return self.refusal(c, way)
        info = ["nymea-remoteproxy", some_name(r), "1.%d" % r.randrange(99), "0.%d" % r.randrange(9)]
        if way == "fin_early":
            c.close(r.choice(["fin", "rst"]))
            return self.lost(c, way)
        c.send(compact(r, {"id": m["id"], "status": "success", "params": dict(zip(["server", "name", "version", "apiVersion"], info))}) + b"\n")
        m = self.line(c, "registration")
        if way == "refused":
            c.send(compact(r, {"id": m["id"], "status": "success", "params": {"tunnelProxyError": "TunnelProxyError" + r.choice(["AlreadyRegistered", "InvalidUuid", "InternalServerError", "ServerNotFound"])}}) + b"\n")
            return self.refusal(c, way)
        if way == "refused_error":
            c.send(compact(r, {"id": m["id"], "status": "error", "error": "no"}) + b"\n")
            return self.refusal(c, way)
        c.send(compact(r, {"id": m["id"], "status": "success", "params": {"tunnelProxyError": "TunnelProxyErrorNoError"}}) + b"\n")
        k.until(lambda: self.take() or self.up)
        self.settle()
        st = self.state()
        if self.up != [True] or not st["up"]:
            self.fail("state", "registered, but %s" % self.log)
        if self.err or self.srverr or st.get("srverr", NO_ERROR) != NO_ERROR:
            self.fail("error", "registered, but errors %s %s are reported; serverError() is %s" % (self.err, self.srverr, st.get("srverr")))
        if st["info"] != info:
            self.fail("info", "the proxy is shown as %s instead of %s" % (st["info"], info))
        self.res.count("proxies_introduced")
        if way == "stopped":
            self.halt()
            self.settle()
            if self.up != [True, False]:
                self.fail("state", "stopped: %s" % self.log)
            return
        c.close("rst" if way == "rst" else "fin")
        self.lost(c, way)
        if self.up != [True, False]:
            self.fail("state", "lost: %s" % self.log)

    def lost(self, c, way):
        self.k.until(lambda: self.take() or self.err, 30)
        self.settle()
        if self.role == "srv" and (self.srverr != [NOT_CONNECTED] or self.state()["srverr"] != NOT_CONNECTED):
            self.fail("error", "the lost connection was reported as %s, serverError() is %s: %s" % (self.srverr, self.state()["srverr"], self.log))
        if not self.err:
            self.fail("error", "no error reported for the lost connection: %s" % self.log)

    def refusal(self, c, way):
        if not self.k.until(lambda: c.closed):
            self.fail("state", "the connection stays open after %s" % way)
        self.settle()
        if self.role == "srv" and self.srverr.count(CONNECTION_ERROR) != 1:
            self.fail("error", "%s was reported as %s: %s" % (way, self.srverr, self.log))
        if self.up or self.state()["up"]:
            self.fail("state", "up after %s: %s" % (way, self.log))


def run(res, case):
    x = Run(res, case)
    try:
        x.k.cmd("%s new 1 %s %s %s" % (x.role, uuid(x.r), hx(some_name(x.r).encode()), "ws" if x.kind in ("ws", "wss") else "tcp"))
        for _ in range(case["n"]):
            x.one(x.r.choice(WAYS))
        x.k.end()
    finally:
        x.k.kill()
    res.samples.append({"driver": "told", "case": case})

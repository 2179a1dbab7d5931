"""The client-side library against a proxy played by the check: remote connected exactly while registered, data complete."""
import json
import random

import model as M
from fakeproxy import LibKit, compact, cuts, hx, unhx
from drv_libserver import clip, some_name, uuid

C21 = {"C21"}
CONNECTED, DISCONNECTED = "5", "7"


def cases(rng, tier):
    deep = tier == "deep"
    res = []
    kinds = ["tcp", "tls", "ws", "wss"]
    for i in range(960 if deep else 256):
        res.append({"kind": kinds[i % 4], "attempts": 30 if deep else 12, "hooks": (i // 4) % 2 == 1, "seed": rng.randrange(1 << 30)})
    return res


class Gone(Exception):
    """The attempt is over."""


class Run:
    def __init__(self, res, case):
        self.res, self.case = res, case
        self.r = random.Random(case["seed"])
        self.kind = case["kind"]
        self.ws = self.kind in ("ws", "wss")
        self.k = LibKit(res, (self.kind,))
        self.l = self.k.listeners[self.kind]
        self.oid = 0
        self.remote = False       # as reported by the library
        self.ups = self.downs = 0
        self.got = bytearray()
        self.sent = []            # results of sendData() in slots
        self.fired = []
        self.state = DISCONNECTED
        self.conn = None

    def fail(self, kind, detail):
        self.k.fail(kind, "%s: %s" % (self.kind, detail), C21)

    def payload(self):
        r = self.r
        if self.ws:
            # text messages, see C01; a leading byte order mark would be swallowed by Qt
            t = "".join(r.choice(["a", "\n", "}", "{", "\"", "\u00e4", "\u20ac", "\U0001F600", "\0", "\r\n", " "]) for _ in range(r.choice([1, 2, 8, 60, 3000])))
            return (r.choice(" \n\t.") + t).encode() if r.random() < 0.8 else b" \n\r\t"[r.randrange(4):]
        k = r.randrange(10)
        if k >= 8:
            return bytes(r.choice(b" \n\r\t") for _ in range(r.choice([1, 2, 30])))
        if k == 0:
            return b'{"id":0,"status":"success","params":{"tunnelProxyError":"TunnelProxyErrorNoError"}}\n'
        if k == 1:
            return r.randbytes(r.choice([1000, 16384, 70000]))
        if k == 2:
            return bytes(r.choice([0x0A, 0x7B, 0x7D, 0xC0, 0x00]) for _ in range(r.randrange(1, 40)))
        if k == 3:
            return b'{"id":0,"status":"error","error":"x"}\n{"id":1,"status":"success","params":{"tunnelProxyError":"TunnelProxyErrorServerNotFound"}}\n'
        return r.randbytes(r.randrange(1, 200))

    # ------------------------------------------------------------ observation
    def events(self):
        for e in self.k.take():
            if e[0] != "rc" or int(e[1]) != self.oid:
                continue
            if e[2] == "remote":
                up = e[3] == "1"
                if e[3] != e[4]:
                    self.fail("remote", "remoteConnected() is %s while reporting %s" % (e[4], e[3]))
                if up == self.remote:
                    self.fail("remote", "reported %s twice" % ("connected" if up else "disconnected"))
                self.remote = up
                if up:
                    self.ups += 1
                else:
                    self.downs += 1
                self.res.count("remote_changes")
            elif e[2] == "data":
                if not self.remote:
                    self.fail("early_data", "data %s while not remote connected" % clip(unhx(e[3])))
                self.got += unhx(e[3])
                self.res.count("data_signals")
            elif e[2] == "state":
                self.state = e[3]
            elif e[2] == "sent":
                self.sent.append(e[3] == "1")
            elif e[2] == "hook":
                self.fired.append((e[3], e[4]))

    def check(self, ups, downs, exact=True):
        """ups, downs: remote connections of this attempt; exact: everything sent has to have been delivered."""
        self.k.quiet()
        self.events()
        if (self.ups, self.downs) != (ups, downs):
            self.fail("remote", "remote connected %d times and ended %d times instead of %d and %d" % (self.ups, self.downs, ups, downs))
        if exact:
            if self.got != self.want:
                self.fail("data", "delivered %s instead of %s" % (clip(self.got), clip(self.want)))
        elif not self.want.startswith(bytes(self.got)):
            self.fail("data", "delivered %s which is not the beginning of %s" % (clip(self.got), clip(self.want)))
        self.res.count("payload_bytes_checked", len(self.got))
        del self.want[:len(self.got)]
        self.got.clear()
        if not self.deleted:
            st = self.k.cmd("rc state %d" % self.oid).split()
            if (st[1] == "1") != (ups > downs) or (st[0] == CONNECTED) != (ups > downs):
                self.fail("remote", "state %s, remote connected %s, after %d beginnings and %d ends" % (st[0], st[1], ups, downs))

    def over(self, ups, exact=False):
        """The attempt has to end disconnected, and the wire too."""
        c = self.conn
        if c is not None and not c.local_closed and not self.k.until(lambda: c.closed or c.s is None):
            self.fail("open", "the connection to the proxy stays open")
        self.k.until(lambda: self.peek() == DISCONNECTED, 20)
        self.check(ups, ups, exact)
        if not self.deleted:
            if self.peek() != DISCONNECTED:
                self.fail("state", "state %s at the end" % self.peek())
            if self.k.cmd("rc send %d 41" % self.oid) != "0":
                self.fail("send", "data accepted while disconnected")
        raise Gone

    def peek(self):
        return DISCONNECTED if self.deleted else self.k.cmd("rc state %d" % self.oid).split()[0]

    def no_send(self):
        if self.k.cmd("rc send %d %s" % (self.oid, self.payload().hex())) != "0":
            self.fail("send", "data accepted while not registered")
        self.res.count("sends_refused")

    # ------------------------------------------------------------ actions
    def arm(self):
        r = self.r
        e, a = r.choice([("remote1", "disc"), ("remote1", "send"), ("remote1", "del"), ("data", "disc"), ("data", "send"), ("data", "del"), ("remote0", "send"), ("remote0", "disc"), ("remote0", "del"),
                         ("state2", "disc"), ("state3", "disc"), ("state4", "disc"), ("state4", "send"), ("state5", "disc")])
        self.hook = (e, a, self.payload() if a == "send" else b"")
        self.k.cmd("rc hook %d %s %s %s" % (self.oid, e, a, hx(self.hook[2])))

    def disarm(self):
        if self.hook:
            self.k.cmd("rc hook %d clear" % self.oid)
            self.hook = None

    def did(self, e, a):
        return (e, a) in self.fired

    def line(self, method):
        c = self.conn
        # an application which gives up in a slot
        def stop():
            self.events()
            return b"\n" in c.rx or c.closed or any(a in ("disc", "del") for _, a in self.fired)
        if self.ws and not self.k.until(lambda: c.ready or c.closed):
            self.fail("register", "no WebSocket handshake")
        self.k.until(stop)
        self.k.quiet()
        self.events()
        if any(a in ("disc", "del") for _, a in self.fired):
            self.res.count("gave_up_in_slots")
            self.deleted = self.did_del()
            self.over(0)
        i = c.rx.find(b"\n")
        if i < 0:
            self.fail("register", "no %s request" % method)
        m = json.loads(bytes(c.rx[:i]))
        del c.rx[:i + 1]
        if m.get("method") != method:
            self.fail("register", "%s instead of %s" % (m, method))
        if c.rx:
            self.fail("register", "more than the request: %s" % clip(bytes(c.rx)))
        return m

    def stream(self, data):
        for p in self.conn.pieces(data, cuts(self.r, len(data))):
            if self.conn.s is None or self.conn.closed:
                return
            self.conn.send(p)
            if self.r.random() < 0.8:
                self.k.step()

    def noise(self, m):
        """What must not matter before the response to m."""
        r = self.r
        o = r.choice([{"id": m["id"] + 1 + r.randrange(50), "status": "success", "params": {"tunnelProxyError": "TunnelProxyErrorNoError"}},
                      {"id": m["id"], "notification": "Some.Thing", "params": {}},
                      {"id": r.randrange(9), "notification": "TunnelProxy.ClientConnected", "params": {"socketAddress": 3, "clientName": "x", "clientUuid": uuid(r), "clientPeerAddress": "1.2.3.4"}},
                      {"id": m["id"] + 77, "status": "error", "error": "no"}])
        return compact(r, o) + b"\n"

    def trouble(self):
        """Before the registration is answered; raises Gone."""
        r, k = self.r, self.k
        what = r.choice(["fin", "rst", "app", "partial", "send", "noise_fin"])
        if what == "send":
            self.no_send()
            return
        if what == "partial":
            self.stream(b'{"id":0,"status":"succ')
        if what == "noise_fin":
            self.stream(self.noise({"id": 5000}))
        if what == "app":
            k.cmd("rc disc %d" % self.oid)
        else:
            self.conn.close("rst" if what == "rst" else "fin")
        self.res.count("ended_early")
        self.over(0)

    def attempt(self):
        r, k = self.r, self.k
        if self.deleted or not self.remote and r.random() < 0.3:
            self.oid += 1
            self.uuid, self.name = uuid(r), some_name(r)
            self.deleted = False
            self.remote = False
            k.cmd("rc new %d %s %s %s" % (self.oid, self.uuid, hx(self.name.encode()), "ws" if self.ws else "tcp"))
        if self.remote:
            self.ups, self.downs = 1, 0    # connecting once more ends the connection before
        else:
            self.ups = self.downs = 0
        carried = self.remote
        self.want, self.sent, self.fired, self.hook = bytearray(), [], [], None
        self.got.clear()
        target = uuid(r)
        if self.case["hooks"] and not carried and r.random() < 0.6:
            self.arm()
        how = r.choice(["serve"] * 12 + ["shut", "slam", "junk"] + (["hold", "refuse"] if self.kind != "tcp" else []))
        if how == "refuse" and self.kind == "tls":
            how = "hold"
        self.l.how = how
        old = self.conn
        before = set(map(id, self.l.conns))
        if how == "shut":
            self.l.shut()
        else:
            self.l.open()
        k.cmd("rc connect %d %s %s" % (self.oid, self.l.url(), target))
        self.conn = None
        if carried:
            # connecting once more ended it
            self.events()
            if (self.ups, self.downs) != (1, 1):
                self.fail("remote", "connecting once more did not end the remote connection")
            self.ups = self.downs = 0
            self.got.clear()
            if not k.until(lambda: old.closed):
                self.fail("open", "the former connection stays open")
        if self.ups and self.hook is None:
            self.fail("remote", "connected at once")
        if how in ("shut", "slam", "junk"):
            self.disarm()
            self.fired = []
            self.res.count("not_connected")
            self.over(0)
        live = lambda: [c for c in self.l.conns if id(c) not in before]
        if not k.until(lambda: live() or any(a in ("disc", "del") for _, a in self.fired) or self.events()):
            self.fail("register", "no connection to the proxy")
        if not live():
            self.deleted = self.did_del()
            self.over(0)
        if len(live()) > 1:
            self.fail("register", "%d connections at once" % len(live()))
        self.conn = live()[0]
        if how == "refuse":
            self.disarm()
            k.until(lambda: self.conn.closed, 15)
            k.quiet()
            self.conn.close("fin")
            self.res.count("not_connected")
            self.over(0)
        if how == "hold":
            self.disarm()
            self.no_send()
            if r.random() < 0.4:
                k.cmd("rc disc %d" % self.oid)
                k.quiet()
                self.events()
                k.until(lambda: self.conn.closed, 15)
                self.conn.close("fin")
                self.res.count("ended_early")
                self.over(0)
            if r.random() < 0.5 or self.kind == "tls":
                self.conn.close(r.choice(["fin", "rst"]))
                self.res.count("ended_early")
                self.over(0)
            if self.kind in ("ws", "wss"):
                if self.kind == "wss":
                    k.until(lambda: self.conn.established)
                self.conn.go()
        m = self.line("RemoteProxy.Hello")
        if r.random() < 0.15:
            self.disarm()
            self.trouble()
        data = b""
        while r.random() < 0.25:
            data += self.noise(m)
        if r.random() < 0.06:
            self.disarm()
            self.stream(data + compact(r, {"id": m["id"], "status": "error", "error": "no\n"}) + b"\n" + (self.payload() if r.random() < 0.5 else b""))
            self.res.count("refusals")
            self.over(0)
        info = ["nymea-remoteproxy", some_name(r), "1.13.%d" % r.randrange(9), "0.7"]
        data += compact(r, {"id": m["id"], "status": "success", "params": dict(zip(["server", "name", "version", "apiVersion"], info))}) + b"\n"
        self.stream(data)
        m = self.line("TunnelProxy.RegisterClient")
        p = m["params"]
        if (M.parse_uuid(p.get("clientUuid")), p.get("clientName"), M.parse_uuid(p.get("serverUuid"))) != (M.parse_uuid(self.uuid), self.name, M.parse_uuid(target)):
            self.fail("register", "registers as %s" % m)
        if r.random() < 0.2:
            if r.random() < 0.8:
                self.disarm()
                self.trouble()
            else:
                self.no_send()
        data = b""
        while r.random() < 0.25:
            data += self.noise(m)
        if r.random() < 0.15:
            self.disarm()
            o = r.choice([{"id": m["id"], "status": "error", "error": "bad"}] + [{"id": m["id"], "status": "success", "params": {"tunnelProxyError": "TunnelProxyError" + x}} for x in ("ServerNotFound", "AlreadyRegistered", "InvalidUuid", "InternalServerError")])
            self.stream(data + compact(r, o) + b"\n" + (self.payload() if r.random() < 0.5 else b""))
            self.res.count("refusals")
            self.over(0)
        data += compact(r, {"id": m["id"], "status": "success", "params": {"tunnelProxyError": "TunnelProxyErrorNoError"}}) + b"\n"
        for _ in range(r.choice([0, 0, 1, 1, 3])):
            x = self.payload()
            data += x
            self.want += x
        self.stream(data)
        self.conn_out = b""
        self.res.count("registrations")
        self.slots()
        st = k.cmd("rc state %d" % self.oid).split()
        if [unhx(x).decode() for x in st[3:7]] != info:
            self.fail("info", "proxy information %s instead of %s" % (st[3:7], info))
        for _ in range(r.choice([0, 2, 6, 20])):
            if r.random() < 0.5:
                x = b"".join(self.payload() for _ in range(r.choice([1, 1, 3])))
                self.want += x
                self.stream(x)
            else:
                for _ in range(r.choice([1, 1, 4])):
                    x = self.payload()
                    if k.cmd("rc send %d %s" % (self.oid, x.hex())) != "1":
                        self.fail("send", "data refused while remote connected")
                    self.expect(x)
            self.slots()
        self.finish()

    def did_del(self):
        return any(a == "del" for _, a in self.fired)

    def expect(self, x):
        self.conn_out += x

    def slots(self):
        """After something which may have fired the hook."""
        self.k.quiet()
        self.events()
        if self.hook and self.did(*self.hook[:2]):
            e, a, arg = self.hook
            self.hook = None
            self.res.count("actions_in_slots")
            if a == "send":
                if e in ("remote1", "data"):
                    if self.sent != [True]:
                        self.fail("send", "data refused in a slot while remote connected")
                    self.expect(arg)
                elif e.startswith("state") and e != "state5":
                    if self.sent != [False]:
                        self.fail("send", "data accepted in a slot while not registered")
            else:
                self.deleted = a == "del"
                if self.deleted:
                    # nobody listens any more
                    if not self.k.until(lambda: self.conn.closed):
                        self.fail("open", "the connection stays open after the library object was deleted")
                    self.remote = False
                    raise Gone
                self.over(self.ups)
        self.check(1, 0)
        out = bytes(self.conn.rx)
        if out != self.conn_out:
            if not self.k.until(lambda: bytes(self.conn.rx) == self.conn_out):
                self.fail("wire", "on the wire is %s instead of %s" % (clip(bytes(self.conn.rx)), clip(self.conn_out)))
        self.res.count("sent_bytes_checked", len(out))
        self.conn.rx.clear()
        self.conn_out = b""

    def finish(self):
        r, k = self.r, self.k
        if self.hook and self.hook[0] != "remote0":
            self.disarm()
        what = r.choice(["fin", "fin", "fin_data", "fin_data", "rst", "rst_data", "app", "app", "again", "del"])
        if what in ("fin_data", "rst_data"):
            x = b"".join(self.payload() for _ in range(3))
            self.want += x
            self.conn.send(x)
            if not k.until(lambda: not self.conn.out):
                self.fail("wire", "the library does not read")
        if what.startswith("fin"):
            self.conn.close("fin")
        elif what.startswith("rst"):
            self.conn.close("rst")
        elif what == "app":
            k.cmd("rc disc %d" % self.oid)
        elif what == "del":
            self.disarm()
            k.cmd("rc del %d" % self.oid)
            self.deleted = True
            self.remote = False
            if not k.until(lambda: self.conn.closed):
                self.fail("open", "the connection stays open after the library object was deleted")
            self.k.take()
            raise Gone
        else:
            self.disarm()
            self.res.count("connected_again")
            raise Gone     # the next attempt follows at once
        self.res.count("ended_connections")
        k.quiet()
        self.events()
        if self.hook and self.did(*self.hook[:2]):
            e, a, arg = self.hook
            self.hook = None
            if a == "send" and self.sent != [False]:
                self.fail("send", "data accepted in a slot after the end")
            if a == "del":
                k.quiet()
                self.events()
                if (self.ups, self.downs) != (1, 1):
                    self.fail("remote", "remote connected %d times and ended %d times" % (self.ups, self.downs))
                self.deleted = True
                raise Gone
        self.disarm()
        self.over(1, what.startswith("fin"))

    def run(self):
        self.deleted = True
        for _ in range(self.case["attempts"]):
            again = self.remote
            try:
                self.attempt()
            except Gone:
                pass
            self.disarm() if not self.deleted else None
            del again
        self.k.end()


def run(res, case):
    x = Run(res, case)
    try:
        x.run()
    finally:
        x.k.kill()
    res.samples.append({"driver": "libclient", "case": case})

"""Both client libraries with the real proxy in between, on one virtual time line."""
import random

import model as M
from fakeproxy import LibKit, hx, unhx
from drv_libserver import clip, some_name, uuid
from kit import Kit


def cases(rng, tier):
    deep = tier == "deep"
    res = []
    for i in range(240 if deep else 48):
        res.append({"ssl": i % 3 == 2, "ops": 150 if deep else 60, "long": True, "seed": rng.randrange(1 << 30)})
    return res


class Client:
    def __init__(self, oid, kind, server, uid, name):
        self.oid, self.kind, self.server, self.uid, self.name = oid, kind, server, uid, name
        self.sid = None            # of the socket object at the server
        self.up = False
        self.to = bytearray()      # expected at the client
        self.fro = bytearray()     # expected at the server
        self.got_to = bytearray()
        self.got_fro = bytearray()
        self.closed = [0, 0, 0]
        self.remote = []


class Server:
    def __init__(self, n, uid, name):
        self.n, self.uid, self.name = n, uid, name
        self.running = False
        self.started = False
        self.since = 0
        self.clients = []


class Run:
    def __init__(self, res, case):
        self.res, self.case = res, case
        self.r = random.Random(case["seed"])
        self.k = Kit(res, ssl=case["ssl"])
        try:
            self.lib = LibKit(res, ())
        except BaseException:
            self.k.kill()
            raise
        self.servers, self.clients = [], []
        self.by_sid = {}
        self.next = 0
        self.t = 0
        self.up = True
        self.up_since = 0

    def fail(self, kind, detail, labels):
        self.lib.fail(kind, "at %d ms: %s" % (self.t, detail), set(labels))

    def url(self, ws):
        c = self.k.conf
        s = self.case["ssl"]
        return "%s://%s:%d" % (("wss" if s else "ws") if ws else ("ssl" if s else "tcp"), c.host, c.ws_port if ws else c.tcp_port)

    def quiet(self, rounds=4):
        """Until nothing goes on; the two processes talk through the kernel, so what is silent for some rounds is done."""
        idle = n = 0
        while idle < rounds:
            before = len(self.lib.all_events)
            self.lib.step()
            self.k.step()
            self.lib.step()
            idle = 0 if len(self.lib.all_events) != before else idle + 1
            n += 1
            if n > 20000:
                self.fail("hang", "library and proxy never became idle", {"C15"})
        self.events()

    def until(self, cond, patience=60):
        idle = 0
        while not cond():
            n = len(self.lib.all_events)
            self.quiet(1)
            if len(self.lib.all_events) != n:
                idle = 0
                continue
            idle += 1
            if idle > 3:
                self.lib.h.cmd("W 5")
                self.k.h.cmd("W 5")
            if idle > patience:
                return cond()
        self.quiet()
        return cond()

    def go(self, ms, step=500):
        end = self.t + ms
        while self.t < end:
            d = min(step, end - self.t)
            # both before either acts on what the other did
            self.lib.h.cmd("A %d %d" % (d, d))
            self.k.h.cmd("A %d %d" % (d, d))
            self.t += d
            self.quiet(2)
            for s in self.servers:
                if s.started and s.running:
                    s.since = self.t
                elif s.started and self.up and self.t - max(s.since, self.up_since) > 5750:
                    self.fail("unreachable", "server %d is not registered %d ms after the proxy became reachable" % (s.n, self.t - max(s.since, self.up_since)), {"C23"})
        self.res.count("watched_seconds", ms // 1000)

    def events(self):
        for e in self.lib.take():
            if e[0] == "srv":
                s = self.servers[int(e[1]) - 1]
                if e[2] == "running":
                    s.running = e[3] == "1"
                    if not s.running:
                        if not s.may_stop:
                            self.fail("lost", "library server %d lost its registration" % s.n, {"C23", "C13", "C06"})
                elif e[2] == "conn":
                    sid, addr, uid, name = int(e[3]), int(e[4]), e[5], unhx(e[6]).decode()
                    c = [x for x in s.clients if M.parse_uuid(x.uid) == M.parse_uuid(uid) and x.sid is None]
                    if len(c) != 1 or c[0].name != name:
                        self.fail("sock_extra", "socket object for %s %r, which does not connect" % (uid, name), {"C20", "C05"})
                    if e[7] != "127.0.0.1" or e[8] != "1":
                        self.fail("sock_value", "socket object with peer %s connected %s" % (e[7], e[8]), {"C20", "C05"})
                    if any(x.addr == addr and x.sid is not None and not x.closed[1] for x in s.clients if x is not c[0] and x.sid is not None):
                        self.fail("sock_value", "address %#06x is used twice" % addr, {"C03"})
                    c[0].sid, c[0].addr = sid, addr
                    self.by_sid[sid] = c[0]
                    self.res.count("sockets")
                elif e[2] == "disc":
                    self.by_sid[int(e[3])].closed[2] += 1
            elif e[0] == "sock":
                c = self.by_sid[int(e[2])]
                if e[3] == "data":
                    c.got_fro += unhx(e[4])
                elif e[3] == "connected":
                    c.closed[0] += 1
                elif e[3] == "disc":
                    c.closed[1] += 1
            elif e[0] == "rc":
                c = self.clients[int(e[1]) - 1]
                if e[2] == "remote":
                    c.remote.append(e[3])
                    if not c.remote == ["1", "0"][:len(c.remote)]:
                        self.fail("remote", "client reports %s" % c.remote, {"C21"})
                elif e[2] == "data":
                    c.got_to += unhx(e[3])

    def check(self, c, ended=False):
        """Payload so far; ended: the tunnel is over."""
        if c.got_fro != c.fro:
            self.fail("payload_c2s", "the socket object of client %d (%s) has %s of %s" % (c.oid, c.kind, clip(c.got_fro), clip(c.fro)), {"C20", "C01"})
        if c.got_to != c.to:
            self.fail("payload_s2c", "client %d (%s) has %s of %s" % (c.oid, c.kind, clip(c.got_to), clip(c.to)), {"C21", "C01"})
        self.res.count("payload_bytes_checked", len(c.to) + len(c.fro))
        for b in (c.got_fro, c.got_to, c.to, c.fro):
            b.clear()
        if c.closed != ([1, 1, 1] if ended else [0, 0, 0]):
            self.fail("sock_end", "socket object of client %d: end reported %s times, it is %s" % (c.oid, c.closed, "over" if ended else "connected"), {"C20", "C05", "C06"})
        if c.remote != (["1", "0"] if ended else ["1"]):
            self.fail("remote", "client %d reports %s, it is %s" % (c.oid, c.remote, "over" if ended else "connected"), {"C21", "C06"})

    def over(self, cs, what):
        self.until(lambda: all(c.remote[-1:] == ["0"] and c.closed == [1, 1, 1] for c in cs))
        for c in cs:
            self.check(c, True)
            c.server.clients.remove(c)
            self.res.count("ends_checked")
        for s in self.servers:
            for c in s.clients:
                self.check(c)

    # ---------------------------------------------------------------- actions
    def server(self):
        s = Server(len(self.servers) + 1, uuid(self.r), some_name(self.r) or "s")
        s.may_stop = False
        self.servers.append(s)
        self.lib.cmd("srv new %d %s %s tcp" % (s.n, s.uid, hx(s.name.encode())))
        self.start(s)

    def start(self, s):
        self.lib.cmd("srv start %d %s" % (s.n, self.url(False)))
        s.started, s.since = True, self.t
        if not self.until(lambda: s.running):
            self.fail("unreachable", "library server does not register", {"C23", "C20", "C09"})
        s.may_stop = False

    def client(self, s):
        r = self.r
        kind = r.choice(["tcp", "ws"])
        c = Client(len(self.clients) + 1, kind, s, uuid(r), some_name(r) or "c")
        self.clients.append(c)
        s.clients.append(c)
        self.lib.cmd("rc new %d %s %s %s" % (c.oid, c.uid, hx(c.name.encode()), kind))
        self.lib.cmd("rc connect %d %s %s" % (c.oid, self.url(kind == "ws"), s.uid))
        if not self.until(lambda: c.remote and c.sid is not None):
            self.fail("register", "client %d is not connected: remote %s, socket object %s" % (c.oid, c.remote, c.sid), {"C21", "C20", "C09"})

    def stranger(self):
        """A client whose server does not exist."""
        r = self.r
        kind = r.choice(["tcp", "ws"])
        c = Client(len(self.clients) + 1, kind, None, uuid(r), "c")
        self.clients.append(c)
        self.lib.cmd("rc new %d %s %s %s" % (c.oid, c.uid, hx(b"c"), kind))
        self.lib.cmd("rc connect %d %s %s" % (c.oid, self.url(kind == "ws"), uuid(r)))
        self.until(lambda: self.lib.cmd("rc state %d" % c.oid).startswith("7 0"))
        if not self.lib.cmd("rc state %d" % c.oid).startswith("7 0") or c.remote:
            self.fail("remote", "client of an unknown server: %s %s" % (self.lib.cmd("rc state %d" % c.oid), c.remote), {"C21", "C09"})
        self.res.count("refusals")

    def data(self):
        r = self.r
        cs = [c for s in self.servers for c in s.clients]
        for _ in range(r.choice([1, 2, 6])):
            c = r.choice(cs)
            if c.kind == "ws":
                p = ("." + "".join(r.choice(["a", "\n", "}", "\u20ac", "\0", "\u00c0", "\U0001F600"]) for _ in range(r.choice([1, 20, 2000])))).encode()
            else:
                p = r.choice([r.randbytes(r.choice([1, 50, 5000, 100000])), bytes(r.choice([0xC0, 0xDB, 0xDC, 0, 10]) for _ in range(r.randrange(1, 50)))])
            if r.random() < 0.5:
                c.fro += p
                if self.lib.cmd("rc send %d %s" % (c.oid, p.hex())) != "1":
                    self.fail("send", "data refused", {"C21"})
            else:
                c.to += p
                self.lib.cmd("srv write %d %d %s" % (c.server.n, c.sid, p.hex()))
        self.until(lambda: all(len(c.got_fro) >= len(c.fro) and len(c.got_to) >= len(c.to) for c in cs))
        for c in cs:
            self.check(c)

    def run(self):
        r = self.r
        self.server()
        self.client(self.servers[0])
        long = 1 if self.case["long"] else 0
        for _ in range(self.case["ops"]):
            alive = [s for s in self.servers if s.started]
            cs = [c for s in self.servers for c in s.clients]
            x = r.random()
            if (x < 0.08 or not alive) and len(self.servers) < 4:
                self.server()
            elif x < 0.28 and len(cs) < 10 and alive:
                self.client(r.choice(alive))
            elif x < 0.32:
                self.stranger()
            elif x < 0.62 and cs:
                self.data()
            elif x < 0.70 and cs:
                c = r.choice(cs)
                how = r.choice(["disc", "del", "kick"])
                if how == "kick":
                    self.lib.cmd("srv kick %d %d" % (c.server.n, c.sid))
                    self.over([c], how)
                elif how == "disc":
                    self.lib.cmd("rc disc %d" % c.oid)
                    self.over([c], how)
                else:
                    self.lib.cmd("rc del %d" % c.oid)
                    c.remote.append("0")
                    self.over([c], how)
            elif x < 0.75 and alive:
                s = r.choice(alive)
                s.started, s.may_stop = False, True
                self.lib.cmd("srv stop %d" % s.n)
                self.over(list(s.clients), "stop")
                if r.random() < 0.7:
                    self.start(s)
            elif x < 0.79 and alive:
                # the proxy goes away and comes back
                for s in alive:
                    s.may_stop = True
                self.k.h.cmd("stop")
                self.up = False
                self.over(cs, "proxy")
                self.go(r.choice([1000, 7000, 20000]))
                self.k.h.cmd("start " + self.k.conf.path)
                self.up, self.up_since = True, self.t
                self.go(6000)
                for s in alive:
                    if not s.running:
                        self.fail("unreachable", "server %d is not registered after the proxy came back" % s.n, {"C23"})
                    s.may_stop = False
                self.res.count("proxy_restarts")
            elif x < 0.86 and cs:
                # traffic in one direction only
                c = r.choice(cs)
                for _ in range(5):
                    p = r.choice([b"x", b"y" * 30])
                    if x < 0.825:
                        c.fro += p
                        self.lib.cmd("rc send %d %s" % (c.oid, p.hex()))
                    else:
                        c.to += p
                        self.lib.cmd("srv write %d %d %s" % (c.server.n, c.sid, p.hex()))
                    self.go(r.choice([20000, 29000, 31000]), 1000)
                self.check(c)
            elif long and x < 0.9:
                self.go(600000, 1000)
                long = 0
                self.res.count("idle_minutes", 10)
            else:
                self.go(r.choice([1000, 11000, 65000]))
            for s in self.servers:
                if s.started and not s.running:
                    self.fail("lost", "library server %d is not running" % s.n, {"C23", "C20"})
                for c in s.clients:
                    self.check(c)
        self.lib.h.quit()
        self.k.end()

    def kill(self):
        self.lib.kill()
        self.k.kill()


def run(res, case):
    x = Run(res, case)
    try:
        x.run()
    finally:
        x.kill()
    res.samples.append({"driver": "coupled", "case": case})

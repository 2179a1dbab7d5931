"""The server-side library against a proxy played by the check: sockets, payload, notifications, what it sends."""
import json
import random

import model as M
from fakeproxy import LibKit, compact, cuts, hx, unhx

C20 = {"C20"}
RUNNING, DISCONNECTED = "5", "7"


def cases(rng, tier):
    deep = tier == "deep"
    res = []
    for i in range(900 if deep else 240):
        res.append({"kind": "tls" if i % 3 == 2 else "tcp", "ops": 60 if not deep else 150, "hooks": i % 4 in (1, 3), "seed": rng.randrange(1 << 30)})
    for i, end in enumerate(["loss", "stop", "restart", "each"] * (6 if deep else 1)):
        res.append({"kind": "tls" if i % 3 == 2 else "tcp", "crowd": 5000 if deep and i >= 20 else 300, "end": end, "hooks": False, "seed": rng.randrange(1 << 30)})
    return res


def uuid(r):
    # of any version and variant
    return "{%08x-%04x-%04x-%04x-%012x}" % (r.randrange(1 << 32), r.randrange(1 << 16), r.choice([0x4000 | r.randrange(1 << 12), r.randrange(1 << 16)]), r.randrange(1 << 16), r.randrange(1, 1 << 48))


def some_name(r):
    return r.choice(["client", "", "N\u00e4me \u20ac", "a\"b\\c", "}\n{", "x" * 300, "tab\tnl\n", "\U0001F600", "name %1", "{}", "null"])


def payload(r):
    k = r.randrange(11)
    if k == 10:
        return bytes(r.choice(b" \n\r\t\0") for _ in range(r.choice([1, 2, 30])))
    if k == 0:
        return bytes([r.choice([0xC0, 0xDB, 0xDC, 0xDD])]) * r.randrange(1, 30)
    if k == 1:
        return bytes(r.choice([0xC0, 0xDB, 0xDC, 0xDD, 0x00, 0x0A, 0x41]) for _ in range(r.randrange(1, 60)))
    if k == 2:
        return r.randbytes(r.choice([1000, 16384, 70000]))
    if k == 3:
        return b'{"id":0,"status":"success","params":{"tunnelProxyError":"TunnelProxyErrorNoError"}}\n'
    if k == 4:
        return b'{"id":1,"notification":"TunnelProxy.ClientDisconnected","params":{"socketAddress":1}}\n'
    return r.randbytes(r.randrange(1, 200))


class Early(Exception):
    """The application stopped in a slot while connecting."""


class Rec:
    """One socket object that has to exist."""

    def __init__(self, addr, uuid, name, peer):
        self.addr, self.uuid, self.name, self.peer = addr, uuid, name, peer
        self.sid = None
        self.want = bytearray()
        self.got = bytearray()
        self.gone = False            # has to be reported as disconnected
        self.ends = [0, 0, 0]        # connected 0, sock disc, srv disc seen


class Run:
    def __init__(self, res, case):
        self.res, self.case = res, case
        self.r = random.Random(case["seed"])
        self.kind = case["kind"]
        self.k = LibKit(res, (self.kind,))
        self.l = self.k.listeners[self.kind]
        self.recs = []               # in the order of their connect notifications
        self.seen = 0                # how many of them have been reported
        self.by_sid = {}
        self.open = {}               # address -> Rec
        self.conn = None
        self.running = False
        self.want_running = []
        self.hooks = []              # armed: (event, action, arg)
        self.out = []                # frames which the library has to send
        self.unconfirmed = {}        # ids of requests without response
        self.pings = 0
        self.stopped = False
        self.deleted = False
        self.late = []
        self.time = 0

    LABELS = {"keepalive": {"C23"}, "out_id": {"C20", "C22"}, "stop": {"C20", "C23"}, "register": {"C20", "C23"}, "running": {"C20", "C23"}}

    def fail(self, kind, detail):
        self.k.fail(kind, detail, self.LABELS.get(kind, C20))

    # -------------------------------------------------------------- the model
    def gone(self, rec):
        rec.gone = True
        if self.open.get(rec.addr) is rec:
            del self.open[rec.addr]

    def all_gone(self):
        for rec in list(self.open.values()):
            self.gone(rec)
        if self.running:
            self.running = False
            self.want_running.append("0")

    def hook(self, event, rec):
        """What the application does when it sees the event; True when nothing after it is delivered."""
        for i, (e, a, arg) in enumerate(self.hooks):
            if e == event:
                del self.hooks[i]
                self.res.count("actions_in_slots")
                if a == "late":
                    self.late.append((rec.addr, b"A") if arg == "write" else (0, rec.addr))
                elif a == "stop":
                    self.stopped = True
                    self.all_gone()
                    return True
                if a == "restart":
                    self.all_gone()
                    self.restarted = True
                    return True
                if a == "write":
                    self.out.append((rec.addr, arg))
                elif a == "kick":
                    self.out.append((0, rec.addr))
                return False
        return False

    def apply(self, items):
        for it in items:
            what = it[0]
            if what == "conn":
                rec = it[1]
                self.recs.append(rec)
                self.open[rec.addr] = rec
                if self.hook("conn", rec):
                    return
            elif what == "data":
                rec = self.open.get(it[1])
                if rec is not None:
                    rec.want += it[2]
                    if self.hook("data", rec):
                        return
            elif what == "disc":
                rec = self.open.get(it[1])
                if rec is not None:
                    self.gone(rec)
                    if self.hook("sockdisc", rec):
                        return
                    if self.hook("disc", rec):
                        return
            elif what == "running":
                if self.hook("state5", None):
                    return
                self.running = True
                self.want_running.append("1")
                if self.hook("running1", None):
                    return

    # -------------------------------------------------------------- observation
    def check_events(self):
        runs = []
        for e in self.k.take():
            if e[0] == "srv":
                if e[2] == "conn":
                    sid, addr, uid, name, peer, connected = e[3], int(e[4]), e[5], unhx(e[6]).decode(), e[7], e[8]
                    if self.seen >= len(self.recs):
                        self.fail("sock_extra", "a socket object for %#06x (%s) without a connect notification" % (addr, name))
                    rec = self.recs[self.seen]
                    self.seen += 1
                    if (addr, M.parse_uuid(uid), name, "" if peer == "-" else peer, connected) != (rec.addr, M.parse_uuid(rec.uuid), rec.name, rec.peer, "1"):
                        self.fail("sock_value", "socket object %s, notified was %s" % (e[3:], (rec.addr, rec.uuid, rec.name, rec.peer)))
                    rec.sid = sid
                    self.by_sid[sid] = rec
                    self.res.count("sockets")
                elif e[2] == "disc":
                    self.ended(e[3], 2)
                elif e[2] == "running":
                    runs.append(e[3])
            elif e[0] == "sock":
                rec = self.by_sid.get(e[2])
                if rec is None:
                    self.fail("sock_extra", "signal of an unknown socket object %s" % e)
                if e[3] == "data":
                    if rec.ends != [0, 0, 0]:
                        self.fail("sock_data", "data on a disconnected socket object %#06x" % rec.addr)
                    rec.got += unhx(e[4])
                    self.res.count("data_signals")
                elif e[3] == "connected":
                    self.ended(e[2], 0, e[4])
                elif e[3] == "disc":
                    self.ended(e[2], 1, e[4])
        if self.deleted:
            return
        if self.seen != len(self.recs):
            self.fail("sock_missing", "%d socket objects for %d connect notifications, missing %s" % (self.seen, len(self.recs), [(x.addr, x.name) for x in self.recs[self.seen:]][:3]))
        for rec in self.recs:
            if rec.got != rec.want:
                self.fail("sock_data", "socket object %#06x delivered %s instead of %s" % (rec.addr, clip(rec.got), clip(rec.want)))
            if rec.ends != ([1, 1, 1] if rec.gone else [0, 0, 0]):
                self.fail("sock_end", "socket object %#06x (%s): ends reported %s times, it is %s" % (rec.addr, rec.name, rec.ends, "disconnected" if rec.gone else "connected"))
            if rec.gone:
                self.res.count("ends_checked")
        self.recs = [x for x in self.recs if not x.gone]
        self.seen = len(self.recs)
        for x in self.recs:
            self.res.count("payload_bytes_checked", len(x.got))
            x.got.clear()
            x.want.clear()
        if runs != self.want_running:
            self.fail("running", "running changed to %s instead of %s" % (runs, self.want_running))
        self.want_running = []
        st = self.k.cmd("srv state 1").split()
        if (st[1] == "1") != self.running or (st[0] == RUNNING) != self.running:
            self.fail("running", "state %s running %s though it %s registered" % (st[0], st[1], "is" if self.running else "is not"))

    def ended(self, sid, i, connected="0"):
        rec = self.by_sid.get(sid)
        if rec is None:
            self.fail("sock_extra", "end of an unknown socket object")
        if connected != "0":
            self.fail("sock_end", "socket object %#06x says it is connected while reporting its end" % rec.addr)
        rec.ends[i] += 1
        if rec.ends[i] > 1 or not rec.gone:
            self.fail("sock_end", "unexpected end of socket object %#06x (%s)" % (rec.addr, rec.ends))

    def check_out(self):
        """Frames of the library."""
        c = self.conn
        if c is None or self.deleted:
            return
        while True:
            i = c.rx.find(b"\xc0")
            if i < 0:
                break
            f = M.slip_decode(bytes(c.rx[:i]))
            del c.rx[:i + 1]
            if f is None or len(f) < 2:
                self.fail("out_frame", "malformed frame from the library")
            a, p = f[0] << 8 | f[1], f[2:]
            self.res.count("library_frames")
            if a == 0:
                try:
                    m = json.loads(p)
                except ValueError:
                    self.fail("out_frame", "request frame is not JSON: %r" % p[:200])
                if m.get("id") in self.unconfirmed:
                    self.fail("out_id", "request id %r is used for two outstanding requests" % m.get("id"))
                self.unconfirmed[m.get("id")] = m
                if m.get("method") == "TunnelProxy.Ping":
                    self.pings += 1
                    continue
                if m.get("method") != "TunnelProxy.DisconnectClient":
                    self.fail("out_frame", "unexpected request %s" % m)
                got = (0, m["params"].get("socketAddress"))
            else:
                got = (a, p)
            if got in self.late and (not self.out or got != self.out[0]):
                self.late.remove(got)
                continue
            if not self.out:
                self.fail("out_frame", "frame nobody asked for: %#06x %s" % (a, clip(p)))
            want = self.out.pop(0)
            if got != want:
                self.fail("out_frame", "frame %#06x %s instead of %#06x %s" % (got[0], clip(got[1]), want[0], clip(want[1])))
        if c.rx and not c.closed:
            self.fail("out_frame", "incomplete frame from the library: %s" % clip(bytes(c.rx)))
        if self.out and not c.closed and not self.stopped:
            self.fail("out_frame", "frame for %#06x (%s) was not sent" % (self.out[0][0], clip(self.out[0][1])))
        self.out = [] if c.closed else self.out

    def check(self):
        self.k.quiet()
        self.check_events()
        self.check_out()

    # -------------------------------------------------------------- actions
    def request(self, method):
        """The next request line of the library."""
        c = self.conn
        if self.hooks and self.hooks[0][0] in ("state2", "state3", "state4"):
            self.k.until(lambda: b"\n" in c.rx or c.closed or self.slot_stop())
            self.k.quiet()
            if self.slot_stop():
                self.hooks.clear()
                self.stopped = True
                self.res.count("stopped_while_connecting")
                raise Early
        if not self.k.until(lambda: b"\n" in c.rx or c.closed) or b"\n" not in c.rx:
            self.fail("register", "no %s request on the connection" % method)
        i = c.rx.index(b"\n")
        l = bytes(c.rx[:i])
        del c.rx[:i + 1]
        m = json.loads(l)
        if m.get("method") != method:
            self.fail("register", "%s instead of %s" % (m, method))
        if c.rx:
            self.fail("register", "more than the %s request: %r" % (method, bytes(c.rx[:100])))
        return m

    def slot_stop(self):
        return any(e[2] == "hook" and e[3].startswith("state") for e in self.k.events)

    def early_hook(self):
        if self.case["hooks"] and not self.hooks and self.r.random() < 0.3:
            e = self.r.choice(["state2", "state3", "state4", "state5", "running1"])
            self.hooks.append((e, "stop", ""))
            self.k.cmd("srv hook 1 %s stop -" % e)

    def stream(self, data, dense=False):
        """To the library in pieces of any size."""
        for p in self.conn.pieces(data, cuts(self.r, len(data), dense)):
            if self.conn.closed or self.conn.s is None:
                return
            self.conn.send(p)
            if self.r.random() < 0.8:
                self.k.step()

    def await_conn(self):
        old, self.conn = self.conn, None
        live = lambda: [c for c in self.l.conns if c is not old and c.s is not None and not c.closed and not c.local_closed and c.ready]
        if not self.k.until(lambda: len(live()) > 0 or self.slot_stop()):
            self.fail("register", "no connection to the proxy")
        if not live():
            self.k.quiet()
            if not live():
                return     # stopped before the connection was there
        if len(live()) > 1:
            self.fail("register", "%d connections to the proxy at once" % len(live()))
        self.conn = live()[0]
        self.unconfirmed = {}

    def reply(self, m, params=None, error=None):
        o = {"id": m["id"], "status": "success" if error is None else "error"}
        if params is not None:
            o["params"] = params
        if error is not None:
            o["error"] = error
        return compact(self.r, o) + b"\n"

    def handshake(self, result="ok"):
        """Hello and registration; what follows the registration response is already framed."""
        try:
            if self.conn is None:
                self.hooks.clear()
                self.stopped = True
                raise Early
            self._handshake(result)
        except Early:
            self.check_after()

    def _handshake(self, result):
        r = self.r
        h = self.request("RemoteProxy.Hello")
        hello = {"server": "nymea-remoteproxy", "name": some_name(r), "version": "1.13.0", "apiVersion": "0.7"}
        if result == "hello_error":
            self.stream(self.reply(h, None, "no"))
            return self.refused()
        self.stream(self.reply(h, hello))
        g = self.request("TunnelProxy.RegisterServer")
        if M.parse_uuid(g["params"].get("serverUuid")) != M.parse_uuid(self.uuid) or g["params"].get("serverName") != self.name:
            self.fail("register", "registers as %s" % g)
        if result == "error":
            self.stream(self.reply(g, None, "bad"))
            return self.refused()
        if result == "taken":
            self.stream(self.reply(g, {"tunnelProxyError": r.choice(["TunnelProxyErrorAlreadyRegistered", "TunnelProxyErrorInternalServerError", "TunnelProxyErrorInvalidUuid"])}))
            return self.refused()
        data = self.reply(g, {"tunnelProxyError": "TunnelProxyErrorNoError"})
        items = [("running",)]
        for _ in range(r.choice([0, 0, 1, 4])):
            d, it = self.item()
            data += d
            items.append(it)
        self.pending = {}
        self.restarted = False
        self.apply(items)
        self.stream(data, dense=len(data) < 600 and r.random() < 0.3)
        self.check_after()
        self.res.count("registrations")

    def refused(self):
        self.k.until(lambda: self.conn.closed)
        if not self.conn.closed:
            self.fail("register", "the connection stays open after a refused registration")
        self.check_events()
        if self.k.cmd("srv state 1").split()[0] != DISCONNECTED:
            self.fail("register", "not disconnected after a refused registration")
        self.conn = None
        self.res.count("refusals")

    def check_after(self):
        """After the application possibly stopped or restarted in a slot."""
        if self.stopped:
            self.k.until(lambda: self.conn is None or self.conn.closed)
            if self.conn is not None and not self.conn.closed:
                self.fail("stop", "the connection stays open after stopping")
            self.k.quiet()
            self.check_events()
            self.conn = None
            self.out = []
        elif getattr(self, "restarted", False):
            self.k.quiet()
            self.check_events()
            self.out = []
            self.restarted = False
            self.await_conn()
            self.handshake()
        else:
            self.check()

    pending = {}

    def item(self):
        """Bytes of the proxy and what they mean; self.pending are addresses notified but not applied yet."""
        r = self.r
        have = {**self.open, **{a: x for a, x in self.pending.items()}}
        have = {a: x for a, x in have.items() if x is not None}
        k = r.choice(["conn"] * (3 if len(have) < 12 else 0) + ["data"] * 6 + ["disc"] * 2 + ["unknown", "end", "malformed", "unknown_disc", "answer"])
        if not have and k in ("data", "disc"):
            k = "conn"
        if k == "conn":
            while True:
                a = r.choice([1, 0xFFFF, 0xC0C0, 0xDBDC, 0x00C0, 0xDB00, r.randrange(1, 65536)])
                if a not in have:
                    break
            rec = Rec(a, uuid(r), some_name(r), r.choice(["127.0.0.1", "192.168.1.77", "::1", "fe80::1", ""]))
            self.pending[a] = rec
            o = {"id": r.randrange(100), "notification": "TunnelProxy.ClientConnected", "params": {"clientName": rec.name, "clientUuid": r.choice([rec.uuid, rec.uuid[1:-1]]), "clientPeerAddress": rec.peer, "socketAddress": a}}
            return M.frame(0, compact(r, o) + b"\n"), ("conn", rec)
        if k == "data":
            a = r.choice(list(have))
            p = payload(r)
            return M.frame(a, p), ("data", a, p)
        if k == "disc":
            a = r.choice(list(have))
            self.pending[a] = None
            return M.frame(0, compact(r, {"id": r.randrange(100), "notification": "TunnelProxy.ClientDisconnected", "params": {"socketAddress": a}}) + b"\n"), ("disc", a)
        if k == "unknown":
            while True:
                a = r.randrange(1, 65536)
                if a not in have:
                    return M.frame(a, payload(r)), ("none",)
        if k == "unknown_disc":
            while True:
                a = r.randrange(1, 65536)
                if a not in have:
                    return M.frame(0, compact(r, {"id": 3, "notification": "TunnelProxy.ClientDisconnected", "params": {"socketAddress": a}}) + b"\n"), ("none",)
        if k == "malformed":
            return r.choice([b"\x01\x02\xdb\x00abc\xc0", b"\x00\x01abc\xdb\xc0"]), ("none",)
        if k == "answer" and self.unconfirmed:
            i = r.choice(list(self.unconfirmed))
            m = self.unconfirmed.pop(i)
            par = {"timestamp": m["params"].get("timestamp")} if m["method"].endswith("Ping") else {"tunnelProxyError": r.choice(["TunnelProxyErrorNoError", "TunnelProxyErrorUnknownSocketAddress"])}
            return M.frame(0, self.reply(m, par)), ("none",)
        return b"\xc0" * r.randrange(1, 4), ("none",)

    def arm(self):
        r = self.r
        e = r.choice(["conn", "data", "sockdisc", "disc", "conn", "data", "running1"])
        a = r.choice(["stop", "stop", "restart", "write", "write", "kick"])
        if a in ("write", "kick") and e not in ("conn", "data"):
            # what is sent for a client which is gone does not matter
            if e == "sockdisc":
                self.hooks.append((e, "late", a))
                self.k.cmd("srv hook 1 %s %s %s" % (e, a, "41"))
            return
        if a == "restart" and e not in ("conn", "data"):
            return
        arg = payload(r) if a == "write" else self.l.url() if a == "restart" else "-"
        if self.hooks:
            return
        self.hooks.append((e, a, arg))
        self.k.cmd("srv hook 1 %s %s %s" % (e, a, hx(arg) if a == "write" else arg))

    def start(self):
        self.stopped = False
        self.early_hook()
        self.k.cmd("srv start 1 " + self.l.url())
        self.await_conn()

    def run(self):
        r, k = self.r, self.k
        self.uuid, self.name = uuid(r), some_name(r)
        k.cmd("srv new 1 %s %s tcp" % (self.uuid, hx(self.name.encode())))
        self.start()
        first = r.choice(["ok", "ok", "ok", "error", "taken", "hello_error"])
        self.handshake(first)
        for _ in range(self.case["ops"]):
            if self.conn is None and self.stopped:
                self.res.count("stops")
                self.start()
                self.handshake()
                continue
            if self.conn is None:
                k.adv(6000)
                self.time += 6000
                self.await_conn()
                self.handshake(r.choice(["ok", "ok", "ok", "ok", "taken"]))
                continue
            x = r.random()
            if self.case["hooks"] and x < 0.15:
                self.arm()
            elif x < 0.62:
                self.pending = {}
                data, items = b"", []
                for _ in range(r.choice([1, 1, 2, 5, 12])):
                    d, it = self.item()
                    data += d
                    items.append(it)
                self.restarted = False
                self.apply(items)
                self.stream(data)
                self.check_after()
            elif x < 0.85 and self.open:
                for _ in range(r.choice([1, 1, 3, 10])):
                    rec = r.choice(list(self.open.values()))
                    p = payload(r)
                    self.out.append((rec.addr, p))
                    k.cmd("srv write 1 %s %s" % (rec.sid, p.hex()))
                self.check()
            elif x < 0.89 and self.open:
                rec = r.choice(list(self.open.values()))
                self.out.append((0, rec.addr))
                k.cmd("srv kick 1 %s" % rec.sid)
                self.check()
            elif x < 0.92:
                t = r.choice([1000, 30000, 31000, 65000])
                self.pings = 0
                k.adv(t, 500)
                self.time += t
                self.check()
                if t == 65000 and not self.pings:
                    self.fail("keepalive", "nothing was sent for 65 s")
            elif x < 0.95:
                # the connection is lost, perhaps in the middle of a frame
                how = r.choice(["fin", "rst"])
                self.cut_frame()
                self.hooks_clear()
                self.conn.close(how)
                k.quiet()
                self.all_gone()
                self.out = []
                self.check_events()
                self.conn = None
                self.res.count("losses")
            elif x < 0.965:
                self.hooks_clear()
                self.cut_frame()
                self.stopped = True
                self.all_gone()
                k.cmd("srv stop 1")
                self.check_after()
            elif x < 0.98:
                # starting once more
                self.hooks_clear()
                self.cut_frame()
                self.all_gone()
                old = self.conn
                self.start()
                k.until(lambda: old.closed)
                self.check_events()
                self.out = []
                self.handshake()
        self.hooks_clear()
        if self.conn is not None and r.random() < 0.5:
            k.cmd("srv del 1")
            self.deleted = True
            c = self.conn
            k.until(lambda: c.closed)
            if not c.closed:
                self.fail("stop", "the connection stays open after the library object was deleted")
        k.end()

    def run_crowd(self):
        """Hundreds of sockets at once, over the whole range of addresses."""
        r, k = self.r, self.k
        self.uuid, self.name = uuid(r), some_name(r)
        k.cmd("srv new 1 %s %s tcp" % (self.uuid, hx(self.name.encode())))
        self.start()
        self.handshake()
        n = self.case["crowd"]
        addrs = {1, 2, 0xC0, 0xDB, 0xC0C0, 0xDBDB, 0xC0DB, 0xDBDD, 0xDBDC, 0x7FFF, 0x8000, 0x8001, 0xFF, 0x100, 0x101, 0xFFFE, 0xFFFF}
        while len(addrs) < n:
            addrs.add(r.randrange(1, 65536))
        addrs = [a for a in addrs if a not in self.open]
        r.shuffle(addrs)

        def deliver(some):
            self.apply([i for _, i in some])
            self.conn.send(b"".join(d for d, _ in some))
            self.check()

        def note(method, par):
            return M.frame(0, compact(r, {"id": r.randrange(100), "notification": "TunnelProxy." + method, "params": par}) + b"\n")
        for i in range(0, len(addrs), 50):
            some = []
            for a in addrs[i:i + 50]:
                rec = Rec(a, uuid(r), "client %d" % a, "10.0.%d.%d" % (a >> 8, a & 255))
                some.append((note("ClientConnected", {"clientName": rec.name, "clientUuid": rec.uuid, "clientPeerAddress": rec.peer, "socketAddress": a}), ("conn", rec)))
            deliver(some)
        self.res.count("crowds")
        for turn in range(2):
            live = list(self.open)
            r.shuffle(live)
            some = []
            for a in live:
                p = b"%d:" % a + r.randbytes(r.randrange(0, 20))
                some.append((M.frame(a, p), ("data", a, p)))
            deliver(some)
            # and for addresses which resemble those
            some = []
            for a in live[:60]:
                for b in (a ^ 0x8000, a ^ 0x100, (a & 255) << 8 | a >> 8, a & 255, a ^ 1):
                    if b and b not in self.open:
                        some.append((M.frame(b, b"nobody"), ("none",)))
            deliver(some)
            for a in live:
                p = b"%d>" % a
                self.out.append((a, p))
                k.cmd("srv write 1 %s %s" % (self.open[a].sid, p.hex()))
            self.check()
            if turn == 0:
                deliver([(note("ClientDisconnected", {"socketAddress": a}), ("disc", a)) for a in live[:len(live) // 4]])
        self.all_gone() if self.case["end"] != "each" else None
        if self.case["end"] == "loss":
            self.conn.close("rst")
            k.quiet()
            self.check_events()
        elif self.case["end"] == "stop":
            self.stopped = True
            k.cmd("srv stop 1")
            self.check_after()
        elif self.case["end"] == "restart":
            old = self.conn
            self.start()
            k.until(lambda: old.closed)
            self.check_events()
            self.out = []
            self.handshake()
        else:
            deliver([(note("ClientDisconnected", {"socketAddress": a}), ("disc", a)) for a in list(self.open)])
        k.end()

    def cut_frame(self):
        """The beginning of a frame which the end of the connection cuts off."""
        r = self.r
        if r.random() < 0.5 and self.open:
            self.conn.send(M.frame(r.choice(list(self.open)), payload(r))[:-1])
            self.k.quiet()
            self.res.count("cut_frames")

    def hooks_clear(self):
        self.hooks = []
        self.k.cmd("srv hook 1 clear")


def clip(b):
    if not isinstance(b, (bytes, bytearray)):
        return repr(b)
    return repr(bytes(b[:60])) + ("..(%d)" % len(b) if len(b) > 60 else "")


def run(res, case):
    x = Run(res, case)
    try:
        x.run_crowd() if case.get("crowd") else x.run()
    finally:
        x.k.kill()
    res.samples.append({"driver": "libserver", "case": case})

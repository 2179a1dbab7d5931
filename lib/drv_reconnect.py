"""The server-side library over time against a proxy which comes and goes: reachable again, never twice, never after being stopped."""
import errno
import json
import random

import model as M
from fakeproxy import LibKit, compact, hx
from drv_libserver import some_name, uuid

C23 = {"C23"}
STEP = 250
RETRY = 5000 + 250 + 2 * STEP     # the interval, the tolerance of coarse timers, the resolution of this check
MODES = ["serve", "serve", "serve", "shut", "slam", "junk", "mute", "refuse_reg", "taken", "refuse_hello", "drop_hello", "drop_reg", "drop_after", "offline"]


def cases(rng, tier):
    deep = tier == "deep"
    kinds = ["tcp", "tls", "ws", "wss"]
    return [{"kind": kinds[i % 4], "phases": 60 if deep else 24, "seed": rng.randrange(1 << 30)} for i in range(480 if deep else 96)]


class Run:
    def __init__(self, res, case):
        self.res, self.case = res, case
        self.r = random.Random(case["seed"])
        self.kind = case["kind"]
        self.k = LibKit(res, (self.kind,))
        self.l = self.k.listeners[self.kind]
        self.mode = "serve"
        self.t = 0
        self.since = 0           # since when the proxy is reachable and the library knows of no connection
        self.started = False
        self.quiet_since = 0     # last bytes from the library on the registered connection
        self.reg = None          # the registered connection
        self.attempts = 0

    def fail(self, kind, detail):
        self.k.fail(kind, "%s at %d ms, proxy %s: %s" % (self.kind, self.t, self.mode, detail), C23)

    def live(self):
        return [c for c in self.l.conns if c.s is not None and not c.closed and not c.local_closed]

    def stage(self, c):
        return getattr(c, "stage", 0)

    def serve(self):
        """What the proxy does with what it got."""
        moved = False
        for c in self.live():
            if self.mode in ("mute", "hold") and self.stage(c) < 2:
                continue
            if not c.ready:
                continue
            while self.stage(c) < 2 and b"\n" in c.rx:
                i = c.rx.index(b"\n")
                m = json.loads(bytes(c.rx[:i]))
                del c.rx[:i + 1]
                moved = True
                c.stage = self.stage(c) + 1
                want = "RemoteProxy.Hello" if c.stage == 1 else "TunnelProxy.RegisterServer"
                if m.get("method") != want:
                    self.fail("register", "%s instead of %s" % (m, want))
                name = "hello" if c.stage == 1 else "reg"
                ok = {"server": "s", "name": some_name(self.r), "version": "1", "apiVersion": "0.7"} if c.stage == 1 else {"tunnelProxyError": "TunnelProxyErrorNoError"}
                if self.mode == "drop_" + name:
                    c.close(self.r.choice(["fin", "rst"]))
                    break
                if self.mode == "refuse_" + name:
                    c.send(compact(self.r, {"id": m["id"], "status": "error", "error": "no"}) + b"\n")
                    break
                if self.mode == "taken" and c.stage == 2:
                    c.send(compact(self.r, {"id": m["id"], "status": "success", "params": {"tunnelProxyError": "TunnelProxyErrorAlreadyRegistered"}}) + b"\n")
                    break
                c.send(compact(self.r, {"id": m["id"], "status": "success", "params": ok}) + b"\n")
                if c.stage == 2:
                    self.res.count("registrations")
                    self.reg = c
                    self.quiet_since = self.t
                    if self.mode == "drop_after":
                        c.close(self.r.choice(["fin", "rst"]))
                        self.reg = None
            if self.stage(c) == 2 and c.rx:
                self.quiet_since = self.t
                self.res.count("keepalive_bytes", len(c.rx))
                c.rx.clear()
        return moved

    def settle(self):
        while True:
            self.k.quiet()
            if not self.serve():
                break
        if self.reg is not None and self.reg not in self.live():
            self.reg = None
        if len(self.live()) > 1:
            self.fail("parallel", "%d connections to the proxy at once" % len(self.live()))

    def running(self):
        return self.k.cmd("srv state 1").split()[1] == "1"

    def watch(self):
        if not self.started:
            if self.l.accepted != self.attempts:
                self.fail("after_stop", "a connection attempt after the server was stopped")
            if self.live():
                self.fail("after_stop", "the connection stays open after the server was stopped")
            if self.running():
                self.fail("after_stop", "running after having been stopped")
            return
        run = self.running()
        if run != (self.reg is not None):
            self.fail("running", "running is %s, the proxy %s" % (run, "has it registered" if self.reg is not None else "does not"))
        if self.reg is not None:
            self.since = self.t
            if self.t - self.quiet_since >= 60000 - 2 * STEP:
                self.fail("keepalive", "nothing sent for %d ms while registered" % (self.t - self.quiet_since))
        elif self.mode == "serve":
            if self.t - self.since > RETRY:
                self.fail("unreachable", "not registered though the proxy is reachable since %d ms" % (self.t - self.since))
        else:
            self.since = self.t

    def go(self, ms, traffic=None):
        end = self.t + ms
        half = None
        if self.reg is not None and self.kind in ("tcp", "tls") and self.r.random() < 0.25:
            # a frame of which the rest comes much later, or never
            f = M.frame(self.r.choice([0, 7, 999]), self.r.randbytes(30))
            half = self.reg, f[9:]
            self.reg.send(f[:9])
            self.res.count("frames_in_two_halves")
            traffic = traffic if traffic == "send" else None
        while self.t < end:
            self.k.h.cmd("A %d %d" % (STEP, STEP))
            self.t += STEP
            if traffic and self.reg is not None and self.r.random() < 0.2:
                self.traffic(traffic)
            self.settle()
            self.watch()
        if half is not None and half[0] is self.reg:
            self.reg.send(half[1])
        self.res.count("watched_seconds", ms // 1000)

    def real(self):
        """Name lookups and TLS need some real time."""
        for _ in range(4):
            self.k.h.cmd("W 5")
            self.settle()

    sid = 0

    def traffic(self, what):
        if self.kind in ("ws", "wss"):
            return
        if what == "receive":
            self.reg.send(M.frame(7, self.r.randbytes(20)))
            self.res.count("received_frames")
        elif what == "send" and self.sid:
            self.k.cmd("srv write 1 %d %s" % (self.sid, "616263"))
            self.res.count("sent_frames")
        else:
            self.reg.send(M.frame(0, compact(self.r, {"id": 0, "notification": "TunnelProxy.ClientConnected", "params": {"clientName": "x", "clientUuid": uuid(self.r), "clientPeerAddress": "::1", "socketAddress": 7 + self.r.randrange(9)}}) + b"\n"))
            self.settle()
            for e in self.k.take():
                if e[0] == "srv" and e[2] == "conn":
                    self.sid = int(e[3])

    def set_mode(self, m):
        r = self.r
        old, self.mode = self.mode, m
        self.l.how = m if m in ("slam", "junk", "hold") else "serve"
        if m == "shut":
            self.l.shut()
        else:
            self.l.open()
        if "offline" in (m, old):
            # every connection attempt fails at once, within the call
            self.k.cmd("N %d" % (r.choice([errno.ENETUNREACH, errno.EHOSTUNREACH, errno.ECONNREFUSED, errno.EACCES]) if m == "offline" else 0))
        if old in ("mute", "hold") or m in ("shut", "offline") or self.reg is None or r.random() < 0.5:
            # the proxy goes away or what it did not answer is over
            for c in self.live():
                c.close(r.choice(["fin", "rst"]))
                self.res.count("losses")
        self.settle()
        self.since = self.t
        self.res.count("mode_" + m)

    def run(self):
        r, k = self.r, self.k
        k.cmd("srv new 1 %s %s %s" % (uuid(r), hx(b"srv"), "ws" if self.kind in ("ws", "wss") else "tcp"))
        modes = MODES + (["hold"] * 2 if self.kind != "tcp" else [])
        for _ in range(self.case["phases"]):
            x = r.random()
            if not self.started and x < 0.8:
                if r.random() < 0.15:
                    self.set_mode("offline")
                k.cmd("srv start 1 " + self.l.url())
                self.started = True
                self.since = self.t
                if r.random() < 0.7:
                    self.real()
            elif self.started and x < 0.14:
                # at any moment of connecting
                if r.random() < 0.4:
                    k.h.cmd("A %d 10" % r.choice([1, 4990, 5000, 5010, 5100]))
                    for _ in range(r.randrange(4)):
                        k.step()
                k.cmd("srv stop 1")
                self.started = False
                self.sid = 0
                self.settle()
                self.real()
                for c in self.live():
                    if not c.ready:
                        # nobody ends the held handshake but the proxy
                        c.close("fin")
                self.attempts = self.l.accepted
                self.res.count("stops")
                if r.random() < 0.6:
                    self.go(r.choice([6000, 12000, 62000]))
                continue
            elif self.started and x < 0.2:
                self.sid = 0
                k.cmd("srv start 1 " + self.l.url())
                self.settle()
                self.real()
                self.since = self.t
                self.res.count("started_again")
            elif x < 0.7:
                self.set_mode(r.choice(modes))
                self.sid = 0
            elif self.reg is not None and x < 0.85:
                self.reg.close(r.choice(["fin", "rst"]))
                self.sid = 0
                self.res.count("losses")
                self.settle()
                self.since = self.t
            self.go(r.choice([1000, 4000, 6000, 6000, 13000, 30000, 75000, 130000]), r.choice([None, None, "receive", "send", "both"]))
        self.set_mode("serve")
        if self.started:
            self.go(7000)
            if self.reg is None:
                self.fail("unreachable", "not registered at the end")
        k.end()


def run(res, case):
    x = Run(res, case)
    try:
        x.run()
    finally:
        x.k.kill()
    res.samples.append({"driver": "reconnect", "case": case})

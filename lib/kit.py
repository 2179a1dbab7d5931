"""Helpers for drivers which talk to a proxy process without the lockstep model."""
import json
import time

import model as M
import peers as P
import sim
import vbuild
from hproc import Crash

CLASSES = {"tcp": P.TcpPeer, "tls": P.TlsPeer, "ws": P.WsPeer, "wss": P.WssPeer}


def uuid(n):
    return "{%08x-0000-4000-8000-%012x}" % (n, n)


def req(method, params=None, id=1):
    o = {"id": id, "method": method}
    if params is not None:
        o["params"] = params
    return json.dumps(o).encode() + b"\n"


def reg_server(n, name="s", id=1):
    return req("TunnelProxy.RegisterServer", {"serverName": name, "serverUuid": uuid(n)}, id)


def reg_client(n, server, name="c", id=1):
    return req("TunnelProxy.RegisterClient", {"clientName": name, "clientUuid": uuid(n), "serverUuid": uuid(server)}, id)


class Kit:
    def __init__(self, res, ssl=False, real=False, **kw):
        self.res = res
        if kw.pop("valgrind", False):
            import drv_memcheck
            kw["prefix"] = drv_memcheck.VALGRIND
        self.w = sim.World(vbuild.ensure("plain" if "prefix" in kw else "asan"), ssl=ssl, fakes=kw.pop("fakes", 0), **kw)
        self.h = self.w.h
        self.conf = self.w.conf
        self.peers = []

    def fail(self, kind, detail, labels, who=""):
        raise sim.Divergence(kind, who, detail, labels)

    def peer(self, kind, wait=True, **kw):
        c = self.conf
        if kind == "unix":
            p = P.UnixPeer(c.unix)
        elif kind == "monitor":
            p = P.UnixPeer(c.monitor)
        else:
            p = CLASSES[kind](c.host, c.ws_port if kind in ("ws", "wss") else c.tcp_port, **kw)
        self.peers.append(p)
        if wait:
            ok = self.until(lambda: getattr(p, "ws_open", getattr(p, "established", True)) or p.closed)
            if not ok or p.closed:
                self.fail("not_served", "no session on a new %s connection" % kind, {"C15", "C17", "C14"}, kind)
        return p

    def step(self):
        self.h.cmd("P")
        moved = False
        for p in self.peers:
            if p.s is not None and p.poll():
                moved = True
        return moved

    def until(self, cond, patience=60):
        """Lets everything run until cond holds or nothing moved for a while."""
        idle = 0
        while not cond():
            if self.step():
                idle = 0
                continue
            idle += 1
            if idle > 3:
                self.h.cmd("W 30")
            if idle > patience:
                return cond()
        return True

    def quiet(self):
        idle = 0
        n = 0
        while idle < 3:
            idle = 0 if self.step() else idle + 1
            n += 1
            if n > 50000:
                raise Crash("hang", "peers and proxy never became idle")

    def line(self, p, patience=60):
        """The next newline terminated message on p, None if there is none."""
        if not self.until(lambda: b"\n" in p.rx or p.closed, patience) or b"\n" not in p.rx:
            return None
        i = p.rx.index(b"\n")
        l = bytes(p.rx[:i])
        del p.rx[:i + 1]
        self.res.count("observed_messages")
        try:
            return json.loads(l)
        except ValueError:
            self.fail("resp_format", "not JSON: %r" % l[:200], {"C07", "C15"})

    def frame(self, p, patience=60):
        """The next frame on p as (address, payload)."""
        if not self.until(lambda: b"\xc0" in p.rx or p.closed, patience) or b"\xc0" not in p.rx:
            return None
        i = p.rx.index(b"\xc0")
        f = M.slip_decode(bytes(p.rx[:i]))
        del p.rx[:i + 1]
        self.res.count("observed_messages")
        if f is None or len(f) < 2:
            self.fail("framing", "malformed frame", {"C12"})
        return f[0] << 8 | f[1], f[2:]

    def server(self, kind, n, **kw):
        p = self.peer(kind, **kw)
        p.send(reg_server(n))
        self.expect_ok(p)
        return p

    def expect_ok(self, p, labels=("C09", "C15", "C17")):
        m = self.line(p)
        if m is None or m.get("status") != "success" or m["params"].get("tunnelProxyError") != "TunnelProxyErrorNoError":
            self.fail("resp_value", "registration answered with %r" % (m,), set(labels), p.kind)

    def client(self, kind, n, server_peer, server_no, skip=False, **kw):
        """A registered client; returns (peer, address)."""
        p = self.peer(kind, **kw)
        p.send(reg_client(n, server_no))
        self.expect_ok(p)
        return p, self.connected(server_peer, n, skip, getattr(p, "address", None))

    def connected(self, server_peer, n, skip=False, peer=None):
        """The address in the next frame, the connect notification of client n (skip: the first such frame)."""
        while True:
            f = self.frame(server_peer)
            try:
                m = json.loads(f[1]) if f and f[0] == 0 else {}
            except ValueError:
                self.fail("framing", "control frame is not JSON: %s" % sim.clip(repr(f)), {"C05", "C12"})
            if m.get("notification") == "TunnelProxy.ClientConnected" and M.parse_uuid(m["params"]["clientUuid"]) == M.parse_uuid(uuid(n)):
                if peer is not None and m["params"].get("clientPeerAddress") != peer:
                    self.fail("notif_content", "client %d came from %s, its server was told %r" % (n, peer, m["params"].get("clientPeerAddress")), {"C05"})
                return m["params"]["socketAddress"]
            if not skip or f is None:
                self.fail("notif_missing", "connect notification of client %d: %s" % (n, sim.clip(repr(f))), {"C05"})

    def gone(self, server_peer, addr, labels=("C05", "C06")):
        f = self.frame(server_peer)
        try:
            m = json.loads(f[1]) if f and f[0] == 0 else {}
        except ValueError:
            m = {}
        if m.get("notification") != "TunnelProxy.ClientDisconnected" or m["params"]["socketAddress"] != addr:
            self.fail("notif_missing", "disconnect notification for %#06x: %s" % (addr, sim.clip(repr(f))), set(labels))

    def works(self, kind="tcp", labels=("C15",), no=[900000]):
        """A complete tunnel can be set up and used."""
        no[0] += 2
        a, b = no[0], no[0] + 1
        try:
            s = self.server("unix", a)
            c, addr = self.client(kind, b, s, a)
            c.send(b"hi there")
            f = self.frame(s)
            if f != (addr, b"hi there"):
                self.fail("payload_c2s", "a fresh tunnel delivered %r" % (f,), set(labels) | {"C01"})
            s.send(M.frame(addr, b"ho there"))
            self.until(lambda: len(c.rx) >= 8)
            if bytes(c.rx) != b"ho there":
                self.fail("payload_s2c", "a fresh tunnel delivered %r" % bytes(c.rx), set(labels) | {"C01"})
            for p in (c, s):
                p.close("fin")
            self.quiet()
        except sim.Divergence as d:
            d.labels |= set(labels)
            raise
        self.res.count("fresh_tunnels_used")

    def adv(self, ms, step=50):
        self.h.cmd("A %d %d" % (ms, step))
        self.quiet()

    def monitor(self, all=True):
        return json.loads(self.h.ask("mon %d" % (1 if all else 0), "mon"))["tunnelProxyStatistic"]

    def stats(self):
        return json.loads(self.h.ask("S", "stats"))

    def end(self):
        for p in self.peers:
            p.dispose()
        self.h.quit()

    def kill(self):
        for p in self.peers:
            p.dispose()
        self.w.close(quiet=True)


def with_kit(fn):
    """Driver decorator: fn(kit, case)."""
    def run(res, case):
        k = Kit(res, **case.get("kit", {}))
        try:
            fn(k, case)
            k.end()
        finally:
            k.kill()
        res.samples.append({"driver": fn.__module__, "case": case})
    return run

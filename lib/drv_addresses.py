"""Very many clients on one server: the whole 16 bit address space, wrapped around, full, and with data on every address."""
import json
import random

import model as M
import sim
import vbuild

SERVER = "{11111111-1111-4111-8111-111111111111}"
BATCH = 1500


def cases(rng, tier):
    s = rng.randrange(1 << 30)
    big = {"mode": "wrap", "total": 67000, "keep": 0.004, "data": True, "seed": s}
    full = {"mode": "full", "total": 65534, "seed": s + 1}
    if tier == "data":
        return [dict(big, keep=0.001)]
    if tier == "deep":
        return [dict(big, total=200000, seed=s + 2), dict(big, keep=0.3, total=140000, seed=s + 3), dict(full, seed=s + 4)]
    return [big, full]


class Drive:
    def __init__(self, res, case):
        self.res = res
        self.rng = random.Random(case["seed"])
        self.w = sim.World(vbuild.ensure("asan"), fakes=1, log=False)
        self.rx = {}
        self.gone = set()
        self.w.h.sink = self.sink
        self.n = 0
        self.live = {}      # address -> client number
        self.addr = {}      # client number -> address
        self.buf = bytearray()
        self.open(0)
        self.h = self.w.h
        self.cmds([self.text(0, {"id": 1, "method": "TunnelProxy.RegisterServer", "params": {"serverName": "s", "serverUuid": SERVER}})])
        if b"NoError" not in self.rx[0]:
            self.fail("resp_value", "no server registration", {"C09"})
        self.rx[0].clear()

    def sink(self, line):
        if line[:2] == "o ":
            _, n, h = line.split(" ")
            self.rx.setdefault(int(n), bytearray()).extend(b"" if h == "-" else bytes.fromhex(h))
            return True
        if line[:2] == "k ":
            self.gone.add(int(line[2:]))
            return True
        return False

    def fail(self, kind, detail, labels):
        raise sim.Divergence(kind, "server with %d clients, %d before" % (len(self.live), self.n), detail, labels)

    def open(self, n):
        self.w.h.cmds(["fc %d 0 10.0.0.%d" % (n, n % 250 + 1)])

    @staticmethod
    def text(n, obj):
        return "fd %d %s" % (n, (json.dumps(obj) + "\n").encode().hex())

    def cmds(self, l):
        for i in range(0, len(l), 3000):
            self.w.h.cmds(l[i:i + 3000])

    def register(self, k):
        """k new clients; returns those refused."""
        lines, new = [], []
        for _ in range(k):
            self.n += 1
            n = self.n
            new.append(n)
            lines.append("fc %d 0 10.0.0.%d" % (n, n % 250 + 1))
            lines.append(self.text(n, {"id": n, "method": "TunnelProxy.RegisterClient", "params": {"clientName": "c%d" % n, "clientUuid": "{%08x-0000-4000-8000-000000000001}" % n, "serverUuid": SERVER}}))
        self.cmds(lines)
        told = {}
        for f in self.server_frames():
            a = f[0] << 8 | f[1]
            if a != 0:
                self.fail("stray", "unexpected frame for %#06x" % a, {"C02"})
            m = json.loads(f[2:].decode())
            if m.get("notification") != "TunnelProxy.ClientConnected":
                self.fail("notif_extra", "unexpected %s" % json.dumps(m), {"C05"})
            p = m["params"]
            n, a = int(p["clientName"][1:]), p["socketAddress"]
            if not 0 < a < 0xFFFF:
                self.fail("addr_invalid", "client %d was given the address %#06x" % (n, a), {"C03"})
            if a in self.live:
                self.fail("addr_dup", "client %d was given the address %#06x of client %d" % (n, a, self.live[a]), {"C03"})
            if n in told:
                self.fail("notif_extra", "client %d announced twice" % n, {"C05"})
            told[n] = a
            self.live[a] = n
            self.addr[n] = a
        refused = []
        for n in new:
            try:
                m = json.loads(bytes(self.rx.pop(n, b"")))
            except ValueError:
                self.fail("resp_missing", "client %d got no response" % n, {"C07", "C09"})
            ok = m.get("status") == "success" and m["params"]["tunnelProxyError"] == "TunnelProxyErrorNoError"
            if ok != (n in told):
                self.fail("notif_missing" if ok else "notif_extra", "client %d: %s but announced: %s" % (n, json.dumps(m), n in told), {"C05"})
            if not ok:
                refused.append(n)
            elif n in self.gone:
                self.fail("close_unexpected", "client %d was closed" % n, {"C06"})
        self.res.count("clients_accepted", len(new) - len(refused))
        return refused

    def server_frames(self):
        b = self.rx.get(0)
        if not b:
            return []
        parts = bytes(b).split(b"\xc0")
        b.clear()
        if parts[-1]:
            self.fail("framing", "incomplete frame", {"C12"})
        res = []
        for p in parts[:-1]:
            f = M.slip_decode(p)
            if f is None or len(f) < 2:
                self.fail("framing", "malformed frame %r" % p[:80], {"C12", "C01"})
            res.append(f)
        return res

    def data(self, clients):
        """Both directions on all these clients."""
        lines, up, down = [], {}, {}
        blob = bytearray()
        for n in clients:
            a = self.addr[n]
            up[n] = bytes([a & 255, a >> 8, 0xC0, 0xDB, 0xDC]) + b"up%d" % n
            down[n] = b"down%d" % n + bytes([0xDB, 0xDD, a >> 8, a & 255])
            lines.append("fd %d %s" % (n, up[n].hex()))
            blob += M.frame(a, down[n])
        for i in range(0, len(blob), 30000):
            lines.append("fd 0 %s" % blob[i:i + 30000].hex())
        self.cmds(lines)
        for f in self.server_frames():
            a = f[0] << 8 | f[1]
            n = self.live.get(a)
            if n is None or up.get(n) is None:
                self.fail("stray", "frame for %#06x %r" % (a, f[2:60]), {"C02", "C01"})
            if f[2:] != up[n]:
                self.fail("payload_c2s", "address %#06x: got %r instead of %r" % (a, f[2:60], up[n]), {"C01", "C02"})
            del up[n]
        if up:
            n = next(iter(up))
            self.fail("payload_c2s", "data of %d clients is missing, for example of address %#06x" % (len(up), self.addr[n]), {"C01"})
        for n in clients:
            got = bytes(self.rx.pop(n, b""))
            if got != down[n]:
                self.fail("payload_s2c", "address %#06x: client got %r instead of %r" % (self.addr[n], got[:60], down[n]), {"C01", "C02"})
        if any(v for k, v in self.rx.items() if k != 0):
            self.fail("stray", "data for somebody else: %r" % [k for k, v in self.rx.items() if v][:5], {"C02"})
        self.res.count("addresses_with_data", len(clients))

    def leave(self, clients):
        self.cmds(["fx %d" % n for n in clients] + ["P 1"])
        want = {self.addr[n] for n in clients}
        for f in self.server_frames():
            m = json.loads(f[2:].decode()) if f[:2] == b"\0\0" else {}
            a = m.get("params", {}).get("socketAddress")
            if m.get("notification") != "TunnelProxy.ClientDisconnected" or a not in want:
                self.fail("notif_extra", "unexpected %r" % f[:200], {"C05"})
            want.discard(a)
        if want:
            self.fail("notif_missing", "no disconnect notification for %#06x" % want.pop(), {"C05"})
        for n in clients:
            del self.live[self.addr.pop(n)]

    def kick(self, n):
        """The server disconnects one client; nobody else may be hit."""
        a = self.addr[n]
        self.cmds(["fd 0 %s" % M.frame(0, (json.dumps({"id": 7, "method": "TunnelProxy.DisconnectClient", "params": {"socketAddress": a}}) + "\n").encode()).hex()])
        ok = gone = False
        for f in self.server_frames():
            m = json.loads(f[2:].decode())
            if m.get("id") == 7 and m.get("status") == "success" and m["params"]["tunnelProxyError"] == "TunnelProxyErrorNoError":
                ok = True
            elif m.get("notification") == "TunnelProxy.ClientDisconnected" and m["params"]["socketAddress"] == a:
                gone = True
            else:
                self.fail("resp_value", "after disconnecting %#06x: %s" % (a, json.dumps(m)), {"C10"})
        if not ok or not gone or n not in self.gone or any(x in self.gone for x in self.live.values() if x != n):
            self.fail("close_missing", "disconnecting %#06x: answered %s, announced %s, closed %s" % (a, ok, gone, n in self.gone), {"C10", "C05"})
        del self.live[self.addr.pop(n)]


def run(res, case):
    d = Drive(res, case)
    try:
        r = d.rng
        if case["mode"] == "wrap":
            while d.n < case["total"]:
                before = d.n
                if d.register(BATCH):
                    d.fail("resp_value", "a client was refused although addresses are free", {"C03", "C09"})
                fresh = [n for n in d.addr if n > before]
                sample = [n for n in d.addr if n <= before]
                if case["data"]:
                    d.data(fresh + r.sample(sample, min(50, len(sample))))
                stay = {n for n in fresh if r.random() < case["keep"] or d.addr[n] in (1, 0xC0, 0xC000, 0xDB, 0xDB00, 0xC0C0, 0xDBDB, 0xDBDC, 0xFFFE)}
                d.kick(r.choice([n for n in fresh if n not in stay]))
                d.leave([n for n in fresh if n not in stay and n in d.addr])
        else:
            while d.n < case["total"]:
                if d.register(min(BATCH, case["total"] - d.n)):
                    d.fail("resp_value", "a client was refused although addresses are free", {"C03", "C09"})
            for _ in range(3):
                if len(d.register(1)) != 1:
                    d.fail("addr_dup", "a client was accepted although all addresses are in use", {"C03"})
                res.count("refused_when_full")
                if d.n not in d.gone:
                    d.fail("close_missing", "refused client stayed connected", {"C03", "C09"})
            d.data(r.sample(list(d.addr), 500))
            out = r.sample(list(d.addr), 5)
            freed = {d.addr[n] for n in out}
            d.leave(out)
            if d.register(5) or {a for a in freed if a in d.live} != freed:
                d.fail("resp_value", "freed addresses were not given out again", {"C03", "C09"})
            d.data(list(d.addr)[-500:])
            if len(d.register(1)) != 1:
                d.fail("addr_dup", "a client was accepted although all addresses are in use", {"C03"})
        res.samples.append({"case": case, "clients": d.n, "live_at_end": len(d.live)})
    finally:
        d.w.close(quiet=True)

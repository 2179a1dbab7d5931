"""Drives a proxy process and its peers in lockstep with the reference model and compares.

A trace is a list of operations (plain JSON values), so it can be stored, replayed and shrunk.
"""
import json
import os
import shutil
import tempfile
import time

import model as M
import peers as P
from hproc import Crash, HProc

REPO = os.environ.get("VERIF_REPO", "/repo")
CERT = os.path.join(REPO, "tests/resources/test-certificate.crt")
KEY = os.path.join(REPO, "tests/resources/test-certificate.key")


class Divergence(Exception):
    def __init__(self, kind, conn, detail, labels):
        super().__init__("%s on %s: %s" % (kind, conn, detail))
        self.kind, self.conn, self.detail, self.labels = kind, conn, detail, set(labels)


def clip(b, n=80):
    s = b[:n] if isinstance(b, str) else repr(bytes(b[:n]))
    return s + ("... (%d bytes)" % len(b) if len(b) > n else "")


FLAG_LABELS = {
    "malformed": "C12", "server_lost": "C06", "client_lost": "C06", "conflict": "C04", "baduuid": "C09", "noserver": "C09",
    "badreq": "C07", "badparams": "C08", "disc_request": "C10", "disc_foreign": "C10", "unassigned": "C02", "overlong": "C13",
    "timeout": "C13", "restart": "C17", "addr_reuse": "C03",
}

KIND_LABELS = {
    "payload_c2s": {"C01"}, "payload_s2c": {"C01"}, "stray": {"C02", "C09", "C01"}, "misrouted": {"C02", "C01"},
    "resp_missing": {"C07"}, "resp_extra": {"C07"}, "resp_id": {"C07"}, "resp_status": {"C07"}, "resp_schema": {"C08"}, "resp_value": set(),
    "resp_format": {"C07"}, "notif_missing": {"C05"}, "notif_extra": {"C05"}, "notif_content": {"C05"}, "notif_schema": {"C08"},
    "notif_order": {"C05"}, "addr_invalid": {"C03"}, "addr_dup": {"C03"}, "close_missing": set(), "close_unexpected": {"C06"}, "framing": {"C12", "C01"},
    "mon": {"C19"}, "api": {"C08"}, "not_served": {"C15"},
}


def scratch(prefix):
    d = tempfile.mkdtemp(prefix=prefix, dir="/tmp")
    os.chmod(d, 0o755)
    return d


def loopback(salt=0):
    n = os.getpid() * 7 + salt
    return "127.%d.%d.%d" % (1 + (n >> 16) % 200, (n >> 8) & 255, 1 + n % 250)


class Config:
    def __init__(self, d, **kw):
        self.dir = d
        self.host = kw.get("host") or loopback()
        self.tcp_port, self.ws_port = kw.get("tcp_port", 21513), kw.get("ws_port", 21512)
        self.ssl = kw.get("ssl", False)
        self.inactive = kw.get("inactive", 8000)
        self.name = kw.get("name", "proxy under test")
        self.unix = os.path.join(d, "u.sock")
        self.monitor = os.path.join(d, "m.sock")
        self.path = os.path.join(d, "proxy.conf")
        self.write()

    def write(self):
        open(self.path, "w").write("""[ProxyServer]
name=%s
monitorSocket=%s
inactiveTimeout=%d
jsonRpcTimeout=10000
[SSL]
enabled=%s
certificate=%s
certificateKey=%s
[UnixSocketServerTunnelProxy]
unixSocketFileName=%s
[WebSocketServerTunnelProxy]
host=%s
port=%d
[TcpServerTunnelProxy]
host=%s
port=%d
""" % (self.name, self.monitor, self.inactive, "true" if self.ssl else "false", CERT, KEY, self.unix, self.host, self.ws_port, self.host, self.tcp_port))


class Obs:
    """What has been seen on one connection."""
    __slots__ = ("mode", "buf")

    def __init__(self):
        self.mode = "lines"
        self.buf = bytearray()


class World:
    def __init__(self, build, d=None, ssl=False, inactive=8000, fakes=2, prefix=(), sync=True, name="proxy under test", log=True):
        self.build = build
        self.own_dir = d is None
        self.dir = d or scratch("vw-")
        self.conf = Config(self.dir, ssl=ssl, inactive=inactive, name=name)
        self.nfakes = fakes
        self.sync = sync
        self.h = HProc(build.proxyd, build, self.dir, prefix=prefix)
        self.h.sink = self._sink
        self.fakes = {}
        self.peers = {}
        self.obs = {}
        self.model = None
        self.ops_done = 0
        self.events = 0        # observed messages, frames, closes
        self.kinds = {}
        self.api = None
        self.state_sigs = set()
        self._fresh_model()
        if not log:
            self.h.cmd("log 0")
        self.start()

    # ------------------------------------------------------------ process
    def _fresh_model(self):
        old = self.model
        self.model = M.Model(self.conf.inactive, self.conf.name)
        self.model.async_kill = not self.sync
        if old is not None:
            self.model.stats, self.model.flags = old.stats, old.flags
            self.model.now = old.now
        self.model.api = self.api

    def start(self):
        r = self.h.cmd("start " + self.conf.path)
        if r[0] != "ok":
            raise Crash("start", "the configuration was refused")
        if self.nfakes:
            self.h.cmds(["fakes %d" % self.nfakes, "fsync %d" % (1 if self.sync else 0), "P"])
        if self.api is None and self.nfakes:
            self._introspect()

    def _introspect(self):
        n = 999999999
        p = P.FakePeer(self, n, 0, "127.0.0.1")
        self.fakes[n] = p
        self.h.cmds([p.open_cmd(), p.send_cmd(b'{"id":1,"method":"RemoteProxy.Introspect"}\n'), "fx %d" % n, "P"])
        try:
            api = json.loads(bytes(p.rx))["params"]
            ok = isinstance(api["methods"], dict) and isinstance(api["notifications"], dict)
        except (ValueError, KeyError, TypeError):
            ok = False
        if not ok:
            raise Divergence("api", n, "no usable answer to Introspect: " + clip(p.rx), {"C08", "C07"})
        for m, (par, ret) in M.API.items():
            d = api["methods"].get(m)
            if d is None or d.get("params") != par or d.get("returns") != ret:
                raise Divergence("api", n, "introspection describes %s as %s" % (m, json.dumps(d)), {"C08"})
        for m, par in M.NOTIFICATIONS.items():
            d = api["notifications"].get(m)
            if d is None or d.get("params") != par:
                raise Divergence("api", n, "introspection describes the notification %s as %s" % (m, json.dumps(d)), {"C08"})
        del self.fakes[n]
        self.api = self.model.api = api

    def _sink(self, line):
        k = line[0]
        if k == "o" and line[1] == " ":
            _, n, h = line.split(" ")
            p = self.fakes.get(int(n))
            if p is not None:
                if h != "-":
                    p._got(bytes.fromhex(h))
                c = self.model.conns.get(p.n)
                if c is not None:
                    self.model.dirty.add(c)
            return True
        if k == "k" and line[1] == " ":
            p = self.fakes.get(int(line[2:]))
            if p is not None:
                p.closed = True
                c = self.model.conns.get(p.n)
                if c is not None:
                    self.model.dirty.add(c)
            return True
        return False

    def close(self, quiet=False):
        try:
            for p in self.peers.values():
                p.dispose()
            if quiet or self.h.dead:
                self.h.kill()
            else:
                self.h.quit()
        finally:
            if self.own_dir and self.dir.startswith("/tmp/vw-"):
                shutil.rmtree(self.dir, ignore_errors=True)

    # ------------------------------------------------------------ operations
    def run(self, ops):
        for o in ops:
            self.op(o)

    def op(self, o, settle=True):
        self.ops_done += 1
        self.kinds[o["op"]] = self.kinds.get(o["op"], 0) + 1
        getattr(self, "op_" + o["op"])(o)
        if settle:
            self.settle()

    def op_open(self, o):
        cid, k = o["c"], o["k"]
        if cid in self.model.conns:
            return
        m = self.model
        if k == "fake":
            p = P.FakePeer(self, cid, o.get("t", 0), o.get("a", "10.0.0.1"))
            self.fakes[cid] = p
            self.h.cmds([p.open_cmd()])
        else:
            c = self.conf
            if k == "unix":
                p = P.UnixPeer(c.unix)
            else:
                cls = {"tcp": P.TcpPeer, "tls": P.TlsPeer, "ws": P.WsPeer, "wss": P.WssPeer}[k]
                p = cls(c.host, c.ws_port if k in ("ws", "wss") else c.tcp_port, source=o.get("a"), rcvbuf=o.get("rcvbuf"))
            for i in range(200):
                self.h.cmd("P" if i < 50 else "W 20")
                p.poll()
                if (k in ("unix", "tcp")) or (k == "tls" and p.established) or (k in ("ws", "wss") and p.ws_open):
                    break
            else:
                raise Divergence("not_served", cid, "no session on a new %s connection" % k, {"C15", "C14", "C17"})
            self.h.cmd("P")
        self.peers[cid] = p
        self.obs[cid] = Obs()
        c = m.open(cid, p.address, p.message_based)
        c.kind = k

    def resolve(self, part, c):
        """The bytes of one part of a send operation."""
        k = part[0]
        if k == "h":
            return bytes.fromhex(part[1])
        if k == "t":
            return part[1].encode("utf-8")
        if k == "r":  # a request in a frame for the proxy itself
            return M.frame(0, part[1].encode("utf-8"))
        if k == "rs":  # a request with the socket address of a client in it: ["rs", text with @@, client]
            t = part[1].replace("@@", str(self.address_of(part[2])))
            return M.frame(0, t.encode("utf-8")) if c.state == "server" else t.encode("utf-8")
        if k == "f":  # a frame for a client: ["f", client connection or number, hex]
            a = part[1] if isinstance(part[1], int) else self.address_of(part[1])
            return M.frame(a, bytes.fromhex(part[2]))
        raise ValueError(k)

    def address_of(self, ref):
        """Address of the client "c<n>" on its server as the server was told, also if it is gone meanwhile."""
        c = self.model.conns.get(int(ref[1:]))
        if c is None or c.tunnel is None or c.tunnel.address is None:
            return 0xFFFF
        return c.tunnel.address

    def op_send(self, o):
        c = self.model.conns.get(o["c"])
        p = self.peers.get(o["c"])
        if c is None or p is None or p.local_closed or p.closed:
            return
        if p.message_based:
            for part in o["parts"]:
                d = self.resolve(part, c)
                if not p.closed:
                    if isinstance(p, P.FakePeer):
                        self.h.cmds([p.send_cmd(d)])
                    else:
                        p.send(d, frags=o.get("frags", 1))
                    self.model.feed(c, d)
                    self._progress(p)
            return
        data = b"".join(self.resolve(part, c) for part in o["parts"])
        cuts = sorted({x for x in o.get("cuts", ()) if 0 < x < len(data)})
        c.sent += len(data)
        if o.get("cuts"):
            self.model.flags.add("chunked")
        if isinstance(p, P.FakePeer):
            lines, prev = [], 0
            for x in cuts + [len(data)]:
                lines.append(p.send_cmd(data[prev:x]))
                prev = x
            self.model.feed(c, data)
            for i in range(0, len(lines), 2000):
                self.h.cmds(lines[i:i + 2000])
            return
        prev = 0
        for x in cuts + [len(data)]:
            p.send(data[prev:x])
            self.model.feed(c, data[prev:x])
            prev = x
            if x != len(data):
                self._progress(p)

    def _progress(self, p):
        self.h.cmd("P")
        p.poll()

    def op_close(self, o):
        c, p = self.model.conns.get(o["c"]), self.peers.get(o["c"])
        if c is None or p is None or p.local_closed:
            return
        if isinstance(p, P.FakePeer):
            p.local_closed = True
            if not c.ended:
                self.h.cmds(["fx %d" % c.id])
        else:
            if p.kind in ("ws", "wss") and o.get("how", "fin") == "fin" and not p.closed:
                p.wire_send(p.frame(8, b"\x03\xe8"))
            p.close(o.get("how", "fin"))
        if c.alive:
            self.model.peer_gone(c)
        elif not c.ended:  # killed, end pending
            self.model._end(c)
        c.lossy = True

    def op_finish(self, o):
        """Asynchronous in-process transport: the killed connection is over now."""
        c, p = self.model.conns.get(o["c"]), self.peers.get(o["c"])
        if c is None or c.ended or c.close_labels is None or not isinstance(p, P.FakePeer):
            return
        self.h.cmds(["fx %d" % c.id])
        self.model._end(c)

    def op_adv(self, o):
        ms, step = o["ms"], o.get("step", 50)
        self.h.cmd("A %d %d" % (ms, step))
        m = self.model
        m.now += ms
        self._poll_peers()
        slack = step + 120
        must, may = m.timeouts(slack)
        for c in must:
            m.flags.add("timeout")
            m.expect_close(c, {"C13"})
            m.count("timeouts")
        for c in may:
            if self.peers[c.id].closed:
                m.flags.add("timeout")
                m.expect_close(c, {"C13"})
        self.after_time = True

    def op_mon(self, o):
        self.check_monitor(o.get("all", True), via=o.get("via", "call"))

    def op_batch(self, o):
        """Several operations before the proxy gets to run."""
        for x in o["ops"]:
            getattr(self, "op_" + x["op"])(x)

    def op_stop(self, o):
        self.model.flags.add("restart")
        if self.model.conns:
            self.model.count("stops_with_connections")
        self.h.cmd("stop" + (" nopump" if o.get("nopump") else ""))
        for c in list(self.model.conns.values()):
            c.lossy = True
        self._poll_peers()
        self._poll_peers()
        for cid, p in self.peers.items():
            c = self.model.conns[cid]
            if not p.closed and not p.local_closed and not p.paused:
                raise Divergence("close_missing", cid, "connection survived the stop of the proxy", {"C17"})
        for p in self.peers.values():
            p.dispose()
        self.peers, self.obs, self.fakes = {}, {}, {}
        self._fresh_model()

    def op_start(self, o):
        self.start()

    # ------------------------------------------------------------ observation
    def _poll_peers(self):
        """Lets the proxy and the real peers make progress until nothing moves any more."""
        real = [p for p in self.peers.values() if not isinstance(p, P.FakePeer) and p.s is not None]
        if not real:
            self.h.cmd("P 1")
            return
        idle = 0
        rounds = 0
        while idle < 2:
            self.h.cmd("P")
            moved = False
            for p in real:
                if p.poll():
                    moved = True
            idle = 0 if moved else idle + 1
            rounds += 1
            if rounds > 20000:
                raise Crash("hang", "peers and proxy never became idle")

    def settle(self):
        self._poll_peers()
        m = self.model
        if any(not isinstance(p, P.FakePeer) for p in self.peers.values()):
            for cid, p in self.peers.items():
                if not isinstance(p, P.FakePeer) and (p.rx or p.closed):
                    m.dirty.add(m.conns[cid])
        patience = self.patience if any(not isinstance(p, P.FakePeer) for p in self.peers.values()) else 0
        todo = set()
        while True:
            todo |= m.dirty
            m.dirty.clear()
            order = sorted(todo, key=lambda c: (c.state != "server", c.id))
            for c in order:
                if c.id in self.peers:
                    self._observe(c)
            try:
                for c in order:
                    if c.id in self.peers:
                        self._complete(c)
                break
            except Divergence:
                # something is missing: the kernel may need a moment to deliver it
                if patience == 0:
                    raise
                patience -= 1
                self.retries += 1
                self.h.cmd("W 80")
                self._poll_peers()
                for cid, p in self.peers.items():
                    if p.rx or p.closed:
                        m.dirty.add(m.conns[cid])
        self.after_time = False

    after_time = False
    retries = 0
    patience = 25

    def fail(self, kind, c, detail, labels=()):
        l = set(KIND_LABELS.get(kind, ())) | set(labels)
        if self.after_time:
            l.add("C13")
        for x in self.model.conns.values():
            # closed although the size of what it sent was within the limit
            if getattr(x, "bulky", False) and x.close_labels is None and not x.ended and not x.lossy and x.id in self.peers and self.peers[x.id].closed:
                l.add("C13")
        for f in self.model.flags:
            if f in FLAG_LABELS:
                l.add(FLAG_LABELS[f])
        raise Divergence(kind, "%s connection %s (%s)" % (getattr(c, "kind", ""), c.id, c.state), detail, l)

    def _observe(self, c):
        p, o = self.peers[c.id], self.obs[c.id]
        if p.rx:
            if c.broken_ws:
                p.rx.clear()
                return
            o.buf += p.rx
            p.rx.clear()
            while o.buf:
                n = len(o.buf)
                if o.mode == "lines":
                    i = o.buf.find(b"\n")
                    if i < 0:
                        break
                    line = bytes(o.buf[:i])
                    del o.buf[:i + 1]
                    self._message(c, o, line)
                elif o.mode == "slip":
                    self._slip(c, o)
                    if len(o.buf) == n:
                        break
                else:
                    self._raw(c, o)
                    break

    def _raw(self, c, o):
        d = o.buf
        self.events += 1
        e = c.exp_raw
        if e[:len(d)] == d:
            del e[:len(d)]
        else:
            i = 0
            while i < min(len(d), len(e)) and d[i] == e[i]:
                i += 1
            if c.lossy:
                e.clear()
            elif not e:
                self.fail("stray", c, "unexpected data for a client: %s" % clip(d))
            else:
                self.fail("payload_s2c", c, "at offset %d got %s instead of %s" % (i, clip(d[i:]), clip(e[i:])))
        d.clear()

    def _slip(self, c, o):
        b = o.buf
        start = 0
        while True:
            i = b.find(b"\xc0", start)
            if i < 0:
                break
            body = bytes(b[start:i])
            start = i + 1
            if not body:
                continue
            f = M.slip_decode(body)
            if f is None or len(f) < 2:
                self.fail("framing", c, "the proxy sent a malformed frame %s" % clip(body))
            self.events += 1
            a = f[0] << 8 | f[1]
            if a == 0:
                if not f.endswith(b"\n"):
                    self.fail("resp_format", c, "a message which is not newline terminated: %s" % clip(f[2:]))
                self._message(c, o, f[2:-1])
                continue
            payload = f[2:]
            t = c.by_address.get(a)
            if t is None:
                self.fail("stray", c, "frame for address %#06x which no client has: %s" % (a, clip(payload)), {"C05"})
            e = t.exp_data
            if e[:len(payload)] != payload:
                if not e and t.exp_gone:
                    self.fail("notif_order", c, "data of client %s after its end: %s" % (t.client.id, clip(payload)))
                other = any(x is not t and x.exp_data[:len(payload)] == payload for x in c.tunnels.values()) if payload else False
                j = 0
                while j < min(len(payload), len(e)) and payload[j] == e[j]:
                    j += 1
                self.fail("misrouted" if other else ("stray" if not e else "payload_c2s"), c,
                          "frame of client %s: at offset %d got %s instead of %s" % (t.client.id, j, clip(payload[j:]), clip(e[j:])))
            del e[:len(payload)]
        del b[:start]

    def _message(self, c, o, line):
        self.events += 1
        try:
            msg = json.loads(line.decode("utf-8"))
            assert isinstance(msg, dict)
        except (ValueError, AssertionError):
            self.fail("resp_format", c, "not a JSON object: %s" % clip(line), {"C09", "C02"})
        if "notification" in msg:
            return self._notification(c, msg)
        if not c.exp_resp:
            self.fail("resp_extra", c, "unexpected message %s" % clip(line))
        e = c.exp_resp.pop(0)
        lab = e["labels"]
        want = {"id", "status", "params"} if msg.get("status") == "success" else {"id", "status", "error"}
        if isinstance(msg.get("id"), bool) or msg.get("id") != e["id"]:
            self.fail("resp_id", c, "response with id %r instead of %r: %s" % (msg.get("id"), e["id"], clip(line, 300)), lab)
        if e["status"] == "any" and msg.get("status") in ("success", "error"):
            e["status"] = msg["status"]
        if msg.get("status") != e["status"]:
            self.fail("resp_status", c, "status %r instead of %r (%s): %s" % (msg.get("status"), e["status"], e["method"], clip(line, 300)), lab | {"C08"})
        if not want <= set(msg):
            self.fail("resp_format", c, "fields %s" % sorted(msg), lab)
        if e["status"] == "error":
            if not isinstance(msg["error"], str) or not msg["error"]:
                self.fail("resp_format", c, "error without text", lab)
            return
        par = msg["params"]
        ret = self.api["methods"][e["method"]]["returns"]
        if not isinstance(par, dict):
            par = {}
        if set(par) != set(ret) or not (e.get("loose") or all(M.is_value_of(self.api["types"], ret[k], par[k]) for k in ret)):
            self.fail("resp_schema", c, "%s returned %s, described are %s" % (e["method"], clip(json.dumps(par).encode(), 300), json.dumps(ret)), lab)
        if e["method"] == "RemoteProxy.Introspect" and par != self.api:
            self.fail("resp_schema", c, "introspection changed", {"C08"})
        if e["params"] is not None:
            for k, v in e["params"].items():
                if par[k] != v:
                    self.fail("resp_value", c, "%s answered %s=%r instead of %r" % (e["method"], k, par[k], v), lab or {"C07"})
        if par.get("tunnelProxyError") == "TunnelProxyErrorNoError":
            if e["method"] == "TunnelProxy.RegisterServer":
                o.mode = "slip"
            elif e["method"] == "TunnelProxy.RegisterClient":
                o.mode = "raw"

    def _notification(self, c, msg):
        name, par = msg["notification"], msg.get("params")
        d = self.api["notifications"].get(name)
        if isinstance(msg.get("id"), bool) or not isinstance(msg.get("id"), int):
            self.fail("notif_schema", c, "notification without id")
        if d is None or not isinstance(par, dict) or set(par) != set(d["params"]) or not all(M.is_value_of(self.api["types"], t, par[k]) for k, t in d["params"].items()):
            self.fail("notif_schema", c, "notification %s %s" % (name, json.dumps(par)))
        a = par.get("socketAddress")
        if name == "TunnelProxy.ClientConnected":
            u = M.parse_uuid(par["clientUuid"])
            t = next((t for t in c.pending if t.uuid == u), None)
            if t is None:
                self.fail("notif_extra", c, "connect notification for nobody: %s" % json.dumps(par))
            if par["clientName"] != t.name or par["clientPeerAddress"] != t.peer:
                self.fail("notif_content", c, "connect notification %s instead of name %r peer %s" % (json.dumps(par), t.name, t.peer))
            if not 0 < a < 0xFFFF:
                self.fail("addr_invalid", c, "client got the address %#06x" % a)
            x = c.by_address.get(a)
            if x is not None:
                self.fail("addr_dup" if not x.exp_gone else "notif_order", c, "address %#06x was given to client %s while client %s has it" % (a, t.client.id, x.client.id), {"C03"})
            t.seen_connected = True
            c.pending.remove(t)
            t.address = a
            c.by_address[a] = t
            if c.max_addr is not None and a <= c.max_addr:
                self.model.flags.add("addr_reuse")
            c.max_addr = max(a, c.max_addr or 0)
        elif name == "TunnelProxy.ClientDisconnected":
            t = c.by_address.get(a)
            if t is None:
                self.fail("notif_extra", c, "disconnect notification for the address %#06x which no client has" % a)
            if not t.exp_gone:
                self.fail("notif_extra", c, "disconnect notification for client %s which is still connected" % t.client.id, {"C06"})
            if t.exp_data:
                self.fail("payload_c2s", c, "client %s was reported as gone before its data %s arrived" % (t.client.id, clip(t.exp_data)), {"C05"})
            t.seen_gone = True
            del c.by_address[a]
            c.tunnels.pop(t.client.id, None)
        else:
            self.fail("notif_extra", c, "notification %s" % name)

    def _complete(self, c):
        """Nothing may be outstanding now."""
        p, o = self.peers[c.id], self.obs[c.id]
        if c.broken_ws:
            return
        if c.lossy or (p.reset and c.sent > 8192):
            if p.local_closed:
                return
            c.exp_resp, c.exp_raw = [], bytearray()
            return
        if o.buf and not (c.close_labels and p.reset):
            self.fail("framing" if o.mode == "slip" else "resp_format", c, "incomplete output %s" % clip(o.buf))
        if c.exp_resp:
            e = c.exp_resp[0]
            self.fail("resp_missing", c, "no response to request %r (%s, %s)" % (e["id"], e["method"], e["status"]), e["labels"])
        if c.exp_raw:
            self.fail("payload_s2c", c, "missing data %s" % clip(c.exp_raw))
        if c.close_labels is not None and not p.closed:
            self.fail("close_missing", c, "the connection is still open", c.close_labels)
        if p.closed and c.close_labels is None and not c.lossy:
            self.fail("close_unexpected", c, "the proxy closed the connection")
        if c.state == "server" and c.alive:
            for t in c.touched.values():
                if not t.seen_connected:
                    self.fail("notif_missing", c, "no connect notification for client %s" % t.client.id)
                if t.exp_data:
                    self.fail("payload_c2s", c, "missing data of client %s: %s" % (t.client.id, clip(t.exp_data)))
                if t.exp_gone and not t.seen_gone:
                    self.fail("notif_missing", c, "no disconnect notification for client %s" % t.client.id, {"C06"} if "client_lost" in self.model.flags else ())
            c.touched.clear()

    # ------------------------------------------------------------ monitor data
    def monitor_data(self, print_all, via):
        if via == "call":
            return json.loads(self.h.ask("mon %d" % (1 if print_all else 0), "mon"))
        p = P.UnixPeer(self.conf.monitor)
        try:
            o = {"method": "refresh", "params": {"printAll": print_all}}
            if self.events % 3 == 0:
                o["id"] = self.events
            if not print_all and self.events % 2:
                del o["params"]     # nothing is the default
            p.send(json.dumps(o).encode() + b"\n")
            for _ in range(500):
                self.h.cmd("P")
                p.poll()
                if p.rx.endswith(b"\n"):
                    return json.loads(bytes(p.rx))
            self.fail("mon", M.MConn("monitor", "", False, 0), "no answer from the monitor socket")
        finally:
            p.dispose()
            self.h.cmd("P")

    def check_monitor(self, print_all=True, via="call"):
        self._poll_peers()
        d = self.monitor_data(print_all, via)
        m = self.model
        who = M.MConn("monitor", "", False, 0)
        self.events += 1

        def eq(what, got, want):
            if got != want:
                self.fail("mon", who, "%s is %r but should be %r" % (what, got, want))
        eq("serverName", d.get("serverName"), self.conf.name)
        s = d["tunnelProxyStatistic"]
        live = [c for c in m.conns.values() if not c.ended]
        eq("totalClientCount", s["totalClientCount"], len(live))
        servers = [c for c in live if c.state == "server"]
        clients = [c for c in live if c.state == "client"]
        eq("serverConnectionsCount", s["serverConnectionsCount"], len(servers))
        eq("clientConnectionsCount", s["clientConnectionsCount"], len(clients))
        tr = {"unix": 0, "TCP": 0, "WebSocket": 0}
        for i in range(self.nfakes):
            tr["fake%d" % i] = 0
        for c in live:
            k = c.kind
            tr["fake%d" % self.peers[c.id].transport if k == "fake" else {"unix": "unix", "tcp": "TCP", "tls": "TCP", "ws": "WebSocket", "wss": "WebSocket"}[k]] += 1
        eq("transports", s["transports"], tr)
        want = {}
        for c in servers:
            cl = {t.client.uuid: t.client for t in c.tunnels.values() if not t.exp_gone}
            if print_all or cl:
                want[c.uuid] = (c, cl)

        def entry(e, key, c):
            eq("name of %s" % c.uuid, e["name"], c.name)
            eq("address of %s" % c.uuid, e["address"], c.address)
            if not isinstance(e["timestamp"], int):
                self.fail("mon", who, "timestamp %r" % e["timestamp"])
            if not c.alive:
                return  # being closed: what still counts is not specified
            eq("bytes received from %s" % c.uuid, e["rxDataCount"], c.rx)
            eq("bytes sent to %s" % c.uuid, e["txDataCount"], self.peers[c.id].rxcount)
        got = {}
        for e in s["tunnelConnections"]:
            u = M.parse_uuid(e["serverUuid"])
            if u in got or u not in want:
                self.fail("mon", who, "listed server %s" % e["serverUuid"])
            got[u] = e
            c, cl = want[u]
            entry(e, "serverUuid", c)
            seen = set()
            for x in e["clientConnections"]:
                cu = M.parse_uuid(x["clientUuid"])
                if cu in seen or cu not in cl:
                    self.fail("mon", who, "server %s lists client %s" % (u, x["clientUuid"]))
                seen.add(cu)
                entry(x, "clientUuid", cl[cu])
            eq("clients of %s" % u, seen, set(cl))
        eq("listed servers", set(got), set(want))
        m.count("monitor_checks")
        if got:
            m.count("monitor_checks_with_servers")
        return s

"""Random operations, aware of the state the model is in."""
import json

import model as M

NAMES = ["server", "", "ä€😀", 'quo"te', "br}ace\n", "back\\slash", "{\"id\":1}", "x" * 300, "tab\there", "[]{}", "\u0001", "a b"]
EVIL = [b"\xc0", b"\xdb", b"\xdb\xdc", b"\xdb\xdd", b"\xc0\xc0", b"\x00", b"\x00\x00", b"\n", b"}\n", b"{", b"\xff\xff", b"\xdb\xc0", b"\x00\x01"]


def uuid_text(n, rng=None):
    u = "%08x-%04x-4%03x-8%03x-%012x" % (n * 2654435761 & 0xFFFFFFFF, n & 0xFFFF, n & 0xFFF, n >> 4 & 0xFFF, n)
    if rng is not None:
        r = rng.random()
        if r < 0.4:
            # of any version and variant, or of none
            r = rng.random()
            if r < 0.3:
                u = "%08x-%04x-%04x-%04x-%012x" % (rng.getrandbits(32), rng.getrandbits(16), rng.getrandbits(16), rng.getrandbits(16), n)
            elif r < 0.7:
                u = u[:14] + "%x" % rng.randrange(16) + u[15:19] + "%x" % rng.randrange(16) + u[20:]
            elif r < 0.8:
                u = "00000000-0000-0000-0000-%012x" % n
            else:
                u = "ffffffff-ffff-ffff-ffff-%012x" % (0xFFFFFFFFFFFF - n)
        r = rng.random()
        if r < 0.15:
            return u
        if r < 0.3:
            return "{" + u.upper() + "}"
    return "{" + u + "}"


def rid(rng):
    r = rng.random()
    if r < 0.7:
        return rng.randrange(1, 1000)
    return rng.choice([0, 1, -1, -2147483648, 2147483647, 65536, 7])


def dump(rng, obj):
    """One of many ways to write the same JSON value."""
    r = rng.random()
    if r < 0.4:
        t = json.dumps(obj, separators=(",", ":"))
    elif r < 0.6:
        t = json.dumps(obj)
    elif r < 0.75:
        t = json.dumps(obj, ensure_ascii=False)
    elif r < 0.9:
        t = json.dumps(obj, indent=rng.choice([1, 2, "\t"]))
    else:
        items = list(obj.items())
        rng.shuffle(items)
        t = json.dumps(dict(items), separators=(" , ", " : "))
    return t


def payload(rng, big=0.02, text=False):
    r = rng.random()
    if text:
        alphabet = ["a", "\n", "}", "{", "é", "€", "😀", "\u00c0", "\u00db", "\u00dc\u00dd", "\x00", "\x7f", "\"", "\u07ff", "\uffff", "\U0010ffff", " "]
        n = rng.choice([1, 2, 3, 5, 10, 50, 200]) if r > big else rng.choice([5000, 70000])
        s = "".join(rng.choice(alphabet) for _ in range(n))
        return s.encode()
    if r < big:
        n = rng.choice([4096, 10241, 65535, 65536, 70000, 200000])
        unit = bytes(rng.randrange(256) for _ in range(rng.choice([1, 7, 251])))
        return (unit * (n // len(unit) + 1))[:n]
    if r < 0.3:
        return b"".join(rng.choice(EVIL) for _ in range(rng.randrange(1, 9)))
    if r < 0.4:
        return json.dumps({"id": rng.randrange(9), "method": rng.choice(["TunnelProxy.Ping", "RemoteProxy.Hello", "TunnelProxy.DisconnectClient"]), "params": {}}).encode() + b"\n"
    if r < 0.5:
        return M.frame(rng.choice([0, 1, 2, 0xFFFF]), b"inner")
    if r < 0.6:
        return bytes([rng.randrange(256)])
    if r < 0.63:
        return bytes(rng.choice(b" \n\r\t\0") for _ in range(rng.choice([1, 2, 2, 30])))
    if r < 0.67:
        return bytes(range(256))
    return bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 3, 8, 20, 60, 200])))


class Gen:
    """Profile: weights of actions, kinds of connections, sizes."""

    def __init__(self, rng, world, profile):
        self.r, self.w, self.p = rng, world, profile
        self.n = 0
        self.uuid = rng.randrange(1 << 20)
        self.defer = {}   # connection -> remainder of a partly sent piece
        self.lost = []    # uuids that were in use once
        self.trace = []
        acts = profile["weights"]
        self.acts = list(acts)
        self.weights = [acts[a] for a in self.acts]

    # ------------------------------------------------------------ helpers
    def alive(self, state, broken=False):
        return [c for c in self.w.model.conns.values() if c.alive and c.state == state and not self.w.peers[c.id].local_closed]

    def pick(self, state):
        l = self.alive(state)
        if not l:
            return None
        # prefer few, busy ones
        return self.r.choice(l[:3]) if self.r.random() < 0.5 else self.r.choice(l)

    def new_uuid(self):
        self.uuid += 1
        return uuid_text(self.uuid, self.r)

    def name(self):
        return self.r.choice(NAMES) if self.r.random() < 0.4 else "n%d" % self.r.randrange(1000)

    def do(self, o):
        self.trace.append(o)
        sig = tuple(sorted((c.state, c.alive, getattr(c, "kind", ""), len(c.by_address), bool(c.buf)) for c in self.w.model.conns.values() if c.alive))
        self.w.op(o)
        self.w.state_sigs.add((o["op"], hash(sig)))

    def cuts(self, n, data=b""):
        if n < 2 or not self.p.get("cuts"):
            return []
        r = self.r.random()
        if r > self.p["cuts"]:
            return []
        m = self.r.random()
        if m < 0.2 and n <= 700:
            return list(range(1, n))
        if m < 0.5 and data:
            sp = [i + d for i, ch in enumerate(data[:20000]) if ch in b"}\n\xc0\xdb\\\"" for d in (0, 1)]
            sp = [x for x in sp if 0 < x < n]
            if sp:
                return sorted(set(self.r.choice(sp) for _ in range(self.r.randrange(1, 6))))
        return sorted(set(self.r.randrange(1, n) for _ in range(self.r.randrange(1, 5))))

    def send(self, c, parts, **kw):
        """Sends parts, cut into reads in some way; a part of it possibly later."""
        o = {"op": "send", "c": c.id, "parts": parts}
        peer = self.w.peers[c.id]
        if c.id in self.defer:
            o["parts"] = [["h", self.defer.pop(c.id)]] + parts
        if peer.message_based:
            if self.r.random() < 0.2:
                o["frags"] = self.r.randrange(2, 5)
            self.do(o)
            return
        data = b"".join(self.w.resolve(p, c) for p in o["parts"])
        if self.p.get("defer") and len(data) > 1 and self.r.random() < self.p["defer"]:
            k = self.r.randrange(1, len(data))
            self.defer[c.id] = data[k:].hex()
            o["parts"] = [["h", data[:k].hex()]]
            data = data[:k]
        cuts = self.cuts(len(data), data)
        if cuts:
            o["cuts"] = cuts
        self.do(o)

    def req(self, method, params=None, **kw):
        o = {"id": kw.get("id", rid(self.r)), "method": method}
        if params is not None:
            o["params"] = params
        if self.r.random() < 0.1:
            o = dict(reversed(list(o.items())))
        return dump(self.r, o)

    def term(self):
        return "\n" if self.r.random() < 0.8 else ""

    def request_part(self, c, text, term=None):
        t = text + (self.term() if term is None else term)
        if c.state == "server":
            return ["r", t]
        return ["t", t]

    # ------------------------------------------------------------ actions
    def a_open(self, kind=None):
        if len([c for c in self.w.model.conns.values() if not c.ended]) >= self.p.get("max_conns", 14):
            return
        self.n += 1
        k = kind or self.r.choice(self.p["kinds"])
        o = {"op": "open", "c": self.n, "k": k}
        if k == "fake":
            o["t"] = 1 if self.r.random() < self.p.get("message_based", 0.1) else 0
            o["a"] = self.r.choice(["10.0.0.1", "192.168.7.9", "2001:db8::1", "127.0.0.1"])
        elif k in ("tcp", "tls", "ws", "wss") and self.r.random() < 0.3:
            o["a"] = "127.%d.%d.%d" % (self.r.randrange(1, 250), self.r.randrange(250), self.r.randrange(1, 250))
        self.do(o)
        return self.w.model.conns[self.n]

    def json_conn(self, stream_only=False):
        l = [c for c in self.alive("json") if c.id not in self.defer and not (stream_only and c.kind in ("ws", "wss"))]
        if l and self.r.random() < 0.7:
            return self.r.choice(l)
        c = self.a_open()
        if c is not None and stream_only and c.kind in ("ws", "wss"):
            return None
        return c

    def a_server(self):
        c = self.json_conn(True)
        if c is None or (len(self.alive("server")) >= self.p.get("max_servers", 4)):
            return
        parts = [self.request_part(c, self.req("TunnelProxy.RegisterServer", {"serverName": self.name(), "serverUuid": self.reuse_uuid()}))]
        self.maybe_prefix(c, parts)
        if self.r.random() < self.p.get("pipeline", 0.1) and not self.w.peers[c.id].message_based:
            # frames right behind the registration
            parts[-1] = ["t", parts[-1][1].rstrip("\n") + "\n"]
            parts.append(["r", self.req("TunnelProxy.Ping", {"timestamp": self.r.randrange(1 << 32)})])
            if self.r.random() < 0.5:
                parts.append(["f", self.r.randrange(1, 9), "6162"])
        self.send(c, parts)

    def reuse_uuid(self):
        if self.lost and self.r.random() < 0.3:
            u = self.r.choice(self.lost)
            if M.parse_uuid(u) not in self.w.model.uuids:
                return u
        u = self.new_uuid()
        self.lost.append(u)
        self.lost = self.lost[-20:]
        return u

    def maybe_prefix(self, c, parts):
        """Some harmless requests in front."""
        while self.r.random() < self.p.get("pipeline", 0.1):
            parts.insert(0, self.request_part(c, self.good_request(), "\n"))

    def good_request(self):
        return self.req(*self.r.choice([("RemoteProxy.Hello",), ("RemoteProxy.Hello", {}), ("TunnelProxy.Ping", {"timestamp": self.r.choice([0, 1, 4294967295, self.r.randrange(1 << 32)])}),
                                        ("TunnelProxy.Ping", {"timestamp": self.r.randrange(1 << 31)})] + ([("RemoteProxy.Introspect", {})] if self.r.random() < 0.15 else [])))

    def server_uuid(self):
        s = self.pick("server")
        return "{" + s.uuid + "}" if s else None

    def a_client(self):
        su = self.server_uuid()
        if su is None:
            return self.a_server()
        c = self.json_conn()
        if c is None:
            return
        parts = [self.request_part(c, self.req("TunnelProxy.RegisterClient", {"clientName": self.name(), "clientUuid": self.reuse_uuid(), "serverUuid": su}))]
        self.maybe_prefix(c, parts)
        if self.r.random() < self.p.get("pipeline", 0.1) and not self.w.peers[c.id].message_based:
            # the request may end with its closing brace; a line feed behind that is taken as its end
            parts[-1] = ["t", parts[-1][1].rstrip("\n") + self.r.choice(["\n", "\n", ""])]
            parts.append(["h", (self.r.choice([b"", b"", b"\r\n", b"\n", b"\n\n", b"\r", b" ", b"{", b"\n\r\n"]) + payload(self.r)).hex()])
        self.send(c, parts)

    def a_conflict(self):
        used = list(self.w.model.uuids)
        if not used:
            return self.a_server()
        u = "{" + self.r.choice(used) + "}"
        if self.r.random() < 0.3:
            u = u.upper()
        r = self.r.random()
        if r < 0.35:
            c = self.json_conn(True)
            if c is not None:
                self.send(c, [self.request_part(c, self.req("TunnelProxy.RegisterServer", {"serverName": self.name(), "serverUuid": u}))] + self.tail(c))
        elif r < 0.7:
            su = self.server_uuid() or u
            c = self.json_conn()
            if c is not None:
                self.send(c, [self.request_part(c, self.req("TunnelProxy.RegisterClient", {"clientName": self.name(), "clientUuid": u, "serverUuid": su}))] + self.tail(c))
        else:
            s = self.pick("server")
            if s is not None and s.id not in self.defer:
                if self.r.random() < 0.5:
                    t = self.req("TunnelProxy.RegisterServer", {"serverName": "again", "serverUuid": self.r.choice([u, self.new_uuid()])})
                else:
                    t = self.req("TunnelProxy.RegisterClient", {"clientName": "again", "clientUuid": self.r.choice([u, self.new_uuid()]), "serverUuid": self.server_uuid()})
                self.send(s, [["r", t]] + self.tail(s))

    def tail(self, c):
        """Something behind a request that ends the connection: it must have no effect."""
        if self.r.random() > self.p.get("tail", 0.4) or self.w.peers[c.id].message_based:
            return []
        res = []
        for _ in range(self.r.randrange(1, 4)):
            if c.state == "server":
                x = self.r.random()
                if x < 0.4:
                    res.append(["r", self.good_request()])
                elif x < 0.7 and c.tunnels:
                    t = self.r.choice(list(c.tunnels.values()))
                    res.append(["rs", self.req("TunnelProxy.DisconnectClient", {"socketAddress": 4242424242}).replace("4242424242", "@@"), "c%d" % t.client.id])
                elif c.tunnels:
                    t = self.r.choice(list(c.tunnels.values()))
                    res.append(["f", "c%d" % t.client.id, "7a7a7a"])
            else:
                x = self.r.random()
                if x < 0.5:
                    res.append(["t", "\n" + self.good_request() + "\n"])
                elif x < 0.8:
                    res.append(["t", "\n" + self.req("TunnelProxy.RegisterServer", {"serverName": "late", "serverUuid": self.new_uuid()}) + "\n"])
                else:
                    su = self.server_uuid()
                    if su:
                        res.append(["t", "\n" + self.req("TunnelProxy.RegisterClient", {"clientName": "late", "clientUuid": self.new_uuid(), "serverUuid": su}) + "\nlate data"])
        return res

    def a_badreg(self):
        bad = self.r.choice(["", "not-a-uuid", "{00000000-0000-0000-0000-000000000000}", "{123}", "00000000-0000-0000-0000-000000000000", "{%s}" % ("z" * 36), "{12345678-1234-1234-1234-12345678901}"])
        r = self.r.random()
        c = self.json_conn(r < 0.3)
        if c is None:
            return
        if r < 0.3:
            t = self.req("TunnelProxy.RegisterServer", {"serverName": self.name(), "serverUuid": bad})
        elif r < 0.5:
            t = self.req("TunnelProxy.RegisterClient", {"clientName": self.name(), "clientUuid": bad, "serverUuid": self.server_uuid() or self.new_uuid()})
        elif r < 0.65:
            t = self.req("TunnelProxy.RegisterClient", {"clientName": self.name(), "clientUuid": self.new_uuid(), "serverUuid": bad})
        elif r < 0.9:
            gone = [u for u in self.lost if M.parse_uuid(u) not in self.w.model.uuids]
            cl = ["{" + x.uuid + "}" for x in self.alive("client")]
            t = self.req("TunnelProxy.RegisterClient", {"clientName": self.name(), "clientUuid": self.new_uuid(), "serverUuid": self.r.choice(gone + cl + [self.new_uuid()])})
        else:
            u = self.new_uuid()
            t = self.req("TunnelProxy.RegisterClient", {"clientName": self.name(), "clientUuid": u, "serverUuid": u})
        self.send(c, [self.request_part(c, t)] + self.tail(c))

    def a_good(self):
        r = self.r.random()
        c = self.pick("server") if r < 0.4 else self.json_conn()
        if c is None or c.id in self.defer and c.state != "server":
            return
        n = self.r.randrange(1, 5) if self.r.random() < 0.4 else 1
        parts = []
        for _ in range(n):
            parts.append(self.request_part(c, self.good_request(), "\n" if n > 1 and self.r.random() < 0.8 else None))
        self.send(c, parts)

    def bad_request(self):
        r = self.r
        k = r.randrange(16)
        i = rid(r)
        if k == 0:
            return '{"id":%d,"method":}' % i
        if k == 1:
            return '{"method":"RemoteProxy.Hello"}'
        if k == 2:
            return json.dumps({"id": i, "method": r.choice(["RemoteProxy", "", "Hello", "RemoteProxy.Hello.x", "RemoteProxy.", ".Hello", ".", "TunnelProxy.Hello", "remoteproxy.hello"])})
        if k == 3:
            return json.dumps({"id": i, "method": r.choice(["Foo.Bar", "JsonRpc.Hello", "tunnelProxy.Ping"])})
        if k == 4:
            return json.dumps({"id": i, "method": r.choice(["RemoteProxy.deleteLater", "RemoteProxy.destroyed", "TunnelProxy.name", "TunnelProxy.ClientConnected", "RemoteProxy.TunnelEstablished",
                                                            "RemoteProxy.processData", "TunnelProxy.ping", "RemoteProxy.introspect"])})
        if k == 5:
            return json.dumps({"id": i})
        if k == 6:
            return "[1,2,3]"
        if k == 7:
            return '{"id":%d,"method":"RemoteProxy.Hello",}' % i
        if k == 8:
            return json.dumps({"id": i, "method": "TunnelProxy.Ping", "params": r.choice([{}, {"timestamp": "abc"}, {"timestamp": []}, {"timestamp": {}}, {"timestamp": 1, "x": 2}, {"Timestamp": 1}])})
        if k == 9:
            return json.dumps({"id": i, "method": "RemoteProxy.Hello", "params": {r.choice(["a", "server", "id"]): 1}})
        if k == 10:
            return json.dumps({"id": i, "method": "TunnelProxy.RegisterServer", "params": r.choice([{}, {"serverName": "a"}, {"serverUuid": uuid_text(5)}, {"serverName": [], "serverUuid": uuid_text(5)},
                               {"serverName": "a", "serverUuid": 5}, {"serverName": "a", "serverUuid": []}, {"serverName": "a", "serverUuid": uuid_text(6), "x": ""}, {"serverName": {"a": 1}, "serverUuid": uuid_text(7)}])})
        if k == 11:
            return json.dumps({"id": i, "method": "TunnelProxy.RegisterClient", "params": r.choice([{}, {"clientName": "a", "clientUuid": uuid_text(8)}, {"clientName": "a", "clientUuid": {}, "serverUuid": uuid_text(9)},
                               {"clientName": "a", "clientUuid": uuid_text(8), "serverUuid": 17}, {"clientName": [1], "clientUuid": uuid_text(8), "serverUuid": uuid_text(9)},
                               {"clientName": "a", "clientUuid": uuid_text(8), "serverUuid": uuid_text(9), "o:x": 1}])})
        if k == 12:
            return json.dumps({"id": i, "method": "TunnelProxy.DisconnectClient", "params": r.choice([{}, {"socketAddress": "x"}, {"socketAddress": [1]}, {"socketAddress": {"a": 1}}, {"socketAddress": 1, "b": 1}, {"address": 1}])})
        if k == 13:
            return r.choice(["hello", "}", "]", "GET / HTTP/1.1", "{]}", '{"a" 1}', "{'id':1}", "{\"id\":\"x\"}", "null", "true", "42", "\"str\""])
        if k == 14:
            return '{"id":%d,"method":"TunnelProxy.Ping","params":{"timestamp":1}' % i + r.choice(["]}", ",}", " x}"])
        return json.dumps({"id": r.choice([[], {}]), "method": "RemoteProxy.Hello"})

    def a_bad(self):
        c = self.pick("server") if self.r.random() < 0.3 else self.json_conn()
        if c is None or (c.id in self.defer and c.state != "server"):
            return
        parts = []
        self.maybe_prefix(c, parts)
        t = self.bad_request()
        if self.w.peers[c.id].message_based and not t.endswith("}"):
            t = '{"id":3,"method":"No.Such"}'
        self.send(c, parts + [self.request_part(c, t, "\n")] + self.tail(c))

    def a_overlong(self):
        c = self.json_conn(True)
        if c is None or c.id in self.defer:
            return
        n = 10241 + self.r.choice([0, 1, 100, 30000])
        kind = self.r.random()
        if kind < 0.5:
            t = '{"id":1,"method":"' + "x" * (n - 18)
        elif kind < 0.8:
            t = "y" * n
        else:
            t = '{"id":1,"x":"' + "}" * (n - 13)
        self.send(c, [["t", t]])

    def a_almost_overlong(self):
        """A large request that is within the limit."""
        c = self.json_conn(True)
        if c is None or c.id in self.defer:
            return
        name = "N" * self.r.choice([5000, 9000, 10000])
        if len(self.alive("server")) >= self.p.get("max_servers", 4):
            return
        self.send(c, [["t", self.req("TunnelProxy.RegisterServer", {"serverName": name, "serverUuid": self.new_uuid()}) + "\n"]])

    def a_c2s(self):
        c = self.pick("client")
        if c is None:
            return self.a_client()
        text = c.kind in ("ws", "wss")
        self.send(c, [["h", payload(self.r, self.p.get("big", 0.02), text).hex()] for _ in range(self.r.choice([1, 1, 1, 2, 5]))])

    def frame_parts(self, s):
        ts = [t for t in s.tunnels.values() if not t.exp_gone and t.address is not None]
        r = self.r.random()
        pr = self.p
        if r < pr.get("malformed", 0.08):
            return ["h", self.r.choice([b"\xc0", b"\xc0\xc0\xc0", b"\xdb\xc0", b"\x00\x01ab\xdb\xc0", b"\x00\x01\xdb\x00zz\xc0", b"\x01\xc0", b"\xdb\xdc\xc0", b"\xdb\xdb\xc0", b"ab\xdbcd\xc0",
                                        b"\x00\x00\xdb{}\xc0", b"\x00\xc0", b"\x00\x01\xdb\xdb\xdc\xc0"]).hex()]
        if r < pr.get("malformed", 0.08) + pr.get("unassigned", 0.08):
            other = [t for x in self.w.model.conns.values() if x.state == "server" and x is not s for t in x.by_address.values()]
            a = self.r.choice([0xFFFF, 0xFFFE, 0xC0C0, 0xDBDB, 0x00C0, self.r.randrange(1, 0x10000)] + [t.address for t in other[:5]])
            return ["f", a, payload(self.r, 0.02, any(k in ("ws", "wss") for k in pr["kinds"])).hex()]
        if r < pr.get("malformed", 0.08) + pr.get("unassigned", 0.08) + pr.get("frame_req", 0.1):
            return ["r", self.good_request() + self.term()]
        if not ts:
            return ["f", self.r.randrange(1, 20), "00"]
        t = self.r.choice(ts)
        return ["f", "c%d" % t.client.id, payload(self.r, self.p.get("big", 0.02), t.client.kind in ("ws", "wss")).hex()]

    def a_s2c(self):
        s = self.pick("server")
        if s is None:
            return self.a_server()
        if not s.tunnels and self.r.random() < 0.7:
            return self.a_client()
        self.send(s, [self.frame_parts(s) for _ in range(self.r.choice([1, 1, 2, 3, 8]))])

    def a_kick(self):
        s = self.pick("server")
        if s is None or not s.tunnels:
            return self.a_client()
        ts = [t for t in s.tunnels.values() if not t.exp_gone and t.client.alive]
        r = self.r.random()
        if r < 0.45 and ts:
            t = self.r.choice(ts)
            txt = self.req("TunnelProxy.DisconnectClient", {"socketAddress": 4242424242}).replace("4242424242", self.r.choice(["@@"] * 4 + ['"@@"'] * 2 + ["@@.0", "@@.25", "@@.5", "@@.999", "-@@"]))
            parts = [["rs", txt, "c%d" % t.client.id]]
            if self.r.random() < 0.3:
                parts.append(["f", "c%d" % t.client.id, "616263"])
            if self.r.random() < 0.3:
                parts.append(["r", self.good_request()])
        else:
            others = [t.address for x in self.w.model.conns.values() if x.state == "server" and x is not s for t in x.by_address.values()]
            mine = [t.address for t in ts] or [1]
            a = self.r.choice([0, 0xFFFF, 0x10000, 65536 * 3, 4294967295, (1 << 32) + self.r.choice(mine), (1 << 40) + self.r.choice(mine), (1 << 64) + self.r.choice(mine), self.r.choice(mine) - 0.5, self.r.choice(mine) - 65536, 65536 + self.r.choice(mine), 65536 * 65535 + self.r.choice(mine), self.r.randrange(1, 65536)] + others[:4])
            parts = [["r", self.req("TunnelProxy.DisconnectClient", {"socketAddress": a})]]
        self.send(s, parts)

    def a_kick_foreign(self):
        c = self.json_conn()
        if c is None or c.id in self.defer:
            return
        a = [t.address for x in self.w.model.conns.values() if x.state == "server" for t in x.by_address.values()] or [1]
        self.send(c, [["t", self.req("TunnelProxy.DisconnectClient", {"socketAddress": self.r.choice(a)}) + "\n"]] + self.tail(c))

    def close(self, c):
        if c.kind == "fake" and not self.w.sync and not c.alive:
            self.do({"op": "finish", "c": c.id})
        else:
            self.do({"op": "close", "c": c.id, "how": self.r.choice(["fin", "fin", "rst", "half"])})
        self.defer.pop(c.id, None)

    def a_close(self):
        st = self.r.choice(["json", "client", "client", "server"])
        c = self.pick(st)
        if c is not None:
            self.close(c)

    def a_close_server(self):
        c = self.pick("server")
        if c is not None and c.tunnels:
            self.close(c)

    def a_close_client(self):
        c = self.pick("client")
        if c is not None:
            self.close(c)

    def a_finish(self):
        l = [c for c in self.w.model.conns.values() if c.close_labels is not None and not c.ended]
        if l:
            self.do({"op": "finish", "c": self.r.choice(l).id})

    def a_adv(self):
        self.do({"op": "adv", "ms": self.r.choice(self.p.get("adv", [10, 100, 1000]))})

    def a_mon(self):
        self.do({"op": "mon", "all": self.r.random() < 0.6, "via": self.r.choice(["call", "socket"])})

    def a_restart(self):
        self.do({"op": "stop", "nopump": self.r.random() < 0.3})
        self.do({"op": "start"})
        self.defer.clear()

    def a_stale(self):
        """The server uses the address of a client which is gone, or has not told it yet that it left."""
        gone = [c for c in self.w.model.conns.values() if c.tunnel is not None and c.tunnel.address is not None and not c.alive
                and c.tunnel.server.alive and not self.w.peers[c.tunnel.server.id].local_closed and c.tunnel.server.id not in self.defer]
        if not gone:
            return self.a_close_client()
        c = self.r.choice(gone[-6:])
        s = c.tunnel.server
        if s.by_address.get(c.tunnel.address) is not None and s.by_address[c.tunnel.address].client.kind in ("ws", "wss"):
            return
        parts = []
        for _ in range(self.r.randrange(1, 4)):
            if self.r.random() < 0.7:
                parts.append(["f", "c%d" % c.id, payload(self.r, 0.02, any(k in ("ws", "wss") for k in self.p["kinds"])).hex()])
            else:
                parts.append(["rs", self.req("TunnelProxy.DisconnectClient", {"socketAddress": 4242424242}).replace("4242424242", "@@"), "c%d" % c.id])
        self.send(s, parts)

    def a_probe(self):
        """A connection that is no tunnel end point sends what only those may send."""
        c = self.json_conn(True)
        if c is None or c.id in self.defer:
            return
        addrs = [a for x in self.w.model.conns.values() if x.state == "server" for a in x.by_address] or [1]
        r = self.r.random()
        if r < 0.5:
            t = b"".join(M.frame(self.r.choice(addrs), b"{injected}") for _ in range(self.r.randrange(1, 3)))
        elif r < 0.8:
            t = payload(self.r)
        else:
            t = b"plain text\n" + payload(self.r)
        self.send(c, [["h", t.hex()]])

    def a_swarm(self):
        """Many clients on one server."""
        s = self.pick("server")
        if s is None:
            return self.a_server()
        for _ in range(self.r.randrange(3, 9)):
            if not s.alive:
                return
            c = self.a_open()
            if c is None:
                return
            self.send(c, [self.request_part(c, self.req("TunnelProxy.RegisterClient", {"clientName": self.name(), "clientUuid": self.reuse_uuid(), "serverUuid": "{" + s.uuid + "}"}))])

    def a_moredata(self):
        """Both directions for every client of a server."""
        s = self.pick("server")
        if s is None or s.id in self.defer:
            return
        for t in list(s.tunnels.values()):
            if t.client.alive and not t.exp_gone and t.address is not None and not self.w.peers[t.client.id].local_closed:
                text = t.client.kind in ("ws", "wss")
                self.send(t.client, [["h", payload(self.r, 0.01, text).hex()]])
        parts = [["f", "c%d" % t.client.id, payload(self.r, 0.01, t.client.kind in ("ws", "wss")).hex()]
                 for t in s.tunnels.values() if t.client.alive and not t.exp_gone and t.address is not None]
        self.r.shuffle(parts)
        if parts:
            self.send(s, parts)

    def a_keepalive(self):
        """Every registered server says something."""
        for s in self.alive("server"):
            if self.r.random() < 0.8:
                self.send(s, [self.r.choice([["r", self.good_request() + "\n"], ["h", "c0"], ["f", 0xFFFE, "00"]])])

    def a_chatter(self):
        """Unregistered connections keep talking."""
        for c in self.alive("json"):
            if self.r.random() < 0.7 and c.id not in self.defer:
                self.send(c, [self.request_part(c, self.good_request(), "\n")])

    def a_flush(self):
        for cid in list(self.defer):
            c = self.w.model.conns.get(cid)
            if c is not None and c.alive:
                self.do({"op": "send", "c": cid, "parts": [["h", self.defer.pop(cid)]]})
            else:
                self.defer.pop(cid, None)

    def run(self, steps):
        for _ in range(steps):
            a = self.r.choices(self.acts, self.weights)[0]
            getattr(self, "a_" + a)()
        self.a_flush()

"""Hostile peers on every listener, with well-behaved tunnels watched at the same time."""
import json
import os
import random
import struct

import model as M
import peers as P
import sim
from kit import reg_client, reg_server, req, uuid, with_kit

WHATS = ("bytes", "http", "wsframes", "json", "control", "slip", "monitor", "ends", "swarm", "mixed")


def cases(rng, tier):
    res = []
    n = 100 if tier == "deep" else 12
    for what in WHATS:
        for ssl in (False, True):
            for i in range(n):
                res.append({"kit": {"ssl": ssl, "log": i % 2 == 0}, "what": what, "rounds": 12 if tier == "deep" else 5, "seed": rng.randrange(1 << 30)})
    return res


# ------------------------------------------------------------------ material
METHODS = ["RemoteProxy.Hello", "RemoteProxy.Introspect", "RemoteProxy.Ping", "TunnelProxy.RegisterServer", "TunnelProxy.RegisterClient", "TunnelProxy.DisconnectClient",
           "TunnelProxy.Ping", "TunnelProxy.ClientConnected", "TunnelProxy.Hello", "JsonRpc.Hello", "RemoteProxy.", ".Hello", ".", "", "a.b.c.d", "RemoteProxy.TunnelEstablished",
           "RemoteProxy.name", "TunnelProxy.deleteLater", "TunnelProxy.destroyed", "RemoteProxy.Hello.x", "x" * 300, "TunnelProxy.registerServer", "TunnelProxy.RegisterServer()"]
NAMES = ["serverName", "serverUuid", "clientName", "clientUuid", "socketAddress", "timestamp", "x", "", "method", "params", "id"]


def value(r, depth=0):
    k = r.randrange(16)
    if k == 0:
        return r.choice([0, 1, -1, 65535, 65536, 4294967295, 4294967296, 2147483648, -2147483649, 9007199254740993, 1 << 63, -(1 << 63), 1 << 64, 10 ** 30])
    if k == 1:
        return r.choice([0.5, -0.0, 1e308, 5e-324, 1e20, -1.5])
    if k == 2:
        return r.choice([True, False, None])
    if k == 3:
        return uuid(r.randrange(5000, 5040))
    if k == 4:
        return r.choice(["", "{}", "{00000000-0000-0000-0000-000000000000}", "not-a-uuid", "{" + "z" * 36 + "}", uuid(5000)[1:-1], uuid(5001).upper(), "{%s" % uuid(3), "a\0b", "\ud800", "\uffff", "😀" * 50, "%1 %2 %n", "x" * r.choice([255, 4096, 9000])])
    if k == 5 and depth < 4:
        return [value(r, depth + 1) for _ in range(r.randrange(4))]
    if k == 6 and depth < 4:
        return {r.choice(NAMES): value(r, depth + 1) for _ in range(r.randrange(4))}
    return r.choice(["x", "name", uuid(r.randrange(5000, 5040)), r.randrange(10), uuid(r.randrange(5000, 5040))])


def params(r, method):
    good = {"TunnelProxy.RegisterServer": {"serverName": "h", "serverUuid": uuid(r.randrange(5000, 5040))},
            "TunnelProxy.RegisterClient": {"clientName": "h", "clientUuid": uuid(r.randrange(5000, 5040)), "serverUuid": uuid(r.randrange(5000, 5040))},
            "TunnelProxy.DisconnectClient": {"socketAddress": r.choice([0, 1, 2, 3, 256, 65535])},
            "RemoteProxy.Ping": {"timestamp": 5}}.get(method, {})
    p = dict(good)
    for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
        if p and r.random() < 0.6:
            n = r.choice(list(p))
            if r.random() < 0.3:
                del p[n]
            else:
                p[n] = value(r)
        else:
            p[r.choice(NAMES)] = value(r)
    return p


def message(r):
    """Something like a request, without the newline."""
    m = r.choice(METHODS[:6]) if r.random() < 0.7 else r.choice(METHODS)
    o = {"id": r.randrange(100), "method": m, "params": params(r, m)}
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        k = r.choice(["id", "method", "params", "jsonrpc", "token", ""])
        if r.random() < 0.4:
            o.pop(k, None)
        else:
            o[k] = value(r)
    top = o if r.random() < 0.95 else value(r)
    b = json.dumps(top, ensure_ascii=r.random() < 0.5).encode("utf-8", "surrogatepass")
    for _ in range(r.choice([0, 0, 0, 0, 1, 1, 3])):
        b = mutate(r, b)
    return b


TOKENS = [b"{", b"}", b"}{", b"[", b"]", b"\"", b"\\", b"\\u0000", b"\\ud800", b"null", b"}\n{", b"\n", b"\r\n", b"\0", b"\xc0", b"\xdb", b"\xdb\xdc", b"\xdb\xdd", b"\xdb\x00", b"\xff\xfe", b"\xef\xbb\xbf",
          b"1e999", b"-", b"0x1", b",", b":", b"true", b"[" * 600, b"{\"a\":" * 600, b"\xf0\x9f\x98", b"\xed\xa0\x80"]


def mutate(r, b):
    b = bytearray(b)
    k = r.randrange(6)
    at = r.randrange(len(b) + 1)
    if k == 0 and b:
        b[at % len(b)] ^= 1 << r.randrange(8)
    elif k == 1:
        b[at:at] = r.choice(TOKENS)
    elif k == 2:
        del b[at:at + r.randrange(1, 20)]
    elif k == 3:
        to = r.randrange(len(b) + 1)
        b[to:to] = b[at:at + r.randrange(1, 40)]
    elif k == 4:
        b = b[:at]
    else:
        b[at:at] = r.randbytes(r.randrange(1, 9))
    return bytes(b)


def garbage(r):
    k = r.randrange(8)
    if k == 0:
        return r.randbytes(r.choice([1, 3, 17, 200, 5000]))
    if k == 1:
        return b"".join(r.choice(TOKENS) for _ in range(r.randrange(1, 30)))
    if k == 2:
        return r.choice([b"{", b"[", b"\n", b"\xc0", b"\xdb", b"\0", b"}\n", b"{}\n", b"[]\n", b"\"\"\n"]) * r.choice([1, 7, 300, 3000])
    if k == 3:
        return b"\x16\x03\x01" + struct.pack(">H", r.randrange(65536)) + r.randbytes(r.randrange(0, 300))
    if k == 4:
        return b"GET / HTTP/1.1\r\n\r\n" * r.randrange(1, 3)
    n = r.randrange(1, 5)
    return b"".join(message(r) + r.choice([b"\n", b"\n", b"\n", b"", b"\xc0"]) for _ in range(n))


def slip(r):
    """Bytes for the stream of a registered server."""
    k = r.randrange(8)
    if k == 0:
        return garbage(r)
    if k == 1:
        return bytes(r.choice([0xc0, 0xdb, 0xdc, 0xdd, 0, 1, 65, 255]) for _ in range(r.randrange(1, 60)))
    if k == 2:
        return M.frame(r.randrange(65536), r.randbytes(r.choice([0, 1, 50, 3000])))
    if k == 3:
        return M.frame(0, message(r))
    if k == 4:
        return mutate(r, M.frame(0, message(r) + b"\n"))
    if k == 5:
        return M.frame(r.choice([0, 1, 2, 3]), b"" if r.random() < 0.5 else r.randbytes(5))
    return M.frame(0, message(r) + r.choice([b"\n", b"", b"\n" + message(r) + b"\n"]))


def http(r, host, port):
    h = ["GET / HTTP/1.1", "Host: %s:%d" % (host, port), "Upgrade: websocket", "Connection: Upgrade", "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==", "Sec-WebSocket-Version: 13"]
    for _ in range(r.randrange(0, 4)):
        k = r.randrange(7)
        i = r.randrange(len(h))
        if k == 0:
            del h[i]
            h = h or ["x"]
        elif k == 1:
            h[i] = mutate(r, h[i].encode()).decode("latin-1")
        elif k == 2:
            h.insert(i, r.choice(["Origin: http://x", "X: " + "y" * 9000, "Sec-WebSocket-Protocol: a, b", "Sec-WebSocket-Extensions: permessage-deflate", ": ", "Content-Length: -1", "Transfer-Encoding: chunked", "no colon", "Host: %s" % ("h" * 300)]))
        elif k == 3:
            h.insert(i, h[r.randrange(len(h))])
        elif k == 4:
            h[0] = r.choice(["POST / HTTP/1.1", "GET  HTTP/1.1", "GET / HTTP/9.9", "GET " + "/a" * 4000 + " HTTP/1.1", "GET", "", "GET / HTTP/1.0", "OPTIONS * HTTP/1.1", "GET http://[::1 HTTP/1.1", "GET /%00%ff HTTP/1.1"])
        elif k == 5:
            h.extend(["X%d: y" % j for j in range(r.choice([10, 150]))])
        else:
            r.shuffle(h)
    return "\r\n".join(h).encode("latin-1", "replace") + r.choice([b"\r\n\r\n"] * 6 + [b"\r\n", b"\n\n", b""])


def wsframe(r):
    op = r.choice([0, 1, 1, 2, 8, 9, 10, 3, 7, 11, 15])
    body = r.choice([b"", message(r), message(r) + b"\n", r.randbytes(r.choice([1, 2, 125, 126, 127, 4000])), struct.pack(">H", r.choice([0, 999, 1000, 1005, 1006, 1015, 3000, 65535])) + b"bye"])
    first = op | r.choice([0x80, 0x80, 0x80, 0, 0xC0, 0xF0, 0x90])
    masked = r.random() < 0.9
    n = len(body)
    claim = n if r.random() < 0.9 else r.choice([0, 125, 126, 65536, 1 << 31, 1 << 62, (1 << 64) - 1])
    form = r.randrange(6)
    if claim > 65535 or form == 0:
        ln = bytes([127]) + struct.pack(">Q", claim)
    elif claim > 125 or form == 1:
        ln = bytes([126]) + struct.pack(">H", claim)
    else:
        ln = bytes([claim])
    if masked:
        key = r.randbytes(4)
        body = bytes(c ^ key[i & 3] for i, c in enumerate(body))
        return bytes([first, ln[0] | 0x80]) + ln[1:] + key + body
    return bytes([first]) + ln + body


MON = [b'{"method":"refresh","params":{"printAll":true}}', b'{"method":"refresh"}', b'{"method":"refresh","params":[]}', b'{"method":5}', b"[]", b"{}", b'{"method":"refresh","params":{"printAll":"x"}}', b"null", b'{"method":"Refresh"}']


# ------------------------------------------------------------------ bystanders
def blob(r, text):
    n = r.choice([1, 300, 20000])
    return "".join(r.choice("abcäß€😀\u0001") for _ in range(n)).encode() if text else r.randbytes(n)


class Watch:
    """Two tunnels which have to work all the time."""

    def __init__(self, k, r, ssl):
        self.k, self.r = k, r
        self.s = k.server(r.choice(["unix", "tls" if ssl else "tcp"]), 101)
        self.c = [k.client(x, 102 + i, self.s, 101) for i, x in enumerate(("tls", "wss") if ssl else ("unix", "ws"))]

    def exchange(self):
        k, r = self.k, self.r
        for i, (c, a) in enumerate(self.c):
            up, down = (blob(r, c.message_based) for _ in range(2))
            c.send(up)
            self.s.send(M.frame(a, down))
            got = b""
            while len(got) < len(up):
                f = k.frame(self.s)
                if f is None or f[0] != a:
                    k.fail("payload_c2s", "the watched server got %s instead of data of %#06x" % (sim.clip(repr(f)), a), {"C15", "C01", "C02"})
                got += f[1]
            k.until(lambda: len(c.rx) >= len(down) or c.closed)
            k.res.count("watched_bytes", len(up) + len(down))
            if got != up or bytes(c.rx) != down:
                k.fail("payload_s2c", "watched tunnel %d: %d of %d bytes up, %d of %d bytes down intact" % (i, len(got), len(up), len(c.rx), len(down)), {"C15", "C01", "C02"})
            c.rx.clear()
        k.res.count("watched_exchanges", len(self.c))


def newpeer(k, kind, **kw):
    """A connection which is not waited for."""
    return k.peer(kind, wait=False, **kw)


def raw(k, ws):
    p = P.TcpPeer(k.conf.host, k.conf.ws_port if ws else k.conf.tcp_port)
    k.peers.append(p)
    return p


def put(r, p, data):
    """In one or several pieces."""
    if p.s is None or p.closed:
        return
    if r.random() < 0.5 or len(data) < 2:
        p.send(data)
        return
    for _ in range(r.randrange(1, 4)):
        n = r.randrange(1, len(data) + 1)
        p.send(data[:n])
        data = data[n:]
        if not data or p.s is None or p.closed:
            return
    p.send(data)


def register(k, r, p):
    """An endpoint of the hostile side, without looking at the answer."""
    if r.random() < 0.5:
        p.send(reg_server(r.randrange(5000, 5040)))
        return True
    p.send(reg_client(r.randrange(5000, 5040), r.randrange(5000, 5040)))
    return False


def attack(k, r, what, ssl):
    kinds = ["tls", "wss", "unix"] if ssl else ["tcp", "ws", "unix"]
    streams = ["tls", "unix"] if ssl else ["tcp", "unix"]
    hostile = []
    n = r.randrange(3, 9)
    for _ in range(n):
        w = r.choice(WHATS[:-1]) if what == "mixed" else what
        if w == "bytes":
            p = r.choice([lambda: raw(k, False), lambda: raw(k, True), lambda: newpeer(k, r.choice(kinds)), lambda: newpeer(k, "monitor")])()
            for _ in range(r.randrange(1, 4)):
                put(r, p, garbage(r))
                if r.random() < 0.3:
                    k.step()
        elif w == "http":
            p = P.TcpPeer(k.conf.host, k.conf.ws_port) if not ssl else None
            if p is None:
                p = newpeer(k, "wss")
                p._early = [http(r, k.conf.host, k.conf.ws_port)]  # after the regular handshake
            else:
                k.peers.append(p)
                put(r, p, http(r, k.conf.host, k.conf.ws_port))
                if r.random() < 0.5:
                    put(r, p, wsframe(r))
        elif w == "wsframes":
            p = newpeer(k, "wss" if ssl else "ws")
            k.until(lambda: p.ws_open or p.closed)
            if r.random() < 0.4:
                register(k, r, p)
            for _ in range(r.randrange(1, 8)):
                d = wsframe(r) if r.random() < 0.9 else r.randbytes(20)
                if p.closed:
                    break
                p.wire_send(d if r.random() < 0.7 else d[:r.randrange(len(d) + 1)])
                if r.random() < 0.3:
                    k.step()
        elif w == "json":
            p = newpeer(k, r.choice(kinds))
            for _ in range(r.randrange(1, 6)):
                put(r, p, message(r) + b"\n")
                if r.random() < 0.4:
                    k.step()
        elif w in ("control", "slip"):
            p = newpeer(k, r.choice(streams))
            p.send(reg_server(r.randrange(5000, 5040)))
            if r.random() < 0.7:
                k.step()
            for _ in range(r.randrange(0, 3)):
                c = newpeer(k, r.choice(kinds))
                c.send(reg_client(r.randrange(5000, 5040), r.randrange(5000, 5040)))
                hostile.append(c)
                if r.random() < 0.5:
                    c.send(garbage(r))
            if r.random() < 0.5:
                k.step()
            for _ in range(r.randrange(1, 8)):
                put(r, p, slip(r) if w == "slip" else M.frame(0, message(r) + b"\n"))
                if r.random() < 0.3:
                    k.step()
        elif w == "monitor":
            p = newpeer(k, "monitor")
            for _ in range(r.randrange(1, 6)):
                m = r.choice(MON) if r.random() < 0.6 else message(r)
                if r.random() < 0.4:
                    m = mutate(r, m)
                put(r, p, m + r.choice([b"\n", b"\n", b"", b"\n\n"]))
                if r.random() < 0.4:
                    k.step()
            if r.random() < 0.3:
                p.paused = True
        elif w == "ends":
            p = newpeer(k, r.choice(kinds + ["monitor"]))
            server = False
            if p.kind != "monitor" and r.random() < 0.7:
                if r.random() < 0.8:
                    k.step()
                server = register(k, r, p)
                if r.random() < 0.8:
                    k.step()
            if r.random() < 0.3:
                p.paused = True
            for _ in range(r.randrange(0, 4)):
                put(r, p, slip(r) if server else garbage(r))
            if r.random() < 0.5:
                put(r, p, (message(r) + b"\n") if not server else M.frame(0, message(r)))
            if r.random() < 0.5:
                k.step()
            p.close(r.choice(["fin", "rst", "half"]))
        else:  # swarm
            for _ in range(r.randrange(5, 30)):
                q = newpeer(k, r.choice(kinds + ["monitor"]))
                hostile.append(q)
                if r.random() < 0.5:
                    q.close(r.choice(["fin", "rst", "half"]))
                elif r.random() < 0.5:
                    put(r, q, garbage(r))
            p = newpeer(k, r.choice(kinds))
        hostile.append(p)
        k.res.count("hostile_" + w)
        if r.random() < 0.5:
            k.step()
    return hostile


@with_kit
def run(k, case):
    r = random.Random(case["seed"])
    ssl = case["kit"]["ssl"]
    w = Watch(k, r, ssl)
    base = k.monitor()
    for _ in range(case["rounds"]):
        hostile = attack(k, r, case["what"], ssl)
        k.res.count("hostile_connections", len(hostile))
        w.exchange()
        for p in hostile:
            k.res.count("hostile_bytes_answered", p.rxcount)
            if p.s is not None:
                p.close(r.choice(["fin", "rst"]))
            if r.random() < 0.1:
                k.step()
        w.exchange()
        k.quiet()
        for _ in range(3):
            k.adv(4000, 1000)
            w.exchange()
        now = k.monitor()
        for key in ("totalClientCount", "transports", "serverConnectionsCount", "clientConnectionsCount"):
            if now.get(key) != base.get(key):
                k.fail("stale", "%s is %s after the hostile connections ended, %s before them" % (key, now.get(key), base.get(key)), {"C15", "C16"})
        k.works(r.choice(["tls", "wss"] if ssl else ["tcp", "ws", "unix"]))
        for p in hostile:
            p.dispose()
        k.peers = [p for p in k.peers if p.s is not None]
        k.res.count("rounds")

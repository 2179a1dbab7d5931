"""TLS enabled: nothing plain is answered, counted or acted on, and handshakes which do not complete end."""
import random
import socket
import ssl

import gen as G
import model as M
import peers as P
from kit import reg_client, reg_server, req, uuid, with_kit

WS_HELLO = b"GET / HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n"


def cases(rng, tier):
    res = []
    n = 60 if tier == "deep" else 12
    for port in ("tcp", "ws"):
        for what in ("plain", "plain_after_hello", "plain_inside", "silent", "dribble", "late_handshake", "early_data", "abort"):
            for i in range(n if what in ("plain", "plain_after_hello", "plain_inside", "abort") else 2):
                res.append({"kit": {"ssl": True, "inactive": rng.choice([3000, 8000, 30000])}, "port": port, "what": what, "seed": rng.randrange(1 << 30)})
    for i in range(4):
        res.append({"kit": {"ssl": False}, "port": rng.choice(["tcp", "ws"]), "what": "disabled", "seed": rng.randrange(1 << 30)})
    return res


class RawTls(P.TcpPeer):
    """Keeps the wire bytes the proxy sent and can inject plain bytes."""

    def __init__(self, host, port):
        super().__init__(host, port)
        self.wire = bytearray()
        self.bin, self.bout = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.tls = P.tls_context().wrap_bio(self.bin, self.bout, server_side=False)
        self.established = False
        self.plain = bytearray()
        self.held = bytearray()

    def raw_received(self, d):
        self.wire += d
        self.rxcount += len(d)
        self.bin.write(d)

    def hello(self):
        """What the TLS client wants to send next."""
        try:
            self.tls.do_handshake()
            self.established = True
        except (ssl.SSLWantReadError, ssl.SSLWantWriteError):
            pass
        except ssl.SSLError:
            pass
        return self.bout.read()

    def app(self):
        while True:
            try:
                d = self.tls.read(65536)
            except ssl.SSLError:
                return bytes(self.plain)
            if not d:
                return bytes(self.plain)
            self.plain += d


def only_tls(k, p, what):
    """Every byte the proxy sent belongs to a TLS record."""
    b = bytes(p.wire)
    i = 0
    while i < len(b):
        h = b[i:i + 5]
        ok = h[0] in (20, 21, 22, 23) and (len(h) < 2 or h[1] == 3)
        if not ok:
            k.fail("plain_answer", "%s: the proxy sent %r in plain" % (what, b[i:i + 200]), {"C14"})
        if len(h) < 5:
            break
        i += 5 + (h[3] << 8 | h[4])
    k.res.count("tls_wires_checked")
    if b"jsonrpc" in b or b'"status"' in b or b"101 Switching" in b:
        k.fail("plain_answer", "%s: the proxy answered in plain: %r" % (what, b[:300]), {"C14"})


def uncounted(k, n, what, r, uuids=()):
    """The monitor does not know more than the n legitimate connections, and none of the UUIDs."""
    m = k.monitor()
    if m["totalClientCount"] != n or sum(m["transports"].values()) != n:
        k.fail("counted", "%s: monitor counts %s, transports %s instead of %d" % (what, m["totalClientCount"], m["transports"], n), {"C14", "C19"})
    for s in m["tunnelConnections"]:
        if M.parse_uuid(s["serverUuid"]) in uuids:
            k.fail("acted", "%s: registered %s" % (what, s["serverUuid"]), {"C14", "C09"})


def junk(r, port, victim):
    """Plain bytes which would have an effect if they were looked at."""
    reqs = [req("RemoteProxy.Hello", {}), reg_server(4711), req("RemoteProxy.Introspect", {}), reg_client(4712, victim)]
    x = r.random()
    if port == "ws" and x < 0.7:
        return WS_HELLO + b"".join(P.WsCodec.frame(1, q) for q in r.sample(reqs, 2))
    if x < 0.85:
        q = r.choice(reqs)
        return q * r.choice([1, 1, 3])
    return r.choice([b"\x80\x2e\x01\x00\x02", b"\x16\x03\x01", b"\x15\x03\x01\x00\x02\x02\x28", b"\xc0\x00\x00{}\xc0", bytes(r.randrange(256) for _ in range(r.choice([1, 10, 500])))]) + r.choice(reqs)


@with_kit
def run(k, case):
    r = random.Random(case["seed"])
    c = k.conf
    port = c.tcp_port if case["port"] == "tcp" else c.ws_port
    what = case["what"]
    if what == "disabled":
        s = k.server("tcp", 1)
        w, a = k.client("ws", 2, s, 1)
        w.send(b"plain")
        if k.frame(s) != (a, b"plain"):
            k.fail("payload_c2s", "plain connections do not work with TLS disabled", {"C14"})
        h = RawTls(c.host, port)
        k.peers.append(h)
        h.raw_send(h.hello())
        k.quiet()
        if b"\x16\x03" in h.wire[:3]:
            k.fail("tls", "TLS is served although it is disabled", {"C14", "C24"})
        k.works("tcp", ("C14",))
        k.works("ws", ("C14",))
        return
    victim = k.server("tls", 1)
    vc, va = k.client("wss" if r.random() < 0.5 else "tls", 2, victim, 1)
    if what == "plain":
        p = RawTls(c.host, port)
        k.peers.append(p)
        d = junk(r, case["port"], 1)
        if r.random() < 0.3:
            for i in range(0, len(d), 7):
                p.raw_send(d[i:i + 7])
                k.step()
        else:
            p.raw_send(d)
        k.quiet()
        uncounted(k, 2, "plain data", r, {M.parse_uuid(uuid(4711))})
    elif what == "plain_after_hello":
        # a handshake which is begun but not completed, then plain requests
        p = RawTls(c.host, port)
        k.peers.append(p)
        p.raw_send(p.hello())
        k.until(lambda: len(p.wire) > 0)
        d = junk(r, case["port"], 1)
        p.raw_send(d)
        k.quiet()
        uncounted(k, 2, "plain data after the client hello", r, {M.parse_uuid(uuid(4711))})
    elif what == "plain_inside":
        # plain bytes behind the established session
        p = RawTls(c.host, port)
        k.peers.append(p)
        for _ in range(10):
            p.raw_send(p.hello())
            if p.established:
                break
            n = len(p.wire)
            k.until(lambda: len(p.wire) > n)
        k.quiet()
        p.app()
        p.raw_send(junk(r, case["port"], 1))
        k.quiet()
        m = k.monitor()
        for s in m["tunnelConnections"]:
            if M.parse_uuid(s["serverUuid"]) == M.parse_uuid(uuid(4711)):
                k.fail("acted", "plain bytes behind a TLS handshake were acted on", {"C14"})
        if b'"status"' in p.app():
            k.fail("plain_answer", "plain bytes behind a TLS handshake were answered", {"C14"})
    elif what in ("silent", "dribble"):
        p = RawTls(c.host, port)
        k.peers.append(p)
        hello = p.hello()
        for i in range(18):
            if what == "dribble" and i < len(hello) - 1:
                p.raw_send(hello[i:i + 1])
            k.adv(250)
            uncounted(k, 2, "connection without TLS session", r)
            if case["port"] == "tcp" and i < 17 and p.closed:
                k.fail("close_unexpected", "closed after %d ms without handshake" % (250 * (i + 1)), {"C14"})
        if case["port"] == "tcp":
            k.adv(1000)
            k.until(lambda: p.closed)
            if not p.closed:
                k.fail("close_missing", "%s connection without TLS session is still open after 5.5 s" % what, {"C14"})
        else:
            k.adv(12000)
        uncounted(k, 2, "connection without TLS session", r)
    elif what == "late_handshake":
        p = RawTls(c.host, port)
        k.peers.append(p)
        k.adv(4600)
        for _ in range(10):
            p.raw_send(p.hello())
            if p.established:
                break
            n = len(p.wire)
            k.until(lambda: len(p.wire) > n or p.closed)
        if not p.established:
            k.fail("not_served", "no TLS session 4.6 s after connecting", {"C14"})
        k.adv(1500)
        if case["port"] == "tcp":
            p.tls.write(req("RemoteProxy.Hello", {}))
            p.raw_send(p.bout.read())
            k.until(lambda: b'"status":"success"' in p.app().replace(b" ", b""))
            if b'"success"' not in p.app():
                k.fail("not_served", "no answer on a TLS session: %r" % p.app(), {"C14"})
    elif what == "early_data":
        # requests in the same segment as the end of the handshake
        p = RawTls(c.host, port)
        k.peers.append(p)
        for _ in range(10):
            d = p.hello()
            if p.established:
                p.tls.write((WS_HELLO + P.WsCodec.frame(1, req("RemoteProxy.Hello", {}))) if case["port"] == "ws" else req("RemoteProxy.Hello", {}))
                p.raw_send(d + p.bout.read())
                break
            p.raw_send(d)
            n = len(p.wire)
            k.until(lambda: len(p.wire) > n)
        k.until(lambda: b'"success"' in p.app())
        if p.app().count(b'"success"') != 1:
            k.fail("not_served", "%d answers to a request sent together with the end of the handshake: %r" % (p.app().count(b'"success"'), p.app()[:300]), {"C14", "C07", "C11"})
    elif what == "abort":
        p = RawTls(c.host, port)
        k.peers.append(p)
        for _ in range(r.randrange(0, 3)):
            d = p.hello()
            p.raw_send(d[:r.randrange(len(d) + 1)] if r.random() < 0.5 else d)
            k.step()
        p.close(r.choice(["fin", "rst", "half"]))
        k.quiet()
        k.adv(12000)
        m = k.monitor()["totalClientCount"]
        if m != 2:
            k.fail("counted", "%d connections after an aborted handshake instead of 2" % m, {"C14", "C16"})
    if what != "abort":
        only_tls(k, p, what)
    # the registered ones have not noticed anything
    victim.send(M.frame(va, b"still here") + b"\xc0")
    k.until(lambda: len(vc.rx) >= 10)
    if bytes(vc.rx) != b"still here" or victim.rx:
        k.fail("stray", "the tunnel saw %r, its server %r" % (bytes(vc.rx), bytes(victim.rx)), {"C14", "C02"})
    k.works(r.choice(["tls", "wss"]), ("C14", "C15"))

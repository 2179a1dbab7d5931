"""A proxy played by the check, for the client libraries: plain, TLS, WebSocket and secure WebSocket."""
import base64
import hashlib
import json
import os
import shutil
import socket
import ssl
import struct

import model as M
import peers as P
import sim
import vbuild
from hproc import Crash, HProc

SCHEMES = {"tcp": "tcp", "tls": "ssl", "ws": "ws", "wss": "wss"}
_ctx = None


def server_context():
    global _ctx
    if _ctx is None:
        _ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        _ctx.load_cert_chain(sim.CERT, sim.KEY)
    return _ctx


class Plain(P.SockPeer):
    tcp = True
    ready = True

    def __init__(self, s):
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        super().__init__(s)

    def text(self, d):
        self.send(d)

    def pieces(self, data, cuts):
        """Sends data as separate segments; the caller pumps in between."""
        for a, b in zip([0] + cuts, cuts + [len(data)]):
            if b > a:
                yield data[a:b]


class Tls(P.TlsMixin, Plain):
    def __init__(self, s, hold=False, context=None):
        Plain.__init__(self, s)
        self.hold = hold
        self.bin, self.bout = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.tls = (context or server_context()).wrap_bio(self.bin, self.bout, server_side=True)
        self.established = False
        self.wire_rx = 0
        self.tls_error = None
        self._plain_out = bytearray()

    @property
    def ready(self):
        return self.established

    def app_received(self, p):
        self._got(p)

    def _handshake(self):
        if not self.hold:
            P.TlsMixin._handshake(self)

    def send(self, data):
        self.tls_send(data)


class Ws:
    """The server side of RFC 6455 over .wire_send()."""
    message_based = True

    def ws_init(self, hold=False, refuse=False):
        self.ready = False
        self.hold, self.refuse = hold, refuse
        self.ws_buf = bytearray()
        self._frag = bytearray()
        self.got_close = False

    def go(self):
        """The handshake which has been held back."""
        self.hold = False
        self.ws_received(b"")

    def ws_received(self, d):
        self.ws_buf += d
        if not self.ready:
            i = self.ws_buf.find(b"\r\n\r\n")
            if i < 0 or self.hold:
                return
            head = bytes(self.ws_buf[:i]).decode()
            del self.ws_buf[:i + 4]
            if self.refuse:
                self.wire_send(b"HTTP/1.1 403 Forbidden\r\nContent-Length: 0\r\n\r\n")
                return
            key = [l.split(":", 1)[1].strip() for l in head.split("\r\n") if l.lower().startswith("sec-websocket-key")][0]
            acc = base64.b64encode(hashlib.sha1((key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11").encode()).digest()).decode()
            self.wire_send(("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: %s\r\n\r\n" % acc).encode())
            self.ready = True
        while True:
            b = self.ws_buf
            if len(b) < 2:
                return
            op, fin, n, off = b[0] & 15, b[0] & 0x80, b[1] & 127, 2
            if n == 126:
                if len(b) < 4:
                    return
                n, off = struct.unpack(">H", b[2:4])[0], 4
            elif n == 127:
                if len(b) < 10:
                    return
                n, off = struct.unpack(">Q", b[2:10])[0], 10
            if b[1] & 0x80:
                off += 4
            if len(b) < off + n:
                return
            p = bytes(b[off:off + n])
            if b[1] & 0x80 and n:
                km = (bytes(b[off - 4:off]) * (n // 4 + 1))[:n]
                p = (int.from_bytes(p, "big") ^ int.from_bytes(km, "big")).to_bytes(n, "big")
            del b[:off + n]
            if op in (0, 1, 2):
                self._frag += p
                if fin:
                    self._got(bytes(self._frag))
                    self._frag = bytearray()
            elif op == 9:
                self.wire_send(self.frame(10, p))
            elif op == 8:
                self.got_close = True
                self.wire_send(self.frame(8, p[:2]))

    @staticmethod
    def frame(op, payload, fin=True):
        h = bytes([(0x80 if fin else 0) | op])
        n = len(payload)
        h += bytes([n]) if n < 126 else bytes([126]) + struct.pack(">H", n) if n < 65536 else bytes([127]) + struct.pack(">Q", n)
        return h + payload

    def send(self, data, op=1):
        self.wire_send(self.frame(op, data))

    def pieces(self, data, cuts):
        """As messages of their own, never cutting through a character."""
        last = 0
        for c in cuts + [len(data)]:
            while c < len(data) and data[c] & 0xC0 == 0x80:
                c += 1
            if c > last:
                yield data[last:c]
                last = c


class WsConn(Ws, Plain):
    def __init__(self, s, **k):
        self.ws_init(**k)
        Plain.__init__(self, s)

    def wire_send(self, d):
        self.raw_send(d)

    def raw_received(self, d):
        self.ws_received(d)


class WssConn(Ws, Tls):
    ready = False

    def __init__(self, s, **k):
        self.ws_init(**k)
        hold = self.hold
        Tls.__init__(self, s)
        self.hold = hold

    def _handshake(self):
        P.TlsMixin._handshake(self)

    def wire_send(self, d):
        self.tls_send(d)

    def app_received(self, p):
        self.ws_received(p)


class Listener:
    KINDS = {"tcp": Plain, "tls": Tls, "ws": WsConn, "wss": WssConn}

    def __init__(self, kind, salt=0, host=None, certificate=None):
        self.kind = kind
        self.host = host or sim.loopback(salt)
        self.context = None
        if certificate:
            self.context = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            self.context.load_cert_chain(*certificate)
        self.l = None
        self.port = 0
        self.conns = []
        self.accepted = 0
        self.how = "serve"   # serve, hold, refuse, slam
        self.open()

    def url(self):
        return "%s://%s:%d" % (SCHEMES[self.kind], "[%s]" % self.host if ":" in self.host else self.host, self.port)

    def open(self):
        if self.l is None:
            self.l = socket.socket(socket.AF_INET6 if ":" in self.host else socket.AF_INET)
            self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            self.l.bind((self.host, self.port))
            self.port = self.l.getsockname()[1]
            self.l.listen(20)
            self.l.setblocking(False)

    def shut(self):
        if self.l is not None:
            self.l.close()
            self.l = None

    def poll(self):
        moved = False
        if self.l is not None:
            try:
                s, _ = self.l.accept()
                self.accepted += 1
                moved = True
                if self.how == "slam":
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    s.close()
                elif self.how == "junk":
                    s.send(b"\x00\x01nonsense, no TLS and no HTTP\r\n\r\n" * 3)
                    s.close()
                else:
                    kw = {}
                    if self.how == "hold" and self.kind != "tcp":
                        kw["hold"] = True
                    if self.how == "refuse" and self.kind in ("ws", "wss"):
                        kw["refuse"] = True
                    if self.context and self.kind == "tls":
                        kw["context"] = self.context
                    self.conns.append(self.KINDS[self.kind](s, **kw))
            except BlockingIOError:
                pass
        for c in self.conns:
            if c.s is not None and not c.closed and c.poll():
                moved = True
        return moved

    def dispose(self):
        self.shut()
        for c in self.conns:
            c.dispose()


class LibKit:
    """A clientd process, listeners of the check and what the library reported."""

    def __init__(self, res, kinds=("tcp",)):
        self.res = res
        self.dir = sim.scratch("vl-")
        self.build = vbuild.ensure("asan")
        self.h = HProc(self.build.clientd, self.build, self.dir)
        self.h.sink = self._sink
        self.events = []
        self.all_events = []
        self.listeners = {k: Listener(k, i * 13) for i, k in enumerate(kinds)}

    def _sink(self, l):
        if l.startswith("e "):
            self.events.append(l[2:].split(" "))
            self.all_events.append(l[2:])
            self.res.count("library_signals")
            self.res.count("observed_messages")
            return True
        return False

    def fail(self, kind, detail, labels):
        raise sim.Divergence(kind, "library", detail + "\nlast signals: %s" % [e[:120] for e in self.all_events[-12:]], labels)

    def cmd(self, line):
        """The value after 'r ' in the answer."""
        for l in self.h.cmd(line)[1]:
            if l.startswith("r "):
                return l[2:]
        return None

    def step(self):
        self.h.cmd("P")
        moved = False
        for l in self.listeners.values():
            if l.poll():
                moved = True
        return moved

    def quiet(self):
        idle = n = 0
        while idle < 3:
            idle = 0 if self.step() else idle + 1
            n += 1
            if n > 50000:
                raise Crash("hang", "library and proxy never became idle")

    def until(self, cond, patience=40):
        idle = 0
        while not cond():
            if self.step():
                idle = 0
                continue
            idle += 1
            if idle > 3:
                self.h.cmd("W 30")
            if idle > patience:
                return cond()
        return True

    def take(self):
        e, self.events = self.events, []
        return e

    def adv(self, ms, step=50):
        self.h.cmd("A %d %d" % (ms, step))
        self.quiet()

    def end(self):
        for l in self.listeners.values():
            l.dispose()
        self.h.quit()

    def kill(self):
        for l in self.listeners.values():
            l.dispose()
        self.h.kill()
        shutil.rmtree(self.dir, ignore_errors=True)


def compact(r, o):
    """JSON as a proxy may write it: any order of keys, any escaping."""
    items = list(o.items())
    r.shuffle(items)
    return json.dumps(dict(items), separators=(",", ":"), ensure_ascii=r.random() < 0.5).encode()


def cuts(r, n, dense=False):
    """Where to cut n bytes."""
    k = r.randrange(5)
    if k == 0 or n < 2:
        return []
    if k == 1 and n < 400 or dense:
        return list(range(1, n))
    if k == 2:
        return [r.randrange(1, n)]
    if k == 3:
        return [n - 1]
    return sorted({r.randrange(1, n) for _ in range(r.randrange(1, 12))})


def hx(b):
    return b.hex() if b else "-"


def unhx(s):
    return b"" if s == "-" else bytes.fromhex(s)

"""Peers of the proxy: real sockets (TCP, TLS, WebSocket, Unix) and the in-process fake transport.

Every peer has the same interface: send(bytes), poll() -> reads what is there, .rx (bytes received, in
order, not yet consumed), .rxcount, .closed (the proxy ended the connection), .reset.
None of them ever blocks: the caller alternates poll() with pumping the proxy.
"""
import base64
import errno
import os
import socket
import ssl
import struct


class Peer:
    kind = "?"
    message_based = False

    def __init__(self):
        self.rx = bytearray()
        self.rxcount = 0
        self.closed = False
        self.reset = False
        self.local_closed = False
        self.paused = False  # a peer which does not read

    def _got(self, d):
        self.rx += d
        self.rxcount += len(d)


class SockPeer(Peer):
    """A stream socket; self.out holds what the kernel did not take yet."""
    tcp = False

    def __init__(self, sock):
        super().__init__()
        self.s = sock
        self.s.setblocking(False)
        self.out = bytearray()
        self.eof_sent = False

    def raw_send(self, data):
        self.out += data
        self._flush()

    def _flush(self):
        while self.out and self.s is not None:
            try:
                n = self.s.send(self.out[:262144])
                del self.out[:n]
            except (BlockingIOError, InterruptedError):
                return False
            except OSError as e:
                self.out.clear()
                if e.errno in (errno.ECONNRESET, errno.EPIPE, errno.ENOTCONN):
                    self.reset = True
                    self._drain()
                    self.closed = True
                else:
                    raise
        return True

    def _drain(self):
        got = False
        while self.s is not None and not self.closed:
            try:
                d = self.s.recv(1 << 20)
            except (BlockingIOError, InterruptedError):
                break
            except OSError:
                self.closed = self.reset = True
                return True
            if d == b"":
                self.closed = True
                return True
            self.raw_received(d)
            got = True
        return got

    def raw_received(self, d):
        self._got(d)

    def send(self, data):
        self.raw_send(data)

    def poll(self):
        """Returns True when something happened (so the caller pumps again)."""
        if self.s is None or self.paused:
            return False
        before = len(self.out)
        self._flush()
        got = self._drain()
        if self.tcp and self.s is not None:
            # acknowledge at once, so that the other side's kernel does not sit on small segments
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1)
        return got or len(self.out) != before

    def pending(self):
        return len(self.out)

    def close(self, how="fin"):
        if self.s is None:
            return
        self.local_closed = True
        try:
            if how == "rst":
                try:
                    self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                except OSError:
                    pass
            elif how == "half":
                try:
                    self.s.shutdown(socket.SHUT_WR)
                except OSError:
                    pass
                self.eof_sent = True
                return
            self.s.close()
        finally:
            if how != "half":
                self.s = None
                self.out.clear()

    def dispose(self):
        if self.s is not None:
            self.s.close()
            self.s = None


class TcpPeer(SockPeer):
    kind = "tcp"
    tcp = True

    def __init__(self, host, port, source=None, rcvbuf=None):
        s = socket.socket(socket.AF_INET6 if ":" in host else socket.AF_INET, socket.SOCK_STREAM)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        if source:
            s.bind((source, 0))
        s.settimeout(5)
        s.connect((host, port))
        self.address = s.getsockname()[0]
        super().__init__(s)


class UnixPeer(SockPeer):
    kind = "unix"

    def __init__(self, path):
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        s.settimeout(5)
        s.connect(path)
        self.address = "127.0.0.1"
        super().__init__(s)


_ctx = None


def tls_context():
    global _ctx
    if _ctx is None:
        _ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        _ctx.check_hostname = False
        _ctx.verify_mode = ssl.CERT_NONE
    return _ctx


class TlsMixin:
    """TLS over the raw stream by means of memory BIOs."""

    def tls_init(self):
        self.bin, self.bout = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.tls = tls_context().wrap_bio(self.bin, self.bout, server_side=False, server_hostname=None)
        self.established = False
        self.wire_rx = 0
        self.tls_error = None
        self._plain_out = bytearray()
        self._handshake()

    def _handshake(self):
        try:
            self.tls.do_handshake()
            self.established = True
        except (ssl.SSLWantReadError, ssl.SSLWantWriteError):
            pass
        except ssl.SSLError as e:
            self.tls_error = str(e)
        self._tls_flush()
        if self.established and self._plain_out:
            d, self._plain_out = bytes(self._plain_out), bytearray()
            self.tls_send(d)
            self._tls_flush()

    def _tls_flush(self):
        d = self.bout.read()
        if d:
            SockPeer.raw_send(self, d)

    def tls_send(self, data):
        if not self.established:
            self._plain_out += data
            return
        mv = memoryview(data)
        while mv:
            n = self.tls.write(mv[:16000])
            mv = mv[n:]
            self._tls_flush()

    def raw_received(self, d):
        self.wire_rx += len(d)
        self.bin.write(d)
        if not self.established:
            self._handshake()
            if not self.established:
                return
        while True:
            try:
                p = self.tls.read(1 << 16)
            except (ssl.SSLWantReadError, ssl.SSLWantWriteError):
                break
            except ssl.SSLZeroReturnError:
                self.closed = True
                break
            except ssl.SSLError as e:
                self.tls_error = str(e)
                break
            if not p:
                break
            self.app_received(p)
        self._tls_flush()


class TlsPeer(TlsMixin, TcpPeer):
    kind = "tls"

    def __init__(self, *a, **k):
        TcpPeer.__init__(self, *a, **k)
        self.tls_init()

    def app_received(self, p):
        self._got(p)

    def send(self, data):
        self.tls_send(data)


class WsCodec:
    """The client side of RFC 6455 over .wire_send()."""
    message_based = True

    def ws_init(self, host, port):
        self.ws_open = False
        self.ws_buf = bytearray()
        self.messages = []
        self.close_code = None
        self._frag = None
        self._early = []
        self.key = base64.b64encode(os.urandom(16)).decode()
        host = "[%s]" % host if ":" in host else host
        self.wire_send(("GET / HTTP/1.1\r\nHost: %s:%d\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: %s\r\n"
                        "Sec-WebSocket-Version: 13\r\n\r\n" % (host, port, self.key)).encode())

    @staticmethod
    def frame(op, payload, fin=True, mask=b"\x11\x22\x33\x44"):
        h = bytes([(0x80 if fin else 0) | op])
        n = len(payload)
        if n < 126:
            h += bytes([0x80 | n])
        elif n < 65536:
            h += bytes([0x80 | 126]) + struct.pack(">H", n)
        else:
            h += bytes([0x80 | 127]) + struct.pack(">Q", n)
        if n:
            km = (mask * (n // 4 + 1))[:n]
            payload = (int.from_bytes(payload, "big") ^ int.from_bytes(km, "big")).to_bytes(n, "big")
        return h + mask + payload

    def send(self, data, op=1, frags=1):
        """One text message, as one or several frames."""
        if frags <= 1 or len(data) < frags:
            fr = self.frame(op, data)
        else:
            step = len(data) // frags
            parts = [data[i * step:(i + 1) * step if i < frags - 1 else len(data)] for i in range(frags)]
            fr = b"".join(self.frame(op if i == 0 else 0, p, i == frags - 1) for i, p in enumerate(parts))
        if self.ws_open:
            self.wire_send(fr)
        else:
            self._early.append(fr)

    def ws_received(self, d):
        self.ws_buf += d
        if not self.ws_open:
            i = self.ws_buf.find(b"\r\n\r\n")
            if i < 0:
                return
            self.handshake = bytes(self.ws_buf[:i])
            del self.ws_buf[:i + 4]
            if b" 101 " not in self.handshake.split(b"\r\n")[0]:
                return
            self.ws_open = True
            for fr in self._early:
                self.wire_send(fr)
            self._early = []
        while True:
            b = self.ws_buf
            if len(b) < 2:
                return
            op, fin, n, off = b[0] & 15, b[0] & 0x80, b[1] & 127, 2
            if n == 126:
                if len(b) < 4:
                    return
                n, off = struct.unpack(">H", b[2:4])[0], 4
            elif n == 127:
                if len(b) < 10:
                    return
                n, off = struct.unpack(">Q", b[2:10])[0], 10
            if len(b) < off + n:
                return
            p = bytes(b[off:off + n])
            del b[:off + n]
            if op in (0, 1, 2):
                if op:
                    self._frag = (op, bytearray())
                if self._frag is None:
                    continue
                self._frag[1].extend(p)
                if fin:
                    m = bytes(self._frag[1])
                    self.messages.append((self._frag[0], m))
                    self._frag = None
                    self._got(m)
            elif op == 9:
                self.wire_send(self.frame(10, p))
            elif op == 8:
                self.close_code = struct.unpack(">H", p[:2])[0] if len(p) >= 2 else 0
                if not self.local_closed:
                    self.wire_send(self.frame(8, p[:2]))


class WsPeer(WsCodec, TcpPeer):
    kind = "ws"

    def __init__(self, host, port, **k):
        TcpPeer.__init__(self, host, port, **k)
        self.ws_init(host, port)

    def wire_send(self, d):
        SockPeer.raw_send(self, d)

    def raw_received(self, d):
        self.ws_received(d)


class WssPeer(WsCodec, TlsMixin, TcpPeer):
    kind = "wss"

    def __init__(self, host, port, **k):
        TcpPeer.__init__(self, host, port, **k)
        self.tls_init()
        self.ws_init(host, port)

    def wire_send(self, d):
        self.tls_send(d)

    def app_received(self, p):
        self.ws_received(p)


class FakePeer(Peer):
    """A connection of the in-process transport; the world feeds what the proxy reports."""
    kind = "fake"

    def __init__(self, world, n, transport, address):
        super().__init__()
        self.world, self.n, self.transport, self.address = world, n, transport, address
        self.message_based = transport == 1

    def open_cmd(self):
        return "fc %d %d %s" % (self.n, self.transport, self.address)

    def send_cmd(self, data):
        return "fd %d %s" % (self.n, data.hex() or "-")

    def poll(self):
        return False

    def pending(self):
        return 0

    def dispose(self):
        pass

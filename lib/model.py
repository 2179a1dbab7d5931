"""Executable reference model of the proxy, written from its documentation and the property statements.

It consumes the bytes each peer sends (in the order in which the peers send them) and says what every
peer has to see: responses, notifications, tunnel payload and the end of the connection. It knows
nothing about how bytes are split into reads.
"""
import json
import re

END, ESC, TEND, TESC = 0xC0, 0xDB, 0xDC, 0xDD
MAX_REQUEST = 10 * 1024
_esc_re = re.compile(b"[\xc0\xdb]")


def _no_constant(name):
    raise ValueError(name)


def slip_encode(data):
    return data.replace(b"\xdb", b"\xdb\xdd").replace(b"\xc0", b"\xdb\xdc") + b"\xc0"


def slip_decode(body):
    """body without the END byte; None if malformed."""
    if b"\xdb" not in body:
        return bytes(body)
    out = bytearray()
    i, n = 0, len(body)
    while i < n:
        j = body.find(b"\xdb", i)
        if j < 0:
            out += body[i:]
            break
        out += body[i:j]
        if j + 1 >= n:
            return None
        c = body[j + 1]
        if c == TEND:
            out.append(END)
        elif c == TESC:
            out.append(ESC)
        else:
            return None
        i = j + 2
    return bytes(out)


def frame(addr, payload):
    return slip_encode(bytes([addr >> 8, addr & 255]) + payload)


_uuid_re = re.compile(r"^\{?([0-9a-fA-F]{8})-([0-9a-fA-F]{4})-([0-9a-fA-F]{4})-([0-9a-fA-F]{4})-([0-9a-fA-F]{12})\}?$")


def parse_uuid(v):
    """Canonical uuid text or None for a null or unparsable one."""
    if not isinstance(v, str):
        return None
    m = _uuid_re.match(v)
    if not m:
        return None
    if (v[:1] == "{") != (v[-1:] == "}"):
        return None
    u = "-".join(m.groups()).lower()
    if u == "00000000-0000-0000-0000-000000000000":
        return None
    return u


def conforms(typ, v):
    """Can the JSON value be converted to the described type? None: not decided here."""
    if typ == "String":
        if isinstance(v, str):
            return True
        if isinstance(v, bool) or v is None:
            return None
        if isinstance(v, int):
            return True
        return False if isinstance(v, (list, dict)) else None
    if typ == "Uuid":
        if isinstance(v, str):
            return True
        if v is None:
            return None
        return False
    if typ in ("UInt", "Int"):
        if isinstance(v, bool) or v is None:
            return None
        if isinstance(v, int):
            return True if 0 <= v <= 0xFFFFFFFF else None
        if isinstance(v, str):
            if re.match(r"^[0-9]{1,9}$", v):
                return True
            return False if not re.search(r"[0-9]", v) else None
        if isinstance(v, (list, dict)):
            return False
        return None
    if typ == "Bool":
        return True if isinstance(v, bool) else None
    return None


def is_value_of(api_types, typ, v):
    """Is the JSON value one of the described type (for what the proxy produces)?"""
    if typ.startswith("$ref:"):
        return isinstance(v, str) and v in api_types.get(typ[5:], [])
    if typ == "String":
        return isinstance(v, str)
    if typ == "Uuid":
        return isinstance(v, str) and bool(_uuid_re.match(v))
    if typ in ("UInt", "Int"):
        return isinstance(v, int) and not isinstance(v, bool) and (typ == "Int" or v >= 0)
    if typ == "Bool":
        return isinstance(v, bool)
    if typ == "Object":
        return isinstance(v, dict)
    if typ == "Variant":
        return True
    return False


# The documented API; what introspection says has to contain it.
API = {
    "RemoteProxy.Hello": ({}, {"server": "String", "name": "String", "version": "String", "apiVersion": "String"}),
    "RemoteProxy.Introspect": ({}, {"methods": "Object", "types": "Object", "notifications": "Object"}),
    "TunnelProxy.RegisterServer": ({"serverName": "String", "serverUuid": "Uuid"}, {"tunnelProxyError": "$ref:TunnelProxyError", "slipEnabled": "Bool"}),
    "TunnelProxy.RegisterClient": ({"clientName": "String", "clientUuid": "Uuid", "serverUuid": "Uuid"}, {"tunnelProxyError": "$ref:TunnelProxyError"}),
    "TunnelProxy.DisconnectClient": ({"socketAddress": "UInt"}, {"tunnelProxyError": "$ref:TunnelProxyError"}),
    "TunnelProxy.Ping": ({"timestamp": "UInt"}, {"timestamp": "UInt"}),
}
NOTIFICATIONS = {
    "TunnelProxy.ClientConnected": {"clientName": "String", "clientUuid": "String", "clientPeerAddress": "String", "socketAddress": "UInt"},
    "TunnelProxy.ClientDisconnected": {"socketAddress": "UInt"},
}


class Tunnel:
    """One accepted client on one server, as its server has to see it."""
    __slots__ = ("client", "server", "name", "uuid", "peer", "address", "exp_connected", "seen_connected", "exp_data", "exp_gone", "seen_gone")

    def __init__(self, client, server):
        self.client, self.server = client, server
        self.name, self.uuid, self.peer = client.name, client.uuid, client.address
        self.address = None
        self.seen_connected = False
        self.exp_data = bytearray()
        self.exp_gone = False
        self.seen_gone = False


class MConn:
    def __init__(self, cid, address, message_based, now):
        self.id, self.address, self.message_based = cid, address, message_based
        self.state = "json"  # json, server, client
        self.alive = True        # the proxy still acts on what it sends
        self.ended = False       # the connection is over
        self.close_labels = None  # set: the proxy has to close it, for these reasons
        self.bulky = False       # it once had a lot of requests pending
        self.lossy = False       # its peer went away, output may get lost
        self.name = self.uuid = None
        self.buf = bytearray()
        self.lf = False
        self.tunnels = {}        # of a server: client connection -> tunnel whose disconnect notification was not seen yet
        self.live = 0            # of a server: clients it has
        self.max_addr = None
        self.pending = []        # of a server: tunnels whose connect notification was not seen yet
        self.touched = {}        # of a server: tunnels to look at
        self.by_address = {}     # of a server: address -> tunnel whose connect notification was seen and disconnect was not
        self.tunnel = None       # of a client
        self.exp_resp = []
        self.exp_raw = bytearray()
        self.opened = now
        self.last_rx = now
        self.rx = 0
        self.sent = 0
        self.malformed = 0
        self.broken_ws = False


class Model:
    def __init__(self, inactive_ms, server_name):
        self.inactive = inactive_ms
        self.server_name = server_name
        self.now = 0
        self.conns = {}
        self.uuids = {}        # uuid -> MConn of live holder
        self.api = None        # introspection result
        self.flags = set()     # what this history contained, for the attribution of a divergence
        self.stats = {}
        self.forwarded = 0     # tunnel payload bytes
        self.introspect_ok = None
        self.async_kill = False
        self.dirty = set()

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # ------------------------------------------------------------ connections
    def open(self, cid, address, message_based=False):
        c = MConn(cid, address, message_based, self.now)
        self.conns[cid] = c
        self.count("open")
        return c

    def expect_close(self, c, labels):
        if c.close_labels is None and c.alive:
            c.close_labels = set(labels)
            self.dirty.add(c)
            c.alive = False
            c.buf.clear()
            if not self.async_kill:
                self._end(c)

    def peer_gone(self, c, how="gone"):
        """The peer ended the connection."""
        if c.ended:
            return
        c.alive = False
        c.lossy = True
        if c.state == "server":
            self.flags.add("server_lost")
        elif c.state == "client":
            self.flags.add("client_lost")
        self._end(c)

    def _end(self, c):
        if c.ended:
            return
        c.ended = True
        c.alive = False
        self.count("ended_" + c.state)
        if c.uuid is not None and self.uuids.get(c.uuid) is c:
            del self.uuids[c.uuid]
        if c.state == "server":
            for t in list(c.tunnels.values()):
                if not t.exp_gone:
                    t.exp_gone = True
                    self.expect_close(t.client, {"C06"})
            c.live = 0
        elif c.state == "client":
            t = c.tunnel
            if t is not None and not t.exp_gone:
                t.exp_gone = True
                t.server.live -= 1
                t.server.touched[c.id] = t
                self.dirty.add(t.server)

    # ------------------------------------------------------------ input
    def feed(self, c, data):
        if not c.alive or not data:
            return
        c.rx += len(data)
        c.last_rx = self.now
        if c.lf:  # the line feed which terminates the previous request
            c.lf = False
            if data[:1] == b"\n":
                data = data[1:]
        if c.state == "client":
            self._to_server(c, data)
        else:
            c.buf += data
            if c.state == "json" and len(c.buf) > 4096:
                c.bulky = True
            self._process(c)

    def _to_server(self, c, data):
        t = c.tunnel
        if t is None or t.exp_gone:
            return
        t.exp_data += data
        t.server.touched[c.id] = t
        self.dirty.add(t.server)
        self.forwarded += len(data)
        self.count("c2s_bytes", len(data))

    def _process(self, c):
        while c.alive:
            if c.state == "json":
                p = self._take_request(c)
                if p is None:
                    if len(c.buf) > MAX_REQUEST:
                        self.flags.add("overlong")
                        self.expect_close(c, {"C13"})
                    return
                if len(p) > MAX_REQUEST:
                    self.flags.add("overlong")
                    self.expect_close(c, {"C13"})
                    return
                c.lf = not c.buf and not c.message_based
                if c.buf[:1] == b"\n":
                    del c.buf[:1]
                self.request(c, p)
                if c.state == "client" and c.alive:
                    rest = bytes(c.buf)
                    c.buf.clear()
                    if rest:
                        self._to_server(c, rest)
                    return
            elif c.state == "server":
                i = c.buf.find(b"\xc0")
                if i < 0:
                    return
                body = bytes(c.buf[:i])
                del c.buf[:i + 1]
                if not body:
                    self.count("surplus_end")
                    continue
                f = slip_decode(body)
                if f is None or len(f) < 2:
                    self.flags.add("malformed")
                    c.malformed += 1
                    self.count("malformed")
                    continue
                self._frame(c, f[0] << 8 | f[1], f[2:])
            else:
                return

    @staticmethod
    def _take_request(c):
        b = c.buf
        n = 0
        while n < len(b) and b[n] in b" \t\r\n":
            n += 1
        if n:
            del b[:n]
        depth, instr, i, end = 0, False, 0, -1
        while i < len(b):
            ch = b[i]
            if ch == 10 and (instr or depth == 0):
                end = i
                break
            if instr:
                if ch == 0x5C:
                    i += 1
                elif ch == 0x22:
                    instr = False
            elif ch == 0x22:
                instr = depth > 0
            elif ch in b"{[":
                depth += 1
            elif ch in b"}]" and depth > 0:
                depth -= 1
                if depth == 0:
                    end = i + 1
                    break
            i += 1
        if end < 0 and c.message_based and b[-1:] == b"}":
            end = len(b)
        if end < 0:
            return None
        p = bytes(b[:end])
        del b[:end]
        return p

    def _frame(self, c, addr, payload):
        self.count("frames")
        if addr == 0:
            self.request(c, payload)
            return
        t = c.by_address.get(addr)
        if t is None or t.exp_gone or not t.client.alive:
            self.flags.add("unassigned")
            self.count("frames_unassigned")
            return
        t.client.exp_raw += payload
        self.dirty.add(t.client)
        self.forwarded += len(payload)
        self.count("s2c_bytes", len(payload))

    # ------------------------------------------------------------ requests
    def _respond(self, c, id_, status, method=None, params=None, labels=()):
        self.dirty.add(c)
        c.exp_resp.append({"id": id_, "status": status, "method": method, "params": params, "labels": set(labels)})
        self.count("resp_" + status)

    def _refuse(self, c, id_, labels=("C07",)):
        self.flags.add("badreq")
        self._respond(c, id_, "error", labels=labels)
        self.expect_close(c, set(labels) | {"C07"})

    def request(self, c, text):
        self.count("requests")
        try:
            s = text.decode("utf-8")
            msg = json.loads(s, parse_constant=_no_constant)
        except (ValueError, RecursionError):
            return self._refuse(c, -1)
        if not isinstance(msg, dict):
            return self._refuse(c, -1)
        id_ = msg.get("id")
        if isinstance(id_, bool) or not isinstance(id_, int):
            return self._refuse(c, -1)
        method = msg.get("method")
        desc = (self.api or {}).get("methods", {}).get(method) if isinstance(method, str) else None
        if desc is None:
            return self._refuse(c, id_)
        params = msg.get("params", {})
        if not isinstance(params, dict):
            params = {}
        want = desc["params"]
        for k, typ in want.items():
            if k not in params:
                self.flags.add("badparams")
                return self._refuse(c, id_, ("C07", "C08"))
            if conforms(typ, params[k]) is False:
                self.flags.add("badparams")
                return self._refuse(c, id_, ("C07", "C08"))
        for k in params:
            if k not in want:
                self.flags.add("badparams")
                return self._refuse(c, id_, ("C07", "C08"))
        getattr(self, "do_" + method.replace(".", "_"), self.do_other)(c, id_, method, params)

    def do_other(self, c, id_, method, params):
        self._respond(c, id_, "success", method, None)

    def do_RemoteProxy_Hello(self, c, id_, method, params):
        self._respond(c, id_, "success", method, {"name": self.server_name}, ("C24",))

    def do_TunnelProxy_Ping(self, c, id_, method, params):
        v = params["timestamp"]
        # "returned as sent" says the description of the method, so a convertible value of another type may come back as such
        self._respond(c, id_, "success", method, {"timestamp": v} if isinstance(v, int) else None)
        if not isinstance(v, int):
            c.exp_resp[-1]["loose"] = True

    def _err(self, c, id_, method, error, labels, slip=None):
        p = {"tunnelProxyError": "TunnelProxyError" + error}
        if slip is not None:
            p["slipEnabled"] = slip
        self.count("err_" + error)
        self._respond(c, id_, "success", method, p, labels)

    def do_TunnelProxy_RegisterServer(self, c, id_, method, params):
        u = parse_uuid(params["serverUuid"])
        if u is None:
            self.flags.add("baduuid")
            return self._err(c, id_, method, "InvalidUuid", {"C09"}, False)
        if c.state != "json" or u in self.uuids:
            self.flags.add("conflict")
            self._err(c, id_, method, "AlreadyRegistered", {"C04", "C09"}, False)
            return self.expect_close(c, {"C04"})
        self._err(c, id_, method, "NoError", {"C09", "C04"}, True)
        c.state, c.uuid, c.name = "server", u, self._text(params["serverName"])
        self.uuids[u] = c
        self.count("servers")

    @staticmethod
    def _text(v):
        return v if isinstance(v, str) else str(v)

    def do_TunnelProxy_RegisterClient(self, c, id_, method, params):
        su, cu = parse_uuid(params["serverUuid"]), parse_uuid(params["clientUuid"])
        if su is None or cu is None:
            self.flags.add("baduuid")
            return self._err(c, id_, method, "InvalidUuid", {"C09"})
        if c.state != "json" or cu in self.uuids:
            self.flags.add("conflict")
            self._err(c, id_, method, "AlreadyRegistered", {"C04", "C09"})
            return self.expect_close(c, {"C04"})
        s = self.uuids.get(su)
        if s is None or s.state != "server":
            self.flags.add("noserver")
            self._err(c, id_, method, "ServerNotFound", {"C09", "C06"})
            return self.expect_close(c, {"C09"})
        if s.live >= 65534:
            self._err(c, id_, method, "InternalServerError", {"C03"})
            return self.expect_close(c, {"C03"})
        self._err(c, id_, method, "NoError", {"C09", "C04"})
        c.state, c.uuid, c.name = "client", cu, self._text(params["clientName"])
        self.uuids[cu] = c
        t = Tunnel(c, s)
        c.tunnel = t
        s.tunnels[c.id] = t
        s.touched[c.id] = t
        s.pending.append(t)
        s.live += 1
        self.dirty.add(s)
        self.count("clients")

    def do_TunnelProxy_DisconnectClient(self, c, id_, method, params):
        if c.state != "server":
            self.flags.add("disc_foreign")
            self._err(c, id_, method, "AlreadyRegistered", {"C10"})
            return self.expect_close(c, {"C10"})
        self.flags.add("disc_request")
        a = params["socketAddress"]
        if isinstance(a, str) and re.match(r"^[0-9]{1,9}$", a):
            a = int(a)
        if isinstance(a, str) or a != int(a) or not 0 <= a <= 0xFFFFFFFF:
            # no address of anybody; whether the parameter is refused or just unknown is not decided here
            self._respond(c, id_, "any", method, {"tunnelProxyError": "TunnelProxyErrorUnknownSocketAddress"}, {"C10"})
            return
        t = c.by_address.get(a)
        if t is not None and not t.exp_gone and not t.client.alive:
            return self._respond(c, id_, "success", method, None)  # it is just being closed
        if t is None or t.exp_gone:
            self.flags.add("disc_unknown")
            return self._err(c, id_, method, "UnknownSocketAddress", {"C10"})
        self._err(c, id_, method, "NoError", {"C10"})
        self.expect_close(t.client, {"C10"})

    # ------------------------------------------------------------ time
    TOL = 0.05

    def timeouts(self, slack):
        """Connections that have to be gone / may be gone at self.now."""
        must, may = [], []
        for c in self.conns.values():
            if not c.alive:
                continue
            if c.state == "json":
                t, since = self.inactive, c.opened
            elif c.state == "server":
                t, since = 60000, c.last_rx
            else:
                continue
            age = self.now - since
            if age > t * (1 + self.TOL) + slack:
                must.append(c)
            elif age >= t * (1 - self.TOL) - slack:
                may.append(c)
        return must, may

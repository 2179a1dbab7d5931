"""The tunnel client tool does what its command line says (C25): against a proxy played by the check and through the real one."""
import json
import os
import random
import re
import select
import shutil
import time

import kit as K
import model as M
import sim
import vbuild
from drv_config import openssl
from fakeproxy import Listener
from hproc import Crash
from realkit import Exe, RealKit

C25 = {"C25"}
BOUND = 40   # seconds, for a sanitized executable on a busy machine
ALNUM = re.compile(rb"[A-Za-z0-9]*\Z")


def cases(rng, tier):
    deep = tier == "deep"
    res = []
    for i in range(3 if deep else 1):
        res.append({"what": "refuse", "seed": rng.randrange(1 << 30)})
    for i in range(320 if deep else 96):
        # the role, the transport, -r, -i, and what it is given
        res.append({"what": "fake", "role": ["server", "client"][i % 2], "kind": ["tcp", "tls"][i // 2 % 2], "r": i // 4 % 2 == 1, "i": i // 4 % 4 != 2, "seed": rng.randrange(1 << 30)})
    for i in range(48 if deep else 8):
        res.append({"what": "real", "ssl": i % 2 == 1, "seed": rng.randrange(1 << 30)})
    return res


def fail(kind, detail, tool=None):
    if tool is not None:
        detail += "\nit printed: %s" % sim.clip(tool.texts()[0][-1500:])
    raise sim.Divergence(kind, "tunnel client tool", detail, C25)


def start(build, d, args, n=[0]):
    n[0] += 1
    # the project compiles its SLIP code into the library and into the tool
    asan = build.env()["ASAN_OPTIONS"] + ":detect_odr_violation=0"
    return Exe(build.tunnelclient, args, d, build, "tool%d" % n[0], {"ASAN_OPTIONS": asan})


class Watch:
    """One tool process and the listener it should talk to."""

    def __init__(self, tool, l):
        self.tool, self.l = tool, l

    def step(self):
        if self.l.poll():
            return True
        fds = [c.s for c in self.l.conns if c.s is not None and not c.closed] + ([self.l.l] if self.l.l else [])
        select.select(fds, [], [], 0.01)
        return False

    def check(self):
        r = self.tool.report()
        if r:
            raise Crash(r.splitlines()[0], r)
        if not self.tool.alive():
            fail("crash", "the tool ended by itself with status %s" % self.tool.p.returncode, self.tool)

    def until(self, cond, seconds=BOUND):
        end = time.monotonic() + seconds
        while not cond():
            self.step()
            if not self.tool.alive():
                self.check()
            if time.monotonic() > end:
                return cond()
        return True

    def for_a_while(self, seconds):
        self.until(lambda: False, seconds)
        self.check()

    def line(self, c, what, seconds=BOUND):
        if not self.until(lambda: b"\n" in c.rx or c.closed, seconds) or b"\n" not in c.rx:
            fail("nothing_sent", "no %s from the tool" % what, self.tool)
        i = c.rx.index(b"\n")
        l = bytes(c.rx[:i])
        del c.rx[:i + 1]
        try:
            return json.loads(l)
        except ValueError:
            fail("request", "%s is not JSON: %s" % (what, sim.clip(repr(l))), self.tool)

    def frame(self, c, what, seconds=BOUND):
        if not self.until(lambda: b"\xc0" in c.rx or c.closed, seconds) or b"\xc0" not in c.rx:
            fail("nothing_sent", "no %s from the tool" % what, self.tool)
        i = c.rx.index(b"\xc0")
        f = M.slip_decode(bytes(c.rx[:i]))
        del c.rx[:i + 1]
        if f is None or len(f) < 2:
            fail("framing", "malformed frame", self.tool)
        return f[0] << 8 | f[1], f[2:]

    def printed(self, text, seconds=BOUND):
        return self.until(lambda: text in self.tool.texts()[0], seconds)


def refuse(res, r):
    """Command lines it must not act upon: it says so, fails and connects to nothing."""
    build = vbuild.ensure("asan")
    d = sim.scratch("vt-")
    l = Listener("tcp")
    try:
        u, ok = l.url(), K.uuid(7)
        for args, status in [(["-s", "-c", "-u", u], None), (["-s", "-c", "--server-uuid", ok, "-u", u], None), (["-c", "-u", u], None), (["-c", "--server-uuid", "nonsense", "-u", u], None),
                             (["-c", "--server-uuid", "", "-u", u, "-r"], None), (["-c", "--server-uuid", "{00000000-0000-0000-0000-000000000000}", "-u", u], None),
                             (["-c", "--server-uuid", ok[:-3], "-i", "-u", u], None), (["-s", "-u", "tcp://%s:99999" % l.host], None), (["-s", "-u", "tcp://[" + l.host], None),
                             (["-c", "--server-uuid", ok, "-u", "tcp://%s:%dx" % (l.host, l.port)], None), (["--what", "-u", u], None), (["-u"], None), (["-c", "--server-uuid"], None),
                             (["--help"], 0), (["-h", "-s", "-u", u], 0), (["--version"], 0), (["-v", "-c", "-u", u], 0)]:
            t = start(build, d, args)
            w = Watch(t, l)
            end = time.monotonic() + BOUND
            while t.alive() and time.monotonic() < end and not l.accepted:
                w.step()
            if t.report():
                raise Crash(t.report().splitlines()[0], t.report())
            if l.accepted:
                fail("refused_connects", "%s: it connected" % args, t)
            if t.alive():
                t.kill()
                fail("refused_stays", "%s: it neither ended nor connected" % args, t)
            rc = t.p.returncode
            if (rc != 0) if status == 0 else (rc <= 0 or rc in (98, 99)):
                fail("status", "%s: it ended with status %s" % (args, rc), t)
            out = "".join(t.texts())
            if not out.strip():
                fail("silent", "%s: it printed nothing" % args, t)
            if "--help" in args or "-h" in args:
                for o in ("--url", "--ignore-ssl", "--server", "--client", "--name", "--random", "--uuid", "--server-uuid"):
                    if o not in out:
                        fail("help", "the help does not mention %s" % o, t)
            if "--version" in args or "-v" in args:
                want = M_version()
                if want not in out:
                    fail("version", "it prints another version than %s" % want, t)
            res.count("command_lines_refused" if status is None else "informational_runs")
            res.count("observed_messages")
    finally:
        l.dispose()
        shutil.rmtree(d, ignore_errors=True)


def M_version():
    """What the server executable calls itself."""
    build = vbuild.ensure("asan")
    d = sim.scratch("vt-")
    try:
        t = Exe(build.server, ["--version"], d, build, "v")
        t.wait(BOUND)
        m = re.search(r"(\d+\.\d+\.\d+)", t.texts()[0])
        if not m:
            raise sim.Divergence("version", "server", "--version: %s" % sim.clip(t.texts()[0]), {"C24"})
        return m.group(1)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def reply(c, m, params, status="success", wrap=None):
    o = {"id": m["id"], "status": status, "params": params}
    c.send(wrap(json.dumps(o).encode() + b"\n") if wrap else json.dumps(o).encode() + b"\n")


HELLO = {"server": "nymea-remoteproxy", "name": "played", "version": "1.0", "apiVersion": "0.7"}


def names(r):
    return r.choice(["tool", "Küche", "a b", "%1 {x}", "x" * 200, "\"q\" \\", "-n", "名前", " tool", "tool  ", "\ttool ", "-", "0", "Server connection", "null"])


def given(r):
    """UUIDs people have: of every version and variant."""
    if r.random() < 0.3:
        return K.uuid(r.randrange(1, 1 << 31))
    return "{%08x-%04x-%x%03x-%x%03x-%012x}" % (r.getrandbits(32), r.getrandbits(16), r.choice([1, 3, 4, 5, 6, 7, 8, 0, 15]), r.getrandbits(12), r.choice([8, 9, 10, 11, 0, 12, 15]), r.getrandbits(12), r.getrandbits(48))


def certificate(r, d, host):
    """The one of the tests, or a self-signed one which has nothing else wrong."""
    if r.random() < 0.35:
        return None
    alt = ("IP:" + host) if host[0].isdigit() or ":" in host else "DNS:" + host
    openssl(d, "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", "fake.key", "-subj", "/CN=" + host, "-days", "3650", "-addext", "subjectAltName=" + alt, "-out", "fake.crt")
    return os.path.join(d, "fake.crt"), os.path.join(d, "fake.key")


def payload(r):
    k = r.randrange(7)
    if k == 6:
        return bytes(r.choice(b" \n\r\t\0") for _ in range(r.choice([1, 2, 30])))
    if k == 0:
        return bytes([r.choice([0xC0, 0xDB, 0xDC, 0xDD, 0, 10])]) * r.randrange(1, 40)
    if k == 1:
        return r.randbytes(r.choice([5000, 70000]))
    return r.randbytes(r.randrange(1, 300))


def fake(res, case, r):
    build = vbuild.ensure("asan")
    d = sim.scratch("vt-")
    host = r.choice([None, None, "127.0.0.1", "127.0.0.1", "::1"])
    l = Listener(case["kind"], r.randrange(200), host, certificate(r, d, host) if host and case["kind"] == "tls" else None)
    role, echo, insecure = case["role"], case["r"], case["i"]
    given_name, given_uuid = r.choice([None, names(r)]), r.choice([None, "ok", "ok", "bad"])
    uid, suid = given(r), given(r)
    plain = lambda u: r.choice([u, u[1:-1], u.upper()])
    args = []
    if role == "client":
        args += [r.choice(["-c", "--client"]), "--server-uuid", plain(suid)]
    elif r.random() < 0.6:
        args += [r.choice(["-s", "--server"])]
    url = l.url()
    args += [r.choice(["-u", "--url"]), url]
    if given_name:
        args += ["--name=" + given_name]
    if given_uuid:
        args += ["--uuid", plain(uid) if given_uuid == "ok" else r.choice(["garbage", "", uid[:-2], "1234"])]
    if insecure:
        args.append(r.choice(["-i", "--ignore-ssl"]))
    if echo:
        args.append(r.choice(["-r", "--random"]))
    if r.random() < 0.3:
        args.append(r.choice(["--verbose", "--very-verbose"]))
    t = start(build, d, args)
    w = Watch(t, l)
    try:
        if not w.until(lambda: l.conns):
            fail("not_connecting", "%s: no connection to %s" % (args, url), t)
        c = l.conns[0]
        if case["kind"] == "tls" and not insecure:
            # a self-signed certificate and nobody said to accept it
            w.until(lambda: c.closed)
            verbose = args[-1] in ("--verbose", "--very-verbose")
            if verbose and not w.printed("SSL errors"):
                fail("tls", "%s: no word about the certificate" % args, t)
            w.for_a_while(1)
            if any(c.rx for c in l.conns):
                fail("tls", "%s: it sent %r over a session with an unknown certificate" % (args, bytes(c.rx[:80])), t)
            res.count("certificates_refused")
            return
        me = session(res, case, r, w, c, args, given_name, uid if given_uuid == "ok" else None, suid)
        if role == "server":
            # the connection is lost and the tool is back with the same identity
            c.close(r.choice(["fin", "rst"]))
            if not w.until(lambda: len(l.conns) > 1, BOUND):
                fail("reconnect", "%s: it does not come back after a loss" % args, t)
            c2 = l.conns[1]
            me2 = session(res, case, r, w, c2, args, given_name, uid if given_uuid == "ok" else None, suid)
            if me2 != me:
                fail("identity", "%s: registered as %s, after a loss as %s" % (args, me, me2), t)
            if l.accepted != 2:
                fail("connections", "%s: %d connections instead of 2" % (args, l.accepted), t)
        else:
            established = "established" in t.texts()[0]
            c.close(r.choice(["fin", "rst"]))
            if established and not w.printed("disconnected"):
                fail("output", "%s: no word about the lost connection" % args, t)
            w.for_a_while(1.5 if echo else 0.3)
        res.count("tool_sessions")
    finally:
        t.kill()
        l.dispose()
        shutil.rmtree(d, ignore_errors=True)


def session(res, case, r, w, c, args, name, uid, suid):
    """Introduction, registration and what follows; returns the identity."""
    t, role, echo = w.tool, case["role"], case["r"]
    m = w.line(c, "Hello")
    if m.get("method") != "RemoteProxy.Hello":
        fail("request", "%s: started with %s" % (args, m), t)
    reply(c, m, HELLO)
    m = w.line(c, "registration")
    p = m.get("params", {})
    kind = "server" if role == "server" else "client"
    want = {kind + "Name", kind + "Uuid"} | ({"serverUuid"} if role == "client" else set())
    if m.get("method") != "TunnelProxy.Register" + kind.capitalize() or set(p) != want:
        fail("register", "%s: registered with %s" % (args, m), t)
    got_name, got = p[kind + "Name"], M.parse_uuid(p[kind + "Uuid"])
    if got_name != (name if name else kind.capitalize() + " connection"):
        fail("register", "%s: registered as %r" % (args, got_name), t)
    if got is None or got == M.parse_uuid(K.uuid(0)) or uid and got != M.parse_uuid(uid):
        fail("register", "%s: registered with UUID %s" % (args, p[kind + "Uuid"]), t)
    if uid is None and not re.search(re.escape(str(p[kind + "Uuid"]).strip("{}")), t.texts()[0], re.I):
        fail("output", "%s: the picked UUID %s is not printed" % (args, p[kind + "Uuid"]), t)
    if role == "client" and M.parse_uuid(p["serverUuid"]) != M.parse_uuid(suid):
        fail("register", "%s: registered with server UUID %s" % (args, p["serverUuid"]), t)
    if c.rx:
        fail("surplus", "%s: more than the registration: %r" % (args, bytes(c.rx[:200])), t)
    res.count("registrations_checked")
    res.count("observed_messages", 2)
    if role == "server":
        as_server(res, r, w, c, m, echo, args)
    else:
        as_client(res, r, w, c, m, echo, args)
    return got_name, got


def as_server(res, r, w, c, m, echo, args):
    t = w.tool
    c.slip = True
    reply(c, m, {"tunnelProxyError": "TunnelProxyErrorNoError", "slipEnabled": True})
    if not w.printed("running and listening"):
        fail("output", "%s: no word about being registered" % args, t)
    clients = {}
    expect = []
    ended = announced = 0
    for _ in range(r.randrange(12, 30)):
        k = r.random()
        if k < 0.3 or not clients:
            a = r.choice([1, 2, 0xC0, 0xDB, 0xC0DB, 0x0A0A, 0xFFFE, r.randrange(1, 0xFFFF)])
            if a in clients:
                continue
            clients[a] = bytearray()
            announced += 1
            c.send(M.frame(0, json.dumps({"id": 0, "notification": "TunnelProxy.ClientConnected", "params": {"clientName": names(r), "clientUuid": K.uuid(r.randrange(1 << 30)), "clientPeerAddress": "10.1.2.3", "socketAddress": a}}).encode() + b"\n"))
        elif k < 0.4:
            a = r.choice(sorted(clients))
            del clients[a]
            ended += 1
            c.send(M.frame(0, json.dumps({"id": 0, "notification": "TunnelProxy.ClientDisconnected", "params": {"socketAddress": a}}).encode() + b"\n"))
        elif k < 0.5:
            a = r.randrange(1, 0xFFFF)
            if a not in clients:
                c.send(M.frame(a, payload(r)))
        else:
            a, d = r.choice(sorted(clients)), payload(r)
            c.send(M.frame(a, d))
            expect.append((a, d))
        if r.random() < 0.5:
            w.step()
    if echo:
        i = 0
        while i < len(expect):
            f = w.frame(c, "echo %d of %d" % (i, len(expect)))
            a, d = expect[i]
            if f[0] != a or not d.startswith(f[1]) or not f[1]:
                fail("echo", "%s: echo %d is %s instead of %s" % (args, i, sim.clip(repr(f)), sim.clip(repr(expect[i]))), t)
            if len(f[1]) < len(d):
                expect[i] = a, d[len(f[1]):]
            else:
                i += 1
                res.count("echoes")
    for word, n in (("[+] Client connected", announced), ("[-] Client disconnected", ended)):
        before = len(w.l.conns) > 1   # an earlier session has printed some of its own
        if not w.until(lambda: t.texts()[0].count(word) >= n):
            fail("output", "%s: %d times %r instead of %d" % (args, t.texts()[0].count(word), word, n), t)
        if not before and t.texts()[0].count(word) != n:
            fail("output", "%s: %d times %r instead of %d" % (args, t.texts()[0].count(word), word, n), t)
    w.for_a_while(0.3)
    if c.rx:
        fail("surplus", "%s: sent %s unasked" % (args, sim.clip(repr(bytes(c.rx)))), t)
    res.count("observed_messages", len(expect) + announced + ended)


def as_client(res, r, w, c, m, echo, args):
    t = w.tool
    if r.random() < 0.25:
        # refused
        reply(c, m, {"tunnelProxyError": r.choice(["TunnelProxyErrorServerNotFound", "TunnelProxyErrorAlreadyRegistered"])})
        w.until(lambda: c.closed, 3)
        w.for_a_while(1.5)
        if c.rx or "established" in t.texts()[0]:
            fail("surplus", "%s: after a refusal it sent %r or calls the connection established" % (args, bytes(c.rx[:100])), t)
        res.count("refusals")
        return
    t0 = time.monotonic()
    reply(c, m, {"tunnelProxyError": "TunnelProxyErrorNoError"})
    if not w.printed("established successfully"):
        fail("output", "%s: no word about the connection" % args, t)
    d = b"hello-" + r.randbytes(12).hex().encode()
    c.send(d)
    if not echo and not w.printed(d.decode()):
        fail("output", "%s: the data received is not printed" % args, t)
    if echo:
        # about one message of 100 characters in each second
        got = []
        while len(got) < 3:
            if not w.until(lambda: len(c.rx) >= 100 or c.closed) or len(c.rx) < 100:
                fail("random", "%s: %d messages and no more" % (args, len(got)), t)
            got.append((time.monotonic() - t0, bytes(c.rx[:100])))
            del c.rx[:100]
            if not ALNUM.match(got[-1][1]):
                fail("random", "%s: message %r" % (args, got[-1][1]), t)
            if got[-1][0] < 0.9 * len(got):
                fail("random", "%s: message %d after %.2f s" % (args, len(got), got[-1][0]), t)
        # a busy machine delays one of them, not each
        while min(b[0] - a[0] for a, b in zip(got, got[1:])) > 1.4 and len(got) < 6:
            if not w.until(lambda: len(c.rx) >= 100 or c.closed, 8) or len(c.rx) < 100:
                break
            got.append((time.monotonic() - t0, bytes(c.rx[:100])))
            del c.rx[:100]
        if min(b[0] - a[0] for a, b in zip(got, got[1:])) > 1.4:
            fail("random", "%s: messages after %s" % (args, ", ".join("%.2f s" % x[0] for x in got)), t)
        if len({x[1] for x in got}) < len(got):
            fail("random", "%s: the messages repeat" % args, t)
        res.count("random_messages", 3)
        if c.rx:
            fail("random", "%s: surplus bytes %r" % (args, bytes(c.rx[:50])), t)
    else:
        w.for_a_while(2.3)
        if c.rx:
            fail("random", "%s: it sends %r without being asked to" % (args, bytes(c.rx[:120])), t)
        res.count("silent_clients")
    res.count("observed_messages", 3)


def real(res, case, r):
    """Tools as server and as client with the real proxy between them and peers of the check."""
    k = RealKit(res, ssl=case["ssl"])
    tools = []
    try:
        url = "%s://%s:%d" % ("ssl" if case["ssl"] else "tcp", k.conf.host, k.conf.tcp_port)
        su = K.uuid(r.randrange(1, 1 << 30))
        srv = start(k.build, k.dir, ["-s", "-i", "-r", "-u", url, "--uuid", su, "-n", "the tool"])
        tools.append(srv)
        if not k.until(lambda: "running and listening" in srv.texts()[0]):
            fail("not_connecting", "the tool does not register as server", srv)
        ps = []
        for n in range(3):
            p = k.peer(r.choice(["unix", "tls" if case["ssl"] else "tcp"]))
            p.send(K.req("TunnelProxy.RegisterClient", {"clientName": "c%d" % n, "clientUuid": K.uuid(1 << 30 | n), "serverUuid": su}))
            k.expect_ok(p, C25)
            ps.append((p, bytearray()))
        for _ in range(20):
            p, want = r.choice(ps)
            d = payload(r)
            p.send(d)
            want += d
            k.step()
        for p, want in ps:
            k.until(lambda: len(p.rx) >= len(want) or p.closed)
            if bytes(p.rx) != bytes(want):
                fail("echo", "the echo through the real proxy differs: %d bytes of %d" % (len(p.rx), len(want)), srv)
            res.count("echoed_bytes", len(want))
        # a client tool at a server of the check
        s = k.peer("tls" if case["ssl"] else "tcp")
        other = r.randrange(1, 1 << 29)
        s.send(K.reg_server(other))
        k.expect_ok(s, C25)
        cu = K.uuid(1 << 29 | 5)
        cl = start(k.build, k.dir, ["-c", "-i", "-r", "--server-uuid", K.uuid(other), "-u", url, "--uuid", cu, "-n", "client tool"])
        tools.append(cl)
        a = k.connected(s, 1 << 29 | 5)
        got = bytearray()
        while len(got) < 200:
            f = k.frame(s)
            if f is None or f[0] != a:
                fail("random", "the server got %s" % sim.clip(repr(f)), cl)
            got += f[1]
        if len(got) != 200 or not ALNUM.match(got):
            fail("random", "the server got %s" % sim.clip(repr(bytes(got))), cl)
        # and one at the server tool, which gets its echo: both run on
        cl2 = start(k.build, k.dir, ["-c", "-i", "-r", "--server-uuid", su, "-u", url])
        tools.append(cl2)
        if not k.until(lambda: "established successfully" in cl2.texts()[0]):
            fail("not_connecting", "a client tool does not reach the server tool", cl2)
        k.adv(2200)
        m = [x for x in k.monitor()["tunnelConnections"] if M.parse_uuid(x["serverUuid"]) == M.parse_uuid(su)]
        if len(m) != 1 or m[0]["name"] != "the tool" or len(m[0]["clientConnections"]) != 4:
            fail("monitor", "the proxy shows %s" % sim.clip(repr(m)), srv)
        x = [y for y in m[0]["clientConnections"] if y["name"] == "Client connection"]
        if len(x) != 1 or x[0]["rxDataCount"] < 200 or x[0]["txDataCount"] < 100:
            fail("random", "the client tool's tunnel carried %s" % sim.clip(repr(x)), cl2)
        for t in tools:
            if t.report() or not t.alive():
                raise Crash((t.report() or "the tool ended").splitlines()[0], t.report() or t.texts()[0][-2000:])
        # the tools end, the proxy notices
        cl.p.terminate()
        while True:
            # what it sent last comes first
            f = k.frame(s)
            if f is None or f[0] not in (0, a):
                fail("end", "the server got %s instead of the end of the client tool" % sim.clip(repr(f)), cl)
            if f[0] == 0:
                m = json.loads(f[1])
                if m.get("notification") != "TunnelProxy.ClientDisconnected" or m["params"]["socketAddress"] != a:
                    fail("end", "the server got %s" % sim.clip(repr(m)), cl)
                break
        srv.p.terminate()
        for p, _ in ps:
            if not k.until(lambda: p.closed):
                fail("end", "a client outlives the server tool", srv)
        if not k.until(lambda: "disconnected" in cl2.texts()[0]):
            fail("output", "the client tool does not report the lost tunnel", cl2)
        res.count("tool_sessions", 3)
        k.end()
    finally:
        for t in tools:
            t.kill()
        k.kill()


def run(res, case):
    r = random.Random(case["seed"])
    if case["what"] == "refuse":
        refuse(res, r)
    elif case["what"] == "fake":
        fake(res, case, r)
    else:
        real(res, case, r)
    res.samples.append({"driver": "tool", "case": case})

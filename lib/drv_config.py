"""Configuration files: what is written takes effect, what is missing is refused."""
import hashlib
import json
import os
import random
import re
import shutil
import signal
import socket
import ssl
import subprocess
import time

import kit as K
import peers as P
import sim
import vbuild
from hproc import Crash, HProc
from realkit import Exe, RealKit

LABELS = {"C24"}
TESTCERT, TESTKEY = sim.CERT, sim.KEY
DEFAULTS = {"name": "nymea-remoteproxy", "writeLogs": False, "logFile": "/var/log/nymea-remoteproxy.log", "logEngineEnabled": False, "monitorSocket": None,
            "jsonRpcTimeout": 10000, "inactiveTimeout": 8000, "sslEnabled": None, "certificate": "/etc/ssl/certs/ssl-cert-snakeoil.pem", "certificateKey": "/etc/ssl/private/ssl-cert-snakeoil.key",
            "certificateChain": "", "unix": "/run/nymea-remoteproxy.socket", "wsHost": "127.0.0.1", "wsPort": 2212, "tcpHost": "127.0.0.1", "tcpPort": 2213}
# monitorSocket and SSL enabled: documentation and code name different defaults, so absence is not judged
KEYS = {"name": ("ProxyServer", "name"), "writeLogs": ("ProxyServer", "writeLogs"), "logFile": ("ProxyServer", "logFile"), "logEngineEnabled": ("ProxyServer", "logEngineEnabled"),
        "monitorSocket": ("ProxyServer", "monitorSocket"), "jsonRpcTimeout": ("ProxyServer", "jsonRpcTimeout"), "inactiveTimeout": ("ProxyServer", "inactiveTimeout"),
        "sslEnabled": ("SSL", "enabled"), "certificate": ("SSL", "certificate"), "certificateKey": ("SSL", "certificateKey"), "certificateChain": ("SSL", "certificateChain"),
        "unix": ("UnixSocketServerTunnelProxy", "unixSocketFileName"), "wsHost": ("WebSocketServerTunnelProxy", "host"), "wsPort": ("WebSocketServerTunnelProxy", "port"),
        "tcpHost": ("TcpServerTunnelProxy", "host"), "tcpPort": ("TcpServerTunnelProxy", "port")}


def cases(rng, tier):
    deep = tier == "deep"
    res = []
    for _ in range(120 if deep else 10):
        res.append({"what": "load", "n": 60, "seed": rng.randrange(1 << 30)})
    for i in range(200 if deep else 24):
        res.append({"what": "serve", "ssl": i % 2 == 0, "seed": rng.randrange(1 << 30)})
    for i in range(40 if deep else 6):
        res.append({"what": "chain", "depth": i % 3, "name": "port" if i % 2 else "wss", "seed": rng.randrange(1 << 30)})
    for what in ("config", "certificate", "certificateKey", "certificateChain", "log", "default_config"):
        for how in ("missing", "directory", "dangling", "denied"):
            for s in (True, False):
                res.append({"what": "refuse", "file": what, "how": how, "ssl": s, "seed": rng.randrange(1 << 30)})
    for i in range(24 if deep else 6):
        res.append({"what": "inactive", "t": rng.choice([700, 1200, 2500]), "ssl": i % 2 == 0, "seed": rng.randrange(1 << 30)})
    return res


def fail(kind, detail):
    raise sim.Divergence(kind, "configuration", detail, LABELS)


# ------------------------------------------------------------------ files
def text(r, values):
    """A configuration file with these settings, laid out at random."""
    groups = {}
    for k, v in values.items():
        g, n = KEYS[k]
        if isinstance(v, bool):
            v = r.choice(["true", "1"] if v else ["false", "0"])
        elif isinstance(v, str) and (v != v.strip() or (v and r.random() < 0.15)):
            v = '"%s"' % v
        groups.setdefault(g, []).append("%s%s=%s%s" % (n, r.choice(["", "", " "]), r.choice(["", "", " "]), v))
    for g in {x[0] for x in KEYS.values()}:
        if g not in groups and r.random() < 0.5:
            groups[g] = []
    order = list(groups)
    r.shuffle(order)
    lines = []
    for g in order:
        lines.append("[%s]" % g)
        ls = groups[g]
        r.shuffle(ls)
        for l in ls:
            if r.random() < 0.1:
                lines.append(r.choice(["", "; a comment", "; port=1", "unknownSetting=5", "# name=no"[:0]]))
            lines.append(l)
        if r.random() < 0.4:
            lines.append("")
    return r.choice(["\n", "\n", "\n", "\r\n"]).join(lines + [""])


def some_name(r):
    return r.choice(["nymea", "My proxy", "proxy-%d" % r.randrange(1000), "B\u00fcro \u20ac \u6771", "a=b", "x" * 200, "name: value", "%1 %2", "proxy [1]", "it's", "0", "true", ""])


def some_path(r, d):
    return os.path.join(d, r.choice(["a.sock", "with space.sock", "s\u00f6cket", "deep/er.sock", "x=y.sock", "100%.sock", "n%02d" % r.randrange(100)]))


def random_values(r, d, good):
    v = {"name": some_name(r), "writeLogs": r.random() < 0.5, "logFile": some_path(r, d), "logEngineEnabled": r.random() < 0.5, "monitorSocket": some_path(r, d),
         "jsonRpcTimeout": r.choice([0, 1, 500, 10000, 86400000, r.randrange(1 << 31)]), "inactiveTimeout": r.choice([0, 1, 100, 8000, 123456, r.randrange(1 << 31)]),
         "sslEnabled": r.random() < 0.5, "certificate": r.choice(good["certs"]), "certificateKey": r.choice(good["keys"]), "certificateChain": r.choice(["", ""] + good["chains"]),
         "unix": some_path(r, d), "wsHost": r.choice(["127.0.0.1", "0.0.0.0", "10.1.2.3", "::1", "::", "fe80::1", "255.255.255.255", "192.168.0.77"]),
         "wsPort": r.choice([0, 1, 80, 2212, 2213, 65535, r.randrange(65536)]), "tcpHost": r.choice(["127.0.0.1", "0.0.0.0", "10.1.2.3", "::1", "::", "172.16.5.4"]),
         "tcpPort": r.choice([0, 1, 443, 2212, 2213, 65535, r.randrange(65536)])}
    for k in list(v):
        if r.random() < 0.25:
            del v[k]
    return v


def fingerprint(path):
    m = re.search(r"-----BEGIN CERTIFICATE-----(.*?)-----END CERTIFICATE-----", open(path).read(), re.S)
    import base64
    return hashlib.sha256(base64.b64decode(m.group(1))).hexdigest()


def openssl(d, *args):
    p = subprocess.run(["openssl"] + list(args), cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, RANDFILE=os.path.join(d, ".rnd")))
    if p.returncode:
        raise RuntimeError("openssl %s: %s" % (args, p.stdout[-500:]))


def certificates(d, depth, bits=2048):
    """root -> int1 -> .. -> leaf; returns the paths of root, the intermediate certificates (leaf side first) and leaf."""
    openssl(d, "req", "-x509", "-newkey", "rsa:%d" % bits, "-nodes", "-keyout", "root.key", "-subj", "/CN=root", "-days", "3650", "-out", "root.crt")
    issuer = "root"
    ints = []
    for n in ["int%d" % i for i in range(depth)] + ["leaf"]:
        open(os.path.join(d, n + ".ext"), "w").write("basicConstraints=CA:%s\n" % ("FALSE" if n == "leaf" else "TRUE"))
        openssl(d, "req", "-newkey", "rsa:%d" % bits, "-nodes", "-keyout", n + ".key", "-subj", "/CN=" + n, "-out", n + ".csr")
        openssl(d, "x509", "-req", "-in", n + ".csr", "-CA", issuer + ".crt", "-CAkey", issuer + ".key", "-CAcreateserial", "-days", "3650", "-extfile", n + ".ext", "-out", n + ".crt")
        issuer = n
        ints.insert(0, os.path.join(d, n + ".crt"))
    return os.path.join(d, "root.crt"), ints[1:], ints[0]


# ------------------------------------------------------------------ loading
def load(res, r, case):
    build = vbuild.ensure("asan")
    d = sim.scratch("vg-")
    h = None
    try:
        root, ints, leaf = certificates(d, 1, 1024 if r.random() < 0.5 else 2048)
        good = {"certs": [TESTCERT, leaf, root], "keys": [TESTKEY, os.path.join(d, "leaf.key")], "chains": [ints[0], TESTCERT]}
        h = HProc(build.proxyd, build, d)
        for i in range(case["n"]):
            v = random_values(r, d, good)
            bad = None
            if r.random() < 0.2:
                bad = r.choice(["certificate", "certificateKey", "certificateChain"])
                v[bad] = r.choice([os.path.join(d, "nothing.pem"), d, os.path.join(d, "no", "dir.pem")])
            path = os.path.join(d, "c%d.conf" % i)
            t = text(r, v)
            open(path, "w", newline="", encoding="utf-8").write(t)
            got = json.loads(h.ask("conf " + path, "conf"))
            res.count("configurations_loaded")
            for k, default in DEFAULTS.items():
                want = v.get(k, default)
                if want is None:
                    continue
                if k in ("wsHost", "tcpHost"):
                    same = got[k].lower() == want
                else:
                    same = got[k] == want and type(got[k]) is type(want)
                if not same:
                    fail("conf_value", "%s is %r instead of %r with\n%s" % (k, got[k], want, t[:1500]))
                res.count("settings_checked")
                if k not in v:
                    res.count("defaults_checked")
            need = [v.get(k, DEFAULTS[k]) for k in ("certificate", "certificateKey", "certificateChain")]
            ok = all(p == "" and j == 2 or os.path.isfile(p) for j, p in enumerate(need))
            if got["ok"] != ok:
                fail("conf_result", "loading gives %s but %s of %s can be read\n%s" % (got["ok"], "not all" if not ok else "all", need, t[:1500]))
            if ok:
                if got["cert"] != fingerprint(need[0]):
                    fail("conf_value", "another certificate than %s" % need[0])
                if not got["keyLen"]:
                    fail("conf_value", "the key %s was not loaded" % need[1])
                res.count("configurations_accepted")
            else:
                res.count("configurations_refused")
            os.unlink(path)
        for p in (os.path.join(d, "none.conf"), os.path.join(d, "none", "none.conf")):
            if json.loads(h.ask("conf " + p, "conf"))["ok"]:
                fail("conf_result", "a missing configuration file was loaded")
            res.count("configurations_refused")
        h.quit()
    finally:
        if h:
            h.kill()
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ the server with a configuration
class Conf(sim.Config):
    def __init__(self, d, r, values, ssl):
        self.values, self.r = values, r
        self.dir, self.ssl, self.inactive = d, ssl, values["inactiveTimeout"]
        self.host, self.tcp_port = values["tcpHost"], values["tcpPort"]
        self.ws_port = values["wsPort"]
        self.unix, self.monitor, self.name = values["unix"], values["monitorSocket"], values["name"]
        self.path = os.path.join(d, "some config.conf")
        self.write()

    def write(self):
        open(self.path, "w", newline="", encoding="utf-8").write(text(self.r, self.values))


class ConfKit(RealKit):
    def __init__(self, res, r, ssl, args=None, start=True, **values):
        self.res = res
        self.build = vbuild.ensure("asan")
        self.dir = sim.scratch("vg-")
        d = self.dir
        host = sim.loopback(r.randrange(1 << 16))
        v = {"name": "p", "monitorSocket": os.path.join(d, "m.sock"), "inactiveTimeout": 60000, "sslEnabled": ssl, "certificate": TESTCERT, "certificateKey": TESTKEY, "certificateChain": "",
             "unix": os.path.join(d, "u.sock"), "wsHost": host, "wsPort": 20000 + r.randrange(10000), "tcpHost": host, "tcpPort": 30000 + r.randrange(2000)}
        for k, x in values.items():
            if callable(x):
                x = x(d)
            v[k] = x
        for p in (v["unix"], v["monitorSocket"]):
            os.makedirs(os.path.dirname(p), exist_ok=True)
        self.values = v
        self.conf = Conf(d, r, v, ssl)
        self.peers = []
        self.server_exe = None
        self.prefix = []
        self.env = {"LC_ALL": "C.UTF-8"}
        self.args = [a(d) if callable(a) else a for a in (args or [])]
        if start:
            self.start(self.args)


def hello(k, p):
    p.send(K.req("RemoteProxy.Hello", {}))
    return k.line(p)["params"]


def finish(k, res):
    k.server_exe.p.send_signal(signal.SIGTERM)
    rc = k.server_exe.wait(60)
    k.server_exe.report() and k.server_exe.check()
    if rc != 0:
        raise sim.Divergence("exit", "server", "exit status %s after SIGTERM" % rc, {"C18", "C24"})
    out = k.server_exe.texts()[0]
    res.count("servers_run")
    return out


def serve(res, r, case):
    s = case["ssl"]
    name = some_name(r)
    logging = r.choice(["off", "off", "conf", "arg", "both", "absent"])
    kw = {"name": name}
    sub = r.choice(["a", "x y", "d/e"])
    kw["unix"] = lambda d: os.path.join(d, sub, "tunnel.sock")
    kw["monitorSocket"] = lambda d: os.path.join(d, sub, "mon it.sock")
    kw["logFile"] = lambda d: os.path.join(d, "logs", sub, "proxy.log")
    if logging != "absent":
        kw["writeLogs"] = logging in ("conf", "both")
    hosts = r.choice(["same", "two", "any", "v6"])
    h1, h2 = sim.loopback(r.randrange(1 << 16)), sim.loopback(r.randrange(1 << 16) + 70000)
    if hosts == "two":
        kw["wsHost"], kw["tcpHost"] = h1, h2
    elif hosts == "any":
        kw["wsHost"], kw["tcpHost"] = "0.0.0.0", h2
    elif hosts == "v6":
        try:
            t = socket.socket(socket.AF_INET6)
            t.bind(("::1", 0))
            t.close()
            kw["tcpHost"] = kw["wsHost"] = "::1"
        except OSError:
            res.count("without_ipv6")
            hosts = "same"
    args = [] if logging not in ("arg", "both") else ["-l", lambda d: os.path.join(d, "arglog", "other.log")]
    k = ConfKit(res, r, s, args, **kw)
    try:
        v = k.values
        mp = k.peer("monitor")
        mp.send(b'{"method":"refresh","params":{"printAll":true}}\n')
        m = k.line(mp)
        if m["serverName"] != name:
            fail("conf_effect", "the monitor is told %r as server name instead of %r" % (m["serverName"], name))
        u = k.peer("unix")
        if hello(k, u)["name"] != name:
            fail("conf_effect", "Hello names the server other than %r" % name)
        res.count("settings_in_effect", 4)
        for what, host, port in (("tcp", v["tcpHost"], v["tcpPort"]), ("ws", v["wsHost"], v["wsPort"])):
            k.conf.host = h1 if host == "0.0.0.0" else host
            p = k.peer({"tcp": "tls", "ws": "wss"}[what] if s else what)
            if hello(k, p)["name"] != name:
                fail("conf_effect", "Hello over %s names the server other than %r" % (what, name))
            if s:
                der = p.tls.getpeercert(True)
                if hashlib.sha256(der).hexdigest() != fingerprint(v["certificate"]):
                    fail("conf_effect", "%s shows another certificate than configured" % what)
                res.count("settings_in_effect")
            res.count("settings_in_effect", 2)
            # and nowhere else
            if host.startswith("127."):
                for other in (sim.loopback(r.randrange(1 << 16) + 140000), "127.0.0.1"):
                    if other == host:
                        continue
                    t = socket.socket()
                    t.settimeout(5)
                    try:
                        if t.connect_ex((other, port)) == 0:
                            fail("conf_effect", "%s:%d accepts connections though %s is configured" % (other, port, host))
                    finally:
                        t.close()
        tr = k.monitor()["transports"]
        if tr != {"TCP": 1, "WebSocket": 1, "unix": 1}:
            fail("conf_effect", "transports %s" % tr)
        # tunnels over what is configured; the server is told where the clients come from
        srv = k.server("unix", 880000)
        for n, kind, host in ((880001, "wss" if s else "ws", v["wsHost"]), (880002, "tls" if s else "tcp", v["tcpHost"])):
            k.conf.host = h1 if host == "0.0.0.0" else host
            cl, addr = k.client(kind, n, srv, 880000)
            cl.send(b"through")
            if k.frame(srv) != (addr, b"through"):
                fail("payload_c2s", "no tunnel over the listener on %s" % host)
        res.count("tunnels_over_configured_listeners")
        out = finish(k, res)
        for on, path in ((logging == "conf", os.path.join(k.dir, "logs", sub, "proxy.log")), (logging in ("arg", "both"), os.path.join(k.dir, "arglog", "other.log"))):
            if on != os.path.exists(path):
                fail("conf_effect", "logging %s: %s %s" % (logging, path, "is missing" if on else "was written"))
            if on:
                log = open(path, encoding="utf-8", errors="replace").read()
                # every message since the file was opened is in it
                a = [l.split(" | ", 1)[1] for l in re.sub("\x1b\\[[0-9;]*m", "", out).splitlines() if re.match(r" [IWCF] \| ", l)]
                b = [l.split(" | ", 1)[1] for l in log.splitlines() if re.match(r" [IWCF] \d{4}\.", l)]
                if len(b) < 5 or a[-len(b):] != b:
                    fail("conf_effect", "the log file has not what the server printed: %r\nprinted: %r" % (b[:30], a[-len(b):][:30]))
                res.count("log_lines_compared", len(b))
                res.count("settings_in_effect")
    finally:
        k.kill()


def inactive(res, r, case):
    t = case["t"]
    k = ConfKit(res, r, case["ssl"], inactiveTimeout=t)
    try:
        ps = []
        for kind in (["tls", "wss", "unix"] if case["ssl"] else ["tcp", "ws", "unix"]):
            before = time.monotonic()
            p = k.peer(kind)
            ps.append((p, before, time.monotonic()))
        ends = {}
        limit = time.monotonic() + t / 1000 * 1.1 + 25
        while len(ends) < len(ps) and time.monotonic() < limit:
            k.step()
            for p, _, _ in ps:
                if p.closed and p not in ends:
                    ends[p] = time.monotonic()
        for p, before, after in ps:
            if p not in ends:
                fail("conf_effect", "an unregistered %s connection is open %.1f s after it was made, inactiveTimeout is %d ms" % (p.kind, time.monotonic() - after, t))
            if ends[p] - before < t / 1000 * 0.94:
                fail("conf_effect", "an unregistered %s connection was closed after %.3f s, inactiveTimeout is %d ms" % (p.kind, ends[p] - before, t))
            res.count("settings_in_effect")
        finish(k, res)
    finally:
        k.kill()


def chain(res, r, case):
    """Clients which only know the root certificate can verify the server."""
    tmp = sim.scratch("vg-")
    k = None
    try:
        root, ints, leaf = certificates(tmp, case["depth"])
        kw = {"certificate": leaf, "certificateKey": os.path.join(tmp, "leaf.key")}
        if ints:
            p = os.path.join(tmp, "chain.pem")
            open(p, "w").write("".join(open(x).read() for x in ints))
            kw["certificateChain"] = p
        k = ConfKit(res, r, True, **kw)
        for port in (k.values["tcpPort"], k.values["wsPort"]):
            ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            ctx.check_hostname = False
            ctx.load_verify_locations(root)
            c = socket.create_connection((k.conf.host, port), 40)
            try:
                t = ctx.wrap_socket(c)
                der = t.getpeercert(True)
                t.close()
            except ssl.SSLCertVerificationError as e:
                fail("conf_effect", "the certificate chain of %d intermediate certificates does not reach clients: %s" % (len(ints), e))
            finally:
                c.close()
            if hashlib.sha256(der).hexdigest() != fingerprint(leaf):
                fail("conf_effect", "another certificate than the configured one")
            res.count("chains_verified")
            res.count("settings_in_effect")
        finish(k, res)
    finally:
        if k:
            k.kill()
        shutil.rmtree(tmp, ignore_errors=True)


def refuse(res, r, case):
    what, how = case["file"], case["how"]
    if what == "default_config" and (os.path.exists("/etc/nymea/nymea-remoteproxy.conf") or how != "missing"):
        return
    if how == "denied" and (what == "config" or os.geteuid() == 0):
        # root may read everything; a present but unreadable configuration file is not judged
        return
    if what == "config" and how == "directory":
        return
    k = ConfKit(res, r, case["ssl"], start=False)
    try:
        bad = os.path.join(k.dir, "bad.file")
        if how == "directory":
            os.mkdir(bad)
        elif how == "dangling":
            os.symlink(os.path.join(k.dir, "nowhere"), bad)
        elif how == "denied":
            open(bad, "w").write(open(TESTCERT).read())
            os.chmod(bad, 0)
        args = ["-c", k.conf.path]
        if what == "config":
            args = ["-c", bad]
        elif what == "default_config":
            args = []
        elif what == "log":
            if how != "directory":
                # a path which cannot be a file
                open(os.path.join(k.dir, "plain"), "w").write("x")
                bad = os.path.join(k.dir, "plain", "x.log")
            if r.random() < 0.5:
                args += ["-l", bad]
            else:
                k.values["writeLogs"], k.values["logFile"] = True, bad
                k.conf.write()
        else:
            k.values[what] = bad
            k.conf.write()
        exe = Exe(k.build.server, args, k.dir, k.build, "server")
        k.server_exe = exe
        rc = exe.wait(30)
        rep = exe.report()
        if rep:
            raise Crash(rep.splitlines()[0], rep)
        if rc is None:
            fail("conf_result", "the server runs although %s is %s" % (what, how))
        if rc != 1:
            fail("conf_result", "exit status %s instead of failure with %s %s" % (rc, what, how))
        for p in (k.conf.unix, k.conf.monitor):
            if os.path.exists(p):
                fail("conf_result", "%s exists after a refused configuration" % p)
        res.count("servers_refused")
    finally:
        k.kill()


def run(res, case):
    r = random.Random(case["seed"])
    {"load": load, "serve": serve, "inactive": inactive, "chain": chain, "refuse": refuse}[case["what"]](res, r, case)
    res.samples.append({"driver": "config", "case": case})

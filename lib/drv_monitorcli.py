"""The command line monitor prints what it was given, in whichever pieces it arrives (C19)."""
import json
import os
import pty
import random
import re
import select
import shutil
import socket
import subprocess
import time

import kit as K
import model as M
import sim
import vbuild
from hproc import Crash
from realkit import Exe, RealKit

UNITS = {"B": 1, "KB": 1 << 10, "MB": 1 << 20, "GB": 1 << 30, "TB": 1 << 40}
NAMES = ["s", "nymea", "my server", "%1 %2 %9", "a}b{c", "x" * 60, "RX: 5 | TX: 7", "\"quoted\" \\ back", "a,b;c"]
UNAMES = ["Küche", "サーバー", "😀 name", "ä}"]


def cases(rng, tier):
    deep = tier == "deep"
    res = []
    for i in range(160 if deep else 40):
        res.append({"what": "fake", "mode": ["-n", "-j"][i % 2], "all": i % 4 < 2, "split": ["whole", "end", "random", "bytes", "inside"][i // 4 % 5], "seed": rng.randrange(1 << 30)})
    for i in range(48 if deep else 8):
        res.append({"what": "screen", "seed": rng.randrange(1 << 30)})
    for i in range(48 if deep else 8):
        res.append({"what": "real", "ssl": i % 2 == 1, "seed": rng.randrange(1 << 30)})
    return res


# ------------------------------------------------------------------ data
def count(r):
    k = r.randrange(8)
    if k == 0:
        return r.choice([0, 1, 1023, 1024, 1025, 1048575, 1048576, (1 << 30) - 1, 1 << 30])
    if k == 1:
        return r.choice([(1 << 31) - 1, 1 << 31, (1 << 31) + 12345, (1 << 32) - 1, 1 << 32, (1 << 32) + 77777, 1 << 40, 5 << 41])
    return int(10 ** r.uniform(0, 13))


def name(r, unicode):
    return r.choice(NAMES + (UNAMES if unicode else [])) + str(r.randrange(1000))


def data(r, unicode=True, servers=None):
    n = [10000]

    def u():
        n[0] += 1
        return K.uuid(n[0] * 977 + r.randrange(900))
    conns = []
    total = r.randrange(0, 9)
    for _ in range(r.randrange(0, 5) if servers is None else servers):
        s = {"id": u(), "address": r.choice(["127.0.0.1", "192.168.100.200", "::1", "unix"]), "timestamp": r.randrange(1500000000, 2000000000), "name": name(r, unicode), "serverUuid": u(),
             "rxDataCount": count(r), "txDataCount": count(r), "clientConnections": []}
        for _ in range(r.randrange(0, 4)):
            s["clientConnections"].append({"id": u(), "address": r.choice(["127.0.0.1", "10.0.0.%d" % r.randrange(255)]), "timestamp": r.randrange(1500000000, 2000000000), "name": name(r, unicode),
                                           "clientUuid": u(), "rxDataCount": count(r), "txDataCount": count(r)})
        conns.append(s)
    cl = sum(len(s["clientConnections"]) for s in conns)
    return {"serverName": name(r, unicode), "serverVersion": "1.2.3", "apiVersion": "0.7",
            "tunnelProxyStatistic": {"totalClientCount": total + cl + len(conns), "serverConnectionsCount": len(conns) + r.randrange(3), "clientConnectionsCount": cl,
                                     "transports": {"TCP": r.randrange(500), "WebSocket": r.randrange(500), "unix": r.randrange(500)}, "troughput": min(count(r), (1 << 31) - 1), "tunnelConnections": conns}}


def pieces(r, text, how):
    if how == "whole":
        return [text]
    if how == "end":
        return [text[:-1], text[-1:]]
    if how == "bytes":
        # every byte of the last part on its own
        k = max(0, len(text) - 40)
        return [text[:k]] + [text[i:i + 1] for i in range(k, len(text))]
    if how == "inside":
        cuts = sorted(i + 1 for i, c in enumerate(text) if c in b"}\\" and r.random() < 0.5)
    else:
        cuts = sorted(r.randrange(1, len(text)) for _ in range(r.randrange(1, 12)))
    return [text[a:b] for a, b in zip([0] + cuts, cuts + [len(text)]) if b > a]


# ------------------------------------------------------------------ judging
def human_ok(text, value):
    m = re.fullmatch(r"\s*(-?[0-9.]+)\s*([KMGT]?B)(?:\s*/\s*s)?\s*", text)
    if not m:
        return False
    unit = UNITS[m.group(2)]
    digits = len(m.group(1).split(".")[1]) if "." in m.group(1) else 0
    return abs(float(m.group(1)) - value / unit) <= 0.5001 * 10 ** -digits


def fail(detail):
    raise sim.Divergence("mon", "command line monitor", detail, {"C19"})


def field(line, label):
    m = re.search(re.escape(label) + r":\s*(-?[0-9.]+ [KMGT]?B)", line)
    return m.group(1) if m else None


def local(ts):
    return time.strftime("%d.%m.%Y %H:%M:%S", time.localtime(ts))


def judge_line(res, lines, e, uuid_key, columns=None):
    """Exactly one line for this connection, with its values."""
    if uuid_key:
        mine = [l for l in lines if e[uuid_key] in l]
    else:
        mine = [l for l in lines if e["name"] in l]
    if len(mine) != 1:
        fail("%d lines instead of one for %s\n%s" % (len(mine), e, "\n".join(lines)[:1500]))
    l = mine[0]
    tail = l.rstrip().endswith(e["name"].rstrip())
    head = l[:len(l.rstrip()) - len(e["name"].rstrip())]
    if not tail or e["address"] not in head or local(e["timestamp"]) not in head:
        fail("line %r does not end with the name or lacks address or connection time %s of %s" % (l, local(e["timestamp"]), e))
    for label, key in (("RX", "rxDataCount"), ("TX", "txDataCount")):
        f = field(head, label)
        if f is None or not human_ok(f, e[key]):
            fail("line %r has %s %s for %s %d" % (l, label, f, key, e[key]))
    res.count("monitor_lines_checked")
    return lines.index(l)


def judge_text(res, out, d):
    lines = out.splitlines()
    t = d["tunnelProxyStatistic"]

    def has(label, check):
        m = [l for l in lines if l.startswith(label)]
        if len(m) != 1 or not check(m[0][len(label):].lstrip(":").strip()):
            fail("%s is printed as %s, the data is %s" % (label, m, json.dumps({k: v for k, v in t.items() if k != "tunnelConnections"})))
        res.count("monitor_lines_checked")
    has("Server name", lambda x: x == d["serverName"].strip())
    has("Server version", lambda x: x == d["serverVersion"])
    has("API version", lambda x: x == d["apiVersion"])
    has("Total client count", lambda x: x == str(t["totalClientCount"]))
    has("Server connections", lambda x: x == str(t["serverConnectionsCount"]))
    has("Client connections", lambda x: x == str(t["clientConnectionsCount"]))
    has("Data troughput", lambda x: human_ok(x, t["troughput"]))
    for k, v in t["transports"].items():
        has("Connections on " + k, lambda x: x == str(v))
    order = []
    n = 0
    for s in t["tunnelConnections"]:
        order.append(judge_line(res, lines, s, "serverUuid"))
        for c in s["clientConnections"]:
            order.append(judge_line(res, lines, c, "clientUuid"))
    if order != sorted(order):
        fail("connections are printed in another order than given: %s\n%s" % (order, out[:1500]))
    n = sum("RX: " in l and re.search(r"\| \{?[0-9a-f-]{36}\}? \|", l) is not None for l in lines)
    if n != len(order):
        fail("%d connection lines for %d connections\n%s" % (n, len(order), out[:1500]))


class FakeMonitor:
    def __init__(self, d):
        self.path = os.path.join(d, "fake.sock")
        self.l = socket.socket(socket.AF_UNIX)
        self.l.bind(self.path)
        self.l.listen(5)
        self.c = None
        self.buf = b""

    def accept(self, exe):
        end = time.monotonic() + 40
        while time.monotonic() < end:
            if select.select([self.l], [], [], 0.05)[0]:
                self.c = self.l.accept()[0]
                return
            check_exe(exe)
        raise Crash("hang", "the monitor does not connect")

    def request(self, exe, seconds=40):
        end = time.monotonic() + seconds
        while b"\n" not in self.buf:
            if time.monotonic() > end:
                raise Crash("hang", "the monitor does not ask for data")
            if select.select([self.c], [], [], 0.05)[0]:
                x = self.c.recv(65536)
                if not x:
                    raise Crash("exit", "the monitor left without having asked")
                self.buf += x
            else:
                check_exe(exe)
        l, self.buf = self.buf.split(b"\n", 1)
        return json.loads(l)

    def answer(self, parts):
        for i, p in enumerate(parts):
            self.c.sendall(p)
            if i < len(parts) - 1:
                time.sleep(0.004)

    def close(self):
        for s in (self.l, self.c):
            if s is not None:
                s.close()


def check_exe(exe):
    if isinstance(exe, Exe):
        r = exe.report()
        if r:
            raise Crash(r.splitlines()[0], r)


def finished(res, exe, what):
    rc = exe.wait(40)
    check_exe(exe)
    if rc is None:
        raise sim.Divergence("mon", "command line monitor", "%s: does not end after the data" % what, {"C19"})
    res.count("monitor_runs")
    return exe.texts()[0]


def fake(res, r, case, d, build):
    f = FakeMonitor(d)
    exe = Exe(build.monitor, ["-s", f.path, case["mode"]] + (["-a"] if case["all"] else []), d, build, "monitor")
    try:
        if case["mode"] == "-n" or True:
            f.accept(exe)
            q = f.request(exe)
            if q.get("method") != "refresh" or bool(q.get("params", {}).get("printAll")) != case["all"]:
                fail("asked %s with %s" % (q, "-a" if case["all"] else "no -a"))
        dat = data(r)
        text = json.dumps(dat, separators=(",", ":"), ensure_ascii=r.random() < 0.5).encode() + b"\n"
        try:
            f.answer(pieces(r, text, case["split"]))
        except (BrokenPipeError, ConnectionResetError):
            pass
        out = finished(res, exe, case["split"])
        if case["mode"] == "-n":
            judge_text(res, out, dat)
        else:
            try:
                got = json.loads(out[out.index("{"):])
            except ValueError as e:
                fail("--json printed no JSON (%s): %s" % (e, out[:1500]))
            if got != dat:
                fail("--json printed other values: %s\ninstead of %s" % (json.dumps(got)[:1500], json.dumps(dat)[:1500]))
            res.count("monitor_lines_checked")
        res.count("monitor_split_" + case["split"])
    finally:
        exe.kill()
        f.close()


# ------------------------------------------------------------------ the interactive window
class Screen:
    """As much of a terminal as ncurses needs with TERM=ansi."""

    def __init__(self, rows, cols):
        self.rows, self.cols = rows, cols
        self.cell = [[" "] * cols for _ in range(rows)]
        self.y = self.x = 0
        self.buf = ""
        self.unknown = []

    def put(self, c):
        if self.x >= self.cols:
            self.x = 0
            self.y = min(self.y + 1, self.rows - 1)
        self.cell[self.y][self.x] = c
        self.x += 1

    def feed(self, data):
        self.buf += data.decode("latin-1")
        while self.buf:
            c = self.buf[0]
            if c == "\x1b":
                m = re.match(r"\x1b(?:\[([0-9;?]*)([@-~])|[()].|[=>78M])", self.buf)
                if not m:
                    if len(self.buf) < 20:
                        return
                    self.buf = self.buf[1:]
                    continue
                self.buf = self.buf[m.end():]
                if m.group(2):
                    self.csi(m.group(1), m.group(2))
                continue
            self.buf = self.buf[1:]
            if c == "\r":
                self.x = 0
            elif c == "\n":
                self.y = min(self.y + 1, self.rows - 1)
            elif c == "\b":
                self.x = max(0, self.x - 1)
            elif c == "\t":
                self.x = min(self.cols - 1, (self.x // 8 + 1) * 8)
            elif c >= " ":
                self.put(c)

    def csi(self, args, f):
        if args.startswith("?"):
            return
        a = [int(x) if x else 0 for x in args.split(";")] if args else []
        n = (a[0] if a else 0) or 1
        if f in "Hf":
            self.y = min(self.rows, (a[0] if a else 1) or 1) - 1
            self.x = min(self.cols, (a[1] if len(a) > 1 else 1) or 1) - 1
        elif f == "A":
            self.y = max(0, self.y - n)
        elif f == "B":
            self.y = min(self.rows - 1, self.y + n)
        elif f == "C":
            self.x = min(self.cols - 1, self.x + n)
        elif f == "D":
            self.x = max(0, self.x - n)
        elif f == "G":
            self.x = n - 1
        elif f == "d":
            self.y = n - 1
        elif f == "J":
            k = a[0] if a else 0
            if k == 2:
                self.cell = [[" "] * self.cols for _ in range(self.rows)]
            elif k == 0:
                self.csi("0", "K")
                for y in range(self.y + 1, self.rows):
                    self.cell[y] = [" "] * self.cols
        elif f == "K":
            k = a[0] if a else 0
            for x in range(0 if k else self.x, self.cols if k != 1 else self.x + 1):
                self.cell[self.y][x] = " "
        elif f == "X":
            for x in range(self.x, min(self.cols, self.x + n)):
                self.cell[self.y][x] = " "
        elif f == "P":
            row = self.cell[self.y]
            del row[self.x:self.x + n]
            row += [" "] * (self.cols - len(row))
        elif f == "@":
            row = self.cell[self.y]
            row[self.x:self.x] = [" "] * n
            del row[self.cols:]
        elif f == "L":
            for _ in range(n):
                self.cell.insert(self.y, [" "] * self.cols)
                self.cell.pop()
        elif f == "M":
            for _ in range(n):
                del self.cell[self.y]
                self.cell.append([" "] * self.cols)
        elif f == "b" and self.x:
            c = self.cell[self.y][self.x - 1]
            for _ in range(n):
                self.put(c)
        elif f == "m":
            pass
        else:
            self.unknown.append(args + f)

    def lines(self):
        return ["".join(r).rstrip() for r in self.cell]


def judge_screen(res, lines, d):
    t = d["tunnelProxyStatistic"]
    head = [l for l in lines if "Server: " in l and "Clients:" in l]
    if len(head) != 1:
        return "no header line"
    h = head[0]
    for want in ("Server: %s (%s)" % (d["serverName"], d["serverVersion"]), "API: " + d["apiVersion"], "Total: %d " % t["totalClientCount"], "Servers: %d " % t["serverConnectionsCount"], "Clients: %d " % t["clientConnectionsCount"]):
        if want not in h:
            return "%r is not in the header %r" % (want, h)
    m = re.search(r"([0-9.]+ [KMGT]?B) / s", h)
    if not m or not human_ok(m.group(1), t["troughput"]):
        return "throughput %d in %r" % (t["troughput"], h)
    n = 0
    try:
        order = []
        for s in t["tunnelConnections"]:
            order.append(judge_line(res, [l.replace("|", " ") for l in lines], dict(s, name=s["name"].replace("|", " ")), None))
            for c in s["clientConnections"]:
                order.append(judge_line(res, [l.replace("|", " ") for l in lines], dict(c, name=c["name"].replace("|", " ")), None))
        if order != sorted(order):
            return "order of the lines: %s" % order
        n = sum("RX: " in l and "TX: " in l and re.search(r"\d\d\.\d\d\.\d{4} \d\d:\d\d:\d\d", l) is not None for l in lines)
        if n != len(order):
            return "%d connection lines for %d connections" % (n, len(order))
    except sim.Divergence as e:
        return e.detail
    return None


def screen(res, r, d, build):
    f = FakeMonitor(d)
    rows, cols = 40, 200
    master, slave = pty.openpty()
    import fcntl
    import struct
    import termios
    fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
    err = open(os.path.join(d, "screen.err"), "wb")
    p = subprocess.Popen([build.monitor, "-s", f.path], stdin=slave, stdout=slave, stderr=err, cwd=d, env=build.env(TERM="ansi"), start_new_session=True)
    os.close(slave)
    s = Screen(rows, cols)

    def pump(seconds):
        end = time.monotonic() + seconds
        while time.monotonic() < end:
            if select.select([master], [], [], 0.01)[0]:
                try:
                    s.feed(os.read(master, 65536))
                except OSError:
                    return

    def died():
        t = open(err.name, errors="replace").read()
        if "ERROR: AddressSanitizer" in t or "runtime error:" in t:
            raise Crash([l for l in t.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error:" in l][0][:300], t[-6000:])
        if p.poll() is not None:
            raise Crash("exit %s" % p.returncode, "the monitor ended by itself: " + t[-1000:])
    try:
        f.accept(None)
        for i in range(3):
            end = time.monotonic() + 40
            while True:
                pump(0.05)
                died()
                if b"\n" in f.buf:
                    f.buf = f.buf.split(b"\n", 1)[1]
                    break
                if select.select([f.c], [], [], 0)[0]:
                    f.buf += f.c.recv(65536)
                if time.monotonic() > end:
                    fail("the interactive monitor does not refresh")
            dat = data(r, unicode=False, servers=r.choice([0, 1, 3, 5]))
            # names which identify their line
            for k, e in enumerate([x for sv in dat["tunnelProxyStatistic"]["tunnelConnections"] for x in [sv] + sv["clientConnections"]]):
                e["name"] = e["name"][:20].strip() + "#%02d" % k
            text = json.dumps(dat, separators=(",", ":")).encode() + b"\n"
            f.answer(pieces(r, text, r.choice(["whole", "end", "random", "inside"])))
            end = time.monotonic() + 20
            why = "x"
            while why and time.monotonic() < end:
                pump(0.1)
                died()
                why = judge_screen(res, s.lines(), dat)
            if why:
                fail("the interactive monitor shows after data %d: %s\n%s" % (i, why, "\n".join(l for l in s.lines() if l)[:3000]))
            res.count("screens_checked")
        os.write(master, b"\x1b")
        try:
            end = time.monotonic() + 20
            while p.poll() is None and time.monotonic() < end:
                pump(0.05)
        finally:
            res.count("monitor_runs")
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
        os.close(master)
        err.close()
        f.close()


# ------------------------------------------------------------------ with the server
def real(res, r, case):
    k = RealKit(res, ssl=case["ssl"], name="pröxy %1")
    try:
        kinds = ["tls", "wss", "unix"] if case["ssl"] else ["tcp", "ws", "unix"]
        servers = []
        no = 50
        for _ in range(r.randrange(1, 4)):
            no += 1
            sn, sname = no, name(r, True)
            s = k.peer(r.choice(["unix", kinds[0]]))
            text = K.req("TunnelProxy.RegisterServer", {"serverName": sname, "serverUuid": K.uuid(sn)})
            s.send(text)
            k.expect_ok(s)
            rec = {"peer": s, "name": sname, "serverUuid": K.uuid(sn), "rxDataCount": len(text), "clients": []}
            servers.append(rec)
            large = r.random() < 0.3    # monitor data of more than fits into any buffer
            for _ in range(r.randrange(0, 3) if not large else r.choice([40, 150])):
                no += 1
                cname = name(r, True)
                if large:
                    cname += "x" * r.choice([100, 1000, 5000])
                c = k.peer(r.choice(kinds))
                text = K.req("TunnelProxy.RegisterClient", {"clientName": cname, "clientUuid": K.uuid(no), "serverUuid": K.uuid(sn)})
                c.send(text)
                k.expect_ok(c)
                a = k.connected(s, no)
                # registration messages are counted too, one way or the other; payload dominates by far
                up, down = r.choice([50000, 300000]), r.choice([3000000, 70000, 0])
                if large:
                    up, down = 50000, 0
                c.send(b"u" * up)
                got = 0
                while got < up:
                    f = k.frame(s)
                    if f is None or f[0] != a:
                        k.fail("payload_c2s", "got %s" % sim.clip(repr(f)), {"C01"})
                    got += len(f[1])
                if down:
                    for o in range(0, down, 50000):
                        s.send(M.frame(a, b"d" * min(50000, down - o)))
                    k.until(lambda: len(c.rx) >= down)
                    c.rx.clear()
                rec["clients"].append({"peer": c, "name": cname, "clientUuid": K.uuid(no)})
        k.quiet()
        for all in (True, False):
            dat_peer = k.peer("monitor")
            dat_peer.send(b'{"method":"refresh","params":{"printAll":%s}}\n' % (b"true" if all else b"false"))
            dat = k.line(dat_peer)
            want = {x["serverUuid"]: x for x in servers if all or x["clients"]}
            t = dat["tunnelProxyStatistic"]
            if {M.parse_uuid(x["serverUuid"]): (x["name"], {M.parse_uuid(c["clientUuid"]): c["name"] for c in x["clientConnections"]}) for x in t["tunnelConnections"]} != \
                    {M.parse_uuid(u): (x["name"], {M.parse_uuid(c["clientUuid"]): c["name"] for c in x["clients"]}) for u, x in want.items()}:
                fail("the monitor data lists %s instead of %s" % (t["tunnelConnections"], sorted(want)))
            exe = Exe(k.build.monitor, ["-s", k.conf.monitor, "-n"] + (["-a"] if all else []), k.dir, k.build, "monitor")
            try:
                out = finished(res, exe, "real")
            finally:
                exe.kill()
            t["troughput"] = 0  # of an earlier second
            out = re.sub(r"(?m)^Data troughput.*$", "Data troughput:0.00 B / s", out)
            judge_text(res, out, dat)
        k.end()
    finally:
        k.kill()


def run(res, case):
    r = random.Random(case["seed"])
    if case["what"] == "real":
        real(res, r, case)
    else:
        build = vbuild.ensure("asan")
        d = sim.scratch("vm-")
        try:
            if case["what"] == "fake":
                fake(res, r, case, d, build)
            else:
                screen(res, r, d, build)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    res.samples.append({"driver": "monitorcli", "case": case})

"""Stopping and starting again under load, and listeners which cannot bind."""
import itertools
import os
import random
import signal
import socket

import model as M
import peers as P
import sim
from kit import reg_client, reg_server, req, uuid, with_kit
from hproc import Crash
from realkit import RealKit


def cases(rng, tier):
    res = []
    names = ("tcp", "ws", "unix", "monitor")
    for ssl in (False, True):
        for n in range(1, 4):
            for combo in itertools.combinations(names, n):
                if ssl and n == 2:
                    continue
                res.append({"kit": {"ssl": ssl}, "what": "blocked", "blocked": list(combo), "seed": rng.randrange(1 << 30)})
    for i in range(160 if tier == "deep" else 24):
        res.append({"kit": {"ssl": i % 2 == 1}, "what": "load", "rounds": 12 if tier == "deep" else 6, "seed": rng.randrange(1 << 30)})
    for i in range(120 if tier == "deep" else 16):
        res.append({"kit": {"ssl": i % 4 == 3}, "what": "hasty", "rounds": 12 if tier == "deep" else 6, "seed": rng.randrange(1 << 30)})
    for i in range(60 if tier == "deep" else 8):
        res.append({"kit": {"ssl": i % 2 == 1}, "what": "again", "rounds": 4, "seed": rng.randrange(1 << 30)})
    return res


def refused(k, what):
    c = k.conf
    for name, fam, addr in (("tcp", socket.AF_INET, (c.host, c.tcp_port)), ("ws", socket.AF_INET, (c.host, c.ws_port)), ("unix", socket.AF_UNIX, c.unix), ("monitor", socket.AF_UNIX, c.monitor)):
        s = socket.socket(fam, socket.SOCK_STREAM)
        s.settimeout(2)
        try:
            s.connect(addr)
        except (ConnectionRefusedError, FileNotFoundError):
            k.res.count("listeners_found_closed")
            continue
        finally:
            s.close()
        k.fail("close_missing", "%s: the %s listener still accepts connections" % (what, name), {"C17"})


def served(k, kinds, ssl, r, labels=("C17",)):
    """Each of these listeners serves requests; and tunnels work between them."""
    real = {"tcp": "tls" if ssl else "tcp", "ws": "wss" if ssl else "ws", "unix": "unix"}
    lab = set(labels)
    try:
        for x in kinds:
            if x == "monitor":
                p = k.peer("monitor")
                p.send(b'{"method":"refresh","params":{"printAll":true}}\n')
                m = k.line(p)
                if m is None or "tunnelProxyStatistic" not in m:
                    k.fail("not_served", "the monitor listener answers %r" % (m,), lab)
                p.close()
                continue
            p = k.peer(real[x])
            p.send(req("RemoteProxy.Hello", {}, 77))
            m = k.line(p)
            if m is None or m.get("id") != 77 or m.get("status") != "success":
                k.fail("not_served", "the %s listener answers %r" % (x, m), lab)
            p.close()
            k.res.count("listeners_found_serving")
        k.quiet()
        servers = [x for x in kinds if x in ("tcp", "unix")]
        for sx in servers:
            s = k.server(real[sx], 31)
            for i, x in enumerate([x for x in kinds if x != "monitor"]):
                c, a = k.client(real[x], 32 + i, s, 31)
                c.send(b"up")
                if k.frame(s) != (a, b"up"):
                    k.fail("payload_c2s", "no data from %s to %s" % (x, sx), lab | {"C01"})
                s.send(M.frame(a, b"down"))
                k.until(lambda: len(c.rx) >= 4)
                if bytes(c.rx) != b"down":
                    k.fail("payload_s2c", "no data from %s to %s" % (sx, x), lab | {"C01"})
                c.close()
                k.gone(s, a, lab | {"C05"})
            s.close()
            k.quiet()
    except sim.Divergence as d:
        d.labels |= lab
        raise
    except OSError as e:
        k.fail("not_served", "cannot connect: %s (%s)" % (e, kinds), lab)


def load(k, ssl, r):
    """Connections in all states."""
    kinds = ["tls", "wss", "unix"] if ssl else ["tcp", "ws", "unix"]
    streams = ["tls", "unix"] if ssl else ["tcp", "unix"]
    n = 100
    out = []
    for _ in range(r.randrange(1, 4)):
        n += 1
        sn = n
        s = k.server(r.choice(streams), sn)
        out.append(s)
        for _ in range(r.randrange(0, 4)):
            n += 1
            c, a = k.client(r.choice(kinds), n, s, sn, skip=True)
            out.append(c)
            for _ in range(r.randrange(0, 3)):
                c.send(b"x" * r.choice([1, 1000, 300000]))
                s.send(M.frame(a, b"y" * r.choice([1, 1000, 300000])))
            if r.random() < 0.3:
                c.paused = True
            if r.random() < 0.2:
                c.close(r.choice(["fin", "rst"]))
            if r.random() < 0.2:
                s.send(M.frame(0, req("TunnelProxy.DisconnectClient", {"socketAddress": a})))
    for _ in range(r.randrange(0, 4)):
        p = k.peer(r.choice(kinds), wait=r.random() < 0.5)
        out.append(p)
        if r.random() < 0.5:
            p.send(req("No.Such", {}) if r.random() < 0.5 else b'{"id":1,"met')
        if r.random() < 0.3:
            p.paused = True
    if r.random() < 0.15:
        for i in range(r.choice([40, 90])):
            out.append(k.peer(r.choice(kinds), wait=False))
    for _ in range(r.randrange(0, 3)):
        out.append(k.peer("monitor"))
        if r.random() < 0.5:
            out[-1].send(b'{"method":"refresh"}\n')
    for _ in range(r.randrange(0, 3)):
        p = P.TcpPeer(k.conf.host, r.choice([k.conf.ws_port, k.conf.tcp_port]))
        k.peers.append(p)
        out.append(p)
        p.send(r.choice([b"GET / HT", b"\x16\x03\x01\x02\x00\x01\x00", b""]))
    for _ in range(r.randrange(0, 4)):
        k.step()
    return out


def run(res, case):
    {"again": again, "hasty": hasty}.get(case["what"], inside)(res, case)


@with_kit
def hasty(k, case):
    """Starts and stops faster than the event loop; the last one counts."""
    r = random.Random(case["seed"])
    ssl = case["kit"]["ssl"]
    c = k.conf
    base = None
    for i in range(case["rounds"]):
        ps = load(k, ssl, r) if r.random() < 0.5 else []
        cmds = [r.choice(["start", "stop"]) for _ in range(r.randrange(1, 6))]
        for x in cmds:
            k.h.cmd((("start " + c.path) if x == "start" else "stop") + (" nopump" if r.random() < 0.8 else ""))
        for p in ps:
            p.paused = False
        if not k.until(lambda: all(p.closed or p.local_closed for p in ps)):
            bad = [p.kind for p in ps if not p.closed and not p.local_closed]
            k.fail("close_missing", "connections survive %s: %s" % (cmds, bad), {"C17", "C16"})
        for p in ps:
            p.dispose()
        k.peers.clear()
        k.h.cmd("W 100")
        want = cmds[-1] == "start"
        got = k.h.ask("running", "running")
        if got != "%d" % want:
            k.fail("running", "after %s the engine says running %s" % (cmds, got), {"C17"})
        if want:
            m = k.monitor()
            if m["totalClientCount"] or m["tunnelConnections"] or any(m["transports"].values()):
                k.fail("stale", "after %s the proxy knows of %s" % (cmds, m), {"C17", "C19"})
            served(k, ["tcp", "ws", "unix", "monitor"], ssl, r)
        else:
            refused(k, "after %s" % cmds)
        k.res.count("hasty_commands", len(cmds))
        k.h.cmd("stop")
        k.adv(12000, 500)
        leftovers(k, ssl, base, i)
        base = base or k.stats()
        k.h.cmd("start " + c.path)


def leftovers(k, ssl, base, i):
    st = k.stats()
    if base is None or st["objects"] <= base["objects"] + 2 and st["fds"] <= base["fds"]:
        return
    lost = {x: (base["classes"].get(x, 0), v) for x, v in st["classes"].items() if v > base["classes"].get(x, 0)}
    q = {x: b - a for x, (a, b) in lost.items()}
    # see known-findings.jsonl: sockets without TLS session of the secure WebSocket listener
    if not (ssl and st["fds"] == base["fds"] and set(q) <= {"QSslSocket", "QTcpSocket", "QTimer", "QObject"} and q.get("QSslSocket") == q.get("QTcpSocket")):
        k.fail("leak", "stopped proxy in round %d: objects %d -> %d, descriptors %d -> %d; %s" % (i, base["objects"], st["objects"], base["fds"], st["fds"], lost), {"C17", "C16"})


def again(res, case):
    """The executable, started where an earlier process ended or was killed."""
    r = random.Random(case["seed"])
    ssl = case["kit"]["ssl"]
    k = RealKit(res, ssl=ssl)
    try:
        for i in range(case["rounds"]):
            ps = load(k, ssl, r)
            k.server_exe.check()
            if r.random() < 0.7:
                k.server_exe.kill()
                res.count("processes_killed")
            else:
                k.server_exe.p.send_signal(signal.SIGTERM)
                if k.server_exe.wait(60) is None:
                    k.fail("close_missing", "the process is still running", {"C17", "C18"})
            for p in ps:
                p.dispose()
            k.peers.clear()
            for f in (k.conf.unix, k.conf.monitor):
                if not os.path.lexists(f) and r.random() < 0.3:
                    open(f, "w").close()    # anything may have been left there
            k.start(wait=False)
            try:
                k.await_listening()
            except Crash as e:
                if e.kind != "hang":
                    raise
                k.fail("not_served", str(e), {"C17"})
            m = k.monitor()
            if m["totalClientCount"] or m["tunnelConnections"] or any(m["transports"].values()):
                k.fail("stale", "the new process knows of %s" % m, {"C17", "C19"})
            served(k, ["tcp", "ws", "unix", "monitor"], ssl, r)
            res.count("restarts")
        k.end()
    finally:
        k.kill()
    res.samples.append({"driver": "listeners", "case": case})


@with_kit
def inside(k, case):
    r = random.Random(case["seed"])
    ssl = case["kit"]["ssl"]
    c = k.conf
    everything = ["tcp", "ws", "unix", "monitor"]
    if case["what"] == "blocked":
        # the process has started freely; stop, take the addresses away, start again
        k.h.cmd("stop")
        refused(k, "stopped")
        blockers = []
        for b in case["blocked"]:
            if b in ("tcp", "ws"):
                s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
                s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                s.bind((c.host, c.tcp_port if b == "tcp" else c.ws_port))
                s.listen(1)
                blockers.append(s)
            else:
                os.mkdir(c.unix if b == "unix" else c.monitor)
                open(os.path.join(c.unix if b == "unix" else c.monitor, "occupied"), "w").close()
        free = [x for x in everything if x not in case["blocked"]]
        for i in range(2):
            k.h.cmd("start " + c.path)
            served(k, free, ssl, r)
            k.h.cmd("stop")
            k.quiet()
        for s in blockers:
            s.close()
        for b in case["blocked"]:
            if b in ("unix", "monitor"):
                os.unlink(os.path.join(c.unix if b == "unix" else c.monitor, "occupied"))
                os.rmdir(c.unix if b == "unix" else c.monitor)
        k.h.cmd("start " + c.path)
        served(k, everything, ssl, r)
        return
    base = None
    for i in range(case["rounds"]):
        ps = load(k, ssl, r)
        over = i % 3 == 2    # started once more while it runs
        if over:
            k.h.cmd("start " + c.path)
            k.res.count("started_while_running")
        else:
            k.h.cmd("stop" + (" nopump" if r.random() < 0.3 else ""))
        again = r.random() < 0.3 and not over
        if again:
            k.h.cmd("stop")
        for p in ps:
            p.paused = False
        if not k.until(lambda: all(p.closed or p.local_closed for p in ps)):
            bad = [p.kind for p in ps if not p.closed and not p.local_closed]
            k.fail("close_missing", "connections survive the stop: %s" % bad, {"C17", "C16"})
        k.res.count("connections_ended_by_stop", len(ps))
        if not over:
            refused(k, "stopped under load")
        for p in ps:
            p.dispose()
        k.peers.clear()
        if over:
            m = k.monitor()
            if m["totalClientCount"] or m["tunnelConnections"] or any(m["transports"].values()):
                k.fail("stale", "the proxy started again knows of %s" % m, {"C17", "C19"})
            served(k, everything, ssl, r)
            k.h.cmd("stop")
        k.adv(12000, 500)
        leftovers(k, ssl, base, i)
        base = base or k.stats()
        k.h.cmd("start " + c.path)
        if again:
            k.h.cmd("stop")
            k.h.cmd("start " + c.path)
        m = k.monitor()
        if m["totalClientCount"] or m["tunnelConnections"] or any(m["transports"].values()):
            k.fail("stale", "the restarted proxy knows of %s" % m, {"C17", "C19"})
        served(k, everything, ssl, r)
        k.res.count("restarts")

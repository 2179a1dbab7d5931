"""When connections are closed for inactivity, silence or overlong requests, and when not."""
import random

import model as M
from kit import reg_client, reg_server, req, with_kit


def cases(rng, tier):
    res = []
    for ssl, kinds in ((False, ["tcp", "unix", "ws"]), (True, ["tls", "wss"])):
        for k in kinds:
            for t in (1000, 3000, 8000, 20000, 61000):
                res.append({"kit": {"ssl": ssl, "inactive": t}, "kind": k, "what": "unregistered", "t": t, "chatty": rng.random() < 0.5, "late": rng.random() < 0.5})
            res.append({"kit": {"ssl": ssl, "inactive": 2000}, "kind": k, "what": "idle_client", "seed": rng.randrange(99)})
            if k not in ("ws", "wss"):
                res.append({"kit": {"ssl": ssl}, "kind": k, "what": "silent_server", "chatty_client": rng.random() < 0.5})
                for how in ("request", "end", "data", "garbage"):
                    res.append({"kit": {"ssl": ssl}, "kind": k, "what": "talking_server", "how": how})
                res.append({"kit": {"ssl": ssl}, "kind": k, "what": "overlong"})
    return res


def must_be_open(k, p, why):
    k.quiet()
    if p.closed:
        k.fail("close_unexpected", why, {"C13"}, p.kind)
    k.res.count("reaped")


def must_be_closed(k, p, why):
    k.until(lambda: p.closed)
    if not p.closed:
        k.fail("close_missing", why, {"C13"}, p.kind)
    k.res.count("reaped")


@with_kit
def run(k, case):
    kind, what = case["kind"], case["what"]
    if what == "unregistered":
        t = case["t"]
        k.adv(777)
        p = k.peer(kind)
        talk = [k.peer(kind)]
        done = 0
        while done < t * 0.9:
            d = min(t * 0.9 - done, t / 7)
            k.adv(int(d))
            done += int(d) + 1
            if case["chatty"]:
                for q in [p] + talk:
                    q.send(req("RemoteProxy.Hello", {}))
                k.quiet()
        for q in [p] + talk:
            must_be_open(k, q, "unregistered connection closed within %d of %d ms" % (done, t))
        # one of them registers at the last moment and stays
        talk[0].rx.clear()
        if kind not in ("ws", "wss"):
            talk[0].send(reg_server(77))
            k.expect_ok(talk[0], {"C13", "C09"})
        else:
            s = k.server("unix", 77)
            talk[0].send(reg_client(78, 77))
            k.expect_ok(talk[0], {"C13", "C09"})
        k.adv(int(t * 0.1 + t * 0.06 + 400))
        must_be_closed(k, p, "unregistered connection still open after %d ms" % (t * 1.06 + 400))
        must_be_open(k, talk[0], "connection which registered in time was closed")
    elif what == "idle_client":
        s = k.server("unix", 1)
        c, a = k.client(kind, 2, s, 1)
        for i in range(16):
            k.adv(45000, 1000)
            s.send(b"\xc0" if i % 2 else M.frame(0, req("TunnelProxy.Ping", {"timestamp": i})))
            must_be_open(k, c, "client closed for being idle %d s" % (45 * (i + 1)))
            must_be_open(k, s, "server closed although it sends every 45 s")
        s.rx.clear()
        c.send(b"hello")
        if k.frame(s) != (a, b"hello"):
            k.fail("payload_c2s", "tunnel does not work after having been idle", {"C13", "C01"})
    elif what == "silent_server":
        s = k.server(kind, 1)
        c, a = k.client("unix", 2, s, 1)
        for i in range(8):
            k.adv(6900, 500)
            if case["chatty_client"]:
                c.send(b"are you there")
            must_be_open(k, s, "server closed after %d s of silence" % (6.9 * (i + 1)))
        k.adv(9500, 500)
        must_be_closed(k, s, "server still open after 64 s of silence")
        k.until(lambda: c.closed)
        if not c.closed:
            k.fail("close_missing", "client of the reaped server is still connected", {"C06", "C13"})
    elif what == "talking_server":
        s = k.server(kind, 1)
        for i in range(5):
            k.adv(50000, 1000)
            s.send({"request": M.frame(0, req("RemoteProxy.Hello", {}, i)), "end": b"\xc0", "data": M.frame(0xFFFE, b"x"), "garbage": b"\xdb\x00\x00\xc0"}[case["how"]])
            must_be_open(k, s, "server which sends (%s) every 50 s closed" % case["how"])
    elif what == "overlong":
        for n, closed in ((10000, False), (10240, False), (10241, True), (30000, True)):
            p = k.peer(kind)
            head = b'{"id":1,"method":"'
            data = head + b"x" * (n - len(head))
            if n % 2:
                for i in range(0, len(data), 1000):
                    p.send(data[i:i + 1000])
                    k.step()
            else:
                p.send(data)
            if closed:
                must_be_closed(k, p, "%d bytes of an incomplete request were accepted" % n)
                if p.rx:
                    k.fail("resp_extra", "answer to an incomplete request: %r" % bytes(p.rx[:100]), {"C13"})
            else:
                k.quiet()
                must_be_open(k, p, "closed with %d bytes of an incomplete request" % n)
            p.dispose()
    k.works("tcp" if not case["kit"]["ssl"] else "tls", ("C13", "C15"))

"""The server-side library on a WebSocket connection. (Known to be broken, see known-findings.)"""
import drv_coupled
from fakeproxy import hx

KNOWN = "websocket-server-library"


def cases(rng, tier):
    return [{"ssl": False, "ops": 0, "long": False, "seed": 1}]


def run(res, case):
    x = drv_coupled.Run(res, case)
    try:
        s = drv_coupled.Server(1, "{11111111-1111-4111-8111-111111111111}", "srv")
        s.may_stop = True
        x.servers.append(s)
        x.lib.cmd("srv new 1 %s %s ws" % (s.uid, hx(b"srv")))
        x.lib.cmd("srv start 1 " + x.url(True))
        if not x.until(lambda: s.running):
            x.fail("unreachable", "a library server does not register over WebSocket", {"C20", "C23"})
        c = drv_coupled.Client(1, "tcp", s, "{21111111-1111-4111-8111-111111111111}", "cli")
        x.clients.append(c)
        s.clients.append(c)
        x.lib.cmd("rc new 1 %s %s tcp" % (c.uid, hx(b"cli")))
        x.lib.cmd("rc connect 1 %s %s" % (x.url(False), s.uid))
        if not x.until(lambda: bool(c.remote)):
            x.fail("register", "a client of a library server on WebSocket is not registered", {"C21", "C09"})
        x.until(lambda: c.sid is not None, 10)
        res.count("ws_library_servers")
        if c.sid is None and not any("conn" in e for e in x.lib.all_events if e.startswith("srv")):
            res.known.append({"id": KNOWN, "property": "C20", "detail": "a library server on a WebSocket connection got no socket object for its client", "driver": "wslib", "case": case})
        else:
            c.fro += b"there"
            x.lib.cmd("rc send 1 " + b"there".hex())
            c.to += b"back"
            x.lib.cmd("srv write 1 %d %s" % (c.sid, b"back".hex()))
            x.until(lambda: len(c.got_to) >= 4 and len(c.got_fro) >= 5)
            x.check(c)
        x.lib.h.quit()
        x.k.end()
    finally:
        x.kill()
    res.samples.append({"driver": "wslib", "case": case})

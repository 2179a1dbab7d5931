"""The server role on a WebSocket: payload has to reach both sides unchanged. (Known to be broken, see known-findings.)"""
import json

import model as M
import peers as P
import sim
import vbuild

KNOWN = "websocket-server-role"


def cases(rng, tier):
    return [{"payload": "68656c6c6f"}]


def run(res, case):
    build = vbuild.ensure("asan")
    w = sim.World(build)
    try:
        c = w.conf
        s = P.WsPeer(c.host, c.ws_port)
        t = P.TcpPeer(c.host, c.tcp_port)

        def drive(cond):
            for i in range(40):
                w.h.cmd("P" if i < 20 else "W 20")
                s.poll()
                t.poll()
                if cond():
                    return True
            return False
        drive(lambda: s.ws_open)
        s.send(json.dumps({"id": 1, "method": "TunnelProxy.RegisterServer", "params": {"serverName": "a", "serverUuid": "{11111111-1111-4111-8111-111111111111}"}}).encode() + b"\n")
        ok = drive(lambda: b"\n" in s.rx)
        if not ok or b"NoError" not in s.rx:
            raise sim.Divergence("resp_value", "ws server", "a server cannot register over WebSocket: %r" % bytes(s.rx), {"C09", "C07"})
        s.rx.clear()
        t.send(json.dumps({"id": 1, "method": "TunnelProxy.RegisterClient", "params": {"clientName": "b", "clientUuid": "{21111111-1111-4111-8111-111111111111}", "serverUuid": "{11111111-1111-4111-8111-111111111111}"}}).encode() + b"\n")
        ok = drive(lambda: b"\n" in t.rx)
        if not ok or b"NoError" not in t.rx:
            raise sim.Divergence("resp_value", "client", "no registration with a server on WebSocket: %r" % bytes(t.rx), {"C09", "C07"})
        t.send(bytes.fromhex(case["payload"]))
        drive(lambda: s.closed)
        got = bytes(s.rx)
        want = bytes([0, 1]) + bytes.fromhex(case["payload"])
        res.count("ws_server_bytes", len(got))
        frames = [M.slip_decode(x) for x in got.split(b"\xc0") if x]
        if want not in frames:
            # what Qt makes of the frame as text
            garbled = M.slip_encode(want).decode("utf-8", "replace").encode()
            if not got.endswith(garbled):
                raise sim.Divergence("payload_c2s", "ws server", "got %r" % got[:300], {"C01"})
            res.known.append({"id": KNOWN, "property": "C01", "detail": "a server registered over WebSocket got %r instead of a frame" % got[:200], "driver": "wsserver", "case": case})
        for p in (s, t):
            p.dispose()
        w.close()
    finally:
        w.close(quiet=True)

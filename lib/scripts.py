"""Scripted workloads: fixed shapes with random details, run against the same model as the random ones."""
import json

import gen as G
import model as M

GOOD = {"String": ["x", "", "ä€😀", "a" * 500, 5, 0], "UInt": [0, 1, 65535, 65536, 2147483648, 4294967295, "17", "0", "4294"], "Uuid": None}
BAD = {"String": [[], {}, [1], {"a": 1}], "UInt": ["abc", "", " ", "x1x"[0:1], [], {}, [1], {"a": 1}], "Uuid": [5, [], {}, 0]}


def api(g, steps):
    """Calls of every described method with parameters that fit, are missing, are too many or have values of other types."""
    r = g.r
    variants = []
    for m, d in g.w.api["methods"].items():
        par = d["params"]
        variants.append((m, "fit", None, None))
        for p, t in par.items():
            variants.append((m, "missing", p, None))
            for v in BAD.get(t, []):
                variants.append((m, "bad", p, v))
            for v in GOOD.get(t) or []:
                variants.append((m, "good", p, v))
            variants.append((m, "renamed", p, None))
        near = []
        for p in par:
            # names which resemble the described ones
            near += [p + "x", p + "s", p[:-1], p[1:], " " + p, p + " ", p.capitalize(), p.lower() + "_", "o:" + p, p + "\0", p * 2, "r:" + p, p + "." + p]
        near = [x for x in near if x not in par]
        r.shuffle(near)
        for x in ["extra", "o:extra", "", "params", "id", "zzz", "A", "~"] + near[:10]:
            variants.append((m, "extra", x, None))
        variants.append((m, "empty", None, None))
        variants.append((m, "absent", None, None))
    r.shuffle(variants)
    for m, what, p, v in variants[:steps]:
        role = r.random()
        c = g.pick("server") if role < 0.4 else g.json_conn("RegisterServer" in m)
        if c is None or c.state == "json" and c.id in g.defer:
            continue
        if role < 0.4 and c.state == "server" and "Register" in m and what in ("fit", "good"):
            continue
        d = g.w.api["methods"][m]
        params = {}
        for k, t in d["params"].items():
            params[k] = {"String": g.name, "UInt": lambda: r.randrange(1, 1 << 32), "Uuid": g.new_uuid}.get(t, lambda: 1)()
        if m == "TunnelProxy.RegisterClient":
            params["serverUuid"] = g.server_uuid() or g.new_uuid()
        if what == "missing":
            del params[p]
        elif what in ("bad", "good"):
            params[p] = v
        elif what == "renamed":
            params[p.upper()] = params.pop(p)
        elif what == "extra":
            params[p] = r.choice([1, "x", [], {}, True])
        elif what == "empty":
            params = {}
        items = list(params.items())
        r.shuffle(items)
        o = {"id": G.rid(r), "method": m}
        if what != "absent":
            o["params"] = dict(items)
        g.send(c, [g.request_part(c, G.dump(r, o), "\n")])
        if r.random() < 0.1:
            g.a_client()
        if r.random() < 0.1:
            g.a_close()
    g.a_flush()

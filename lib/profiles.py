"""Workload profiles: which connections, which actions how often, how reads are cut."""
BASE = {"open": 2, "server": 3, "client": 6, "good": 3, "c2s": 10, "s2c": 10, "close": 1, "mon": 0.3, "adv": 0.5}


def prof(weights, **kw):
    w = dict(BASE)
    w.update(weights)
    d = {"weights": {k: v for k, v in w.items() if v}, "kinds": ["fake"], "cuts": 0.5, "defer": 0.05}
    d.update(kw)
    return d


PLAIN = ["tcp", "unix", "ws", "tcp", "unix"]
TLS = ["tls", "wss", "unix", "tls"]
ALL = {"conflict": 1, "badreg": 1, "bad": 1, "overlong": 0.2, "almost_overlong": 0.2, "kick": 1, "kick_foreign": 0.5, "close_server": 0.7, "close_client": 0.7,
       "stale": 0.7, "probe": 0.3, "swarm": 0.2, "moredata": 0.3}

PROFILES = {
    "mix": prof(ALL, pipeline=0.2),
    "mix_async": prof(dict(ALL, finish=4), sync=False, pipeline=0.2),
    "mix_plain": prof(ALL, kinds=PLAIN, pipeline=0.2),
    "mix_tls": prof(ALL, kinds=TLS, ssl=True, pipeline=0.2, cuts=0.2),
}


def family(name, weights, plain=True, tls=True, asyn=True, **kw):
    """The same emphasis on every kind of transport."""
    PROFILES[name] = prof(weights, **kw)
    if asyn:
        PROFILES[name + "_async"] = prof(dict(weights, finish=4), sync=False, **kw)
    if plain:
        PROFILES[name + "_plain"] = prof(weights, kinds=PLAIN, **kw)
    if tls:
        PROFILES[name + "_tls"] = prof(weights, kinds=TLS, ssl=True, **dict(kw, cuts=min(0.2, kw.get("cuts", 0.2))))


family("data", {"c2s": 20, "s2c": 20, "moredata": 2, "swarm": 0.4, "kick": 0.3, "good": 1, "close": 0.5}, big=0.05, pipeline=0.2)
family("isolate", {"server": 6, "swarm": 1, "stale": 4, "moredata": 2, "close_client": 2, "kick": 1, "probe": 1}, unassigned=0.3, max_servers=6, max_conns=20)
family("churn", {"client": 12, "swarm": 1, "close_client": 6, "kick": 3, "close_server": 1, "stale": 1, "c2s": 6, "s2c": 6, "conflict": 1}, max_conns=24)
family("uuids", {"conflict": 12, "badreg": 2, "close_client": 2, "close_server": 2, "c2s": 5, "s2c": 5}, tail=0.5, pipeline=0.2)
family("lose", {"swarm": 2, "client": 8, "close_server": 4, "close_client": 3, "badreg": 3, "moredata": 1, "conflict": 1, "kick": 1}, max_conns=24)
family("requests", {"good": 14, "bad": 7, "badreg": 2, "conflict": 2, "kick": 2, "kick_foreign": 1, "overlong": 0.4, "almost_overlong": 0.5, "c2s": 4, "s2c": 4}, pipeline=0.6, tail=0.7, frame_req=0.3)
family("register", {"badreg": 8, "conflict": 3, "probe": 3, "bad": 1, "close_server": 2, "close_client": 1, "stale": 1}, pipeline=0.3, tail=0.5)
family("kick", {"kick": 14, "kick_foreign": 4, "stale": 3, "client": 12, "swarm": 1, "c2s": 5, "s2c": 5}, max_conns=20)
family("chunk", dict(ALL, good=8, bad=2), cuts=1.0, defer=0.25, pipeline=0.6, tail=0.6)
family("slip", {"s2c": 25, "moredata": 1, "good": 4, "kick": 1}, malformed=0.35, unassigned=0.1, frame_req=0.15, pipeline=0.3)
family("time", {"adv": 8, "keepalive": 5, "chatter": 4, "probe": 2, "overlong": 1, "almost_overlong": 1, "c2s": 3, "s2c": 3, "close": 0.3}, adv=[50, 1000, 3000, 4500, 8000, 9500, 20000, 31000, 50000])
family("restart", dict(ALL, restart=4, swarm=0.5, mon=0.5), pipeline=0.2)
family("monitor", {"mon": 10, "adv": 2, "swarm": 0.5, "moredata": 1, "kick": 1, "conflict": 1, "close_server": 1, "close_client": 1}, adv=[100, 1000, 2000])
family("api", {}, script="api", max_conns=20, pipeline=0.1)

"""What each check runs. n is the number of traces, scaled by the tier."""


def family(name, n, steps, kinds=("", "_async", "_plain", "_tls"), share=(1, 0.6, 0.6, 0.3)):
    return [("trace", name + k, max(8, int(n * f)), steps) for k, f in zip(kinds, share)]


CHECKS = {
    "C01": {"plan": family("data", 240, 80) + [("driver", "addresses", "data"), ("driver", "wsserver", ""), ("driver", "slow", ""), ("driver", "bulk", "")], "relevant": ["c2s_bytes", "s2c_bytes"],
            "nontrivial": "tunnel payload was forwarded"},
    "C02": {"plan": family("isolate", 240, 80) + [("driver", "slow", ""), ("driver", "bulk", "alias")], "relevant": ["frames_unassigned", "backlog_bytes", "c2s_bytes"], "nontrivial": "frames for addresses without a client were sent besides the forwarded ones"},
    "C03": {"plan": family("churn", 160, 80) + [("driver", "addresses", "wrap")], "relevant": ["clients"], "nontrivial": "clients were given addresses"},
    "C04": {"plan": family("uuids", 240, 80) + [("driver", "bulk", "kick")], "relevant": ["err_AlreadyRegistered", "uuid_probes"], "nontrivial": "a UUID in use or a registered connection was registered again"},
    "C05": {"plan": family("churn", 240, 80) + family("lose", 80, 80) + [("driver", "endings", "")], "relevant": ["ended_client"], "nontrivial": "clients came and went"},
    "C06": {"plan": family("lose", 280, 80) + [("driver", "endings", ""), ("driver", "bulk", "ending")], "relevant": ["ended_server", "ended_client", "backlog_bytes"], "nontrivial": "a server with clients or a client was lost"},
    "C07": {"plan": family("requests", 280, 80), "relevant": ["resp_error"], "nontrivial": "failing requests were among the answered ones"},
    "C08": {"plan": family("api", 160, 90) + family("requests", 80, 80), "relevant": ["resp_error"], "nontrivial": "calls with unfitting parameters were among the answered ones"},
    "C09": {"plan": family("register", 280, 80), "relevant": ["err_ServerNotFound", "err_InvalidUuid"], "nontrivial": "registrations were refused"},
    "C10": {"plan": family("kick", 280, 80) + [("driver", "bulk", "kick")], "relevant": ["err_UnknownSocketAddress", "backlog_bytes"], "nontrivial": "disconnects of addresses without a client were requested"},
    "C11": {"plan": family("chunk", 320, 80), "relevant": ["requests"], "nontrivial": "requests or frames were cut or merged"},
    "C13": {"plan": family("time", 240, 80) + [("driver", "stuck", ""), ("driver", "reap", "")], "relevant": ["timeouts", "stuck_ended", "reaped", "observed_messages"], "nontrivial": "connections had to be closed for inactivity, silence or overlong requests, or reached the time at which that must not happen"},
    "C12": {"plan": family("slip", 240, 80) + [("driver", "codec", ""), ("driver", "addresses", "data")], "relevant": ["malformed", "surplus_end", "codec", "addresses_with_data"], "nontrivial": "malformed frames, surplus end bytes or special bytes were decoded"},
}

CHECKS.update({
    "C16": {"plan": [("driver", "cycles", ""), ("driver", "stuck", ""), ("driver", "endings", "")] + family("churn", 60, 80), "relevant": ["cycles", "stuck_ended", "ended_client"], "nontrivial": "connections came and went"},
})

CHECKS["C17"] = {"plan": [("driver", "listeners", "")] + family("restart", 120, 80), "relevant": ["restarts", "listeners_found_closed", "stops_with_connections"],
                 "nontrivial": "the proxy was stopped and started again, under load or with listeners which cannot bind"}
CHECKS["C14"] = {"plan": [("driver", "tls", "")] + [("trace", "mix_tls", 60, 80), ("trace", "lose_tls", 40, 80)], "relevant": ["tls_wires_checked", "observed_messages", "model_open"],
                 "nontrivial": "connections without or with a broken TLS session were made besides proper ones"}
CHECKS["C15"] = {"plan": [("driver", "memcheck", ""), ("driver", "hostile", ""), ("driver", "descriptors", "")] + family("mix", 60, 80), "relevant": ["memcheck_operations", "watched_exchanges", "fresh_tunnels_used", "resp_error"],
                 "nontrivial": "well-behaved connections were watched while hostile ones were active"}
CHECKS["C18"] = {"plan": [("driver", "process", "")], "relevant": ["processes_ended"], "nontrivial": "a server process was ended by a signal"}
CHECKS["C19"] = {"plan": [("driver", "monitorcli", ""), ("driver", "throughput", "")] + family("monitor", 140, 80), "relevant": ["monitor_runs", "screens_checked", "throughput_nonzero", "monitor_checks_with_servers"],
                 "nontrivial": "monitor data or output about connections or traffic was compared"}
CHECKS["C24"] = {"plan": [("driver", "config", "")], "relevant": ["settings_in_effect", "settings_checked", "servers_refused"], "nontrivial": "settings were compared with what took effect or a server had to refuse its configuration"}

CHECKS["C20"] = {"plan": [("driver", "libserver", ""), ("driver", "coupled", ""), ("driver", "wslib", "")], "relevant": ["sockets", "ends_checked"],
                 "nontrivial": "socket objects of the library came, got data and went"}
CHECKS["C21"] = {"plan": [("driver", "libclient", ""), ("driver", "coupled", "")], "relevant": ["remote_changes", "refusals", "ended_early"],
                 "nontrivial": "remote connections were made, refused or ended"}
CHECKS["C22"] = {"plan": [("driver", "librpc", ""), ("driver", "libserver", "")], "relevant": ["responses", "notifications_with_outstanding_id", "library_frames"],
                 "nontrivial": "responses or notifications arrived while requests were outstanding"}
CHECKS["C23"] = {"plan": [("driver", "reconnect", ""), ("driver", "coupled", "")], "relevant": ["losses", "watched_seconds"],
                 "nontrivial": "connections were lost, refused or idle for long"}

CHECKS["C25"] = {"plan": [("driver", "tool", "")], "relevant": ["registrations_checked", "echoes", "random_messages", "silent_clients", "command_lines_refused", "certificates_refused", "echoed_bytes"],
                 "nontrivial": "the tool registered, transferred or had to refuse"}
CHECKS["C26"] = {"plan": [("driver", "told", "")], "relevant": ["attempts_shut", "attempts_untrusted", "attempts_hello_error", "attempts_refused", "attempts_fin", "attempts_rst", "attempts_junk", "attempts_fin_early", "proxies_introduced", "retries", "bad_urls", "attempts_no_host", "attempts_accepted", "names_looked_up"],
                 "nontrivial": "connections came about, failed, were refused or were lost and what the application was told was checked"}

ASSUMPTIONS = [
    "Peers and proxy run on one machine over loopback; Qt 5.15 and OpenSSL of this sandbox.",
    "Where time matters the proxy's clock is the harness's virtual clock; the proxy itself is single threaded.",
    "The oracle is the reference model in lib/model.py, written from the documentation and the property statements.",
]


def plan(prop, tier, scale=1.0):
    spec = CHECKS[prop]
    p = spec.get("plan_" + tier)
    if p is None:
        p = spec["plan"]
        if tier == "thorough":
            scale *= spec.get("deeper", 12)
            p = [(x[0], x[1], "deep") if x[0] == "driver" else x for x in p]
    return [(x[0], x[1], max(8, int(x[2] * scale)), x[3]) if x[0] == "trace" else x for x in p]

NOT_APPLICABLE = {}

# How each property is decided (for MANIFEST.json) and what its evidence rests on
_TRACES = "runtime monitoring: seeded random and adversarial workloads over real sockets against the real server under ASan/UBSan; an online monitor compares every byte every peer gets with a reference model"
_LIB = "runtime monitoring: the real library under ASan/UBSan against a scripted counterpart; an online monitor judges every signal, frame and state"
TECHNIQUES = {
    "C01": _TRACES + "; plus slow readers, huge bursts and message shapes",
    "C02": _TRACES + "; frames for every kind of foreign or stale address, peers which do not read",
    "C03": _TRACES + "; address table driven to its wrap around and exhaustion",
    "C04": _TRACES,
    "C05": _TRACES + "; every way to end for every role and transport",
    "C06": _TRACES + "; every way to end for every role and transport",
    "C07": _TRACES,
    "C08": _TRACES + "; parameters generated from what the real Introspect returns",
    "C09": _TRACES,
    "C10": _TRACES,
    "C11": _TRACES + "; metamorphic comparison of the same bytes cut and merged differently",
    "C12": _TRACES + "; SLIP codec driven directly and checked for round trip against an independent decoder",
    "C13": _TRACES + " with a virtual clock; limits checked from both sides; real-time runs of silent peers",
    "C14": _TRACES + "; plain text, broken and stalled TLS handshakes, everything on the wire observed",
    "C15": "runtime monitoring: hostile and mutated byte streams against the real server under ASan, UBSan and valgrind memcheck; well-behaved neighbours are watched by the reference model meanwhile",
    "C16": "runtime monitoring: connection cycles of all kinds; monitor on object, descriptor and table counts, LeakSanitizer and reference model",
    "C17": _TRACES + "; listeners blocked and freed, stop and start under load",
    "C18": "runtime monitoring: the real server process under ASan/UBSan, signals at random moments of its life; exit status, leftovers and peers' view checked",
    "C19": "runtime monitoring: monitor data (socket and real monitor program) compared with the reference model's totals",
    "C20": _LIB, "C21": _LIB, "C22": _LIB, "C23": _LIB + "; real time and virtual clock",
    "C24": "runtime monitoring: the real server process started with generated configurations; what took effect is observed from outside and compared with the expectation",
    "C25": "runtime monitoring: the real tunnel client executable under ASan/UBSan, started with generated command lines against a scripted proxy and through the real one; a monitor judges every byte it sends, its exit status and its output",
}
TECHNIQUES["C26"] = _LIB + "; every way for a connection to fail, repeatedly on the same object"
_NOTE = "Holds on the executions explored (counts in the evidence file); trusts the reference model, the sanitizers and the harness around the real code."
NOTES = {
    "C13": _NOTE + " Time limits are tested with a virtual clock inside the harness and, for the listed ones, in real time.",
    "C15": _NOTE + " Known findings: unix-listener-descriptors.",
    "C01": _NOTE + " Known finding: websocket-server-role.",
    "C16": _NOTE + " Known finding: wss-handshake-leak.",
    "C20": _NOTE + " Known finding: websocket-server-library.",
    "C18": _NOTE + " Moments of the signals are sampled, not enumerated.",
}
for _p, _c in CHECKS.items():
    _c.setdefault("technique", TECHNIQUES[_p])
    _c.setdefault("note", NOTES.get(_p, _NOTE))

#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
S = "libnymea-remoteproxy/"
C = "libnymea-remoteproxyclient/"
T = S + "tunnelproxy/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Tunnel payload is byte-exact in both directions",
 "For every established tunnel, the bytes a client sends arrive at its server inside frames carrying that client's socket address, and the payload of every frame the server sends to that address arrives at the client: byte for byte, in order, exactly once, for all byte values (the SLIP special bytes included), all payload sizes and all socket addresses. On TCP and Unix sockets this holds for arbitrary bytes, on WebSocket for text messages.",
 ["inputs", "histories", "configurations"], "all payloads, sizes, addresses, chunkings, numbers of tunnels and transports",
 "The tests push three fixed texts without special bytes through one or two tunnels with addresses 1 and 2.",
 [T+"tunnelproxyserver.cpp", T+"tunnelproxyclient.cpp", "common/slipdataprocessor.cpp", S+"server/tcpsocketserver.cpp", S+"server/unixsocketserver.cpp", S+"server/websocketserver.cpp"],
 [("frame build/escape towards the server, unescape/route towards the client", T+"tunnelproxyserver.cpp onClientDataAvailable"), ("SLIP stream splitting", T+"tunnelproxyclient.cpp processData")],
 ["bytes written to and read from each connection"])
prop("C02", "Tunnels are isolated from each other",
 "Data sent by a client reaches only the server that client registered with, and data a server addresses to one of its clients reaches only that client; no other connection receives any of it. A frame for a socket address that is not assigned on that server at that moment is discarded without any effect on any connection.",
 ["histories", "inputs"], "all interleavings of registrations, transfers, disconnects and re-registrations of many servers and clients",
 "The tests have one server at a time and never reuse, guess or mix addresses.",
 [T+"tunnelproxyserver.cpp", T+"tunnelproxyserverconnection.cpp", T+"tunnelproxyclientconnection.cpp"],
 [("address lookup per server connection", T+"tunnelproxyserverconnection.cpp getClientConnection"), ("unregistering on disconnect", T+"tunnelproxyserver.cpp onClientDisconnected")],
 ["every byte every connection receives"])
prop("C03", "Socket addresses of live clients are valid and unique",
 "Every client accepted on a server is given a socket address that is neither 0x0000 nor 0xFFFF and that no other client currently connected to that server has, no matter how many clients are connected and how many have come and gone before, also after the 16 bit address space has wrapped around.",
 ["histories"], "all histories of client arrivals and departures on a server, beyond 65536 arrivals and beyond 100 live clients",
 "The tests connect at most two clients per server.",
 [T+"tunnelproxyserverconnection.cpp"],
 [("address counter with skip of used and reserved addresses", T+"tunnelproxyserverconnection.cpp getFreeAddress")],
 ["socketAddress in the connect notifications"],
 state=[("address counter", "next address to try", T+"tunnelproxyserverconnection.h m_currentAddressCounter")])
prop("C04", "A UUID has at most one live holder",
 "At any time at most one live connection is registered under a given UUID, be it as server or as client. An attempt to register a UUID that is in use, or to register a connection a second time, is answered with the already-registered error and only the offending connection is closed: the holder of the UUID and its tunnels keep working. As soon as the holder has disconnected its UUID can be registered again.",
 ["histories"], "all histories of registrations in both roles, duplicates, cross-role duplicates and disconnects",
 "The tests try single duplicates right after one registration and do not look at the holder afterwards.",
 [T+"tunnelproxyserver.cpp"],
 [("duplicate checks before registration", T+"tunnelproxyserver.cpp registerServer, registerClient"), ("release on disconnect", T+"tunnelproxyserver.cpp onClientDisconnected")],
 ["registration responses, closed connections, traffic of the holder"])
prop("C05", "A server learns of each client's coming and going exactly once",
 "For each client that is accepted, its server receives exactly one connect notification carrying that client's name, UUID, peer address and socket address, before any data of that client. After that client's connection has ended, for whatever reason, the server receives exactly one disconnect notification with that socket address and no further data from it; refused registrations cause no notification.",
 ["histories"], "all interleavings of client registrations, data, refusals, client disconnects and server-requested disconnects",
 "The tests observe one or two clients and only the library's signals, never order, duplicates or refused attempts.",
 [T+"tunnelproxyserver.cpp", S+"server/jsonrpcserver.cpp", S+"jsonrpc/tunnelproxyhandler.cpp"],
 [("notifications on register/disconnect", T+"tunnelproxyserver.cpp registerClient, onClientDisconnected")],
 ["address 0x0000 frames of the server connection, in order with data frames"])
prop("C06", "Losing a peer ends exactly the tunnels it is part of",
 "When a server's connection ends, for whatever reason, every client tunnelled to it is disconnected, the server's UUID and those clients' UUIDs become available again, and clients naming that server are refused until it registers again. When a client's connection ends only its own tunnel ends; all other servers, clients and tunnels keep working.",
 ["histories", "fault_sequences"], "all orders of losses of servers and clients, on all transports, in the middle of transfers",
 "The tests end one server with one or two clients and check no bystander.",
 [T+"tunnelproxyserver.cpp", S+"server/tcpsocketserver.cpp", S+"server/unixsocketserver.cpp", S+"server/websocketserver.cpp"],
 [("teardown of the clients of a lost server", T+"tunnelproxyserver.cpp onClientDisconnected")],
 ["closed connections, later registrations, bystander traffic"])
prop("C07", "Every request gets exactly one matching response, in order",
 "Every complete JSON-RPC request sent on a connection that is not yet a client tunnel endpoint (a registered server sends it in frames with address 0x0000 and gets the answer in such a frame) is answered with exactly one newline-terminated JSON response that carries the request's integer id, in request order. A request that is not valid JSON, has no id, names no existing method or has invalid parameters is answered with an error response, then the connection is closed and no later request on that connection takes effect.",
 ["inputs", "histories"], "all request sequences, valid and invalid, pipelined or not, before and after server registration",
 "The tests send single requests, about ten different ones, and check id and status of the first response only.",
 [S+"server/jsonrpcserver.cpp", T+"tunnelproxyserver.cpp", T+"tunnelproxyclient.cpp"],
 [("request dispatch and responses", S+"server/jsonrpcserver.cpp processDataPacket, sendResponse, sendErrorResponse")],
 ["responses and close of the connection"])
prop("C08", "The introspected API is what is enforced and produced",
 "The API description returned by introspection is what the proxy enforces and produces: a call whose parameters lack a described one, contain one not described or contain a value that cannot be converted to the described type is refused, a call that conforms is not refused as invalid, and every success result and every notification has exactly the described fields with values of the described types.",
 ["inputs"], "all methods and notifications, all parameter maps derived from the description by dropping, adding and retyping entries",
 "The tests check only that introspection has its three sections and one unknown parameter on one method.",
 [S+"jsonrpc/jsonhandler.cpp", S+"jsonrpc/jsontypes.cpp", S+"jsonrpc/tunnelproxyhandler.cpp", S+"server/jsonrpcserver.cpp"],
 [("template validation", S+"jsonrpc/jsontypes.cpp validateMap"), ("API declarations", S+"jsonrpc/tunnelproxyhandler.cpp, "+S+"server/jsonrpcserver.cpp constructors")],
 ["introspection result, responses, notifications"])
prop("C09", "Only a successful registration makes a tunnel endpoint",
 "A registration with a null or unparsable UUID is refused with the invalid-UUID error; a client naming a server that is not registered at that moment is refused with the server-not-found error and closed; refused connections and connections that never registered neither receive tunnel data nor can they inject any. A registration with valid unused UUIDs (and, for a client, a registered server) succeeds, and from its response on the connection is the tunnel endpoint of the requested role.",
 ["inputs", "histories"], "all UUID spellings and registration histories",
 "The tests try five parameter combinations on fresh connections and never send tunnel data from refused ones.",
 [S+"jsonrpc/tunnelproxyhandler.cpp", T+"tunnelproxyserver.cpp"],
 [("UUID and server checks", S+"jsonrpc/tunnelproxyhandler.cpp RegisterServer, RegisterClient")],
 ["registration responses, traffic"])
prop("C10", "A client is disconnected on request only by its own server",
 "A disconnect request closes exactly the client that currently has the given socket address on the requesting server. Requests naming any other value (unassigned, reserved, out of the 16 bit range, belonging to another server) are answered with the unknown-socket-address error and disconnect nobody; requests from a connection that is not a registered server disconnect no client.",
 ["inputs", "histories"], "all address values and requesters in all registration states",
 "The tests issue one disconnect for the only client there is.",
 [T+"tunnelproxyserver.cpp", S+"jsonrpc/tunnelproxyhandler.cpp"],
 [("disconnectClient checks", T+"tunnelproxyserver.cpp disconnectClient")],
 ["responses and closed connections"])
prop("C11", "Chunking of the byte stream does not change behaviour",
 "How the bytes that a peer sends on a stream connection to the proxy are split or merged into network reads does not change which requests are executed, which responses and notifications are sent and which tunnel payload is delivered.",
 ["inputs", "schedules"], "all ways to cut a valid byte stream of requests or frames into reads",
 "The tests send one message per write, on an idle loopback.",
 [T+"tunnelproxyclient.cpp", S+"server/jsonrpcserver.cpp"],
 [("request and frame reassembly", T+"tunnelproxyclient.cpp processData")],
 ["outputs for the same stream under different cuts"])
prop("C12", "SLIP coding is lossless and malformed frames are contained",
 "Decoding an encoded byte string gives back that byte string, with the frame end byte only at the end of the encoding, and a frame built from address and payload parses back to both, for all values. A malformed frame or surplus end byte from a server is dropped: the well-formed frames before and after it on that connection are processed normally and no other connection is affected.",
 ["inputs"], "all byte strings, addresses and mixtures of well-formed and malformed frames",
 "The tests round-trip three strings and decode one malformed one; no test sends a malformed frame over a connection.",
 ["common/slipdataprocessor.cpp", T+"tunnelproxyclient.cpp"],
 [("codec", "common/slipdataprocessor.cpp"), ("stream splitting", T+"tunnelproxyclient.cpp processData")],
 ["codec results; traffic around malformed frames"])
prop("C13", "Unregistered, overlong and dead connections are reaped, others not",
 "A connection that has not registered within the configured inactivity time is closed, even if it keeps sending requests, and one that accumulates more than 10 KiB of incomplete request data is closed at once. A registered client is never closed for being idle; a registered server is closed only after 60 seconds without having sent anything.",
 ["histories", "configurations"], "all activity patterns over time, all configured inactivity times",
 "The tests never wait for a timeout and never send large requests.",
 [T+"tunnelproxyclient.cpp", S+"server/jsonrpcserver.cpp"],
 [("inactivity timer", T+"tunnelproxyclient.cpp"), ("buffer limit", S+"server/jsonrpcserver.cpp processData")],
 ["close of connections in virtual time"])
prop("C14", "With TLS enabled nothing is served unencrypted",
 "When TLS is enabled, the TCP and WebSocket listeners never answer, count as connected or act on data that did not arrive over an established TLS session, and a TCP connection that has not completed the TLS handshake within 5 seconds is closed. When TLS is disabled the same API is served in plain.",
 ["inputs", "configurations"], "all pre-handshake byte strings, handshake stalls and aborts, both TLS settings",
 "The tests only use well-behaved TLS clients.",
 [S+"server/tcpsocketserver.cpp", S+"server/websocketserver.cpp", S+"proxyconfiguration.cpp"],
 [("encrypted checks and handshake timer", S+"server/tcpsocketserver.cpp SslServer, SslClient")],
 ["bytes and closes seen by peers, monitor counts"])
prop("C15", "No peer behaviour crashes the proxy or corrupts memory",
 "No sequence of bytes, connects, disconnects, half-closes and resets on any of the listeners (TCP, WebSocket, Unix, monitor; plain or TLS) makes the proxy crash, hang, access invalid memory or execute undefined behaviour, and well-behaved connections are still served during and after it.",
 ["inputs", "histories", "fault_sequences"], "all hostile byte streams and connection histories",
 "The tests send only a few malformed requests and run without sanitizers.",
 [S+"server/", S+"jsonrpc/", T, S+"engine.cpp", "common/slipdataprocessor.cpp"],
 [("input validation and deferred deletion throughout", S)],
 ["AddressSanitizer/UBSan reports, exit status, probe connections"])
prop("C16", "Ended connections leave nothing behind",
 "After connections have ended, on any transport and in any registration state, the proxy holds no objects, file descriptors, counts or registrations for them any more: repeating cycles of connecting, registering, transferring and disconnecting does not increase its resource usage.",
 ["histories"], "all numbers and kinds of connect/use/disconnect cycles",
 "The tests look at no resource and run a handful of connections per process.",
 [S+"server/tcpsocketserver.cpp", S+"server/unixsocketserver.cpp", S+"server/websocketserver.cpp", S+"server/monitorserver.cpp", T+"tunnelproxyserver.cpp", S+"server/jsonrpcserver.cpp"],
 [("deletion on disconnect", S+"server/*server.cpp, "+T+"tunnelproxyserver.cpp onClientDisconnected")],
 ["live QObjects, heap bytes, descriptors after each cycle"])
prop("C17", "The proxy can be stopped and started again any number of times",
 "Stopping ends all connections and all listeners; starting again, any number of times and with any previous load, makes every listener that can bind serve requests with no memory of earlier connections. A listener that cannot bind does not keep the others from working. However quickly starts and stops follow each other, the last one counts, and the engine reports itself as running exactly if that was a start.",
 ["histories", "configurations"], "all start/stop sequences with connections in any state, all combinations of blocked listeners",
 "The tests stop an idle server, and block one port at a time without using the remaining listeners.",
 [S+"engine.cpp", S+"server/tcpsocketserver.cpp", S+"server/unixsocketserver.cpp", S+"server/websocketserver.cpp", S+"server/monitorserver.cpp"],
 [("start, stop, clean", S+"engine.cpp")],
 ["closes seen by peers, service after restart, sanitizer reports"])
prop("C18", "Termination signals end the server process cleanly",
 "On SIGTERM, SIGINT, SIGQUIT or SIGHUP, at any time and under any load, the server process closes its connections, removes its Unix sockets and exits with status 0 within a bounded time, without crashing, hanging or touching freed memory.",
 ["schedules", "crash_points"], "all moments at which the signal can arrive",
 "No test runs the server executable.",
 ["server/main.cpp", "server/remoteproxyserverapplication.cpp", S+"engine.cpp"],
 [("signal handling", "server/remoteproxyserverapplication.cpp catchUnixSignals")],
 ["exit status, sanitizer reports, socket files, peers' connections"])
prop("C19", "Monitor data is true",
 "The data given to a monitor equals what has happened: the numbers of connections, servers, clients and per-transport connections, for each listed server and client its name, UUID, address and the numbers of bytes received from and sent to it, and the number of tunnel payload bytes forwarded in the last second. Without the print-all option exactly the servers with clients are listed, with it all servers, and the command line monitor prints the same values for the same connection.",
 ["histories"], "all histories of connections and traffic at all query times",
 "The monitor test requests data once and does not look at it.",
 [S+"server/monitorserver.cpp", T+"tunnelproxyserver.cpp", S+"server/transportclient.cpp", S+"engine.cpp", "monitor/noninteractivemonitor.cpp", "monitor/monitorclient.cpp"],
 [("statistics", T+"tunnelproxyserver.cpp currentStatistics"), ("byte counters", S+"server/transportclient.cpp")],
 ["monitor socket, monitor executable output"])
prop("C20", "The server-side library mirrors its tunnels exactly",
 "An application using the server-side library sees exactly one socket object per tunnelled client, with that client's name, UUID, peer address and socket address, each payload byte for it once and in order on that object and none on others, and exactly one disconnect when the client or the proxy connection goes away. What it writes to a socket object is sent framed with that socket's address; all this however the bytes from the proxy are split or merged into reads, the registration response included.",
 ["inputs", "histories", "schedules"], "all proxy byte streams and chunkings",
 "The tests run one or two clients, one message per direction, on an idle loopback.",
 [C+"tunnelproxy/tunnelproxysocketserver.cpp", C+"tunnelproxy/tunnelproxysocket.cpp", C+"proxyjsonrpcclient.cpp", "common/slipdataprocessor.cpp"],
 [("SLIP stream parsing and socket table", C+"tunnelproxy/tunnelproxysocketserver.cpp onConnectionDataAvailable")],
 ["library signals, bytes sent to the proxy"])
prop("C21", "The client-side library is connected exactly while registered",
 "The client-side library reports a remote connection only from the proxy's successful registration response until the connection ends, and reports its end once. Everything received after that response is delivered to the application as tunnel data, once, in order and complete, and nothing received before it is; data can be sent only while remote connected and reaches the proxy complete and in order; a refused registration or error ends in the disconnected state.",
 ["inputs", "histories", "schedules"], "all proxy byte streams, chunkings, refusals and disconnect moments",
 "The tests cover one successful connection and its disconnect.",
 [C+"tunnelproxy/tunnelproxyremoteconnection.cpp", C+"proxyjsonrpcclient.cpp", C+"tcpsocketconnection.cpp", C+"websocketconnection.cpp"],
 [("state machine", C+"tunnelproxy/tunnelproxyremoteconnection.cpp")],
 ["library signals, bytes sent to the proxy"])
prop("C22", "Library replies belong to their requests",
 "In the client libraries every reply object that finishes carries the proxy's response to exactly that request, also with several requests outstanding and responses in any order, and notifications from the proxy are always delivered as notifications, whatever id they carry.",
 ["histories", "schedules"], "all interleavings of outstanding requests, responses and notifications",
 "The tests have at most one request outstanding and no notification meanwhile.",
 [C+"proxyjsonrpcclient.cpp", C+"jsonreply.cpp"],
 [("reply table keyed by request id", C+"proxyjsonrpcclient.cpp processDataPacket")],
 ["finished signals and responses of reply objects, notification signals"])
prop("C23", "A started library server stays or becomes reachable again",
 "While started, a server using the library is not closed by the proxy for inactivity, no matter whether its tunnels are idle, only receiving or only sending. After its connection is lost or could not be made it tries again and registers within one retry interval (5 seconds) of the proxy being reachable, and after being stopped it makes no further attempt.",
 ["histories", "fault_sequences"], "all traffic patterns over time, all proxy outages and stop moments",
 "No test runs for longer than a few seconds or restarts the proxy under a running library server.",
 [C+"tunnelproxy/tunnelproxysocketserver.cpp", T+"tunnelproxyclient.cpp"],
 [("keep alive and reconnect timers", C+"tunnelproxy/tunnelproxysocketserver.cpp setupTimers")],
 ["registration state at the proxy in virtual time"])
prop("C24", "The configuration file is honoured or refused",
 "Every setting in the configuration file takes effect as written (names, listen addresses, ports, socket paths, timeouts, TLS switch and certificate files, log file), settings that are absent take their documented defaults. A missing configuration file and an unreadable certificate, key or chain file make loading fail and the server executable exit with failure instead of serving.",
 ["configurations"], "all combinations of present and absent settings and unreadable files",
 "The tests load six fixed files and look only at the boolean result.",
 [S+"proxyconfiguration.cpp", S+"engine.cpp", "server/main.cpp"],
 [("loading", S+"proxyconfiguration.cpp loadConfiguration")],
 ["configuration values, listeners, exit status"])
prop("C25", "The tunnel client tool does what its command line says",
 "nymea-remoteproxy-tunnelclient connects to the proxy given with --url and registers there, as server (with --server or neither option) or as client of the server given with --server-uuid (with --client), under the name and UUID it was given, or else a default name and a fresh UUID which it prints; after a loss the server comes back with the same identity. With --random a server sends back to each client exactly the bytes that client sent, in order, and a client sends a text of 100 letters and digits about once a second while its tunnel is established; without --random neither sends anything into a tunnel. It prints when it is registered, when clients come and go, when its tunnel is established or ends, and as client without --random what it receives. Without --ignore-ssl nothing is sent over a TLS session whose certificate is not trusted. Contradictory or unusable arguments (both roles, a client without valid server UUID, an invalid URL, unknown options) make it fail with an error message and without connecting.",
 ["inputs", "histories", "configurations"], "all command lines, names, UUIDs, payloads, orders of clients coming and going, losses and refusals",
 "No test runs the tool.",
 ["tunnelclient/main.cpp", "tunnelclient/clientconnection.cpp", "tunnelclient/serverconnection.cpp"],
 [("arguments", "tunnelclient/main.cpp main"), ("echo", "tunnelclient/serverconnection.cpp"), ("random data timer", "tunnelclient/clientconnection.cpp")],
 ["bytes the tool sends, its exit status and standard output"])
prop("C26", "The libraries tell the application how their connection stands",
 "An application which uses a tunnel server socket or a remote connection of the client library learns exactly how its connection to the proxy stands, on every attempt and however earlier attempts with the same object ended: an attempt refused by the network is reported once as socket error with the reason, and is what the error getter returns; an untrusted certificate is reported once for every attempt, and unless the application accepts it the attempt fails with a handshake error, is closed and nothing has been sent; a proxy which refuses the Hello or the registration is reported once as connection error of the server object; losing the proxy is reported once as not-connected error; running respectively remote-connected is announced exactly when the registration was accepted and taken back exactly once when it ends. While registered the server object shows no error, and server, name, version and API version shown are those the proxy introduced itself with. A URL which is not valid is refused at once without any connection, its host may be an address or a name on all transports, and an unknown name is reported as such. Ignoring certificate errors while there is no connection has no effect.",
 ["histories"], "all sequences of refusals, losses, untrusted and successful attempts on one object over all transports",
 "The tests look at the first failure of a fresh object only, and never at what is reported afterwards.",
 [C+"tunnelproxy/tunnelproxysocketserver.cpp", C+"tunnelproxy/tunnelproxyremoteconnection.cpp", C+"tcpsocketconnection.cpp", C+"websocketconnection.cpp"],
 [("socket errors", C+"tunnelproxy/tunnelproxysocketserver.cpp onConnectionSocketError"), ("TLS errors", C+"tcpsocketconnection.cpp onSslErrors")],
 ["error, state and TLS signals of the library objects and their getters"])
os.chdir(os.path.dirname(os.path.abspath(__file__)))
with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

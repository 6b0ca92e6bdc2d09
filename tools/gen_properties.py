#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
M = "akasa-core/src/protocols/mqtt/"
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mechanism],
        observe_at=list(observe), hook_needed=hook)))

p("C01", "PROXY protocol v2 header is decoded exactly or refused",
  "A connection preamble is accepted as a PROXY v2 header only if signature, version, command, address family and transport, declared length, TLV framing, CRC32C checksum (when present), client-certificate verification result and TLS presence (when the listener demands it) are all valid; any other byte sequence yields an error, never a panic. "
  "On success exactly the declared header bytes are consumed from the stream, the reported source and destination are those written in the header, and a LOCAL command (sent without a payload) reports no addresses. "
  "Every valid header within the accepted size (no payload for LOCAL, at most 256 bytes of extensions after the addresses for PROXY) is accepted.",
  ["inputs", "configurations"],
  "Every byte sequence a peer can send before the MQTT bytes (any split of the stream into reads), and every proxy / tls-termination listener setting.",
  "Five sample headers are tested; the header is attacker-controlled, with a length field, nested TLVs and a checksum, so the input space is unbounded for tests.",
  ["akasa-core/src/server/proxy.rs", "akasa-core/src/server/mod.rs"],
  [("parse_header", "server/proxy.rs"), ("TLV loop, SSL sub-TLV loop, CRC32C check", "server/proxy.rs"), ("handle_accept proxy gate", "server/mod.rs")],
  [("header buffer", "16 fixed bytes, then the declared remainder", "server/proxy.rs")],
  ["bytes consumed from the stream", "addresses returned", "Ok/Err"])

p("C02", "SCRAM server authenticates exactly the holders of the password",
  "The server side of SCRAM-SHA-256 reports success for a user only if the client-final message repeats the server's full nonce and the channel-binding header of its own first message, and carries a proof derived from that user's stored password over exactly the messages exchanged, with an authorisation id equal to the user name or absent. "
  "A client that follows RFC 5802 (without extensions in its final message) with the right password and an allowed authorisation id is always accepted, whatever characters its user name contains, and the identity the server reports afterwards is that client's. "
  "A call out of order, or a message in which a field of the exchange is missing, misplaced or cannot be decoded, yields an error and never success or a panic.",
  ["inputs", "histories"],
  "Every pair of byte strings sent as first and final message, every stored password record, every user name, nonce and order of calls.",
  "Tests run one successful exchange and a few wrong ones with fixed names; the guarantee is about every forged or malformed message.",
  ["akasa-core/src/protocols/scram/server.rs", "akasa-core/src/protocols/scram/mod.rs"],
  [("decode_client_first / encode_server_first / decode_client_final", "protocols/scram/server.rs"), ("find_proofs, hash_password", "protocols/scram/mod.rs")],
  [("ScramServer", "stage of the exchange with nonces, credentials and messages", "protocols/scram/server.rs")],
  ["return value of each step", "authcid/authzid"])

p("C03", "SCRAM client accepts only a server that knows the password",
  "The client side of SCRAM-SHA-256 sends messages in the RFC 5802 form (user name escaped so that the server recovers it exactly), refuses a server-first message whose nonce does not start with its own, and reports success only when the server's signature verifies against its password and the messages exchanged. "
  "No server message makes it panic.",
  ["inputs", "histories"],
  "Every user name, password, nonce, and every byte string received as server-first and server-final message.",
  "Tests pair the client with the repository's own server once; a misbehaving server and names with reserved characters are never tried.",
  ["akasa-core/src/protocols/scram/client.rs", "akasa-core/src/protocols/scram/mod.rs"],
  [("encode_client_first / decode_server_first / decode_server_final, escape", "protocols/scram/client.rs")], (), ["messages produced", "Ok/Err of each step"])

p("C04", "Password file: only the right password is accepted, nothing is lost",
  "A login with user name and password succeeds exactly when the password file holds an entry for that user whose stored hash equals the hash of the presented password under the entry's salt and algorithm; a freshly stored password is accepted for every supported algorithm. "
  "Dumping the table and loading it back yields the same set of entries, a user name that a line cannot carry (a line feed, leading white space) being refused; loading a malformed file (a field missing, extra or undecodable, a salt under 12 bytes, a hash of the wrong length) fails instead of dropping or altering entries, blank lines are skipped and of two lines for one user the later counts.",
  ["inputs", "configurations"],
  "Every user name and password (bytes), every salt and hash algorithm, every table of entries and every file content.",
  "There are no tests for the password table at all beyond one fixed login in protocol tests.",
  [M + "auth.rs", "akasa/src/default_hook.rs"],
  [("check_password, hash_password, dump_passwords, load_passwords", M + "auth.rs"), ("before_connect", "akasa/src/default_hook.rs")],
  [("auth_passwords", "user name to hashed password record", "state.rs")], ["check_password result", "dumped text", "loaded table"])

p("C05", "In-flight queue is a bounded FIFO with correct QoS 1/2 handshakes",
  "The queue of outgoing QoS 1 and 2 messages never holds more than its configured maximum, keeps messages in the order they were added, and drops one only because the queue is full or its handshake finished. "
  "An acknowledgement changes a message's state only if the message lies within the in-flight window and the acknowledgement is the right one for its state and QoS (PUBREC then PUBCOMP for QoS 2, PUBACK for QoS 1), and changes nothing else. "
  "A message is offered for (re)sending only when it lies in the window, is not complete, and its retransmission timeout has elapsed or it has never been sent on this connection; and the first such message is always offered.",
  ["histories", "inputs", "configurations"],
  "Every sequence of queue operations, every window size, capacity and timeout (including extremes), every clock value.",
  "Integration tests drive a handful of messages through the queue; capacity, window boundaries, interleaved acknowledgements and timeouts are not enumerated.",
  [M + "pending.rs"],
  [("push_back, pubrec, complete, clean_complete, get_ready_packet, reset_last_sent", M + "pending.rs")],
  [("packets", "queue of New / Pubrec / Complete entries", M + "pending.rs")], ["return values", "queue contents"])

p("C06", "A publish reaches exactly the matching subscriptions",
  "For every history of subscribe and unsubscribe operations and every topic name, the routing table returns exactly the currently subscribed filters that match the topic under the MQTT rules (single- and multi-level wildcards, empty levels, no wildcard match of a leading '$' level), each with exactly the clients subscribed to it and their granted QoS. "
  "Unsubscribing removes only the named client's subscription and leaves no residue when the last subscriber of a filter leaves.",
  ["histories", "inputs"],
  "Every sequence of subscribe/unsubscribe operations over any clients and filters, and every topic name.",
  "Two fixed tables are tested; wildcard overlap, removal order and sharing of inner nodes give unbounded combinations.",
  [M + "route.rs"],
  [("RouteTable::get_matches, subscribe, unsubscribe", M + "route.rs"), ("RouteNode::insert/remove/get_matches", M + "route.rs")],
  [("nodes", "trie of topic levels", M + "route.rs")], ["get_matches result", "table emptiness"])

p("C07", "Shared-subscription groups deliver to exactly one current member",
  "The members of a shared-subscription group are exactly the clients that subscribed to it and have not left, whatever the order of joins, re-joins and leaves, and updating a member's QoS does not duplicate it. "
  "Whenever a group has members, selecting a receiver under any configured mode (random, hash of client id, hash of topic name) yields one current member with its granted QoS, the same one for equal hash inputs while membership is unchanged.",
  ["histories", "inputs", "configurations"],
  "Every sequence of joins and leaves, every selection number and mode.",
  "Tests use at most a few clients in one order; the swap-based removal only goes wrong for particular orders.",
  [M + "route.rs"],
  [("SharedClients::insert, remove, get_by_number, get_by_selector", M + "route.rs")],
  [("items / index", "member vector and client to position index", M + "route.rs")], ["members", "selected member"])

p("C08", "The retained table holds the last retained message of each topic",
  "For every history of retained publishes, the table holds for each topic exactly the last retained message that was not empty, an empty payload clears it, and other topics are unaffected. "
  "A new subscription's filter selects exactly the retained messages whose topic matches it under the MQTT rules, no topic whose first level starts with '$' matching a filter starting with a wildcard.",
  ["histories", "inputs"],
  "Every sequence of insert and remove operations on any topics, and every filter.",
  "Tests insert a fixed list of topics and query a few filters.",
  [M + "retain.rs"],
  [("RetainTable::insert, remove, get_matches", M + "retain.rs")],
  [("inner", "trie of topic levels with optional content", M + "retain.rs")], ["get_matches result", "return of insert/remove"])

p("C09", "Client registry: one live session per client identifier",
  "At any time each client identifier maps to at most one internal client id and back, internal ids are never shared by two identifiers, and the online count equals the number of clients currently online. "
  "When a client identifier connects again, the earlier session is handed over (or discarded after a protocol change) exactly once; after a client is removed nothing of it remains and the identifier can connect again.",
  ["histories", "schedules"],
  "Every sequence of connects, take-overs, going offline and removals over any identifiers.",
  "Tests check one take-over at a time and never the counters or the maps.",
  ["akasa-core/src/state.rs"],
  [("add_client, remove_client, offline_client, get_client_*", "state.rs")],
  [("client_id_map / client_identifier_map / clients / online_clients", "registry tables", "state.rs")], ["AddClientReceipt", "clients_count", "online_clients_count"])

p("C10", "Configured limits are sane, announced to v5 clients and used",
  "A configuration is reported valid only if every limit is usable (non-zero inflight windows and packet sizes, an ordered keep-alive range, maximum QoS at most 2, a password file when authentication is on, only supported mechanisms, SCRAM iteration counts of at least 4096, a listener), and a valid one is never refused. "
  "A v5 CONNACK announces every configured limit and capability that differs from the protocol default and none that contradicts the configuration, and the session then works with the values the client sent, the configured default where it sent none, session expiry and keep-alive being forced into the configured range and the client told so.",
  ["configurations", "inputs"],
  "Every configuration value and every CONNECT packet property combination.",
  "Tests check a few properties of the default configuration; each field crossed with each client property is not enumerated.",
  ["akasa-core/src/config.rs", M + "v5/packet/connect.rs", "docs/english/config.md"],
  [("Config::is_valid", "config.rs"), ("session_connect", M + "v5/packet/connect.rs")], (), ["is_valid", "CONNACK properties", "session limits"])

p("C11", "Hook verdicts are obeyed exactly",
  "Each hook point is consulted exactly when it is enabled, before the broker acts, and its verdict is what happens: a refused connect, publish or subscribe has no effect on any other client and is answered with the reason code of the verdict (v5), a refusing CONNACK or the end of the connection (v3), an accepted or modified one takes effect as modified, and after-actions requested by the hook are carried out once each, in order. "
  "A hook error or a disconnect verdict ends only that connection.",
  ["inputs", "histories", "configurations"],
  "Every combination of enabled hook points, every verdict a hook can return, every packet.",
  "Tests use one hook with a few verdicts.",
  ["akasa-core/src/hook.rs", "akasa-core/src/server/mod.rs", M + "online_loop.rs"],
  [("handle_request / handle_response / HookConnectCode and friends", "hook.rs"), ("online loop hook dispatch", M + "online_loop.rs")], (), ["packets written", "messages routed", "hook call log"])

p("C12", "v3: every accepted PUBLISH is delivered once and acknowledged",
  "On an MQTT 3.1/3.1.1 connection an accepted PUBLISH is handed to the router with its topic, payload, QoS and (when marked) stored as retained message, and answered with PUBACK (QoS 1) or PUBREC (QoS 2) for the same packet id; a PUBREL is answered with PUBCOMP and releases the id. "
  "A QoS 2 message is delivered exactly once however often it is re-sent before PUBREL, and every distinct one is delivered; violations of the protocol close the connection without delivery.",
  ["histories", "inputs"],
  "Every sequence of PUBLISH and PUBREL packets with any ids, dup flags and QoS levels.",
  "Tests send each QoS once in the expected order; re-sent packets in unexpected states are not tried.",
  [M + "v3/packet/publish.rs", M + "v3/message.rs"],
  [("handle_publish, handle_pubrel", M + "v3/packet/publish.rs")],
  [("qos2_pids", "ids of QoS 2 publishes not yet released", M + "v3/session.rs")], ["packets written", "messages routed"])

p("C13", "v5: every accepted PUBLISH is delivered once, under its real topic",
  "On an MQTT 5 connection an accepted PUBLISH is delivered once under the topic it names directly or through a topic alias the same connection has set before, with its properties kept, and is answered with PUBACK or PUBREC for the same packet id; a PUBREL is answered with PUBCOMP and releases the id. "
  "A topic alias of zero or above the announced maximum, an unknown alias, an unacknowledged QoS 2 count above the announced receive maximum, a QoS the server announced as unsupported, or an id reused for a different message are refused with the reason code MQTT 5 assigns, and nothing is delivered.",
  ["histories", "inputs", "configurations"],
  "Every sequence of PUBLISH and PUBREL packets with any ids, aliases, flags and payloads, and every configured limit.",
  "Tests try the alias boundary and one duplicate; histories are not enumerated.",
  [M + "v5/packet/publish.rs", M + "v5/message.rs"],
  [("handle_publish, handle_pubrel, handle_pubcomp", M + "v5/packet/publish.rs")],
  [("topic_aliases", "alias to topic of this connection", M + "v5/session.rs"), ("qos2_pids", "ids of QoS 2 publishes not yet released", M + "v5/session.rs")], ["packets written", "messages routed"])

p("C14", "SUBSCRIBE and UNSUBSCRIBE take effect exactly as acknowledged",
  "Each SUBACK and UNSUBACK carries one code per requested filter, in order, with the granted QoS never above the requested or the configured maximum, and a filter the configuration does not allow is refused. "
  "After the exchange the session's own subscription set and the routing table agree: every filter acknowledged as granted is routed to the client with that QoS, every refused or unsubscribed one is not, and nothing else changed.",
  ["histories", "inputs", "configurations"],
  "Every SUBSCRIBE/UNSUBSCRIBE packet (any number and kind of filters, repeated filters, shared filters), any history of them, every configuration.",
  "Tests subscribe to a few filters under the default configuration.",
  [M + "v3/packet/subscribe.rs", M + "v5/packet/subscribe.rs", M + "route.rs"],
  [("handle_subscribe, handle_unsubscribe", M + "v5/packet/subscribe.rs"), ("handle_subscribe, handle_unsubscribe", M + "v3/packet/subscribe.rs")],
  [("subscribes", "filters of the session", M + "v5/session.rs")], ["SUBACK/UNSUBACK", "route table", "session subscriptions"])

p("C15", "Outgoing messages respect the subscription and the client's limits",
  "A message delivered to a subscriber carries the publisher's topic and payload, QoS equal to the smaller of published and granted QoS, the retain flag and subscription identifiers its subscription calls for, and is not sent back to its publisher when no-local is set. "
  "A message whose expiry has passed is not sent, a forwarded one carries the remaining expiry, no PUBLISH larger than the client's maximum packet size is sent, and QoS 1/2 deliveries use non-zero packet ids.",
  ["inputs", "histories", "configurations"],
  "Every published message, every set of subscription options and client limits.",
  "Tests check one combination of options each.",
  [M + "v5/packet/publish.rs", M + "v3/packet/publish.rs", M + "v5/packet/common.rs", M + "v3/packet/common.rs"],
  [("send_publish, recv_publish", M + "v5/packet/publish.rs"), ("recv_publish", M + "v3/packet/publish.rs")], (), ["packets written"])

p("C16", "CONNECT establishes, resumes or discards sessions as MQTT prescribes",
  "A CONNECT is answered with CONNACK success only if authentication and all checks pass, with session-present set exactly when stored session state is resumed; a clean start discards earlier state and its subscriptions, otherwise subscriptions, unfinished deliveries and messages queued while offline survive a reconnect or take-over. "
  "A refused CONNECT leaves the broker as it was. "
  "The will message is published exactly when the connection ends without a normal DISCONNECT (after its delay, when the session outlives it), and a session whose expiry has passed is gone with all its subscriptions.",
  ["histories", "inputs", "configurations"],
  "Every CONNECT packet, every earlier history of the same client identifier, every way for the connection to end.",
  "Tests run one reconnect each; failing connects and take-overs with queued messages are not enumerated.",
  [M + "v3/packet/connect.rs", M + "v5/packet/connect.rs", M + "online_loop.rs", "akasa-core/src/state.rs"],
  [("session_connect, handle_connect, handle_disconnect", M + "v5/packet/connect.rs"), ("handle_offline, send_will", M + "v5/message.rs")],
  [("SessionState", "state handed over on reconnect", M + "v5/session.rs")], ["CONNACK", "route table", "registry", "will delivery"])

p("C17", "v5 enhanced authentication gates the connection",
  "A v5 client that asks for an authentication method gets a session only after a SCRAM exchange that verifies its password; before that no other packet has any effect, an unsupported method or failing exchange is refused with the reason code MQTT 5 assigns, and the identity given to the hook is the one authenticated. "
  "Re-authentication is not offered: an AUTH packet on an established connection ends it.",
  ["histories", "inputs"],
  "Every sequence of CONNECT and AUTH packets with any method, reason code and data.",
  "Tests run one success and a few failures.",
  [M + "v5/packet/connect.rs", "akasa-core/src/protocols/scram/server.rs"],
  [("handle_connect, handle_auth", M + "v5/packet/connect.rs")], [("scram_stage, authorizing", "progress of the exchange", M + "v5/session.rs")], ["AUTH/CONNACK/DISCONNECT packets", "session state"])

p("C18", "Outgoing topic aliases always mean the topic that was announced",
  "On a v5 connection, each topic alias the server uses on its own is between 1 and the client's topic alias maximum, and at every moment a message sent with only an alias refers to the topic most recently sent together with that alias on this connection; no two topics hold the same alias at once. "
  "No alias is used when the client allows none.",
  ["histories", "inputs", "configurations"],
  "Every sequence of outgoing topics and every topic alias maximum.",
  "Tests send a few topics below the maximum; re-use of aliases when more topics than aliases are in play is history-dependent.",
  [M + "v5/packet/publish.rs"],
  [("get_or_assign_server_topic_alias", M + "v5/packet/publish.rs")],
  [("server_topic_aliases_by_topic / by_alias", "alias tables of the connection", M + "v5/session.rs")], ["topic and alias of outgoing PUBLISH"])

p("C19", "A stalled or slow peer cannot delay other clients' deliveries",
  "While one client does not read from its connection, messages to all other clients continue to be delivered, and the memory held for the stalled client stays bounded by the configured queue sizes.",
  ["schedules", "fault_sequences"],
  "Every schedule of the connection tasks, and every pattern of blocked reads and writes.",
  "Needs adversarial schedules over many tasks and bounded channels; tests have one well-behaved schedule.",
  [M + "online_loop.rs", "akasa-core/src/server/rt.rs"],
  [("OnlineLoop::poll", M + "online_loop.rs")], (), ["deliveries to other clients"])

p("C20", "A silent client is disconnected after one and a half keep-alive periods",
  "A client that sends nothing for one and a half times its keep-alive interval is disconnected, a client that keeps sending is not, and a keep-alive of zero turns the supervision off.",
  ["schedules", "histories"],
  "Every keep-alive value and every timing of incoming packets.",
  "Real time passes; tests check one short interval.",
  [M + "common.rs", M + "online_loop.rs"],
  [("start_keep_alive_timer", M + "common.rs")], (), ["disconnection time"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

"""What decides each property: Verus units (layer A) and concrete searches on the compiled code (layer B).
hooks: source file (below akasa-core/src) -> file of harness/vx appended to the build copy as a child module;
entry: Rust path of the search function."""
MQ = "protocols/mqtt/"
HB = {"state.rs": "in_state", MQ + "route.rs": "in_routep"}  # whole-broker searches
BM = ["broker", "scen"]
PROPS = {
    "C01": dict(note="The three functions of the decoder are proved equal to a spec of the PROXY v2 format for every byte stream, setting and I/O failure; assumed: read_exact, CRC32C and UTF-8 decoding as uninterpreted functions, slice copies.", units=["c01"], hooks={"server/proxy.rs": "in_proxy"}, entry="crate::server::proxy::vx_in_proxy::run", mqtt=False,
        not_covered=["the time limit on reading the header (handle_accept)"]),
    "C06": dict(note="All functions of RouteTable, RouteNode and RouteContent are proved against a map from filter to clients and groups and the level-by-level matching rule, for every history and topic, including that no node remains without subscribers (each operation atomic: the root lock is held throughout); the group table is used through the contracts C07 discharges; assumed: hashbrown maps, string operations and mqtt_proto's split of $share filters by contract.", units=["c06"], hooks={MQ + "route.rs": "in_route_c06", "state.rs": "in_state"}, entry="crate::protocols::mqtt::route::vx_in_route_c06::run"),
    "C07": dict(note="All operations of the member table are proved against a map view with a representation invariant, for every history; assumed: hashbrown map and hasher contracts.", units=["c07"], hooks={MQ + "route.rs": "in_route_c07", "state.rs": "in_state"}, entry="crate::protocols::mqtt::route::vx_in_route_c07::run"),
    "C05": dict(note="All operations of the queue are proved against a sequence view for every state, window, capacity and timeout; assumed: VecDeque contracts and the system clock.", units=["c05"], hooks={MQ + "pending.rs": "in_pending"}, entry="crate::protocols::mqtt::pending::vx_in_pending::run"),
    "C08": dict(note="All functions of retain.rs are proved against a map from topic to message and the level-by-level matching rule, for every history and filter (each operation atomic: the root node's lock is held throughout); assumed: hashbrown map and string operations of std by contract. The decision of the handlers to store or clear is searched, not proved.", units=["c08"], hooks={MQ + "retain.rs": "in_retain"}, entry="crate::protocols::mqtt::retain::vx_in_retain::run"),
    "C04": dict(note="load_passwords, dump_passwords, check_password and hash_password are proved against the file format and the hash definition for every file, table and password, and dump-then-load is proved to be the identity; assumed: DashMap, BufRead::lines, base64, the hashes and number formatting by contract.", units=["c04"], hooks={MQ + "auth.rs": "in_auth"}, entry="crate::protocols::mqtt::auth::vx_in_auth::run"),
    "C02": dict(note="All functions of server.rs and the proof computation are proved against RFC 5802 for every message, record, user name and order of calls; assumed: base64, HMAC, SHA-256 and PBKDF2 as uninterpreted functions, string operations of std by contract.", units=["c02"], hooks={"protocols/scram/mod.rs": "in_scram"}, entry="crate::protocols::scram::vx_in_scram::server"),
    "C03": dict(note="All functions of client.rs and the proof computation are proved against RFC 5802 for every server message, name and password; assumed: base64, HMAC, SHA-256 and PBKDF2 as uninterpreted functions, string operations of std by contract.", units=["c03"], hooks={"protocols/scram/mod.rs": "in_scram"}, entry="crate::protocols::scram::vx_in_scram::client"),
    "C09": dict(note="All functions of GlobalState that touch the registry are proved under a lock invariant: every critical section starts in a state in which identifiers and internal ids correspond one to one, the three tables have the same clients and the online count is the number of clients marked online, and has to leave such a state and to honour what the other holders rely on (no id is used again or for another identifier, channels stay); nothing is changed without the lock and no message is sent while it is held. add_client gives a new id exactly when the identifier is not registered, otherwise asks the registered task once, by its protocol, and hands its answer over; remove_client leaves nothing of the client, its routes included. Assumed: parking_lot and atomics as lock and counter, DashMap as a map, 64-bit ids do not run out, flume channels and the other task's answer by contract, the routing table through C06's contracts, offline_client only called by the task that runs the client (C16). That the tasks do answer is searched, not proved.", units=["c09"], hooks=HB, mods=BM, entry="crate::vx::scen::c09"),
    "C10": dict(note="Config::is_valid is proved to accept exactly the usable configurations; session_connect, handle_connect, handle_disconnect, Session::new, max_allowed_qos and the two builders of error packets are proved, for every CONNECT, session and configuration, to announce in the CONNACK exactly the configured values (counting the protocol's defaults), to work with the client's values or the configured default, and to force session expiry and keep-alive into the configured range and say so; assumed: add_client, the keep-alive timer and the SCRAM step by contract. That the limits are enforced on later packets is proved under C13 to C15 and C18 and searched here.", units=["c10"], hooks=HB, mods=BM, entry="crate::vx::scen::c10"),
    "C11": dict(note="For v5 and v3, handle_request is proved, for every request, hook and broker state, to ask the hook first, to let the packet take effect only as the hook left it and only on its success, to answer a refusal with the code it stands for (v5) or to end the connection (v3), to ask the after-hook once with what came of it, and to hand its actions or its error on; handle_packet asks exactly when the hook point is enabled and else acts directly, apply_action carries an action out once and as given, after_connect carries out all the actions in order, and handle_online consults the connect hook before any CONNECT takes effect, the after-connect hook exactly after a success and the after-disconnect hook exactly once for each registered connection; the verdict codes are the ones of the protocol. Assumed: what the handlers do is C12 to C16; the raw pointers of LockedHookContext refer to the session asked about. That OnlineLoop::poll waits for the hook before it goes on and applies the actions it brings is searched, not proved.", units=["c11", "c11m", "c11v3m", "c11o", "c11ov3"], hooks=HB, mods=BM, entry="crate::vx::scen::c11"),
    "C12": dict(note="handle_publish, handle_puback, handle_pubrec, handle_pubrel, handle_pubcomp and send_publish of v3 are proved, for every session, packet and broker state: a PUBLISH is refused exactly on the listed grounds and then changes nothing; otherwise one whose packet id is not held is handed once to every subscription that matches its topic (one message per subscription, appended to the receiver's queue in order, one member per share group), stored or cleared as retained message when marked, and acknowledged with PUBACK or PUBREC for its id, and a held one is only acknowledged; PUBREL is answered with PUBCOMP and releases the id exactly when it is held, and the other acknowledgements act on the in-flight queue as C05 requires. Assumed: routes, share groups, retained messages and the in-flight queue through the contracts C06, C07, C08 and C05 discharge; equal hashes count as equal messages; hashbrown maps, string formatting and the counter of queued messages not overflowing.", units=["c12"], hooks=HB, mods=BM, entry="crate::vx::scen::c12"),
    "C13": dict(note="handle_publish, handle_puback, handle_pubrec, handle_pubrel, handle_pubcomp and send_publish of v5 are proved, for every session, packet, configuration and broker state: a PUBLISH is refused exactly on the listed grounds with the reason code that belongs to the ground and without any delivery; otherwise a message whose packet id is not held is handed once, under its real topic and with its properties, to exactly the clients with a subscription that wants it (each with all its filters and the largest granted QoS; one member per group, by the configured mode), stored or removed as retained message, and acknowledged with the code that says whether anybody matched; one that holds its id is acknowledged and not handed on again. Assumed: routes through C06's contracts, groups through C07's, retained messages through C08's, the in-flight queue through C05's, ahash as a function of everything but the dup flag, a random pick as an unknown function of the group. The delivery of the queued messages by the connection task is searched, not proved.", units=["c13"], hooks=HB, mods=BM, entry="crate::vx::scen::c13"),
    "C14": dict(note="handle_subscribe and handle_unsubscribe of v3 and v5 are proved, for every session, packet and configuration, to answer one code per filter in order, to grant exactly the smaller of requested and configured QoS to the filters the configuration allows, to put exactly those into the session's subscriptions and the routing table, to leave every other client's routes alone and to keep the two in agreement; assumed: the routing table as a map from filter and client to QoS (C06 proves the trie), the in-flight queue and recv_publish through the contracts C05 and C15 discharge, hashbrown maps and mqtt_proto's filter predicates by contract. Hooks and the agreement across connect, take-over and removal are searched.", units=["c14", "c14v3"], hooks=HB, mods=BM, entry="crate::vx::scen::c14"),
    "C15": dict(note="For v3 and v5, handle_normal, recv_publish and handle_pendings are proved, for every session state and message, to hand on exactly the publisher's topic, payload and properties with the smaller QoS, the retain flag and distinct identifiers of the subscriptions that still exist, never beyond the client's packet size, with the expiry reduced by the time waited and expired messages dropped, each message due in the window once and in order; assumed: the queue through the contracts C05 discharges, mqtt_proto's packets and their encoded length, hashbrown maps by contract. That a publisher with no-local is left out (send_publish) and the order of tasks are searched, not proved.", units=["c15", "c15v3"], hooks=HB, mods=BM, entry="crate::vx::scen::c15"),
    "C16": dict(note="v3 and v5 handle_connect and session_connect are proved, for every session, CONNECT and broker state, to accept only what passes all checks, to say session-present exactly when the earlier session's state is resumed (with everything that belongs to it), to remove the routes of a discarded one and to leave the broker as it was when refusing; handle_will, send_will, handle_control, handle_disconnect, build_state, handle_online, handle_offline and handle_connection are proved to publish the will once with its content and delay, to let go of every registered client exactly once and to end an expired session with its subscriptions; the operations on the registry, send_publish, the hooks, the online loop (OnlineLoop::poll) and the SCRAM step are called by contract, and the interleaving of tasks is searched, not proved.", units=["c16", "c16m", "c16v3", "c16v3m"], hooks=HB, mods=BM, entry="crate::vx::scen::c16"),
    "C17": dict(note="scram_client_first, handle_auth, SaslMechanism::from_str, session_connect, handle_connect and handle_online are proved, for every session, packet, configuration and history of packets, to establish a session for a client that named a method only after an exchange in which the machine checked the proof against the record configured for the name it heard, to answer everything else with the reason code MQTT 5 assigns, to let no packet but AUTH have an effect before, and to give the hook the name authenticated; assumed: the SCRAM machine through the contracts C02 discharges, the hooks, the will and the online loop by contract. That AUTH on an established connection ends it is searched, not proved.", units=["c17", "c17s", "c17m"], hooks=HB, mods=BM, entry="crate::vx::scen::c17"),
    "C18": dict(note="get_or_assign_server_topic_alias, recv_publish and handle_pendings are proved, for every state, to keep the session's two alias tables inverse, within the client's maximum and equal to what the packets produced so far have told the client, each packet read under that knowledge meaning the queued topic; assumed: hashbrown maps, the queue through the contracts C05 discharges, mqtt_proto's packets by contract. That a session starts with empty tables and that packets are written in the order they are produced is searched, not proved.", units=["c18"], hooks=HB, mods=BM, entry="crate::vx::scen::c18"),
}

NOT_APPLICABLE = {
    "C19": "A liveness property of many tasks over bounded channels and sockets under adversarial schedules; contracts on single calls cannot express it and Verus has no model of the tokio runtime used here.",
    "C20": "Depends on real time and on the interleaving of a timer task with the connection task (tokio::spawn of an async closure); no contract within the verifier's reach expresses elapsed time across tasks.",
}

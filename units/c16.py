"""C16: CONNECT on a v5 connection establishes, resumes or discards the session (v5/packet/connect.rs)."""
from vunit import Unit, Fn, L
import sess_common as S, conn5 as N

SPEC = r"""
pub open spec fn same_state(a: Session, b: Session) -> bool { b.server_packet_id == a.server_packet_id && b.pending_packets.packets@ == a.pending_packets.packets@ && b.qos2_pids == a.qos2_pids && b.subscribes == a.subscribes }
pub open spec fn resent<P>(a: Seq<PendingPacketStatus<P>>, b: Seq<PendingPacketStatus<P>>) -> bool { b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> reset_of(a[i], #[trigger] b[i]) }
pub open spec fn resumes(s: Session, o: SessionState) -> bool { !s.clean_start && o.session_expiry_interval > 0 && s.protocol == o.protocol }
/// the state of the earlier session goes on in this one
pub open spec fn resumed(b: Session, o: SessionState) -> bool {
    b.server_packet_id == o.server_packet_id && resent(o.pending_packets.packets@, b.pending_packets.packets@) && b.pending_packets.max_packets == o.pending_packets.max_packets && b.pending_packets.timeout == o.pending_packets.timeout
        && b.qos2_pids == o.qos2_pids && b.subscribes == o.subscribes }
pub open spec fn rest_of_world(a: GlobalState, b: GlobalState) -> bool { b.config == a.config && b.auth_passwords == a.auth_passwords }
pub open spec fn silent(a: GlobalState, b: GlobalState) -> bool { b.log == a.log && b.owes == a.owes && b.will_due == a.will_due }
/// the client is registered; what becomes of an earlier session under its identifier
pub open spec fn established(a: Session, b: Session, x: Option<ClientReceiver>, g: GlobalState, h: GlobalState) -> bool {
    b.connected && b.connected_time is Some && rest_of_world(g, h) && h.owes@ == Some(b.client_id) && h.will_due@ && h.log@ == g.log@.push(Ev::Joined { id: b.client_id }).push(Ev::Timer { id: b.client_id, keep_alive: b.keep_alive }) && match receipt(g.registry, b.client_identifier@, b.protocol) {
        None => false,
        Some(AddClientReceipt::PresentV3(_)) => false,
        Some(AddClientReceipt::New { client_id, receiver }) => b.client_id == client_id && x == Some(receiver) && same_state(a, b) && b.broadcast_packets == a.broadcast_packets && b.broadcast_packets_cnt == a.broadcast_packets_cnt && h.route_table@ == g.route_table@,
        Some(AddClientReceipt::PresentV5(o)) => b.client_id == o.client_id && x == Some(o.receiver) && b.broadcast_packets == o.broadcast_packets && b.broadcast_packets_cnt == o.broadcast_packets_cnt
            && (if resumes(b, o) { resumed(b, o) && h.route_table@ == g.route_table@ } else { same_state(a, b) && routes_gone(g.route_table@, h.route_table@, o.client_id, o.subscribes@) }),
    } }
/// the session is the one the CONNECT names
pub open spec fn same_id(p: Connect, b: Session) -> bool {
    b.protocol == p.protocol && b.clean_start == p.clean_start && b.last_will == p.last_will && b.username == p.username && (if p.client_id@.len() == 0 { b.assigned_client_id && b.client_identifier@.len() == 36 } else { b.client_identifier == p.client_id }) }
pub open spec fn refused_with(q: Packet, p: Connect, g: GlobalState) -> bool { q matches Packet::Connack(k) && !k.session_present && ground(p, g, k.reason_code) }
pub open spec fn present(s: Session, g: GlobalState) -> bool { receipt(g.registry, s.client_identifier@, s.protocol) matches Some(AddClientReceipt::PresentV5(o)) && resumes(s, o) }
/// not connected, the broker is as it was
pub open spec fn untouched(b: Session, x: Option<ClientReceiver>, y: Option<ClientReceiver>, g: GlobalState, h: GlobalState) -> bool { !b.connected && x == y && h == g }
pub open spec fn no_success(a: Seq<Packet>, b: Seq<Packet>) -> bool { b == a || (one_more(a, b) && !accepted(b.last())) }
pub open spec fn one_more(a: Seq<Packet>, b: Seq<Packet>) -> bool { b.len() == a.len() + 1 && b == a.push(b.last()) }
pub open spec fn told(a: Seq<Packet>, b: Seq<Packet>, r: IoRes<bool>, present: bool) -> bool {
    (b == a || (one_more(a, b) && (b.last() matches Packet::Connack(k) && k.reason_code is Success && k.session_present == present)))
        && (r matches Ok(v) ==> v == present && b.len() == a.len() + 1) }
"""
FRAME = ["client_disconnected", "server_disconnected", "connected", "connected_time", "client_id", "server_packet_id", "pending_packets", "qos2_pids", "subscribes", "broadcast_packets", "broadcast_packets_cnt", "session_expiry_interval"]
def fns():
    return [Fn("session_connect", ret="r", spec="""
        requires !old(session).connected, old(session).protocol is V500, old(session).pending_packets.wf(), old(global).config.max_allowed_qos <= 2
        ensures ({ let a = *old(session); let b = *final(session); let g = *old(global); let h = *final(global);
            &&& but_conn(a, b) && (!b.connected ==> b.pending_packets == a.pending_packets)
            &&& !will_ok(a.last_will, g.config) ==> untouched(b, *old(receiver), *final(receiver), g, h) && (r matches Ok(v) ==> !v) && one_more(old(conn)@, final(conn)@) && (final(conn)@.last() matches Packet::Connack(k) && will_code(a.last_will, g.config, k.reason_code) && !k.session_present)
            &&& will_ok(a.last_will, g.config) && !b.connected ==> r is Err && *final(receiver) == *old(receiver) && rest_of_world(g, h) && silent(g, h) && h.route_table == g.route_table && receipt(g.registry, a.client_identifier@, a.protocol) is None && final(conn)@ == old(conn)@
            &&& will_ok(a.last_will, g.config) && b.connected ==> established(a, b, *final(receiver), g, h) && told(old(conn)@, final(conn)@, r, present(b, g)) }),""",
        loops=[L("while", """invariant vx_i <= vx_fs@.len(), *global == (GlobalState { route_table: global.route_table, ..vx_g1 }), vx_ks == vx_fs@.map_values(|p: &TopicFilter| *p), forall|k: (TopicFilter, ClientId)| #[trigger] gone_upto(vx_g1.route_table@, global.route_table@, session.client_id, vx_ks, vx_i as int, k)
            decreases vx_fs@.len() - vx_i""", before="let ghost vx_g1 = *global; let ghost vx_ks = vx_fs@.map_values(|p: &TopicFilter| *p);",
            body_pre="let ghost vx_m0 = global.route_table@; let ghost vx_i0 = vx_i;",
            body_post="proof { lemma_gone_step(vx_g1.route_table@, vx_m0, global.route_table@, session.client_id, vx_ks, vx_i0 as int); }",
            after="proof { assert forall|k: (TopicFilter, ClientId)| #[trigger] gone1(vx_g1.route_table@, global.route_table@, session.client_id, old_state.subscribes@, k) by { assert(gone_upto(vx_g1.route_table@, global.route_table@, session.client_id, vx_ks, vx_ks.len() as int, k)); assert(vx_ks.take(vx_ks.len() as int) =~= vx_ks); if vx_ks.contains(k.0) { let i = choose|i: int| 0 <= i < vx_ks.len() && vx_ks[i] == k.0; assert(old_state.subscribes@.contains_key(vx_ks[i])); } } }")]),
        Fn("handle_connect", ret="r", spec="""
        requires !old(session).connected, !old(session).authorizing, old(session).last_will is None, packet.protocol is V500, old(session).pending_packets.wf(), old(global).config.max_allowed_qos <= 2
        ensures ({ let a = *old(session); let b = *final(session); let g = *old(global); let h = *final(global); let c = old(conn)@; let d = final(conn)@;
            &&& same_id(packet, b) || !b.connected
            &&& b.connected ==> acceptable(packet, g) && will_ok(packet.last_will, g.config) && packet.properties.auth_method is None && established(a, b, *final(receiver), g, h) && told(c, d, r, present(b, g))
            &&& !b.connected ==> *final(receiver) == *old(receiver) && no_success(c, d) && r != Ok::<bool, IoError>(true) && rest_of_world(g, h) && silent(g, h) && h.route_table == g.route_table
            &&& b.authorizing ==> !b.connected && packet.properties.auth_method is Some
            &&& !b.connected ==> b.pending_packets == a.pending_packets && (b.protocol == a.protocol || b.protocol == packet.protocol)
            &&& !b.connected && packet.properties.auth_method is None ==> h == g || receipt(g.registry, b.client_identifier@, b.protocol) is None
            &&& !b.connected && packet.properties.auth_method is Some ==> h == g
            // nothing else may refuse it
            &&& acceptable(packet, g) && will_ok(packet.last_will, g.config) && packet.properties.auth_method is None && !b.connected ==> r is Err && receipt(g.registry, b.client_identifier@, b.protocol) is None && same_id(packet, b)
            &&& !b.connected && r is Ok && packet.properties.auth_method is None ==> refused_with(d.last(), packet, g) && one_more(c, d) }),"""),
    ]
def unit():
    u = N.base("c16")
    u.frame(S.V5SESSION, "Session", "but_conn", FRAME)
    u.frame(S.V5SESSION, "Session", "but_scram", ["client_disconnected", "server_disconnected", "authorizing", "scram_stage"])
    u.raw(SPEC)
    for f in N.errors(trusted=True): u.fn(N.C, f)
    u.fn(N.CN, Fn("scram_client_first", trusted=True, ret="r", spec=N.FIRST))
    for f in fns(): u.fn(N.CN, f)
    return u

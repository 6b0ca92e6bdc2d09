"""C10: the limits a v5 client is told and the session works with (v5/packet/connect.rs, v5/packet/common.rs, v5/session.rs)."""
from vunit import Unit, Fn, L
import sess_common as S, conn5 as N, c16, c17
SPEC = r"""
pub open spec fn one_more(a: Seq<Packet>, b: Seq<Packet>) -> bool { b.len() == a.len() + 1 && b == a.push(b.last()) }
pub open spec fn clamped(k: u16, c: Config) -> u16 { if k > c.max_keep_alive { c.max_keep_alive } else if k < c.min_keep_alive { c.min_keep_alive } else { k } }
/// what the CONNACK tells the client, counting what MQTT 5 has it assume where the property is missing
pub open spec fn announces(k: Connack, a: Session, b: Session, c: Config) -> bool {
    let q = k.properties;
    &&& opt(q.receive_max, 65535u16) == c.max_inflight_server
    &&& opt(q.max_qos, QoS::Level2) == qos_of(c.max_allowed_qos) && q.max_qos != Some(QoS::Level2)
    &&& opt(q.retain_available, true) == c.retain_available
    &&& opt(q.max_packet_size, 0xffff_ffffu32) == c.max_packet_size_server
    &&& opt(q.topic_alias_max, 0u16) == c.topic_alias_max
    &&& opt(q.wildcard_subscription_available, true) == c.wildcard_subscription_available
    &&& opt(q.subscription_id_available, true) == c.subscription_id_available
    &&& opt(q.shared_subscription_available, true) == c.shared_subscription_available
    &&& opt(q.session_expiry_interval, a.session_expiry_interval) == b.session_expiry_interval
    &&& b.keep_alive == a.keep_alive && (q.server_keep_alive is None ==> !a.server_keep_alive) && (q.server_keep_alive matches Some(x) ==> x == b.keep_alive)
    &&& q.assigned_client_id == (if a.assigned_client_id { Some(a.client_identifier) } else { None }) }
/// the session has the values the client sent, the configured default where it sent none
pub open spec fn takes(p: Connect, b: Session, c: Config) -> bool {
    let q = p.properties;
    &&& b.keep_alive == clamped(p.keep_alive, c) && (b.server_keep_alive <==> b.keep_alive != p.keep_alive)
    &&& b.max_packet_size == opt(q.max_packet_size, c.max_packet_size_client) && b.receive_max == opt(q.receive_max, c.max_inflight_client)
    &&& b.topic_alias_max == opt(q.topic_alias_max, 0u16) && b.request_problem_info == opt(q.request_problem_info, true) && b.request_response_info == opt(q.request_response_info, false)
    &&& (b.assigned_client_id <==> p.client_id@.len() == 0) && b.user_properties == q.user_properties }
pub open spec fn asked(p: Connect) -> u32 { opt(p.properties.session_expiry_interval, 0u32) }
/// the limits are in force
pub open spec fn in_force(a: Session, b: Session, c: Config, g: GlobalState, h: GlobalState) -> bool {
    b.session_expiry_interval == umin(a.session_expiry_interval, c.max_session_expiry_interval) && b.pending_packets.max_inflight == b.receive_max && b.receive_max == a.receive_max && b.max_packet_size == a.max_packet_size
        && b.topic_alias_max == a.topic_alias_max && h.log@.len() > 0 && h.log@.last() == (Ev::Timer { id: b.client_id, keep_alive: b.keep_alive }) }
/// an error is explained only to a client that wants to know and can take the packet
pub open spec fn explained(r: Packet, s: Session) -> bool {
    match r { Packet::Connack(k) => k.properties.reason_string is Some ==> s.request_problem_info && (plen(r) matches Some(n) && n as u32 <= s.max_packet_size), Packet::Disconnect(k) => k.properties.reason_string is Some ==> s.request_problem_info && (plen(r) matches Some(n) && n as u32 <= s.max_packet_size), _ => true } }
#[verifier::external_body]
pub fn vx_reason<R>(r: R) -> (s: Str) { unimplemented!() }
/// reason texts are short
#[verifier::external_body]
pub fn vx_size(p: &Packet) -> (r: usize) ensures plen(*p) == Some(r as nat) { unimplemented!() }
"""
VALID = r"""
pub open spec fn usable(c: Config) -> bool {
    &&& c.max_inflight_client != 0 && c.max_inflight_server != 0 && c.max_packet_size_client != 0 && c.max_packet_size_server != 0
    &&& c.min_keep_alive <= c.max_keep_alive
    &&& c.max_allowed_qos <= 2
    &&& (c.auth.enable ==> c.auth.password_file is Some)
    &&& (forall|m: SaslMechanism| #[trigger] c.sasl_mechanisms@.contains(m) ==> m is ScramSha256)
    &&& (forall|u: Str| #[trigger] c.scram_users@.contains_key(u) ==> c.scram_users@[u].iterations >= 4096)
    &&& (c.listeners.mqtt is Some || c.listeners.mqtts is Some || c.listeners.ws is Some || c.listeners.wss is Some || c.listeners.http is Some) }
"""
BYE = """ensures ({ let a = *old(session); let b = *final(session); let v = packet.properties.session_expiry_interval;
            &&& r is Ok ==> b.session_expiry_interval == (match v { Some(n) => umin(n, old(global).config.max_session_expiry_interval), None => a.session_expiry_interval })
            &&& r is Err <==> a.session_expiry_interval == 0 && (v matches Some(n) && n > 0) }),"""
def fns():
    step = L("while", "invariant vx_i <= vx_fs@.len(), *global == (GlobalState { route_table: global.route_table, ..vx_g1 }) decreases vx_fs@.len() - vx_i", before="let ghost vx_g1 = *global;")
    return [Fn("session_connect", ret="r", spec="""
        requires !old(session).connected, old(session).protocol is V500, old(session).pending_packets.wf(), old(global).config.max_allowed_qos <= 2
        ensures ({ let a = *old(session); let b = *final(session); let g = *old(global); let h = *final(global); let c = old(conn)@; let d = final(conn)@;
            &&& h.config == g.config && but_conn(a, b) && (!b.connected ==> b.session_expiry_interval == a.session_expiry_interval && (d == c || one_more(c, d) && !accepted(d.last())))
            &&& b.connected ==> (d == c || one_more(c, d) && (d.last() matches Packet::Connack(k) && announces(k, a, b, g.config))) && (r is Ok ==> d != c) && (r is Ok ==> in_force(a, b, g.config, g, h)) }),""", loops=[step]),
        Fn("handle_connect", ret="r", spec="""
        requires !old(session).connected, !old(session).authorizing, !old(session).assigned_client_id, old(session).last_will is None, packet.protocol is V500, old(session).pending_packets.wf(), old(global).config.max_allowed_qos <= 2
        ensures ({ let a = *old(session); let b = *final(session); let g = *old(global); let h = *final(global); let c = old(conn)@; let d = final(conn)@;
            &&& h.config == g.config
            &&& b.connected || b.authorizing ==> takes(packet, b, g.config)
            &&& b.authorizing && !b.connected ==> b.session_expiry_interval == asked(packet)
            &&& b.connected && r is Ok ==> one_more(c, d) && (d.last() matches Packet::Connack(k) && announces(k, Session { session_expiry_interval: asked(packet), ..b }, b, g.config)) && in_force(Session { session_expiry_interval: asked(packet), ..b }, b, g.config, g, h)
            &&& b.connected && g.config.min_keep_alive <= g.config.max_keep_alive ==> g.config.min_keep_alive <= b.keep_alive <= g.config.max_keep_alive }),"""),
        Fn("handle_disconnect", ret="r", spec=BYE)]
def unit():
    u = N.base("c10", subs=[("Some ( Arc :: from ( reason_string . into ( ) ) )", "Some(vx_reason(reason_string))"), ("ConnackProperties { $a , .. Default :: default ( ) }", "ConnackProperties { $a, ..ConnackProperties::default() }"), ("DisconnectProperties { $a , .. Default :: default ( ) }", "DisconnectProperties { $a, ..DisconnectProperties::default() }"), (". expect ( $m ) as u32", ".vx_len32()"),
        ("rv_packet . encode_len ( ) .vx_len32()", "vx_size(&rv_packet) as u32"), ("rv_packet . encode_len ( ) . expect ( $m )", "vx_size(&rv_packet)"), ("HashMap :: new ( )", "HM::new()"),
        ("for $m in & self . sasl_mechanisms { $B }", "let vx_ms = self.sasl_mechanisms.vx_items(); let mut vx_i: usize = 0; while vx_i < vx_ms.len() { let $m = vx_ms[vx_i]; vx_i += 1; $B }"),
        ("for $m in self . sasl_mechanisms . iter ( ) { $B }", "let vx_ms = self.sasl_mechanisms.vx_items(); let mut vx_i: usize = 0; while vx_i < vx_ms.len() { let $m = vx_ms[vx_i]; vx_i += 1; $B }"),
        ("for $m in self . scram_users . values ( ) { $B }", "let vx_us = self.scram_users.vx_values(); let mut vx_j: usize = 0; while vx_j < vx_us.len() { let $m = vx_us[vx_j]; vx_j += 1; $B }"),
        ("mechanism != & SaslMechanism :: $y", "*mechanism != SaslMechanism::$y"),
    ])
    u.frame(S.V5SESSION, "Session", "but_conn", c16.FRAME)
    u.frame(S.V5SESSION, "Session", "but_scram", ["client_disconnected", "server_disconnected", "authorizing", "scram_stage"])
    u.raw(SPEC + VALID)
    for f in N.errors():
        f.spec += " explained(r, *old(session)),"
        u.fn(N.C, f)
    u.fn(N.CN, Fn("scram_client_first", trusted=True, ret="r", spec=N.FIRST))
    for f in fns(): u.fn(N.CN, f)
    u.impl(S.V5SESSION, "Session", [Fn("new", ret="r", spec="ensures !r.assigned_client_id, !r.server_keep_alive, r.request_problem_info, r.session_expiry_interval == 0, r.topic_alias_max == 0, r.receive_max == config.max_inflight_client, r.max_packet_size == config.max_packet_size_client, r.pending_packets.max_inflight == config.max_inflight_client, r.pending_packets.max_packets == config.max_in_mem_pending_messages, r.pending_packets.timeout == config.inflight_timeout,")])
    u.impl(N.CFG, "Config", [Fn("is_valid", ret="r", attrs="#[verifier::loop_isolation(false)]", spec="ensures r <==> usable(*self),", loops=[
        L("while", "invariant vx_i <= vx_ms@.len(), forall|i: int| 0 <= i < vx_i ==> *(#[trigger] vx_ms@[i]) is ScramSha256 decreases vx_ms@.len() - vx_i"),
        L("while", "invariant vx_j <= vx_us@.len(), forall|i: int| 0 <= i < vx_j ==> (#[trigger] vx_us@[i]).iterations >= 4096 decreases vx_us@.len() - vx_j")])])
    return u

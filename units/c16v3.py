"""C16, v3: CONNECT, the life of the connection, its will (v3/packet/connect.rs, v3/message.rs)."""
from vunit import Unit, Fn, L
from vstd_hm import HM
import sess_common as S, v3_out as O, conn5 as N, c16, c16m
F = "akasa-core/src/protocols/mqtt/v3/packet/connect.rs"
SUBS = [("mqtt :: v5 :: SessionState", "V5State"), ("mqtt :: v3 :: SessionState", "SessionState"),
    ("if vx_either() { match vx_control", "if vx_either() { match vx_control"),
    ("while let Ok ( ( $a , $b ) ) = receiver . normal . try_recv ( ) { $B }", "loop { match vx_try_normal(&receiver) { Ok(($a, $b)) => { $B } Err(_) => { break; } } }"),
    ("Connect :: decode_stream_with_protocol ( & mut conn , protocol ) . or ( timeout )", "vx_read_connect(&mut conn, protocol)"),
    ("for ( target_id , info ) in session . broadcast_packets . drain ( ) { $B }", "vx_broadcast(&mut session);"),
    ("_header : Header", "header: Header"), ("before_connect_hook ( & session ,", "before_connect_hook(&session,"),
]
TYPES = N.TYPES
WORLD = N.WORLD[:N.WORLD.index("pub open spec fn qos_of")].replace("AddClientReceipt::PresentV3(o) => v3_id(o), AddClientReceipt::PresentV5(o) => o.client_id", "AddClientReceipt::PresentV5(o) => v5_id(o), AddClientReceipt::PresentV3(o) => o.client_id").replace("pub uninterp spec fn v3_id(s: V3State)", "pub uninterp spec fn v5_id(s: V5State)").replace(
    "r matches Ok(AddClientReceipt::PresentV3(_)) ==> !(protocol is V500), r matches Ok(AddClientReceipt::PresentV5(o)) ==> protocol is V500 && o.pending_packets.wf()", "r matches Ok(AddClientReceipt::PresentV5(_)) ==> protocol is V500, r matches Ok(AddClientReceipt::PresentV3(o)) ==> !(protocol is V500) && o.pending_packets.wf()").replace(", properties: PublishProperties }", " }")
assert "v5_id" in WORLD and "V500 && o.p" not in WORLD and "!(protocol is V500) && o" in WORLD
GONE = N.WORLD[N.WORLD.index("pub open spec fn keeps1"):].replace("SubscriptionData", "QoS")
SPEC = r"""
pub struct Connect { pub protocol: Protocol, pub clean_session: bool, pub keep_alive: u16, pub client_id: Str, pub last_will: Option<LastWill>, pub username: Option<Str>, pub password: Option<Bytes> }
#[verifier::external_body]
pub struct V5State { x: u8 }
impl Connack { pub fn new(session_present: bool, code: ConnectReturnCode) -> (r: Connack) ensures r == (Connack { session_present, code }) { Connack { session_present, code } } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for ConnectReturnCode { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
pub open spec fn topic_ok(w: Option<LastWill>) -> bool { w matches Some(w) ==> w.topic_name@.len() > 0 && !first_is(w.topic_name@, 36u8) }
pub open spec fn password_ok(p: Connect, g: GlobalState) -> bool { g.config.auth.enable ==> p.username is Some && p.password is Some && pw_ok(g.auth_passwords, p.username->0@, p.password->0@) }
pub open spec fn id_ok(p: Connect, c: Config) -> bool { (p.protocol is V310 ==> p.client_id@.len() > 0 && !(c.check_v310_client_id_length && p.client_id@.len() > 23)) && (p.protocol is V311 && p.client_id@.len() == 0 ==> p.clean_session) }
pub open spec fn accepted(q: Packet) -> bool { q matches Packet::Connack(a) && a.code is Accepted }
pub open spec fn same_state(a: Session, b: Session) -> bool { b.server_packet_id == a.server_packet_id && b.pending_packets == a.pending_packets && b.qos2_pids == a.qos2_pids && b.subscribes == a.subscribes }
pub open spec fn resent<P>(a: Seq<PendingPacketStatus<P>>, b: Seq<PendingPacketStatus<P>>) -> bool { b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> reset_of(a[i], #[trigger] b[i]) }
pub open spec fn resumes(s: Session, o: SessionState) -> bool { !s.clean_session && !o.clean_session && s.protocol == o.protocol }
pub open spec fn resumed(b: Session, o: SessionState) -> bool {
    b.server_packet_id == o.server_packet_id && resent(o.pending_packets.packets@, b.pending_packets.packets@) && b.pending_packets.same_conf(o.pending_packets) && b.qos2_pids == o.qos2_pids && b.subscribes == o.subscribes }
pub open spec fn rest_of_world(a: GlobalState, b: GlobalState) -> bool { b.config == a.config && b.auth_passwords == a.auth_passwords }
pub open spec fn silent(a: GlobalState, b: GlobalState) -> bool { b.log == a.log && b.owes == a.owes && b.will_due == a.will_due }
pub open spec fn established(a: Session, b: Session, x: Option<ClientReceiver>, g: GlobalState, h: GlobalState) -> bool {
    b.connected && b.connected_time is Some && rest_of_world(g, h) && h.owes@ == Some(b.client_id) && h.will_due@ && h.log@ == g.log@.push(Ev::Joined { id: b.client_id }).push(Ev::Timer { id: b.client_id, keep_alive: b.keep_alive }) && match receipt(g.registry, b.client_identifier@, b.protocol) {
        None => false,
        Some(AddClientReceipt::PresentV5(_)) => false,
        Some(AddClientReceipt::New { client_id, receiver }) => b.client_id == client_id && x == Some(receiver) && same_state(a, b) && b.broadcast_packets == a.broadcast_packets && b.broadcast_packets_cnt == a.broadcast_packets_cnt && h.route_table@ == g.route_table@,
        Some(AddClientReceipt::PresentV3(o)) => b.client_id == o.client_id && x == Some(o.receiver) && b.broadcast_packets == o.broadcast_packets && b.broadcast_packets_cnt == o.broadcast_packets_cnt
            && (if resumes(b, o) { resumed(b, o) && h.route_table@ == g.route_table@ } else { same_state(a, b) && routes_gone(g.route_table@, h.route_table@, o.client_id, o.subscribes@) }),
    } }
pub open spec fn named(p: Connect, b: Session) -> bool {
    b.protocol == p.protocol && b.clean_session == p.clean_session && b.last_will == p.last_will && b.username == p.username && b.keep_alive == p.keep_alive && (if p.client_id@.len() == 0 { b.assigned_client_id && b.client_identifier@.len() == 36 } else { b.client_identifier == p.client_id }) }
pub open spec fn present(s: Session, g: GlobalState) -> bool { receipt(g.registry, s.client_identifier@, s.protocol) matches Some(AddClientReceipt::PresentV3(o)) && resumes(s, o) }
pub open spec fn one_more(a: Seq<Packet>, b: Seq<Packet>) -> bool { b.len() == a.len() + 1 && b == a.push(b.last()) }
pub open spec fn no_success(a: Seq<Packet>, b: Seq<Packet>) -> bool { b == a || (one_more(a, b) && !accepted(b.last())) }
pub open spec fn told(a: Seq<Packet>, b: Seq<Packet>, r: IoRes<bool>, present: bool) -> bool {
    (b == a || (one_more(a, b) && b.last() == Packet::Connack(Connack { session_present: present, code: ConnectReturnCode::Accepted }))) && (r matches Ok(v) ==> v == present && b.len() == a.len() + 1) }
pub open spec fn why(p: Connect, g: GlobalState, q: Packet) -> bool { q matches Packet::Connack(k) && !k.session_present && match k.code { ConnectReturnCode::IdentifierRejected => !id_ok(p, g.config), ConnectReturnCode::BadUserNameOrPassword => !password_ok(p, g), _ => false } }
"""
def step(after): return L("while", """invariant vx_i <= vx_fs@.len(), *global == (GlobalState { route_table: global.route_table, ..vx_g1 }), vx_ks == vx_fs@.map_values(|p: &TopicFilter| *p), forall|k: (TopicFilter, ClientId)| #[trigger] gone_upto(vx_g1.route_table@, global.route_table@, session.client_id, vx_ks, vx_i as int, k)
            decreases vx_fs@.len() - vx_i""", before="let ghost vx_g1 = *global; let ghost vx_ks = vx_fs@.map_values(|p: &TopicFilter| *p);",
            body_pre="let ghost vx_m0 = global.route_table@; let ghost vx_i0 = vx_i;",
            body_post="proof { lemma_gone_step(vx_g1.route_table@, vx_m0, global.route_table@, session.client_id, vx_ks, vx_i0 as int); }", after=after)
def connect(**k): return Fn("handle_connect", ret="r", spec="""
        requires !old(session).connected, old(session).last_will is None, !(packet.protocol is V500), old(session).pending_packets.wf()
        ensures ({ let a = *old(session); let b = *final(session); let g = *old(global); let h = *final(global); let c = old(conn)@; let d = final(conn)@; let ok = password_ok(packet, g) && id_ok(packet, g.config) && topic_ok(packet.last_will);
            &&& b.connected ==> ok && named(packet, b) && established(a, b, *final(receiver), g, h) && told(c, d, r, present(b, g)) && b.disconnected == a.disconnected
            &&& !b.connected ==> *final(receiver) == *old(receiver) && no_success(c, d) && r != Ok::<bool, IoError>(true) && rest_of_world(g, h) && silent(g, h) && h.route_table == g.route_table
            &&& !b.connected ==> h == g || receipt(g.registry, b.client_identifier@, b.protocol) is None
            &&& ok && !b.connected ==> r is Err && named(packet, b) && receipt(g.registry, b.client_identifier@, b.protocol) is None
            &&& !b.connected && r is Ok ==> one_more(c, d) && why(packet, g, d.last()) }),""", loops=[] if k else [step(c16.fns()[0].loops[0].after)], **k)
def base(name):
    u = Unit(name, flags=S.FLAGS, uses="use std::collections::VecDeque;\nuse std::cmp;\nuse vstd::std_specs::cmp::*;\n", subs=SUBS + [x for x in N.SUBS if x[0].startswith("for $f")] + c16m.SUBS + S.IOSUBS + S.SUBS + N.SUBS + O.SUBS)
    S.pending(u)
    t = N.TYPES.replace("#[verifier::external_body]\npub struct BroadcastPackets { x: u8 }\n", "").replace("#[verifier::external_body]\npub struct V3State { x: u8 }\n", "")
    t = t[:t.index("pub struct Connect {")] + "impl Clone for LastWill { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\n"
    u.raw("pub type TopicFilter = Str;\n" + S.CID + HM + S.HMX + S.STR + S.OPAQUE + S.PIDS + O.TYPES + S.IO + t)
    N.config(u)
    u.item(O.SESSION, "PubPacket"); u.item(O.SESSION, "SessionState"); u.item(O.SESSION, "Session"); u.item(N.ST, "AddClientReceipt"); u.item(N.ST, "ControlMessage"); u.item("akasa-core/src/protocols/mqtt/retain.rs", "RetainContent")
    u.raw(S.WORLD + WORLD + GONE + SPEC)
    return u
def unit():
    u = base("c16v3")
    u.fn(F, connect())
    return u

W = c16m.WORLD.replace("pub struct ErrorV5", "pub struct ErrorV5").replace("h: Header, p: Protocol) -> (r: Result<Connect, ErrorV5>)", "p: Protocol) -> (r: Result<Connect, Error>)").replace("Result<Packet, ErrorV5>", "Result<Packet, Error>").replace("Result<(), IoError>", "Result<(), IoError>")
W = W[:W.index("pub enum ErrorV5")] + W[W.index("impl Error {"):W.index("impl ErrorV5")] + W[W.index("pub struct Duration"):W.index("/// its timer is running")] + "pub fn vx_swap<T>" + W[W.index("pub fn vx_swap<T>") + 17:]
W = W.replace("final(g).will_due == old(g).will_due, final(g).owes@ == (if", "final(g).will_due@ == (old(g).will_due@ && !final(s).disconnected), final(g).owes@ == (if").replace("Map<TopicFilter, SubscriptionData>", "Map<TopicFilter, QoS>")
# v5 tasks post the timer messages, each to its own client; ids are not used again (C09)
W = W.replace("pub fn vx_control(r: &ClientReceiver) -> Result<ControlMessage, IoError>", "pub fn vx_control(r: &ClientReceiver) -> (q: Result<ControlMessage, IoError>) ensures q matches Ok(m) ==> !timer_msg(m)") + """
pub open spec fn timer_msg(m: ControlMessage) -> bool { m is WillDelayReached || m is SessionExpired }
pub fn vx_try_normal(r: &ClientReceiver) -> Result<(ClientId, NormalMessage), IoError> { vx_normal(r) }
pub uninterp spec fn plen(p: Packet) -> Option<nat>;
impl PidW { #[verifier::external_body] pub fn default() -> (r: PidW) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_offline_task(s: Session, r: ClientReceiver, g: &mut GlobalState) requires !s.connected, !(old(g).owes@ == Some(s.client_id)) ensures going_on(*old(g), *final(g)) { unimplemented!() }
pub open spec fn is_will(e: Ev, w: LastWill) -> bool { e matches Ev::Published { qos, retain, topic, payload } && qos == w.qos && retain == w.retain && topic == w.topic_name && payload == w.message }
pub open spec fn too_large(w: LastWill) -> bool { exists|p: Publish| p.topic_name == w.topic_name && p.payload == w.message && p.qos_pid.q() == w.qos && !p.retain && !p.dup && #[trigger] plen(Packet::Publish(p)) is None }
pub open spec fn will_sent(a: Session, b: Session, g: GlobalState, h: GlobalState) -> bool {
    match a.last_will {
        None => b == a && h == g,
        Some(w) => b.last_will is None && but_will(a, b) && (h == g && too_large(w) || h.log@.len() == g.log@.len() + 1 && said(g, h, h.log@.last()) && is_will(h.log@.last(), w)) } }
pub open spec fn ended(e: Ev, id: ClientId) -> bool { e == (Ev::Removed { id }) || e == (Ev::Handed { id }) }
pub open spec fn fresh(s: Session, c: Config) -> bool {
    !s.connected && !s.disconnected && s.protocol is V311 && s.connected_time is None && s.pending_packets.wf() && s.pending_packets.packets@.len() == 0 && s.qos2_pids@ == Map::<Pid, u64>::empty()
        && s.subscribes@ == Map::<TopicFilter, QoS>::empty() && s.last_will is None && s.broadcast_packets@ == Map::<ClientId, BroadcastPackets>::empty() && s.broadcast_packets_cnt == 0 }
pub open spec fn handed_over(a: Session, b: Session, r: SessionState) -> bool {
    r.client_id == a.client_id && r.clean_session == a.clean_session && r.protocol == a.protocol && r.server_packet_id == a.server_packet_id && r.pending_packets == a.pending_packets && r.qos2_pids == a.qos2_pids && r.subscribes == a.subscribes && r.broadcast_packets == a.broadcast_packets && r.broadcast_packets_cnt == a.broadcast_packets_cnt && b.client_id == a.client_id }
"""
def message():
    u = base("c16v3m")
    u.raw("impl Clone for SocketAddr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\nimpl Copy for SocketAddr {}")
    u.frame(O.SESSION, "Session", "but_will", ["last_will", "broadcast_packets", "broadcast_packets_cnt"])
    u.frame(O.SESSION, "Session", "but_bcast", ["broadcast_packets", "broadcast_packets_cnt"])
    u.frame(O.SESSION, "Session", "but_bye", ["last_will", "disconnected"])
    u.item(O.P, "SendPublish"); u.item(N.ST, "NormalMessage")
    u.raw(W)
    u.fn(O.P, Fn("send_publish", trusted=True, ret="r", spec="""ensures but_bcast(*old(session), *final(session)), said(*old(global), *final(global), Ev::Published { qos: msg.qos, retain: msg.retain, topic: *msg.topic_name, payload: *msg.payload }),"""))
    u.fn(O.M, Fn("handle_will", ret="r", pre="global.will_due = Ghost(false);", spec="""ensures !final(global).will_due@, will_sent(*old(session), *final(session), GlobalState { will_due: final(global).will_due, ..*old(global) }, *final(global)),
        r is Err ==> (old(session).last_will matches Some(w) && too_large(w)) && final(global).log == old(global).log, old(session).last_will is Some && r is Ok ==> final(global).log@.len() == old(global).log@.len() + 1,"""))
    u.fn(O.M, Fn("handle_control", ret="r", subs=[("vx_panic ( ) ;", "vx_unreachable();"), ("unreachable ! ( ) ;", "vx_unreachable();")], spec="""requires !timer_msg(msg)
        ensures *final(session) == *old(session), match msg { ControlMessage::OnlineV3 { sender } => !r.0 && r.1 == Some(sender), ControlMessage::Kick { .. } => r.0 == !offline && r.1 is None, _ => !r.0 && r.1 is None },"""))
    u.fn(F, Fn("handle_disconnect", spec="ensures final(session).last_will is None, final(session).disconnected, but_bye(*old(session), *final(session)),"))
    u.fn(F, connect(trusted=True))
    u.impl(O.SESSION, "Session", [Fn("new", ret="r", spec="ensures fresh(r, *config)")])
    u.impl(O.M, "<OnlineSession>Session", [Fn("build_state", ret="r", spec="ensures handed_over(*old(self), *final(self), r), r.receiver == receiver,")], header="impl Session")
    for n in ("handle_normal",): u.fn(O.M, Fn(n, trusted=True, ret="r", spec="ensures same_client(*old(session), *final(session)), final(session).last_will == old(session).last_will,"))
    u.fn(O.M, Fn("handle_offline", attrs="#[verifier::exec_allows_no_decreases_clause]", subs=[("& global", "global")], spec="""
        requires !session.connected, old(global).owes@ != Some(session.client_id)
        ensures going_on(*old(global), *final(global)), final(global).log@.len() > 0, ended(final(global).log@.last(), session.client_id),""",
        pre="let ghost vx_id = session.client_id; let ghost vx_g = *global;",
        loops=[L("loop", """invariant_except_break !taken_over, !session.connected, session.client_id == vx_id invariant session.client_id == vx_id, going_on(vx_g, *global), vx_g.owes@ != Some(vx_id)
            ensures session.client_id == vx_id, going_on(vx_g, *global), vx_g.owes@ != Some(vx_id), taken_over ==> global.log@.len() > 0 && ended(global.log@.last(), vx_id)"""),
            L("loop", "invariant session.client_id == vx_id, going_on(vx_g, *global), vx_g.owes@ != Some(vx_id), !taken_over")]))
    g = "same_client(*old(session), *final(session)), final(session).last_will == old(session).last_will, going_on(*old(global), *final(global)), final(session).disconnected == old(session).disconnected,"
    u.fn(O.M, Fn("before_connect_hook", trusted=True, ret="r", spec="ensures *final(global) == *old(global), r is Ok ==> final(conn)@ == old(conn)@, r is Err ==> no_success(old(conn)@, final(conn)@),"))
    u.fn(O.M, Fn("after_connect", trusted=True, ret="r", spec="ensures " + g))
    u.fn(O.M, Fn("after_disconnect_hook", trusted=True, ret="r", spec="ensures " + g))
    u.fn(O.M, Fn("handle_online", ret="r", attrs="#[verifier::loop_isolation(false)]", spec="""
        requires !(protocol is V500), old(global).owes@ is None, !old(global).will_due@
        ensures ({ let g = *old(global); let h = *final(global);
            &&& h.config == g.config && !h.will_due@ && h.owes@ is None
            &&& r matches Ok(Some(p)) ==> !p.0.connected && p.0.connected_time is Some && !p.0.clean_session && h.log@.len() > 0 && h.log@.last() == (Ev::Offline { id: p.0.client_id }) }),"""))
    u.fn(O.M, Fn("handle_connection", ret="r", subs=[("& global", "global")], spec="""
        requires !(protocol is V500), old(global).owes@ is None, !old(global).will_due@
        ensures final(global).config == old(global).config, final(global).owes@ is None, !final(global).will_due@,"""))
    return u

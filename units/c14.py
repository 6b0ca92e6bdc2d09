"""C14: SUBSCRIBE and UNSUBSCRIBE on a v5 session (v5/packet/subscribe.rs)."""
from vunit import Unit, Fn, L
from vstd_hm import HM
import sess_common as S, v5_out as O
F = "akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs"

def unit():
    u = Unit("c14", flags=S.FLAGS, uses="use std::collections::VecDeque;\nuse std::cmp;\nuse vstd::std_specs::cmp::*;\n", subs=S.WORLDSUBS + S.SUBS + S.V5SUBS)
    S.pending(u)
    u.raw("pub type TopicFilter = Str;\n" + S.CID + HM + S.HMX + S.STR + S.OPAQUE + S.PIDS + S.v5types() + S.V5FNS + """
#[verifier::external_body]
pub struct BroadcastPackets { x: u8 }
""")
    u.item(S.V5SESSION, "SubscriptionData"); u.item(S.V5SESSION, "PubPacket"); u.item(S.V5SESSION, "Session")
    u.item(O.P, "SubscriptionIds"); u.item(O.P, "RecvPublish"); u.item("akasa-core/src/protocols/mqtt/retain.rs", "RetainContent")
    O.frames(u, S.V5SESSION)
    u.frame(S.V5SESSION, "Session", "but_subs", O.ALIASES + ["server_packet_id", "pending_packets", "subscribes"])
    u.frame(S.V5SESSION, "Session", "but_only_subs", ["subscribes"])
    u.raw(O.SPEC + S.WORLD + """
pub struct Config { pub retain_available: bool, pub subscription_id_available: bool, pub shared_subscription_available: bool, pub wildcard_subscription_available: bool, pub max_allowed_qos: u8 }
pub open spec fn qos_of(n: u8) -> QoS { if n == 0 { QoS::Level0 } else if n == 1 { QoS::Level1 } else { QoS::Level2 } }
impl Config { #[verifier::external_body] pub fn max_allowed_qos(&self) -> (r: QoS) requires self.max_allowed_qos <= 2 ensures r == qos_of(self.max_allowed_qos) { unimplemented!() } }
pub struct RetainTable { pub x: u8 }
impl RetainTable { #[verifier::external_body] pub fn get_matches(&self, f: &TopicFilter) -> (r: Vec<RetainContent>)
    // send_publish stores them without an alias
    ensures forall|i: int| 0 <= i < r@.len() ==> ((#[trigger] r@[i]).properties matches Some(p) ==> p.topic_alias is None) { unimplemented!() } }
pub struct GlobalState { pub config: Config, pub route_table: RouteTable, pub retain_table: RetainTable }
#[verifier::external_body]
pub fn vx_vec(x: SubscribeReasonCode, n: usize) -> (r: Vec<SubscribeReasonCode>) ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }
impl SubscribeReasonCode { #[verifier::external_body] pub fn vx_byte(self) -> (r: u8) ensures (r < 0x80) == granted(self) { unimplemented!() } }
pub open spec fn granted(c: SubscribeReasonCode) -> bool { c is GrantedQoS0 || c is GrantedQoS1 || c is GrantedQoS2 }
/// the QoS an acknowledged filter gets
pub open spec fn gq(c: Config, o: SubscriptionOptions) -> QoS { qmin(o.max_qos, qos_of(c.max_allowed_qos)) }
/// the code that belongs to one requested filter
pub open spec fn code(c: Config, p: Subscribe, i: int) -> SubscribeReasonCode {
    let f = p.topics@[i].0; let q = gq(c, p.topics@[i].1);
    if !c.subscription_id_available && p.properties.subscription_id is Some { SubscribeReasonCode::SubscriptionIdentifiersNotSupported }
    else if !c.shared_subscription_available && is_shared(f@) { SubscribeReasonCode::SharedSubscriptionNotSupported }
    else if !c.wildcard_subscription_available && has_wildcard(f@) { SubscribeReasonCode::WildcardSubscriptionsNotSupported }
    else { match q { QoS::Level0 => SubscribeReasonCode::GrantedQoS0, QoS::Level1 => SubscribeReasonCode::GrantedQoS1, QoS::Level2 => SubscribeReasonCode::GrantedQoS2 } } }
pub open spec fn sub_of(c: Config, p: Subscribe, i: int) -> SubscriptionData { SubscriptionData { options: SubscriptionOptions { max_qos: gq(c, p.topics@[i].1), ..p.topics@[i].1 }, id: p.properties.subscription_id } }
pub open spec fn subs_after(c: Config, p: Subscribe, m: Map<TopicFilter, SubscriptionData>, n: int) -> Map<TopicFilter, SubscriptionData> decreases n {
    if n <= 0 { m } else { let a = subs_after(c, p, m, n - 1); if granted(code(c, p, n - 1)) { a.insert(p.topics@[n - 1].0, sub_of(c, p, n - 1)) } else { a } } }
pub open spec fn routes_after(c: Config, p: Subscribe, id: ClientId, m: Map<(TopicFilter, ClientId), QoS>, n: int) -> Map<(TopicFilter, ClientId), QoS> decreases n {
    if n <= 0 { m } else { let a = routes_after(c, p, id, m, n - 1); if granted(code(c, p, n - 1)) { a.insert((p.topics@[n - 1].0, id), gq(c, p.topics@[n - 1].1)) } else { a } } }
/// the session's own subscriptions are exactly the routes to it
pub open spec fn agree(s: Session, g: GlobalState) -> bool {
    forall|f: TopicFilter| #![trigger s.subscribes@.contains_key(f)] #![trigger g.route_table@.contains_key((f, s.client_id))] (s.subscribes@.contains_key(f) <==> g.route_table@.contains_key((f, s.client_id)))
        && (s.subscribes@.contains_key(f) ==> s.subscribes@[f].options.max_qos == g.route_table@[(f, s.client_id)]) }
pub open spec fn ucode(m: Map<TopicFilter, SubscriptionData>, p: Unsubscribe, i: int) -> UnsubscribeReasonCode {
    if subs_without(m, p, i).contains_key(p.topics@[i]) { UnsubscribeReasonCode::Success } else { UnsubscribeReasonCode::NoSubscriptionExisted } }
pub open spec fn subs_without(m: Map<TopicFilter, SubscriptionData>, p: Unsubscribe, n: int) -> Map<TopicFilter, SubscriptionData> decreases n { if n <= 0 { m } else { subs_without(m, p, n - 1).remove(p.topics@[n - 1]) } }
pub open spec fn routes_without(m: Map<(TopicFilter, ClientId), QoS>, p: Unsubscribe, id: ClientId, n: int) -> Map<(TopicFilter, ClientId), QoS> decreases n { if n <= 0 { m } else { routes_without(m, p, id, n - 1).remove((p.topics@[n - 1], id)) } }
""")
    u.raw("""
#[verifier::external_body]
pub fn vx_sid(o: Option<VarByteInt>) -> (r: Option<u32>) ensures r == (match o { None => None, Some(x) => Some(x.0) }) { unimplemented!() }
pub proof fn lemma_refused(c: Config, p: Subscribe, m: Map<TopicFilter, SubscriptionData>, id: ClientId, t: Map<(TopicFilter, ClientId), QoS>, n: int)
    requires !c.subscription_id_available, p.properties.subscription_id is Some ensures subs_after(c, p, m, n) == m, routes_after(c, p, id, t, n) == t decreases n
{ if n > 0 { lemma_refused(c, p, m, id, t, n - 1); } }
""")
    u.raw("""
pub open spec fn others(a: Map<(TopicFilter, ClientId), QoS>, b: Map<(TopicFilter, ClientId), QoS>, id: ClientId) -> bool {
    forall|k: (TopicFilter, ClientId)| k.1 != id ==> #[trigger] keeps1(a, b, k) }
pub open spec fn keeps1(a: Map<(TopicFilter, ClientId), QoS>, b: Map<(TopicFilter, ClientId), QoS>, k: (TopicFilter, ClientId)) -> bool { (b.contains_key(k) <==> a.contains_key(k)) && (a.contains_key(k) ==> b[k] == a[k]) }
pub proof fn lemma_one(c: Config, p: Subscribe, id: ClientId, t: Map<(TopicFilter, ClientId), QoS>, n: int, k: (TopicFilter, ClientId)) requires k.1 != id ensures keeps1(t, routes_after(c, p, id, t, n), k) decreases n
{ if n > 0 { lemma_one(c, p, id, t, n - 1, k); let x = (p.topics@[n - 1].0, id); assert(x != k); } }
pub proof fn lemma_one_un(p: Unsubscribe, id: ClientId, t: Map<(TopicFilter, ClientId), QoS>, n: int, k: (TopicFilter, ClientId)) requires k.1 != id ensures keeps1(t, routes_without(t, p, id, n), k) decreases n
{ if n > 0 { lemma_one_un(p, id, t, n - 1, k); let x = (p.topics@[n - 1], id); assert(x != k); } }
pub proof fn lemma_others(c: Config, p: Subscribe, id: ClientId, t: Map<(TopicFilter, ClientId), QoS>, n: int) ensures others(t, routes_after(c, p, id, t, n), id)
{ assert forall|k: (TopicFilter, ClientId)| k.1 != id implies #[trigger] keeps1(t, routes_after(c, p, id, t, n), k) by { lemma_one(c, p, id, t, n, k); } }
pub proof fn lemma_others_un(p: Unsubscribe, id: ClientId, t: Map<(TopicFilter, ClientId), QoS>, n: int) ensures others(t, routes_without(t, p, id, n), id)
{ assert forall|k: (TopicFilter, ClientId)| k.1 != id implies #[trigger] keeps1(t, routes_without(t, p, id, n), k) by { lemma_one_un(p, id, t, n, k); } }
""")
    u.fn(O.C, Fn("build_error_disconnect", trusted=True, ret="r", sig_subs=[("build_error_disconnect < 'a , R : Into < Cow < 'a , str >> >", "build_error_disconnect<'a, R>")],
        spec="ensures *final(session) == *old(session), r matches Packet::Disconnect(d) && d.reason_code == reason_code,"))
    u.fn(O.P, O.recv_publish(trusted=True))
    u.fn(O.C, O.handle_pendings(trusted=True))
    u.impl(S.V5SESSION, "SubscriptionData", [Fn("new", ret="r", spec="ensures r == (SubscriptionData { options, id }),")])
    frame = "old(global).config.max_allowed_qos <= 2, but_subs(*old(session), *session), session.pending_packets.wf(), global.config == old(global).config, global.retain_table == old(global).retain_table, agree(*old(session), *old(global)) ==> agree(*session, *global)"
    u.fn(F, Fn("handle_subscribe", ret="r", spec="""
        requires old(session).pending_packets.wf(), old(global).config.max_allowed_qos <= 2
        ensures final(session).pending_packets.wf(), but_subs(*old(session), *final(session)), final(global).config == old(global).config, final(global).retain_table == old(global).retain_table,
            agree(*old(session), *old(global)) ==> agree(*final(session), *final(global)), others(old(global).route_table@, final(global).route_table@, old(session).client_id),
            r is Err <==> (packet.properties.subscription_id matches Some(id) && id.0 == 0),
            match r {
                Err(p) => *final(session) == *old(session) && final(global).route_table@ == old(global).route_table@ && (p matches Packet::Disconnect(d) && d.reason_code is ProtocolError),
                Ok(v) => ({ let n = packet.topics@.len(); let c = old(global).config;
                    &&& v@.len() > 0 && only_deliveries(v@.drop_last())
                    &&& v@.last() matches Packet::Suback(a) && a.pid == packet.pid && dflt_SubackProperties(a.properties) && a.topics@ =~= Seq::new(n, |i: int| code(c, *packet, i))
                    &&& final(session).subscribes@ == subs_after(c, *packet, old(session).subscribes@, n as int)
                    &&& final(global).route_table@ == routes_after(c, *packet, old(session).client_id, old(global).route_table@, n as int) }) },""",
        pre="let ghost vx_c = global.config; let ghost vx_m = session.subscribes@; let ghost vx_t = global.route_table@; let ghost vx_id = session.client_id;",
        post="let ghost vx_g = vx_tail; proof { lemma_others(vx_c, *packet, vx_id, vx_t, packet.topics@.len() as int); if !vx_c.subscription_id_available && packet.properties.subscription_id is Some { lemma_refused(vx_c, *packet, vx_m, vx_id, vx_t, packet.topics@.len() as int); } match vx_g { Ok(v) => { match v@.last() { Packet::Suback(a) => { assert(a.topics@ =~= Seq::new(packet.topics@.len(), |i: int| code(vx_c, *packet, i))); }, _ => {} } }, _ => {} } }",
        loops=[L("for", "invariant " + frame + """, old(global).config.subscription_id_available || packet.properties.subscription_id is None, only_deliveries(rv_packets@),
                items@ =~= Seq::new(vx_it.index@ as nat, |i: int| code(old(global).config, *packet, i)), properties == packet.properties,
                session.subscribes@ == subs_after(old(global).config, *packet, old(session).subscribes@, vx_it.index@ as int),
                global.route_table@ == routes_after(old(global).config, *packet, old(session).client_id, old(global).route_table@, vx_it.index@ as int)""", iter="vx_it"),
            L("while", """invariant vx_i <= vx_v@.len(), forall|i: int| 0 <= i < vx_v@.len() ==> ((#[trigger] vx_v@[i]).properties matches Some(p) ==> p.topic_alias is None), but_subs(vx_s1, *session), session.subscribes == vx_s1.subscribes, session.pending_packets.wf(), only_deliveries(rv_packets@), *global == vx_g1 decreases vx_v@.len() - vx_i""", before="let ghost vx_s1 = *session; let ghost vx_g1 = *global;")]))
    u.fn(F, Fn("handle_unsubscribe", ret="r", spec="""
        ensures but_only_subs(*old(session), *final(session)), final(global).config == old(global).config, final(global).retain_table == old(global).retain_table,
            agree(*old(session), *old(global)) ==> agree(*final(session), *final(global)), others(old(global).route_table@, final(global).route_table@, old(session).client_id),
            r matches Packet::Unsuback(a) && a.pid == packet.pid && dflt_UnsubackProperties(a.properties) && a.topics@ =~= Seq::new(packet.topics@.len(), |i: int| ucode(old(session).subscribes@, *packet, i)),
            final(session).subscribes@ == subs_without(old(session).subscribes@, *packet, packet.topics@.len() as int),
            final(global).route_table@ == routes_without(old(global).route_table@, *packet, old(session).client_id, packet.topics@.len() as int),""",
        pre="let ghost vx_t = global.route_table@; let ghost vx_id = session.client_id;", post="proof { lemma_others_un(*packet, vx_id, vx_t, packet.topics@.len() as int); }",
        loops=[L("for", """invariant but_only_subs(*old(session), *session), global.config == old(global).config, global.retain_table == old(global).retain_table, agree(*old(session), *old(global)) ==> agree(*session, *global), 
            reason_codes@ =~= Seq::new(vx_it.index@ as nat, |i: int| ucode(old(session).subscribes@, *packet, i)),
            session.subscribes@ == subs_without(old(session).subscribes@, *packet, vx_it.index@ as int), global.route_table@ == routes_without(old(global).route_table@, *packet, old(session).client_id, vx_it.index@ as int)""", iter="vx_it")]))
    return u

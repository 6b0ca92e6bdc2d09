"""C14, v3: SUBSCRIBE and UNSUBSCRIBE on a v3 session (v3/packet/subscribe.rs)."""
from vunit import Unit, Fn, L
from vstd_hm import HM
import sess_common as S, v3_out as O
F = "akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs"

def unit():
    u = Unit("c14v3", flags=S.FLAGS, uses="use std::collections::VecDeque;\nuse std::cmp;\nuse vstd::std_specs::cmp::*;\n", subs=S.WORLDSUBS + S.IOSUBS + S.SUBS + S.V5SUBS + O.SUBS + [("return_codes . push ( $x . into ( ) )", "return_codes.push(vx_code($x))")])
    S.pending(u)
    u.raw("pub type TopicFilter = Str;\n" + S.CID + HM + S.HMX + S.STR + S.OPAQUE + S.PIDS + O.TYPES + S.IO)
    u.item(O.SESSION, "PubPacket"); u.item(O.SESSION, "Session"); u.item(O.P, "RecvPublish"); u.item("akasa-core/src/protocols/mqtt/retain.rs", "RetainContent")
    O.frames(u)
    u.frame(O.SESSION, "Session", "but_subs", ["server_packet_id", "pending_packets", "subscribes"])
    u.frame(O.SESSION, "Session", "but_only_subs", ["subscribes"])
    u.raw(O.SPEC + S.WORLD + """
pub struct Config { pub max_allowed_qos: u8 }
pub open spec fn qos_of(n: u8) -> QoS { if n == 0 { QoS::Level0 } else if n == 1 { QoS::Level1 } else { QoS::Level2 } }
impl Config { #[verifier::external_body] pub fn max_allowed_qos(&self) -> (r: QoS) requires self.max_allowed_qos <= 2 ensures r == qos_of(self.max_allowed_qos) { unimplemented!() } }
pub struct RetainTable { pub x: u8 }
impl RetainTable { #[verifier::external_body] pub fn get_matches(&self, f: &TopicFilter) -> (r: Vec<RetainContent>) { unimplemented!() } }
pub struct GlobalState { pub config: Config, pub route_table: RouteTable, pub retain_table: RetainTable }
pub open spec fn code_of(q: QoS) -> SubscribeReturnCode { match q { QoS::Level0 => SubscribeReturnCode::MaxLevel0, QoS::Level1 => SubscribeReturnCode::MaxLevel1, QoS::Level2 => SubscribeReturnCode::MaxLevel2 } }
#[verifier::external_body]
pub fn vx_code(q: QoS) -> (r: SubscribeReturnCode) ensures r == code_of(q) { unimplemented!() }
pub open spec fn gq(c: Config, q: QoS) -> QoS { qmin(q, qos_of(c.max_allowed_qos)) }
pub type Routes = Map<(TopicFilter, ClientId), QoS>;
pub open spec fn subs_after(c: Config, p: Subscribe, m: Map<TopicFilter, QoS>, n: int) -> Map<TopicFilter, QoS> decreases n { if n <= 0 { m } else { subs_after(c, p, m, n - 1).insert(p.topics@[n - 1].0, gq(c, p.topics@[n - 1].1)) } }
pub open spec fn routes_after(c: Config, p: Subscribe, id: ClientId, m: Routes, n: int) -> Routes decreases n { if n <= 0 { m } else { routes_after(c, p, id, m, n - 1).insert((p.topics@[n - 1].0, id), gq(c, p.topics@[n - 1].1)) } }
pub open spec fn subs_without(m: Map<TopicFilter, QoS>, p: Unsubscribe, n: int) -> Map<TopicFilter, QoS> decreases n { if n <= 0 { m } else { subs_without(m, p, n - 1).remove(p.topics@[n - 1]) } }
pub open spec fn routes_without(m: Routes, p: Unsubscribe, id: ClientId, n: int) -> Routes decreases n { if n <= 0 { m } else { routes_without(m, p, id, n - 1).remove((p.topics@[n - 1], id)) } }
/// the session's own subscriptions are exactly the routes to it
pub open spec fn agree(s: Session, g: GlobalState) -> bool {
    forall|f: TopicFilter| #![trigger s.subscribes@.contains_key(f)] #![trigger g.route_table@.contains_key((f, s.client_id))] (s.subscribes@.contains_key(f) <==> g.route_table@.contains_key((f, s.client_id)))
        && (s.subscribes@.contains_key(f) ==> s.subscribes@[f] == g.route_table@[(f, s.client_id)]) }
pub open spec fn keeps1(a: Routes, b: Routes, k: (TopicFilter, ClientId)) -> bool { (b.contains_key(k) <==> a.contains_key(k)) && (a.contains_key(k) ==> b[k] == a[k]) }
pub open spec fn others(a: Routes, b: Routes, id: ClientId) -> bool { forall|k: (TopicFilter, ClientId)| k.1 != id ==> #[trigger] keeps1(a, b, k) }
pub proof fn lemma_one(c: Config, p: Subscribe, id: ClientId, t: Routes, n: int, k: (TopicFilter, ClientId)) requires k.1 != id ensures keeps1(t, routes_after(c, p, id, t, n), k) decreases n
{ if n > 0 { lemma_one(c, p, id, t, n - 1, k); let x = (p.topics@[n - 1].0, id); assert(x != k); } }
pub proof fn lemma_one_un(p: Unsubscribe, id: ClientId, t: Routes, n: int, k: (TopicFilter, ClientId)) requires k.1 != id ensures keeps1(t, routes_without(t, p, id, n), k) decreases n
{ if n > 0 { lemma_one_un(p, id, t, n - 1, k); let x = (p.topics@[n - 1], id); assert(x != k); } }
pub proof fn lemma_others(c: Config, p: Subscribe, id: ClientId, t: Routes, n: int) ensures others(t, routes_after(c, p, id, t, n), id)
{ assert forall|k: (TopicFilter, ClientId)| k.1 != id implies #[trigger] keeps1(t, routes_after(c, p, id, t, n), k) by { lemma_one(c, p, id, t, n, k); } }
pub proof fn lemma_others_un(p: Unsubscribe, id: ClientId, t: Routes, n: int) ensures others(t, routes_without(t, p, id, n), id)
{ assert forall|k: (TopicFilter, ClientId)| k.1 != id implies #[trigger] keeps1(t, routes_without(t, p, id, n), k) by { lemma_one_un(p, id, t, n, k); } }
/// the first n topics took effect
pub open spec fn done(c: Config, p: Subscribe, s0: Session, s: Session, g0: GlobalState, g: GlobalState, n: int) -> bool { s.subscribes@ == subs_after(c, p, s0.subscribes@, n) && g.route_table@ == routes_after(c, p, s0.client_id, g0.route_table@, n) }
""")
    u.fn(O.P, O.recv_publish(trusted=True))
    u.fn(O.C, O.handle_pendings(trusted=True))
    u.fn(F, Fn("handle_subscribe", ret="r", spec="""
        requires old(session).pending_packets.wf(), old(global).config.max_allowed_qos <= 2
        ensures final(session).pending_packets.wf(), but_subs(*old(session), *final(session)), final(global).config == old(global).config, final(global).retain_table == old(global).retain_table,
            agree(*old(session), *old(global)) ==> agree(*final(session), *final(global)), others(old(global).route_table@, final(global).route_table@, old(session).client_id),
            r is Err <==> exists|i: int| 0 <= i < packet.topics@.len() && is_shared(#[trigger] packet.topics@[i].0@),
            match r {
                Err(p) => exists|n: int| 0 <= n < packet.topics@.len() && #[trigger] done(old(global).config, *packet, *old(session), *final(session), *old(global), *final(global), n),
                Ok(v) => ({ let n = packet.topics@.len(); let c = old(global).config;
                    &&& v@.len() > 0 && only_deliveries(v@.drop_last())
                    &&& v@.last() matches Packet::Suback(a) && a.pid == packet.pid && a.topics@ =~= Seq::new(n, |i: int| code_of(gq(c, packet.topics@[i].1)))
                    &&& done(c, *packet, *old(session), *final(session), *old(global), *final(global), n as int) }) },""",
        pre="let ghost vx_c = global.config; let ghost vx_t = global.route_table@; let ghost vx_id = session.client_id; let ghost vx_s0 = *session; let ghost vx_g0 = *global; let ghost mut vx_n: int = 0;",
        post="proof { lemma_others(vx_c, *packet, vx_id, vx_t, packet.topics@.len() as int); }",
        loops=[L("for", """invariant old(global).config.max_allowed_qos <= 2, but_subs(*old(session), *session), session.pending_packets.wf(), global.config == old(global).config, global.retain_table == old(global).retain_table,
                agree(*old(session), *old(global)) ==> agree(*session, *global), only_deliveries(rv_packets@), forall|i: int| 0 <= i < vx_it.index@ ==> !is_shared(#[trigger] packet.topics@[i].0@),
                return_codes@ =~= Seq::new(vx_it.index@ as nat, |i: int| code_of(gq(old(global).config, packet.topics@[i].1))),
                done(old(global).config, *packet, *old(session), *session, *old(global), *global, vx_it.index@ as int), others(old(global).route_table@, global.route_table@, old(session).client_id)""", iter="vx_it",
                body_pre="proof { assert(done(old(global).config, *packet, *old(session), *session, *old(global), *global, vx_it.index@ as int)); lemma_others(old(global).config, *packet, old(session).client_id, old(global).route_table@, vx_it.index@ as int + 1); }"),
            L("while", """invariant vx_i <= vx_v@.len(), but_subs(vx_s1, *session), session.subscribes == vx_s1.subscribes, session.pending_packets.wf(), only_deliveries(rv_packets@), *global == vx_g1 decreases vx_v@.len() - vx_i""", before="let ghost vx_s1 = *session; let ghost vx_g1 = *global;")]))
    u.fn(F, Fn("handle_unsubscribe", ret="r", spec="""
        ensures but_only_subs(*old(session), *final(session)), final(global).config == old(global).config, final(global).retain_table == old(global).retain_table,
            agree(*old(session), *old(global)) ==> agree(*final(session), *final(global)), others(old(global).route_table@, final(global).route_table@, old(session).client_id),
            r == Packet::Unsuback(packet.pid), final(session).subscribes@ == subs_without(old(session).subscribes@, *packet, packet.topics@.len() as int),
            final(global).route_table@ == routes_without(old(global).route_table@, *packet, old(session).client_id, packet.topics@.len() as int),""",
        pre="let ghost vx_t = global.route_table@; let ghost vx_id = session.client_id;", post="proof { lemma_others_un(*packet, vx_id, vx_t, packet.topics@.len() as int); }",
        loops=[L("for", """invariant but_only_subs(*old(session), *session), global.config == old(global).config, global.retain_table == old(global).retain_table, agree(*old(session), *old(global)) ==> agree(*session, *global),
            session.subscribes@ == subs_without(old(session).subscribes@, *packet, vx_it.index@ as int), global.route_table@ == routes_without(old(global).route_table@, *packet, old(session).client_id, vx_it.index@ as int)""", iter="vx_it")]))
    return u

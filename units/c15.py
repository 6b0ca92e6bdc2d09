"""C15: what a v5 subscriber is handed (v5/packet/publish.rs recv_publish, v5/packet/common.rs handle_pendings, v5/message.rs handle_normal)."""
from vunit import Unit, Fn, L
from vstd_hm import HM
import sess_common as S, v5_out as O

def unit():
    u = Unit("c15", flags=S.FLAGS, uses="use std::collections::VecDeque;\nuse std::cmp;\nuse vstd::std_specs::cmp::*;\n", subs=S.SUBS + S.V5SUBS)
    S.pending(u)
    u.raw("pub type TopicFilter = Str;\n" + S.CID + HM + S.HMX + S.STR + S.OPAQUE + S.PIDS + S.v5types() + S.V5FNS + """
#[verifier::external_body]
pub struct BroadcastPackets { x: u8 }
""")
    u.item(S.V5SESSION, "SubscriptionData"); u.item(S.V5SESSION, "PubPacket"); u.item(S.V5SESSION, "Session")
    u.item(O.P, "SubscriptionIds"); u.item(O.P, "RecvPublish")
    O.frames(u, S.V5SESSION)
    u.raw(O.SPEC + O.LEMMAS)
    u.fn(O.C, Fn("empty_topic_name", trusted=True, ret="r", spec="ensures r@.len() == 0,"))
    u.fn(O.C, Fn("get_or_assign_server_topic_alias", trusted=True, ret="r", spec=""))
    u.item(O.C, "TOPIC_ALIAS_LEN")
    u.fn(O.C, Fn("fit_packet_size", ret="r", spec="ensures r == fits(*packet, max_packet_size, extra as int),"))
    u.impl(S.V5SESSION, "Session", [Fn("incr_server_packet_id", ret="r", spec="""
        ensures r == old(self).server_packet_id, final(self).server_packet_id == pid_next(old(self).server_packet_id), but_pid(*old(self), *final(self)),""")])
    u.fn(O.P, O.recv_publish())
    u.fn(O.C, O.handle_pendings())
    u.raw("""
/// the parts of the broker these functions read
pub struct Config { pub retain_available: bool }
pub struct GlobalState { pub config: Config }
pub open spec fn ids_upto(s: Session, f: Seq<TopicFilter>, n: int) -> Seq<VarByteInt> decreases n {
    if n <= 0 { Seq::<VarByteInt>::empty() } else { let p = ids_upto(s, f, n - 1);
        if s.subscribes@.contains_key(f[n - 1]) { match s.subscribes@[f[n - 1]].id { Some(id) => if p.contains(id) { p } else { p.push(id) }, None => p } } else { p } } }
pub open spec fn any_left(s: Session, f: Seq<TopicFilter>, n: int) -> bool { exists|i: int| 0 <= i < n && s.subscribes@.contains_key(#[trigger] f[i]) }
pub open spec fn any_rap(s: Session, f: Seq<TopicFilter>, n: int) -> bool { exists|i: int| 0 <= i < n && s.subscribes@.contains_key(#[trigger] f[i]) && s.subscribes@[f[i]].options.retain_as_published }
pub open spec fn for_sub(s: Session, retain_available: bool, m: NormalMessage) -> (Msg, Option<Seq<VarByteInt>>, QoS) {
    match m {
        NormalMessage::PublishV3 { topic_name, qos, retain, payload, subscribe_filter, subscribe_qos, .. } => (
            Msg { topic: topic_name, qos, retain: retain && retain_available && s.subscribes@.contains_key(subscribe_filter) && s.subscribes@[subscribe_filter].options.retain_as_published, payload, props: None },
            if s.subscribes@.contains_key(subscribe_filter) { Some(opt_seq(s.subscribes@[subscribe_filter].id)) } else { None }, subscribe_qos),
        NormalMessage::PublishV5 { topic_name, qos, retain, payload, subscribe_filters, subscribe_qos, properties, .. } => (
            Msg { topic: topic_name, qos, retain: retain && retain_available && any_rap(s, subscribe_filters@, subscribe_filters@.len() as int), payload, props: Some(properties) },
            if any_left(s, subscribe_filters@, subscribe_filters@.len() as int) { Some(ids_upto(s, subscribe_filters@, subscribe_filters@.len() as int)) } else { None }, subscribe_qos),
    } }
#[verifier::external_body]
pub fn vx_contains(v: &Vec<VarByteInt>, x: &VarByteInt) -> (r: bool) ensures r == v@.contains(*x) { unimplemented!() }
""")
    u.item("akasa-core/src/state.rs", "NormalMessage")
    u.fn("akasa-core/src/protocols/mqtt/v5/message.rs", Fn("handle_normal", ret="r", spec="""
        requires old(session).pending_packets.wf(), msg matches NormalMessage::PublishV5 { properties, .. } ==> properties.topic_alias is None
        ensures final(session).pending_packets.wf(), ({ let e = for_sub(*old(session), old(global).config.retain_available, msg); handed(*old(session), *final(session), r, e.0, e.1, e.2) }),""",
        subs=[("subscription_ids . contains ( $x )", "vx_contains(&subscription_ids, $x)"), ("$a |= $b ;", "$a = $a || $b;")],
        loops=[L("for", """invariant *session == *old(session), subscription_ids@ == ids_upto(*session, subscribe_filters@, vx_it.index@ as int), has_subscription == any_left(*session, subscribe_filters@, vx_it.index@ as int),
            retain_as_published == any_rap(*session, subscribe_filters@, vx_it.index@ as int)""", iter="vx_it")]))
    return u

"""C15, v3: what a v3 subscriber is handed (v3/packet/publish.rs recv_publish, v3/packet/common.rs handle_pendings, v3/message.rs handle_normal)."""
from vunit import Unit, Fn, L
from vstd_hm import HM
import sess_common as S, v3_out as O

def unit():
    u = Unit("c15v3", flags=S.FLAGS, uses="use std::collections::VecDeque;\nuse std::cmp;\nuse vstd::std_specs::cmp::*;\n", subs=S.SUBS + S.V5SUBS + O.SUBS)
    S.pending(u)
    u.raw("pub type TopicFilter = Str;\n" + S.CID + HM + S.HMX + S.STR + S.OPAQUE + S.PIDS + O.TYPES + "impl PidW { #[verifier::external_body] pub fn default() -> (r: PidW) { unimplemented!() } }\n")
    u.item(O.SESSION, "PubPacket"); u.item(O.SESSION, "Session"); u.item(O.P, "RecvPublish"); u.item("akasa-core/src/state.rs", "NormalMessage")
    O.frames(u)
    u.raw(O.SPEC + O.LEMMAS)
    u.impl(O.SESSION, "Session", [O.incr()])
    u.fn(O.P, O.recv_publish())
    u.fn(O.C, O.handle_pendings())
    u.raw("""
pub open spec fn for_sub(m: NormalMessage) -> (Msg, Option<TopicFilter>, QoS) {
    match m {
        NormalMessage::PublishV3 { topic_name, qos, payload, subscribe_filter, subscribe_qos, .. } => (Msg { topic: topic_name, qos, retain: false, payload }, Some(subscribe_filter), subscribe_qos),
        NormalMessage::PublishV5 { topic_name, qos, payload, subscribe_filters, subscribe_qos, .. } => (Msg { topic: topic_name, qos, retain: false, payload }, if subscribe_filters@.len() == 0 { None } else { Some(subscribe_filters@[0]) }, subscribe_qos),
    } }
""")
    u.fn(O.M, Fn("handle_normal", ret="r", spec="""
        requires old(session).pending_packets.wf()
        ensures final(session).pending_packets.wf(), ({ let e = for_sub(msg); match e.1 { None => r is None && *final(session) == *old(session), Some(f) => handed(*old(session), *final(session), r, e.0, !old(session).subscribes@.contains_key(f), e.2) } }),"""))
    return u

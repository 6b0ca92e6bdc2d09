"""Contracts of the functions of the v3 session which hand messages on to the client (proved in C15, used by C14)."""
from vunit import Fn, L
C = "akasa-core/src/protocols/mqtt/v3/packet/common.rs"
P = "akasa-core/src/protocols/mqtt/v3/packet/publish.rs"
M = "akasa-core/src/protocols/mqtt/v3/message.rs"
SESSION = "akasa-core/src/protocols/mqtt/v3/session.rs"
SUBS = [
    ("subscribe_filters . first ( ) ?", "(match vx_first(subscribe_filters) { Some(vx_f) => vx_f, None => { return None; } })"),
]
TYPES = r"""
#[verifier::external_body]
pub struct BroadcastPackets { x: u8 }
/// the packets of mqtt_proto::v3
pub struct LastWill { pub qos: QoS, pub retain: bool, pub topic_name: TopicName, pub message: Bytes }
pub struct Publish { pub dup: bool, pub retain: bool, pub qos_pid: QosPid, pub topic_name: TopicName, pub payload: Bytes }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum SubscribeReturnCode { MaxLevel0, MaxLevel1, MaxLevel2, Failure }
pub struct Suback { pub pid: Pid, pub topics: Vec<SubscribeReturnCode> }
impl Suback { #[verifier::external_body] pub fn new(pid: Pid, topics: Vec<SubscribeReturnCode>) -> (r: Suback) ensures r == (Suback { pid, topics }) { unimplemented!() } }
pub struct Subscribe { pub pid: Pid, pub topics: Vec<(TopicFilter, QoS)> }
pub struct Unsubscribe { pub pid: Pid, pub topics: Vec<TopicFilter> }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum ConnectReturnCode { Accepted, UnacceptableProtocolVersion, IdentifierRejected, ServerUnavailable, BadUserNameOrPassword, NotAuthorized }
pub struct Connack { pub session_present: bool, pub code: ConnectReturnCode }
pub enum Packet { Connack(Connack), Publish(Publish), Puback(Pid), Pubrec(Pid), Pubrel(Pid), Pubcomp(Pid), Subscribe(Subscribe), Suback(Suback), Unsubscribe(Unsubscribe), Unsuback(Pid), Pingreq, Pingresp, Disconnect }
impl Publish { pub fn into(self) -> (r: Packet) ensures r == Packet::Publish(self) { Packet::Publish(self) } }
impl Suback { pub fn into(self) -> (r: Packet) ensures r == Packet::Suback(self) { Packet::Suback(self) } }
impl Connack { pub fn into(self) -> (r: Packet) ensures r == Packet::Connack(self) { Packet::Connack(self) } }
#[verifier::external_body]
pub fn vx_first<T>(v: &Vec<T>) -> (r: Option<&T>) ensures match r { None => v@.len() == 0, Some(x) => v@.len() > 0 && *x == v@[0] } { unimplemented!() }
/// only its type is needed here
#[verifier::external_body]
pub struct PublishProperties { x: u8 }
"""
SPEC = r"""
pub struct Msg { pub topic: TopicName, pub qos: QoS, pub retain: bool, pub payload: Bytes }
pub open spec fn trimmed<P>(a: Seq<PendingPacketStatus<P>>, b: Seq<PendingPacketStatus<P>>) -> bool {
    exists|k: int| 0 <= k <= a.len() && (forall|j: int| 0 <= j < k ==> a[j] is Complete) && b == #[trigger] a.skip(k) && (b.len() > 0 ==> !(b[0] is Complete)) }
pub open spec fn queued(a: PendingPackets<PubPacket>, b: PendingPackets<PubPacket>, pid: Pid, m: Msg, q: QoS) -> bool {
    b.wf() && b.same_conf(a) && exists|k: int| 0 <= k <= a.packets@.len() && (forall|j: int| 0 <= j < k ==> a.packets@[j] is Complete) && appended(#[trigger] a.packets@.skip(k), b.packets@, a.max_packets, pid, m, q) }
pub open spec fn appended(c: Seq<PendingPacketStatus<PubPacket>>, d: Seq<PendingPacketStatus<PubPacket>>, max: usize, pid: Pid, m: Msg, q: QoS) -> bool {
    (c.len() > 0 ==> !(c[0] is Complete)) && (c.len() >= max ==> d == c) && (c.len() < max ==> d.len() == c.len() + 1 && d.drop_last() == c && waits(d.last(), pid, m, q)) }
pub open spec fn waits(e: PendingPacketStatus<PubPacket>, p: Pid, m: Msg, q: QoS) -> bool {
    match e { PendingPacketStatus::New { pid, packet, last_sent, dup, .. } => pid == p && last_sent == 0 && !dup && packet == (PubPacket { topic_name: m.topic, qos: q, retain: m.retain, payload: m.payload }), _ => false } }
/// one message for one subscriber: granted QoS g; gone: the subscription is no more
pub open spec fn handed(a: Session, b: Session, r: Option<(QoS, Option<Packet>)>, m: Msg, gone: bool, g: QoS) -> bool {
    let q = qmin(m.qos, g);
    if gone || (q is Level0 && a.disconnected) { r is None && b == a }
    else if q is Level0 { b == a && r == Some((q, Some(Packet::Publish(Publish { dup: false, retain: m.retain, qos_pid: QosPid::Level0, topic_name: m.topic, payload: m.payload })))) }
    else { r == Some((q, None::<Packet>)) && but_queue(a, b) && b.server_packet_id == pid_next(a.server_packet_id) && queued(a.pending_packets, b.pending_packets, a.server_packet_id, m, q) }
}
pub type E = PendingPacketStatus<PubPacket>;
pub open spec fn out_of(e: E, p: Packet) -> bool {
    match e { PendingPacketStatus::Complete => false,
        PendingPacketStatus::Pubrec { pid, .. } => p == Packet::Pubrel(pid),
        PendingPacketStatus::New { dup, pid, packet, .. } => p == Packet::Publish(Publish { dup, retain: packet.retain, qos_pid: qp(packet.qos, pid), topic_name: packet.topic_name, payload: packet.payload }) } }
pub open spec fn sent_mark(e: E, f: E) -> bool {
    match e { PendingPacketStatus::Complete => false,
        PendingPacketStatus::Pubrec { pid, .. } => match f { PendingPacketStatus::Pubrec { pid: p2, last_sent } => p2 == pid && clock_read(last_sent), _ => false },
        PendingPacketStatus::New { added_at, pid, packet, .. } => match f { PendingPacketStatus::New { added_at: a2, pid: p2, packet: k2, dup, last_sent } => a2 == added_at && p2 == pid && k2 == packet && dup && clock_read(last_sent), _ => false } } }
pub open spec fn due(e: E, timeout: u64) -> bool { exists|now: u64| #[trigger] clock_read(now) && is_ready(e, timeout, now) }
pub open spec fn not_due(e: E, timeout: u64) -> bool { exists|now: u64| #[trigger] clock_read(now) && !is_ready(e, timeout, now) }
/// entry j of the window after the pass: sent (and in tr), or not due
pub open spec fn passed_over(q: Seq<E>, cur: Seq<E>, tr: Seq<int>, timeout: u64, j: int) -> bool {
    (tr.contains(j) && due(q[j], timeout) && sent_mark(q[j], cur[j])) || (!tr.contains(j) && cur[j] == q[j] && not_due(q[j], timeout)) }
pub open spec fn sorted(tr: Seq<int>) -> bool { forall|a: int, b: int| 0 <= a < b < tr.len() ==> #[trigger] tr[a] < #[trigger] tr[b] }
pub open spec fn sends(q: Seq<E>, tr: Seq<int>, out: Seq<Packet>, n: int) -> bool {
    tr.len() == out.len() && sorted(tr) && (forall|k: int| 0 <= k < tr.len() ==> 0 <= #[trigger] tr[k] < n && out_of(q[tr[k]], out[k])) }
/// nothing but messages and PUBRELs
pub open spec fn only_deliveries(v: Seq<Packet>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Publish || v[i] is Pubrel }
pub open spec fn win(a: PendingPackets<PubPacket>, q: Seq<E>) -> int { if a.max_inflight <= q.len() { a.max_inflight as int } else { q.len() as int } }
pub open spec fn walked(a: PendingPackets<PubPacket>, q: Seq<E>, cur: Seq<E>, tr: Seq<int>) -> bool {
    cur.len() == q.len() && (forall|j: int| 0 <= j < win(a, q) ==> #[trigger] passed_over(q, cur, tr, a.timeout, j)) && (forall|j: int| win(a, q) <= j < q.len() ==> cur[j] == q[j]) }
/// the sender goes through the window once, in order: every message due is sent with its own content
pub open spec fn sender_pass(a: PendingPackets<PubPacket>, b: PendingPackets<PubPacket>, out: Seq<Packet>) -> bool {
    b.wf() && b.same_conf(a) && exists|q: Seq<E>, tr: Seq<int>| #![trigger sends(q, tr, out, win(a, q))] trimmed(a.packets@, q) && sends(q, tr, out, win(a, q)) && walked(a, q, b.packets@, tr) }
"""
LEMMAS = r"""
pub proof fn lemma_over(q: Seq<E>, c0: Seq<E>, c1: Seq<E>, t0: Seq<int>, t1: Seq<int>, to: u64, s0: int, s1: int, n: int)
    requires 0 <= s0 < s1 <= n <= q.len(), c0.len() == q.len(), forall|k: int| 0 <= k < t0.len() ==> t0[k] < s0, forall|j: int| 0 <= j < s0 ==> #[trigger] passed_over(q, c0, t0, to, j),
        forall|j: int| s0 <= j < q.len() ==> c0[j] == q[j], forall|j: int| s0 <= j < s1 - 1 ==> not_due(#[trigger] q[j], to),
        t1 == t0.push(s1 - 1), c1 == c0.update(s1 - 1, c1[s1 - 1]), due(q[s1 - 1], to), sent_mark(q[s1 - 1], c1[s1 - 1])
    ensures forall|j: int| 0 <= j < s1 ==> #[trigger] passed_over(q, c1, t1, to, j)
{
    assert forall|j: int| 0 <= j < s1 implies #[trigger] passed_over(q, c1, t1, to, j) by {
        assert(t1[t0.len() as int] == s1 - 1); assert(t1.contains(s1 - 1));
        if j < s0 { assert(passed_over(q, c0, t0, to, j)); if t0.contains(j) { let k = choose|k: int| 0 <= k < t0.len() && t0[k] == j; assert(t1[k] == j); } else { assert(!t1.contains(j)); } }
        else if j < s1 - 1 { assert(not_due(q[j], to)); assert(!t1.contains(j)); }
        else { assert(!t0.contains(j)); }
    }
}
"""
def frames(u):
    u.frame(SESSION, "Session", "but_queue", ["server_packet_id", "pending_packets"])
    u.frame(SESSION, "Session", "but_pending", ["pending_packets"])
    u.frame(SESSION, "Session", "but_pid", ["server_packet_id"])
def incr(**k):
    return Fn("incr_server_packet_id", ret="r", spec="""
        ensures r == old(self).server_packet_id, final(self).server_packet_id == pid_next(old(self).server_packet_id), but_pid(*old(self), *final(self)),""", **k)
def recv_publish(**k):
    return Fn("recv_publish", ret="r", spec="""
        requires old(session).pending_packets.wf()
        ensures final(session).pending_packets.wf(), handed(*old(session), *final(session), r, Msg { topic: *msg.topic_name, qos: msg.qos, retain: msg.retain, payload: *msg.payload }, !old(session).subscribes@.contains_key(*msg.subscribe_filter), msg.subscribe_qos),""", **k)
def handle_pendings(**k):
    return Fn("handle_pendings", ret="r", attrs="#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]", spec="""
        requires old(session).pending_packets.wf()
        ensures sender_pass(old(session).pending_packets, final(session).pending_packets, r@), final(session).pending_packets.wf(), but_pending(*old(session), *final(session)), only_deliveries(r@),""",
        pre="let ghost vx_a = session.pending_packets; let ghost mut vx_tr = Seq::<int>::empty();",
        loops=[L("loop", """invariant session.pending_packets.wf(), session.pending_packets.same_conf(vx_a), trimmed(vx_a.packets@, vx_q), session.pending_packets.packets@.len() == vx_q.len(), but_pending(vx_s, *session),
                sends(vx_q, vx_tr, packets@, win(vx_a, vx_q)), start_idx <= 0xffff, forall|k: int| 0 <= k < vx_tr.len() ==> vx_tr[k] < start_idx,
                forall|j: int| 0 <= j < start_idx && j < win(vx_a, vx_q) ==> #[trigger] passed_over(vx_q, session.pending_packets.packets@, vx_tr, vx_a.timeout, j),
                forall|j: int| start_idx <= j < vx_q.len() ==> session.pending_packets.packets@[j] == vx_q[j],
                forall|j: int| win(vx_a, vx_q) <= j < vx_q.len() ==> session.pending_packets.packets@[j] == vx_q[j],
            ensures forall|j: int| start_idx <= j < win(vx_a, vx_q) ==> not_due(#[trigger] vx_q[j], vx_a.timeout)
            decreases 0x10000 - start_idx""", before="let ghost vx_q = session.pending_packets.packets@; let ghost vx_s = *session;",
            body_pre="let ghost vx_p0 = packets@; let ghost vx_tr0 = vx_tr; let ghost vx_s0 = start_idx; let ghost vx_c0 = session.pending_packets.packets@;",
            body_post="""proof { let e = vx_q[start_idx as int - 1]; let vx_c1 = session.pending_packets.packets@;
                assert(packets@ == vx_p0.push(packets@.last())); assert(out_of(e, packets@.last())); assert(vx_c1 =~= vx_c0.update(start_idx as int - 1, vx_c1[start_idx as int - 1])); assert(due(e, vx_a.timeout));
                lemma_over(vx_q, vx_c0, vx_c1, vx_tr0, vx_tr0.push(start_idx as int - 1), vx_a.timeout, vx_s0 as int, start_idx as int, win(vx_a, vx_q)); vx_tr = vx_tr.push(start_idx as int - 1); assert(vx_tr[vx_tr.len() - 1] == start_idx as int - 1); }""",
            after="""proof { assert forall|i: int| 0 <= i < packets@.len() implies (#[trigger] packets@[i]) is Publish || packets@[i] is Pubrel by { assert(vx_tr[i] >= 0); } assert(sends(vx_q, vx_tr, packets@, win(vx_a, vx_q))); assert(walked(vx_a, vx_q, session.pending_packets.packets@, vx_tr)); }""")], **k)

"""Contracts of the functions of the v5 session which hand messages on to the client (proved in C15, used by C14)."""
from vunit import Fn, L
C = "akasa-core/src/protocols/mqtt/v5/packet/common.rs"
P = "akasa-core/src/protocols/mqtt/v5/packet/publish.rs"
SPEC = r"""
/// what is to be handed on
pub struct Msg { pub topic: TopicName, pub qos: QoS, pub retain: bool, pub payload: Bytes, pub props: Option<PublishProperties> }
pub open spec fn keeps(p: PublishProperties, b: PublishProperties) -> bool { p.payload_is_utf8 == b.payload_is_utf8 && p.response_topic == b.response_topic && p.correlation_data == b.correlation_data && p.content_type == b.content_type && p.user_properties@ == b.user_properties@ }
pub open spec fn props_ok(p: PublishProperties, o: Option<PublishProperties>) -> bool {
    match o { None => p.payload_is_utf8 is None && p.response_topic is None && p.correlation_data is None && p.content_type is None && p.user_properties@.len() == 0 && p.message_expiry_interval is None,
        Some(b) => keeps(p, b) && p.message_expiry_interval == b.message_expiry_interval }
}
pub open spec fn pkt_ok(k: PubPacket, m: Msg, ids: Seq<VarByteInt>, q: QoS) -> bool {
    k.topic_name == m.topic && k.qos == q && k.retain == m.retain && k.payload == m.payload && props_ok(k.properties, m.props) && k.properties.subscription_ids@ == ids && k.properties.topic_alias is None }
pub open spec fn pub_ok(p: Publish, m: Msg, ids: Seq<VarByteInt>, q: QoS) -> bool {
    p.topic_name == m.topic && p.qos_pid.q() == q && !p.dup && p.retain == m.retain && p.payload == m.payload && props_ok(p.properties, m.props) && p.properties.subscription_ids@ == ids && p.properties.topic_alias is None }
/// p is b, or b with a topic alias that may stand for the topic
pub open spec fn aliased(b: Publish, p: Publish) -> bool {
    p == b || (p.properties.topic_alias is Some && p.properties == (PublishProperties { topic_alias: p.properties.topic_alias, ..b.properties })
        && (p.topic_name == b.topic_name || p.topic_name@.len() == 0) && p == (Publish { topic_name: p.topic_name, properties: p.properties, ..b })) }
/// an alias is a property of 3 bytes, and may lengthen the property length and the remaining length by one byte each
pub axiom fn axiom_alias_len(b: Publish, p: Publish) requires aliased(b, p), plen(Packet::Publish(b)) is Some ensures plen(Packet::Publish(p)) matches Some(n) ==> n <= plen(Packet::Publish(b))->0 + 5;
pub open spec fn small(p: Packet, max: u32) -> bool { plen(p) matches Some(n) ==> n <= max }
pub open spec fn trimmed<P>(a: Seq<PendingPacketStatus<P>>, b: Seq<PendingPacketStatus<P>>) -> bool {
    exists|k: int| 0 <= k <= a.len() && (forall|j: int| 0 <= j < k ==> a[j] is Complete) && b == #[trigger] a.skip(k) && (b.len() > 0 ==> !(b[0] is Complete)) }
/// the message waits at the end of the queue (unless the queue is full)
pub open spec fn queued(a: PendingPackets<PubPacket>, b: PendingPackets<PubPacket>, pid: Pid, m: Msg, ids: Seq<VarByteInt>, q: QoS) -> bool {
    b.wf() && b.same_conf(a) && exists|k: int| 0 <= k <= a.packets@.len() && (forall|j: int| 0 <= j < k ==> a.packets@[j] is Complete) && appended(#[trigger] a.packets@.skip(k), b.packets@, a.max_packets, pid, m, ids, q) }
pub open spec fn appended(c: Seq<PendingPacketStatus<PubPacket>>, d: Seq<PendingPacketStatus<PubPacket>>, max: usize, pid: Pid, m: Msg, ids: Seq<VarByteInt>, q: QoS) -> bool {
    (c.len() > 0 ==> !(c[0] is Complete)) && (c.len() >= max ==> d == c) && (c.len() < max ==> d.len() == c.len() + 1 && d.drop_last() == c && waits(d.last(), pid, m, ids, q)) }
pub open spec fn waits(e: PendingPacketStatus<PubPacket>, p: Pid, m: Msg, ids: Seq<VarByteInt>, q: QoS) -> bool {
    match e { PendingPacketStatus::New { pid, packet, last_sent, dup, added_at } => pid == p && last_sent == 0 && !dup && clock_read(added_at) && pkt_ok(packet, m, ids, q), _ => false } }
pub open spec fn opt_seq<T>(o: Option<T>) -> Seq<T> { match o { None => Seq::<T>::empty(), Some(x) => Seq::<T>::empty().push(x) } }
/// one message for one subscriber: granted QoS g, subscription identifiers ids (None: the subscription is gone)
pub open spec fn handed(a: Session, b: Session, r: Option<(QoS, Option<Packet>)>, m: Msg, ids: Option<Seq<VarByteInt>>, g: QoS) -> bool {
    let q = qmin(m.qos, g);
    match ids {
        None => r is None && b == a,
        Some(ids) => match r {
            None => b == a && ((q is Level0 && (a.client_disconnected || a.server_disconnected)) || exists|p: Publish| pub_ok(p, m, ids, q) && !#[trigger] fits(Packet::Publish(p), a.max_packet_size, 0)),
            Some((rq, None)) => rq == q && !(q is Level0)
                && (exists|p: Publish| pub_ok(p, m, ids, q) && #[trigger] fits(Packet::Publish(p), a.max_packet_size, 0))
                && but_queue(a, b) && b.server_packet_id == pid_next(a.server_packet_id)
                && queued(a.pending_packets, b.pending_packets, a.server_packet_id, m, ids, q),
            Some((rq, Some(p))) => rq == q && q is Level0 && !a.client_disconnected && !a.server_disconnected && but_aliases(a, b) && small(p, a.max_packet_size)
                && match p { Packet::Publish(x) => exists|o: Publish| pub_ok(o, m, ids, q) && #[trigger] aliased(o, x), _ => false },
        } }
}
pub open spec fn msg_of(m: RecvPublish) -> Msg { Msg { topic: *m.topic_name, qos: m.qos, retain: m.retain, payload: *m.payload, props: match m.properties { None => None, Some(p) => Some(*p) } } }
pub open spec fn ids_of(s: Session, m: RecvPublish) -> Option<Seq<VarByteInt>> {
    match m.subscription_ids { SubscriptionIds::Precomputed(v) => Some(v@), SubscriptionIds::Lookup(f) => if s.subscribes@.contains_key(*f) { Some(opt_seq(s.subscribes@[*f].id)) } else { None } } }
// ---- the sender's pass over the window
pub type E = PendingPacketStatus<PubPacket>;
pub open spec fn passed(added: u64, now: u64) -> int { if now >= added { now - added } else { 0 } }
pub open spec fn expired(e: E, now: u64) -> bool { match e { PendingPacketStatus::New { added_at, last_sent, packet, .. } => last_sent == 0 && (packet.properties.message_expiry_interval matches Some(v) && passed(added_at, now) >= v), _ => false } }
pub open spec fn left(v: Option<u32>, added: u64, now: u64) -> Option<u32> { match v { None => None, Some(v) => Some(if v >= passed(added, now) { (v - passed(added, now)) as u32 } else { 0 }) } }
/// p carries the queued message, sent at time now
pub open spec fn resent(e: E, now: u64, p: Publish) -> bool {
    match e { PendingPacketStatus::New { dup, pid, packet, added_at, .. } => p.dup == dup && p.retain == packet.retain && p.qos_pid == qp(packet.qos, pid) && p.topic_name == packet.topic_name && p.payload == packet.payload
            && keeps(p.properties, packet.properties) && p.properties.subscription_ids@ == packet.properties.subscription_ids@ && p.properties.topic_alias == packet.properties.topic_alias && p.properties.message_expiry_interval == left(packet.properties.message_expiry_interval, added_at, now),
        _ => false } }
pub open spec fn out_of(e: E, p: Packet, max: u32) -> bool {
    match e { PendingPacketStatus::Complete => false,
        PendingPacketStatus::Pubrec { pid, .. } => match p { Packet::Pubrel(x) => x.pid == pid && x.reason_code == PubrelReasonCode::Success, _ => false },
        PendingPacketStatus::New { .. } => small(p, max) && match p { Packet::Publish(x) => exists|b: Publish, now: u64| #![trigger aliased(b, x), clock_read(now)] clock_read(now) && resent(e, now, b) && !expired(e, now) && aliased(b, x), _ => false } } }
pub open spec fn dropped(e: E, max: u32) -> bool {
    (exists|now: u64| #[trigger] clock_read(now) && expired(e, now)) || (exists|b: Publish, now: u64| #![trigger fits(Packet::Publish(b), max, 0), clock_read(now)] clock_read(now) && resent(e, now, b) && !fits(Packet::Publish(b), max, 0)) }
pub open spec fn sent_mark(e: E, f: E) -> bool {
    match e { PendingPacketStatus::Complete => false,
        PendingPacketStatus::Pubrec { pid, .. } => match f { PendingPacketStatus::Pubrec { pid: p2, last_sent } => p2 == pid && clock_read(last_sent), _ => false },
        PendingPacketStatus::New { added_at, pid, packet, .. } => match f { PendingPacketStatus::New { added_at: a2, pid: p2, packet: k2, dup, last_sent } => a2 == added_at && p2 == pid && k2 == packet && dup && clock_read(last_sent), _ => false } } }
pub open spec fn due(e: E, timeout: u64) -> bool { exists|now: u64| #[trigger] clock_read(now) && is_ready(e, timeout, now) }
pub open spec fn not_due(e: E, timeout: u64) -> bool { exists|now: u64| #[trigger] clock_read(now) && !is_ready(e, timeout, now) }
/// entry j of the window after the pass: sent (and in tr), dropped, or not due
pub open spec fn passed_over(q: Seq<E>, cur: Seq<E>, tr: Seq<int>, max: u32, timeout: u64, j: int) -> bool {
    (tr.contains(j) && due(q[j], timeout) && sent_mark(q[j], cur[j])) || (!tr.contains(j) && cur[j] == q[j] && (dropped(q[j], max) || not_due(q[j], timeout))) }
pub open spec fn sorted(tr: Seq<int>) -> bool { forall|a: int, b: int| 0 <= a < b < tr.len() ==> #[trigger] tr[a] < #[trigger] tr[b] }
pub open spec fn sends(q: Seq<E>, tr: Seq<int>, out: Seq<Packet>, n: int, max: u32) -> bool {
    tr.len() == out.len() && sorted(tr) && (forall|k: int| 0 <= k < tr.len() ==> 0 <= #[trigger] tr[k] < n && out_of(q[tr[k]], out[k], max)) }
/// nothing but messages and PUBRELs
pub open spec fn only_deliveries(v: Seq<Packet>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Publish || v[i] is Pubrel }
pub open spec fn npid(e: E) -> Option<Pid> { match e { PendingPacketStatus::New { pid, .. } => Some(pid), _ => None } }
/// entries are completed only under the packet id of a dropped message
pub open spec fn struck_pid(q: Seq<E>, max: u32, n: int, p: Pid) -> bool { exists|i: int| 0 <= i < n && #[trigger] dropped(q[i], max) && npid(q[i]) == Some(p) }
pub open spec fn struck(q: Seq<E>, cur: Seq<E>, fin: Seq<E>, max: u32, n: int, j: int) -> bool {
    fin[j] == cur[j] || (fin[j] is Complete && cur[j] is New && struck_pid(q, max, n, npid(cur[j])->0)) }
pub open spec fn win(a: PendingPackets<PubPacket>, q: Seq<E>) -> int { if a.max_inflight <= q.len() { a.max_inflight as int } else { q.len() as int } }
pub open spec fn walked(a: PendingPackets<PubPacket>, q: Seq<E>, cur: Seq<E>, tr: Seq<int>, max: u32) -> bool {
    cur.len() == q.len() && (forall|j: int| 0 <= j < win(a, q) ==> #[trigger] passed_over(q, cur, tr, max, a.timeout, j)) && (forall|j: int| win(a, q) <= j < q.len() ==> cur[j] == q[j]) }
pub open spec fn strikes(a: PendingPackets<PubPacket>, q: Seq<E>, cur: Seq<E>, fin: Seq<E>, max: u32) -> bool {
    fin.len() == q.len() && (forall|j: int| 0 <= j < q.len() ==> #[trigger] struck(q, cur, fin, max, win(a, q), j)) }
/// the sender goes through the window once, in order: every message due is sent with its own content, except expired and oversized ones
pub open spec fn sender_pass(a: PendingPackets<PubPacket>, b: PendingPackets<PubPacket>, out: Seq<Packet>, max: u32) -> bool {
    b.wf() && b.same_conf(a) && exists|q: Seq<E>, tr: Seq<int>, cur: Seq<E>, fin: Seq<E>| #![trigger sends(q, tr, out, win(a, q), max), walked(a, q, cur, tr, max), strikes(a, q, cur, fin, max)]
        trimmed(a.packets@, q) && sends(q, tr, out, win(a, q), max) && walked(a, q, cur, tr, max) && strikes(a, q, cur, fin, max) && (b.packets@ == fin || trimmed(fin, b.packets@)) }
"""
LEMMAS = r"""
pub proof fn lemma_over(q: Seq<E>, c0: Seq<E>, c1: Seq<E>, t0: Seq<int>, t1: Seq<int>, max: u32, to: u64, s0: int, s1: int, n: int)
    requires 0 <= s0 < s1 <= n <= q.len(), c0.len() == q.len(), forall|k: int| 0 <= k < t0.len() ==> t0[k] < s0, forall|j: int| 0 <= j < s0 ==> #[trigger] passed_over(q, c0, t0, max, to, j),
        forall|j: int| s0 <= j < q.len() ==> c0[j] == q[j], forall|j: int| s0 <= j < s1 - 1 ==> not_due(#[trigger] q[j], to),
        (t1 == t0 && c1 == c0 && dropped(q[s1 - 1], max)) || (t1 == t0.push(s1 - 1) && c1 == c0.update(s1 - 1, c1[s1 - 1]) && due(q[s1 - 1], to) && sent_mark(q[s1 - 1], c1[s1 - 1]))
    ensures forall|j: int| 0 <= j < s1 ==> #[trigger] passed_over(q, c1, t1, max, to, j)
{
    assert forall|j: int| 0 <= j < s1 implies #[trigger] passed_over(q, c1, t1, max, to, j) by {
        if t1 != t0 { assert(t1[t0.len() as int] == s1 - 1); assert(t1.contains(s1 - 1)); }
        if j < s0 { assert(passed_over(q, c0, t0, max, to, j)); if t0.contains(j) { let k = choose|k: int| 0 <= k < t0.len() && t0[k] == j; assert(t1[k] == j); } else { assert(!t1.contains(j)); } }
        else if j < s1 - 1 { assert(not_due(q[j], to)); assert(!t1.contains(j)); }
        else { assert(!t0.contains(j)); }
    }
}
pub proof fn lemma_strike(a: PendingPackets<PubPacket>, q: Seq<E>, cur: Seq<E>, f0: Seq<E>, f1: Seq<E>, max: u32, p: Pid, n: int)
    requires strikes(a, q, cur, f0, max), struck_pid(q, max, win(a, q), p), f1.len() == f0.len(), forall|i: int| 0 <= i < f1.len() ==> complete_step(f0, n, i, p, QoS::Level1, #[trigger] f1[i])
    ensures strikes(a, q, cur, f1, max)
{ assert forall|j: int| 0 <= j < q.len() implies #[trigger] struck(q, cur, f1, max, win(a, q), j) by { assert(struck(q, cur, f0, max, win(a, q), j)); assert(complete_step(f0, n, j, p, QoS::Level1, f1[j])); } }
"""
ALIASES = ["server_topic_aliases_by_topic", "server_topic_aliases_by_alias", "server_alias_tick"]
def frames(u, F):
    """the tables of the server's own aliases are connection data C18 speaks about"""
    u.frame(F, "Session", "but_aliases", ALIASES)
    u.frame(F, "Session", "but_queue", ["server_packet_id", "pending_packets"])
    u.frame(F, "Session", "but_pid", ["server_packet_id"])
    u.frame(F, "Session", "but_out", ALIASES + ["server_packet_id", "pending_packets"])
def recv_publish(**k):
    return Fn("recv_publish", ret="r", spec="""
        requires old(session).pending_packets.wf(), msg.properties matches Some(p) ==> p.topic_alias is None
        ensures handed(*old(session), *final(session), r, msg_of(msg), ids_of(*old(session), msg), msg.subscribe_qos), final(session).pending_packets.wf(),""",
        pre="let ghost vx_t = *msg.topic_name;",
        post="""let ghost vx_g = vx_tail; proof { match vx_g { Some((_, Some(Packet::Publish(x)))) => { let b = Publish { topic_name: vx_t, properties: PublishProperties { topic_alias: None, ..x.properties }, ..x }; assert(aliased(b, x)); if plen(Packet::Publish(b)) is Some { axiom_alias_len(b, x); } }, _ => {} } }""", **k)

def handle_pendings(**k):
    return Fn("handle_pendings", ret="r", attrs="#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]", spec="""
        requires old(session).pending_packets.wf()
        ensures sender_pass(old(session).pending_packets, final(session).pending_packets, r@, old(session).max_packet_size), final(session).pending_packets.wf(), only_deliveries(r@),
            but_out(*old(session), *final(session)), final(session).server_packet_id == old(session).server_packet_id,""",
        pre="""let ghost vx_a = session.pending_packets; let ghost mut vx_tr = Seq::<int>::empty();""",
        loops=[L("loop", """invariant pending_packets.wf(), pending_packets.same_conf(vx_a), trimmed(vx_a.packets@, vx_q), pending_packets.packets@.len() == vx_q.len(),
                sends(vx_q, vx_tr, packets@, win(vx_a, vx_q), max_packet_size), start_idx <= 0xffff, forall|k: int| 0 <= k < vx_tr.len() ==> vx_tr[k] < start_idx,
                forall|j: int| 0 <= j < start_idx && j < win(vx_a, vx_q) ==> #[trigger] passed_over(vx_q, pending_packets.packets@, vx_tr, max_packet_size, vx_a.timeout, j),
                forall|j: int| start_idx <= j < vx_q.len() ==> pending_packets.packets@[j] == vx_q[j],
                forall|j: int| win(vx_a, vx_q) <= j < vx_q.len() ==> pending_packets.packets@[j] == vx_q[j],
                forall|k: int| 0 <= k < expired_packets@.len() ==> struck_pid(vx_q, max_packet_size, win(vx_a, vx_q), #[trigger] expired_packets@[k]),
            ensures forall|j: int| start_idx <= j < win(vx_a, vx_q) ==> not_due(#[trigger] vx_q[j], vx_a.timeout)
            decreases 0x10000 - start_idx""", before="let ghost vx_q = pending_packets.packets@;",
            body_pre="let ghost vx_p0 = packets@; let ghost vx_tr0 = vx_tr; let ghost vx_e0 = expired_packets@; let ghost vx_s0 = start_idx; let ghost vx_c0 = pending_packets.packets@;",
            cont="""proof { assert(dropped(vx_q[start_idx as int - 1], max_packet_size)); assert(expired_packets@ == vx_e0.push(npid(vx_q[start_idx as int - 1])->0)); assert(pending_packets.packets@ =~= vx_c0);
                lemma_over(vx_q, vx_c0, pending_packets.packets@, vx_tr0, vx_tr, max_packet_size, vx_a.timeout, vx_s0 as int, start_idx as int, win(vx_a, vx_q)); }""",
            body_post="""proof { if packets@.len() > vx_p0.len() { assert(packets@ == vx_p0.push(packets@.last())); let e = vx_q[start_idx as int - 1];
                let g = packets@.last(); match g { Packet::Publish(x) => { let b = Publish { topic_name: (match e { PendingPacketStatus::New { packet, .. } => packet.topic_name, _ => x.topic_name }), properties: PublishProperties { topic_alias: (match e { PendingPacketStatus::New { packet, .. } => packet.properties.topic_alias, _ => None }), ..x.properties }, ..x }; assert(aliased(b, x)); if plen(Packet::Publish(b)) is Some { axiom_alias_len(b, x); } }, _ => {} }
                assert(out_of(e, packets@.last(), max_packet_size)); assert(pending_packets.packets@ =~= vx_c0.update(start_idx as int - 1, pending_packets.packets@[start_idx as int - 1])); assert(due(e, vx_a.timeout));
                lemma_over(vx_q, vx_c0, pending_packets.packets@, vx_tr0, vx_tr0.push(start_idx as int - 1), max_packet_size, vx_a.timeout, vx_s0 as int, start_idx as int, win(vx_a, vx_q)); vx_tr = vx_tr.push(start_idx as int - 1); assert(vx_tr[vx_tr.len() - 1] == start_idx as int - 1); } }"""),
            L("for", """invariant pending_packets.wf(), pending_packets.same_conf(vx_a), strikes(vx_a, vx_q, vx_cur, pending_packets.packets@, max_packet_size)""", iter="vx_it",
              before="let ghost vx_cur = pending_packets.packets@; let ghost vx_ex = expired_packets@; proof { assert(walked(vx_a, vx_q, vx_cur, vx_tr, max_packet_size)); }",
              body_pre="let ghost vx_f0 = pending_packets.packets@; proof { assert(*pid == vx_ex[vx_it.index@]); }",
              body_post="proof { lemma_strike(vx_a, vx_q, vx_cur, vx_f0, pending_packets.packets@, max_packet_size, *pid, win(vx_a, vx_q)); }",
              after="""proof { assert(sends(vx_q, vx_tr, packets@, win(vx_a, vx_q), max_packet_size)); assert forall|i: int| 0 <= i < packets@.len() implies (#[trigger] packets@[i]) is Publish || packets@[i] is Pubrel by { assert(vx_tr[i] >= 0); } assert(walked(vx_a, vx_q, vx_cur, vx_tr, max_packet_size)); assert(strikes(vx_a, vx_q, vx_cur, pending_packets.packets@, max_packet_size)); }""")], **k)

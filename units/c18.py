"""C18: topic aliases the server uses on its own (v5/packet/common.rs, v5/packet/publish.rs): at every moment the
session's tables equal what the client has been told."""
from vunit import Unit, Fn, L
from vstd_hm import HM
import sess_common as S
C = "akasa-core/src/protocols/mqtt/v5/packet/common.rs"
P = "akasa-core/src/protocols/mqtt/v5/packet/publish.rs"

# closures over the tables become loops; which alias is reused is left open by the contract
LOOPS = [
    ("if let Some ( & $x ) = $e {", "if let Some(vx_q) = $e { let $x = *vx_q;"),
    ("( $a ..= $b ) . find ( | $x | $c )",
     "{ let mut vx_r: Option<u16> = None; let mut vx_n: u32 = ($a) as u32; while vx_r.is_none() && vx_n <= ($b) as u32 { let vx_c: u16 = vx_n as u16; let $x = &vx_c; if $c { vx_r = Some(vx_c); } vx_n = vx_n + 1; } vx_r }"),
    ("$m . iter ( ) . $f ( | ( _ , ( _ , $t ) ) | $k ) . map ( | ( & $a , _ ) | $v )",
     "{ let vx_items = $m.vx_pairs(); let ghost vx_gi = vx_items@; let mut vx_best: Option<u16> = None; let mut vx_i: usize = 0; while vx_i < vx_items.len() { let vx_pair = vx_items[vx_i]; let $a: u16 = *vx_pair.0; if vx_best.is_none() || vx_pick(&vx_pair.1.1) { vx_best = Some($v); } vx_i = vx_i + 1; } vx_best }"),
]
SPEC = r"""
pub type AT = HM<TopicName, u16>;
pub type AA = HM<u16, (TopicName, u64)>;
#[verifier::external_body]
pub fn vx_pick(t: &u64) -> (r: bool) { unimplemented!() }
/// what the client knows: alias -> topic, from the packets sent so far
pub type Known = Map<u16, TopicName>;
pub open spec fn known(a: Map<u16, (TopicName, u64)>) -> Known { a.map_values(|e: (TopicName, u64)| e.0) }
/// the two tables are inverse to each other and use only aliases the client allows
pub open spec fn awf(max: u16, t: Map<TopicName, u16>, a: Map<u16, (TopicName, u64)>) -> bool {
    (forall|k: u16| #[trigger] a.contains_key(k) ==> 1 <= k <= max && t.contains_key(a[k].0) && t[a[k].0] == k && a[k].0@.len() > 0)
    && (forall|n: TopicName| #[trigger] t.contains_key(n) ==> a.contains_key(t[n]) && a[t[n]].0 == n)
}
/// alias returned for a topic: `new` says whether the client must be told
pub open spec fn announced(before: Known, after: Known, max: u16, topic: TopicName, alias: u16, new: bool) -> bool {
    if max == 0 { alias == 0 && !new && after == before }
    else { 1 <= alias <= max && after.contains_key(alias) && after[alias] == topic && (if new { after == before.insert(alias, topic) } else { after == before }) }
}
pub open spec fn alias_of(p: Packet) -> Option<u16> { match p { Packet::Publish(x) => x.properties.topic_alias, _ => None } }
pub open spec fn topic_of(p: Packet) -> TopicName { match p { Packet::Publish(x) => x.topic_name, _ => arbitrary() } }
/// the client's table after a packet
pub open spec fn told(m: Known, p: Packet) -> Known { match p { Packet::Publish(x) => match x.properties.topic_alias { Some(a) => if x.topic_name@.len() > 0 { m.insert(a, x.topic_name) } else { m }, None => m }, _ => m } }
pub open spec fn told_all(m: Known, s: Seq<Packet>) -> Known decreases s.len() { if s.len() == 0 { m } else { told(told_all(m, s.drop_last()), s.last()) } }
/// the packet, read by a client that knows m, is about topic t; its alias, if any, is allowed and known
pub open spec fn means(m: Known, p: Packet, max: u16, t: TopicName) -> bool {
    match p { Packet::Publish(x) => match x.properties.topic_alias {
            None => x.topic_name == t,
            Some(a) => 1 <= a <= max && (if x.topic_name@.len() > 0 { x.topic_name == t } else { m.contains_key(a) && m[a] == t }) },
        _ => false }
}
pub open spec fn is_pub(p: Packet) -> bool { p is Publish }
pub proof fn lemma_told_push(m: Known, s: Seq<Packet>, p: Packet) ensures told_all(m, s.push(p)) == told(told_all(m, s), p) { assert(s.push(p).drop_last() =~= s); }
/// topic of the queue entry
pub open spec fn ptopic(s: PendingPacketStatus<PubPacket>) -> TopicName { match s { PendingPacketStatus::New { packet, .. } => packet.topic_name, _ => arbitrary() } }
/// every queued message has a real topic and no alias of its own
pub open spec fn pclean(s: PendingPacketStatus<PubPacket>) -> bool { match s { PendingPacketStatus::New { packet, .. } => packet.topic_name@.len() > 0 && packet.properties.topic_alias is None, _ => true } }
pub open spec fn qclean(q: Seq<PendingPacketStatus<PubPacket>>) -> bool { forall|i: int| 0 <= i < q.len() ==> pclean(#[trigger] q[i]) }
pub open spec fn skin(s: PendingPacketStatus<PubPacket>) -> (bool, TopicName, Option<u16>) { match s { PendingPacketStatus::New { packet, .. } => (true, packet.topic_name, packet.properties.topic_alias), _ => (false, arbitrary(), None) } }
pub open spec fn swf(s: Session) -> bool { awf(s.topic_alias_max, s.server_topic_aliases_by_topic@, s.server_topic_aliases_by_alias@) && s.pending_packets.wf() && qclean(s.pending_packets.packets@) }
pub open spec fn sknown(s: Session) -> Known { known(s.server_topic_aliases_by_alias@) }
pub broadcast proof fn lemma_qpush(q: Seq<PendingPacketStatus<PubPacket>>) requires q.len() > 0, qclean(q.drop_last()), pclean(q.last()) ensures #[trigger] qclean(q) { assert forall|i: int| 0 <= i < q.len() implies pclean(#[trigger] q[i]) by { if i < q.len() - 1 { assert(q.drop_last()[i] == q[i]); } } }
pub broadcast proof fn lemma_qskip(q: Seq<PendingPacketStatus<PubPacket>>, k: int) requires qclean(q), 0 <= k <= q.len() ensures #[trigger] qclean(q.skip(k)) {}
/// the k-th packet sent stands for queue entry idx[k]
pub open spec fn stands(m: Known, out: Seq<Packet>, max: u16, q: Seq<PendingPacketStatus<PubPacket>>, j: int, k: int) -> bool {
    0 <= j < q.len() && (is_pub(out[k]) ==> means(told_all(m, out.take(k)), out[k], max, ptopic(q[j])))
}
pub open spec fn faithful(m: Known, out: Seq<Packet>, max: u16, q: Seq<PendingPacketStatus<PubPacket>>, idx: Seq<int>) -> bool {
    idx.len() == out.len() && forall|k: int| 0 <= k < out.len() ==> #[trigger] stands(m, out, max, q, idx[k], k)
}
pub proof fn lemma_faithful_push(m: Known, out: Seq<Packet>, p: Packet, max: u16, q: Seq<PendingPacketStatus<PubPacket>>, idx: Seq<int>, j: int)
    requires faithful(m, out, max, q, idx), 0 <= j < q.len(), is_pub(p) ==> means(told_all(m, out), p, max, ptopic(q[j]))
    ensures faithful(m, out.push(p), max, q, idx.push(j))
{
    let o2 = out.push(p); let i2 = idx.push(j);
    assert forall|k: int| 0 <= k < o2.len() implies #[trigger] stands(m, o2, max, q, i2[k], k) by {
        assert(o2.take(k) =~= out.take(k));
        if k < out.len() { assert(stands(m, out, max, q, idx[k], k)); assert(o2[k] == out[k]); assert(i2[k] == idx[k]); } else { assert(out.take(k) =~= out); assert(i2[k] == j); assert(o2[k] == p); } }
}
"""
def unit():
    u = Unit("c18", uses="use std::collections::VecDeque;\nuse std::cmp;\nuse vstd::std_specs::cmp::*;\n", subs=S.SUBS + S.V5SUBS)
    S.pending(u)
    u.raw("pub type TopicFilter = Str;\n" + S.CID + HM + S.HMX + S.STR + S.OPAQUE + S.PIDS + S.v5types() + S.V5FNS + """
#[verifier::external_body]
pub struct BroadcastPackets { x: u8 }
pub broadcast proof fn lemma_known_ins(a: Map<u16, (TopicName, u64)>, k: u16, t: TopicName, n: u64) ensures (#[trigger] known(a.insert(k, (t, n)))) == known(a).insert(k, t) { assert(known(a.insert(k, (t, n))) =~= known(a).insert(k, t)); }
pub broadcast proof fn lemma_known_rem(a: Map<u16, (TopicName, u64)>, k: u16) ensures (#[trigger] known(a.remove(k))) == known(a).remove(k) { assert(known(a.remove(k)) =~= known(a).remove(k)); }
pub broadcast proof fn lemma_same(m: Known, k: u16, t: TopicName) requires m.contains_key(k), m[k] == t ensures (#[trigger] m.insert(k, t)) == m { assert(m.insert(k, t) =~= m); }
pub broadcast proof fn lemma_over(m: Known, k: u16, t: TopicName) ensures (#[trigger] m.remove(k).insert(k, t)) == m.insert(k, t) { assert(m.remove(k).insert(k, t) =~= m.insert(k, t)); }
""")
    u.item(S.V5SESSION, "SubscriptionData"); u.item(S.V5SESSION, "PubPacket"); u.item(S.V5SESSION, "Session")
    u.raw(SPEC)
    u.fn(C, Fn("empty_topic_name", trusted=True, ret="r", spec="ensures r@.len() == 0,"))
    u.fn(C, Fn("get_or_assign_server_topic_alias", ret="r", subs=LOOPS, attrs="#[verifier::loop_isolation(false)]", spec="""
        requires awf(topic_alias_max, old(aliases_by_topic)@, old(aliases_by_alias)@), topic_name@.len() > 0, *old(tick) < u64::MAX
        ensures awf(topic_alias_max, final(aliases_by_topic)@, final(aliases_by_alias)@),
            announced(known(old(aliases_by_alias)@), known(final(aliases_by_alias)@), topic_alias_max, *topic_name, r.0, r.1), *final(tick) <= *old(tick) + 1,""",
        loops=[L("while", "invariant vx_n <= topic_alias_max as u32 + 1, 1 <= vx_n, vx_r matches Some(x) ==> 1 <= x <= topic_alias_max && !aliases_by_alias@.contains_key(x) decreases topic_alias_max as u32 + 1 - vx_n"),
               L("while", "invariant vx_items@ == vx_gi, vx_i <= vx_items@.len(), vx_best matches Some(x) ==> aliases_by_alias@.contains_key(x) decreases vx_items@.len() - vx_i")],
        pre="broadcast use {lemma_known_ins, lemma_known_rem, lemma_same, lemma_over, axiom_str};", ))
    u.item(C, "TOPIC_ALIAS_LEN")
    u.fn(C, Fn("fit_packet_size", ret="r", spec="ensures r ==> fits(*packet, max_packet_size, extra as int),"))
    u.item(P, "SubscriptionIds"); u.item(P, "RecvPublish")
    u.impl(S.V5SESSION, "Session", [Fn("incr_server_packet_id", ret="r", spec="""
        ensures r == old(self).server_packet_id, *final(self) == (Session { server_packet_id: pid_next(old(self).server_packet_id), ..*old(self) }),""")])
    u.fn(P, Fn("recv_publish", ret="r", spec="""
        requires swf(*old(session)), msg.topic_name@.len() > 0, msg.properties matches Some(p) ==> p.topic_alias is None, old(session).server_alias_tick < u64::MAX
        ensures swf(*final(session)), final(session).topic_alias_max == old(session).topic_alias_max,
            match r { Some((_, Some(p))) => means(sknown(*old(session)), p, old(session).topic_alias_max, *msg.topic_name) && sknown(*final(session)) == told(sknown(*old(session)), p),
                _ => sknown(*final(session)) == sknown(*old(session)) },""", pre="broadcast use {lemma_known_ins, lemma_same, lemma_qpush, lemma_qskip};"))
    u.fn(C, Fn("handle_pendings", ret="r", attrs="#[verifier::loop_isolation(false)]", spec="""
        requires swf(*old(session)), old(session).server_alias_tick < 0x7fff_ffff_ffff_ffff
        ensures swf(*final(session)), final(session).topic_alias_max == old(session).topic_alias_max,
            sknown(*final(session)) == told_all(sknown(*old(session)), r@),
            exists|n: int, idx: Seq<int>| #[trigger] faithful(sknown(*old(session)), r@, old(session).topic_alias_max, old(session).pending_packets.packets@.skip(n), idx),
        """, pre="""broadcast use {lemma_known_ins, lemma_same, lemma_qpush, lemma_qskip}; let ghost vx_m = sknown(*session); let ghost mut vx_tr = Seq::<int>::empty(); let ghost vx_t0 = session.server_alias_tick;""",
        loops=[L("loop", """invariant pending_packets.wf(), qclean(pending_packets.packets@), pending_packets.packets@.len() == vx_q0.len(), vx_q0.len() <= pending_packets.max_packets,
                forall|i: int| 0 <= i < vx_q0.len() ==> skin(#[trigger] pending_packets.packets@[i]) == skin(vx_q0[i]),
                awf(topic_alias_max, aliases_by_topic@, aliases_by_alias@), known(aliases_by_alias@) == told_all(vx_m, packets@), faithful(vx_m, packets@, topic_alias_max, vx_q0, vx_tr),
                start_idx <= 0xffff, *tick <= vx_t0 + start_idx
            decreases 0x10000 - start_idx""", before="let ghost vx_q0 = pending_packets.packets@; proof { assert(packets@.len() == 0); assert(told_all(vx_m, packets@) == vx_m); }",
            body_pre="let ghost vx_p0 = packets@; let ghost vx_a0 = known(aliases_by_alias@);",
            body_post="""proof { if packets@.len() > vx_p0.len() { let p = packets@.last(); assert(packets@ == vx_p0.push(p)); assert(is_pub(p) ==> means(vx_a0, p, topic_alias_max, ptopic(vx_q0[start_idx as int - 1]))); lemma_told_push(vx_m, vx_p0, p);
                lemma_faithful_push(vx_m, vx_p0, p, topic_alias_max, vx_q0, vx_tr, start_idx as int - 1); vx_tr = vx_tr.push(start_idx as int - 1); } else { assert(packets@ == vx_p0); } }"""),
            L("for", "invariant pending_packets.wf(), qclean(pending_packets.packets@)")]))
    return u

"""C12: PUBLISH and its acknowledgements on a v3 session (v3/packet/publish.rs)."""
from vunit import Unit, Fn, L
from vstd_hm import HM
import sess_common as S, v3_out as O, pub_common as P
F = O.P
SPEC = r"""
pub type Row = (ClientId, Str, QoS);
/// the publisher
pub struct Who { pub id: ClientId, pub ident: Str }
pub open spec fn who(s: Session) -> Who { Who { id: s.client_id, ident: s.client_identifier } }
/// v3 has no no-local
pub open spec fn left_out(s: Who, id: ClientId, f: Str) -> bool { false }
/// the message to hand on
pub struct Out { pub topic: TopicName, pub retain: bool, pub qos: QoS, pub payload: Bytes, pub encode_len: usize }
pub open spec fn out(m: SendPublish) -> Out { Out { topic: *m.topic_name, retain: m.retain, qos: m.qos, payload: *m.payload, encode_len: m.encode_len } }
pub open spec fn at(r: Row, id: ClientId, f: Str) -> bool { r.0 == id && r.1 == f }
/// the rows are the hits, each once
#[verifier::opaque]
pub open spec fn rows_ok(rs: Seq<Row>, m: Map<(ClientId, Str), QoS>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < rs.len() ==> !at(#[trigger] rs[i], (#[trigger] rs[j]).0, rs[j].1)
    &&& forall|i: int| 0 <= i < rs.len() ==> m.contains_key(((#[trigger] rs[i]).0, rs[i].1)) && m[(rs[i].0, rs[i].1)] == rs[i].2
    &&& forall|id: ClientId, f: Str| #[trigger] m.contains_key((id, f)) ==> exists|i: int| 0 <= i < rs.len() && at(#[trigger] rs[i], id, f) }
pub proof fn lemma_rows0() ensures rows_ok(Seq::<Row>::empty(), Map::empty()) { reveal(rows_ok); }
pub proof fn lemma_hit(rs: Seq<Row>, m: Map<(ClientId, Str), QoS>, id: ClientId, f: Str, q: QoS)
    requires rows_ok(rs, m), !m.contains_key((id, f)) ensures rows_ok(rs.push((id, f, q)), m.insert((id, f), q))
{
    reveal(rows_ok); let ns = rs.push((id, f, q)); let n = m.insert((id, f), q); let l = rs.len() as int;
    assert forall|i: int, j: int| 0 <= i < j < ns.len() implies !at(#[trigger] ns[i], (#[trigger] ns[j]).0, ns[j].1) by { assert(ns[i] == rs[i]); if j < l { assert(ns[j] == rs[j]); } else { assert(m.contains_key((rs[i].0, rs[i].1))); } }
    assert forall|i: int| 0 <= i < ns.len() implies n.contains_key(((#[trigger] ns[i]).0, ns[i].1)) && n[(ns[i].0, ns[i].1)] == ns[i].2 by { if i < l { assert(ns[i] == rs[i]); assert(m.contains_key((rs[i].0, rs[i].1))); } }
    assert forall|c: ClientId, g: Str| #[trigger] n.contains_key((c, g)) implies exists|i: int| 0 <= i < ns.len() && at(#[trigger] ns[i], c, g) by {
        if (c, g) == (id, f) { assert(at(ns[l], c, g)); } else { assert(m.contains_key((c, g))); let i = choose|i: int| 0 <= i < rs.len() && at(#[trigger] rs[i], c, g); assert(ns[i] == rs[i]); assert(at(ns[i], c, g)); } }
}
/// the message as it goes to one subscription
pub open spec fn msg_for(p: Out, r: Row) -> NormalMessage { NormalMessage::PublishV3 { retain: p.retain, qos: p.qos, topic_name: p.topic, payload: p.payload, subscribe_filter: r.1, subscribe_qos: r.2, encode_len: p.encode_len } }
/// what of it goes to one client
pub open spec fn msgs_for(p: Out, rs: Seq<Row>, id: ClientId) -> Seq<NormalMessage> decreases rs.len() {
    if rs.len() == 0 { Seq::empty() } else if rs.last().0 == id { msgs_for(p, rs.drop_last(), id).push(msg_for(p, rs.last())) } else { msgs_for(p, rs.drop_last(), id) } }
pub open spec fn reachable(x: Map<ClientId, BroadcastPackets>, g: GlobalState, rs: Seq<Row>) -> nat decreases rs.len() { if rs.len() == 0 { 0 } else { reachable(x, g, rs.drop_last()) + if reached(x, g, rs.last().0) { 1nat } else { 0 } } }
#[verifier::opaque]
pub open spec fn retained(a: GlobalState, b: GlobalState, ident: Str, p: Out) -> bool {
    if !p.retain { b.retain_table@ == a.retain_table@ } else if p.payload@.len() == 0 { b.retain_table@ == a.retain_table@.remove(p.topic) }
    else { b.retain_table@.contains_key(p.topic) && b.retain_table@ == a.retain_table@.insert(p.topic, b.retain_table@[p.topic]) && ({ let c = b.retain_table@[p.topic];
        c.client_identifier == ident && c.qos == p.qos && c.topic_name == p.topic && c.payload == p.payload && c.properties is None && c.encode_len == p.encode_len && clock_read(c.stored_at) }) } }
/// queue of one client after the rows rs
pub open spec fn got(x: Map<ClientId, BroadcastPackets>, y: Map<ClientId, BroadcastPackets>, g: GlobalState, id: ClientId, t: Seq<NormalMessage>) -> bool {
    if t.len() == 0 || !reached(x, g, id) { same_at(x, y, id) }
    else { y.contains_key(id) && if x.contains_key(id) { y[id] == (BroadcastPackets { msgs: y[id].msgs, ..x[id] }) && y[id].msgs@ == x[id].msgs@ + t }
        else { sender_of(g.registry, id) matches Some(s) && y[id].sink == sink_of(s) && y[id].flushed && y[id].msgs@ == t } } }
#[verifier::opaque]
pub open spec fn handing(x: Map<ClientId, BroadcastPackets>, y: Map<ClientId, BroadcastPackets>, g: GlobalState, p: Out, rs: Seq<Row>) -> bool { forall|id: ClientId| #[trigger] got(x, y, g, id, msgs_for(p, rs, id)) }
/// every subscription that wants the message gets it once
#[verifier::opaque]
pub open spec fn one_each(w: Who, a: Bc, b: Bc, g: GlobalState, h: GlobalState, p: Out) -> bool {
    &&& hits_ok(h.hits@, g, w, p.topic@)
    &&& rows_ok(h.rows@, h.hits@)
    &&& handing(a.0@, b.0@, g, p, h.rows@)
    &&& b.1 == a.1 + reachable(a.0@, g, h.rows@) }
pub type Bc = (HM<ClientId, BroadcastPackets>, usize);
pub open spec fn bc(s: Session) -> Bc { (s.broadcast_packets, s.broadcast_packets_cnt) }
pub open spec fn but_hits(g: GlobalState, h: GlobalState) -> bool { h == (GlobalState { retain_table: h.retain_table, hits: h.hits, rows: h.rows, ..g }) }
pub proof fn lemma_go(x: Map<ClientId, BroadcastPackets>, g: GlobalState, p: Out) ensures handing(x, x, g, p, Seq::empty()), reachable(x, g, Seq::empty()) == 0 { reveal(handing); }
pub proof fn lemma_step(x: Map<ClientId, BroadcastPackets>, y: Map<ClientId, BroadcastPackets>, z: Map<ClientId, BroadcastPackets>, g: GlobalState, p: Out, rs: Seq<Row>, r: Row)
    requires handing(x, y, g, p, rs),
        reached(y, g, r.0) ==> z.contains_key(r.0) && z == y.insert(r.0, z[r.0]) && pushed(y, z, g, r.0, msg_for(p, r)),
        !reached(y, g, r.0) ==> z == y
    ensures handing(x, z, g, p, rs.push(r)), reached(x, g, r.0) == reached(y, g, r.0), reachable(x, g, rs.push(r)) == reachable(x, g, rs) + if reached(x, g, r.0) { 1nat } else { 0 }
{   reveal(handing); let ns = rs.push(r); assert(ns.drop_last() =~= rs);
    let k = r.0; assert(got(x, y, g, k, msgs_for(p, rs, k))); let t = msgs_for(p, rs, k);
    assert(reached(x, g, k) == reached(y, g, k));
    assert forall|id: ClientId| #[trigger] got(x, z, g, id, msgs_for(p, ns, id)) by { assert(got(x, y, g, id, msgs_for(p, rs, id)));
        if id == k && reached(x, g, k) { if x.contains_key(k) { assert(z[k].msgs@ =~= x[k].msgs@ + t.push(msg_for(p, r))); } else { assert(z[k].msgs@ =~= t.push(msg_for(p, r))); } } } }
pub proof fn lemma_end(w: Who, a: Bc, b: Bc, g: GlobalState, g0: GlobalState, h: GlobalState, p: Out)
    requires handing(a.0@, b.0@, g, p, h.rows@), rows_ok(h.rows@, h.hits@), hits_ok(h.hits@, g, w, p.topic@), b.1 == a.1 + reachable(a.0@, g, h.rows@), g0.config == g.config, g0.route_table == g.route_table, g0.registry == g.registry ensures one_each(w, a, b, g0, h, p)
{   reveal(one_each); reveal(handing);
    assert forall|id: ClientId, f: Str| #[trigger] wants(g, w, p.topic@, id, f) == wants(g0, w, p.topic@, id, f) by {}
    assert forall|id: ClientId| #[trigger] got(a.0@, b.0@, g0, id, msgs_for(p, h.rows@, id)) by { assert(got(a.0@, b.0@, g, id, msgs_for(p, h.rows@, id))); }
    lemma_same_count(a.0@, g, g0, h.rows@); }
pub proof fn lemma_same_count(x: Map<ClientId, BroadcastPackets>, g: GlobalState, g0: GlobalState, rs: Seq<Row>) requires g0.registry == g.registry ensures reachable(x, g, rs) == reachable(x, g0, rs) decreases rs.len() { if rs.len() > 0 { lemma_same_count(x, g, g0, rs.drop_last()); } }
"""
INV = "vx_w == who(vx_s), *session == vx_s, *global == vx_g, all_of(vx_g.route_table, vx_t@, vx_cs@), vx_n <= vx_cs@.len(), rows_ok(senders@, vx_seen), forall|i: int| vx_n <= i < vx_cs@.len() ==> !vx_dn.contains((#[trigger] filter_at(vx_cs@, i))->0), msg == vx_msg, *msg.topic_name == vx_t, "
CUR = "vx_n > 0, vx_c == vx_cs@[vx_n as int - 1], content == vx_c, subscribe_filter == vx_cur, filter_at(vx_cs@, vx_n as int - 1) == Some(vx_cur), plain(vx_cur), !vx_dn.contains(vx_cur), under(vx_g.route_table, vx_t@, vx_cur) == Some(vx_c), so_far(vx_seen, vx_g, vx_w, vx_t@, vx_dn, Some(vx_cur), vx_cds, vx_gds), forall|i: int| 0 <= i < vx_n - 1 ==> vx_dn.contains((#[trigger] filter_at(vx_cs@, i))->0), forall|i: int| vx_n <= i < vx_cs@.len() ==> (#[trigger] filter_at(vx_cs@, i)) != Some(vx_cur), "
GRP = "forall|x: Str| #[trigger] vx_c.groups@.contains_key(x) ==> group_name(x) && vx_c.groups@[x].some(), "
HIT = "assert(senders@ =~= vx_r0.push((%s, %s, %s))); lemma_hit(vx_r0, vx_seen, %s, %s, %s);"
def send(**k):
    return Fn("send_publish", spec="""
        ensures but_bcast(*old(session), *final(session)), but_hits(*old(global), *final(global)), retained(*old(global), *final(global), old(session).client_identifier, out(msg)),
            one_each(who(*old(session)), bc(*old(session)), bc(*final(session)), *old(global), *final(global), out(msg)),""",
        pre="let ghost vx_s = *session; let ghost vx_w = who(vx_s); let ghost vx_o = out(msg); let ghost vx_g0 = *global; let ghost vx_t = *msg.topic_name; let ghost vx_msg = msg;",
        loops=[
            L("while", "invariant " + INV + """ so_far(vx_seen, vx_g, vx_w, vx_t@, vx_dn, None, Set::empty(), Set::empty()), forall|i: int| 0 <= i < vx_n ==> vx_dn.contains((#[trigger] filter_at(vx_cs@, i))->0) decreases vx_cs@.len() - vx_n""",
              before="let ghost vx_g = *global; let ghost mut vx_seen = Map::<(ClientId, Str), QoS>::empty(); let ghost mut vx_dn = Set::<Str>::empty(); proof { lemma_start(vx_g, vx_w, vx_t@); lemma_rows0(); assert(senders@ =~= Seq::<Row>::empty()); }",
              body_pre="let ghost mut vx_cds = Set::<ClientId>::empty(); let ghost mut vx_gds = Set::<Str>::empty(); let ghost vx_c = vx_cs@[vx_n as int]; let ghost vx_cur = filter_at(vx_cs@, vx_n as int)->0; proof { lemma_next(vx_seen, vx_g, vx_w, vx_t@, vx_dn, vx_cur); assert(vx_c.topic_filter == Some(vx_cur)); assert(!vx_dn.contains(vx_cur)); assert forall|x: Str| #[trigger] vx_c.groups@.contains_key(x) implies group_name(x) && vx_c.groups@[x].some() by { assert(vx_cs@[vx_n as int].groups@.contains_key(x)); } }",
              body_post="proof { lemma_done(vx_seen, vx_g, vx_w, vx_t@, vx_dn, vx_cur, vx_cds, vx_gds, vx_c); vx_dn = vx_dn.insert(vx_cur); }",
              after="proof { lemma_all(vx_seen, vx_g, vx_w, vx_t@, vx_dn, vx_cs@); }"),
            L("while", "invariant " + INV + CUR + GRP + "vx_i <= vx_ms@.len(), forall|j: int| 0 <= j < vx_ms@.len() ==> vx_c.clients@.contains_key(*(#[trigger] vx_ms@[j]).0) && vx_c.clients@[*vx_ms@[j].0] == *vx_ms@[j].1, lists(vx_c.clients@, vx_ms@.map_values(|p: (&ClientId, &QoS)| *p.0)), forall|j: int| 0 <= j < vx_i ==> vx_cds.contains(*(#[trigger] vx_ms@[j]).0), forall|j: int| vx_i <= j < vx_ms@.len() ==> !vx_cds.contains(*(#[trigger] vx_ms@[j]).0) decreases vx_ms@.len() - vx_i",
              body_pre="let ghost vx_id = *vx_ms@[vx_i as int].0; let ghost vx_q = *vx_ms@[vx_i as int].1; let ghost vx_r0 = senders@; let ghost vx_i0 = vx_i as int; proof { lemma_client(vx_seen, vx_g, vx_w, vx_t@, vx_dn, vx_cur, vx_cds, vx_gds, vx_id); lemma_distinct(vx_c.clients@, vx_ms@, vx_i0); vx_cds = vx_cds.insert(vx_id); }",
              body_post="proof { assert(wants(vx_g, vx_w, vx_t@, vx_id, vx_cur) == Some(vx_q)); " + HIT % (("vx_id", "vx_cur", "vx_q") * 2) + " vx_seen = vx_seen.insert((vx_id, vx_cur), vx_q); }",
              after="proof { assert forall|x: ClientId| #[trigger] vx_c.clients@.contains_key(x) implies vx_cds.contains(x) by { let ks = vx_ms@.map_values(|p: (&ClientId, &QoS)| *p.0); assert(ks.contains(x)); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == x; assert(vx_cds.contains(*vx_ms@[j].0)); } }"),
            L("while", "invariant " + INV + CUR + GRP + "vx_j <= vx_gs@.len(), forall|x: ClientId| #[trigger] vx_c.clients@.contains_key(x) ==> vx_cds.contains(x), forall|j: int| 0 <= j < vx_gs@.len() ==> vx_c.groups@.contains_key(*(#[trigger] vx_gs@[j]).0) && vx_c.groups@[*vx_gs@[j].0] == *vx_gs@[j].1, lists(vx_c.groups@, vx_gs@.map_values(|p: (&Str, &SharedClients)| *p.0)), forall|j: int| 0 <= j < vx_j ==> vx_gds.contains(*(#[trigger] vx_gs@[j]).0), forall|j: int| vx_j <= j < vx_gs@.len() ==> !vx_gds.contains(*(#[trigger] vx_gs@[j]).0) decreases vx_gs@.len() - vx_j",
              body_pre="broadcast use {axiom_share}; let ghost vx_gn = *vx_gs@[vx_j as int].0; let ghost vx_gr = *vx_gs@[vx_j as int].1; let ghost vx_ch = chosen(vx_g.config, vx_gr, vx_w.ident@, vx_t@); let ghost vx_r0 = senders@; proof { lemma_distinct(vx_c.groups@, vx_gs@, vx_j as int); }",
              body_post="proof { assert(client_id == vx_ch.0); assert(share_of(vx_ff) == Some((vx_gn, vx_cur))); lemma_group(vx_seen, vx_g, vx_w, vx_t@, vx_dn, vx_cur, vx_cds, vx_gds, vx_gn, vx_ff, vx_ch.0, vx_c); " + HIT % (("vx_ch.0", "vx_ff", "vx_ch.1") * 2) + " vx_gds = vx_gds.insert(vx_gn); vx_seen = vx_seen.insert((vx_ch.0, vx_ff), vx_ch.1); }",
              after="proof { assert forall|x: Str| #[trigger] vx_c.groups@.contains_key(x) implies vx_gds.contains(x) by { let ks = vx_gs@.map_values(|p: (&Str, &SharedClients)| *p.0); assert(ks.contains(x)); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == x; assert(vx_gds.contains(*vx_gs@[j].0)); } }"),
            L("while", "invariant msg == vx_msg, vx_o == out(vx_msg), *global == vx_g, 0 <= vx_k <= vx_all.len(), senders@ == vx_all.skip(vx_k), but_bcast(vx_s, *session), handing(vx_s.broadcast_packets@, session.broadcast_packets@, vx_g, vx_o, vx_all.take(vx_k)), session.broadcast_packets_cnt == vx_s.broadcast_packets_cnt + reachable(vx_s.broadcast_packets@, vx_g, vx_all.take(vx_k)) + (vx_all.len() - vx_k) decreases senders@.len()",
              before="let ghost vx_all = senders@; let ghost mut vx_k: int = 0; proof { assert(vx_all.skip(0) =~= vx_all); assert(vx_all.take(0) =~= Seq::<Row>::empty()); lemma_go(vx_s.broadcast_packets@, vx_g, vx_o); }",
              body_pre="let ghost vx_b0 = *session; let ghost vx_row = vx_all[vx_k]; proof { assert(senders@.skip(1) =~= vx_all.skip(vx_k + 1)); assert(senders@[0] == vx_row); assert(vx_all.take(vx_k + 1) =~= vx_all.take(vx_k).push(vx_row)); }",
              body_post="proof { let y = vx_b0.broadcast_packets@; let z = session.broadcast_packets@; assert(vx_pb == msg_for(vx_o, vx_row)); if reached(y, vx_g, vx_row.0) { assert(z =~= y.insert(vx_row.0, z[vx_row.0])); assert(pushed(y, z, vx_g, vx_row.0, vx_pb)); } lemma_step(vx_s.broadcast_packets@, y, z, vx_g, vx_o, vx_all.take(vx_k), vx_row); vx_k = vx_k + 1; }",
              after="proof { assert(vx_all.take(vx_k) =~= vx_all); global.hits@ = vx_seen; global.rows@ = vx_all; lemma_end(vx_w, bc(vx_s), bc(*session), vx_g, vx_g0, *global, vx_o); reveal(retained); }"),
        ], **k)
HANDLE = r"""
#[verifier::external_body]
pub fn vx_total_len(p: &Publish) -> (r: usize) ensures r == tlen(*p) { unimplemented!() }
pub uninterp spec fn tlen(p: Publish) -> usize;
/// ahash over everything in the packet but the dup flag (equal hashes count as equal messages)
#[verifier::external_body]
pub struct AHasher { x: u64 }
pub uninterp spec fn fp(retain: bool, qos_pid: QosPid, topic: TopicName, payload: Bytes) -> u64;
pub open spec fn fpp(p: Publish) -> u64 { fp(p.retain, p.qos_pid, p.topic_name, p.payload) }
impl AHasher {
    pub uninterp spec fn val(self) -> u64;
    #[verifier::external_body]
    pub fn default() -> (r: AHasher) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&self) -> (r: u64) ensures r == self.val() { unimplemented!() }
}
impl Publish { #[verifier::external_body] pub fn hash(&self, h: &mut AHasher) ensures final(h).val() == fpp(*self) { unimplemented!() } }
pub open spec fn pid_of(p: Publish) -> Pid { match p.qos_pid { QosPid::Level1(x) => x, QosPid::Level2(x) => x, QosPid::Level0 => PidW(0) } }
/// its packet id is not released yet
pub open spec fn held(s: Session, p: Publish) -> bool { p.qos_pid is Level2 && s.qos2_pids@.contains_key(pid_of(p)) }
pub open spec fn same_message(s: Session, p: Publish) -> bool { s.qos2_pids@[pid_of(p)] == fpp(p) }
pub open spec fn refused(s: Session, p: Publish) -> bool {
    p.topic_name@.len() == 0 || first_is(p.topic_name@, 36u8) || (p.qos_pid is Level0 && p.dup) || (held(s, p) && (!same_message(s, p) || !p.dup)) }
pub open spec fn message(p: Publish) -> Out { Out { topic: p.topic_name, retain: p.retain, qos: p.qos_pid.q(), payload: p.payload, encode_len: tlen(p) } }
/// what was given to the subscribers of the topic
pub open spec fn routed(a: Session, b: Session, g: GlobalState, h: GlobalState, p: Publish) -> bool {
    retained(g, h, a.client_identifier, message(p)) && one_each(who(a), bc(a), bc(b), g, h, message(p)) }
pub open spec fn acked(p: Publish, r: Option<Packet>) -> bool {
    match p.qos_pid { QosPid::Level0 => r is None, QosPid::Level1(id) => r == Some(Packet::Puback(id)), QosPid::Level2(id) => r == Some(Packet::Pubrec(id)) } }
"""
def publish(**k):
    return Fn("handle_publish", ret="r", spec="""
        ensures ({ let a = *old(session); let b = *final(session); let g = *old(global); let h = *final(global); let p = packet;
            &&& but_pub(a, b) && but_hits(g, h)
            // refused: nothing is delivered
            &&& r is Err <==> refused(a, p)
            &&& r is Err ==> b == a && h == g
            &&& r matches Ok(k) ==> acked(p, k)
            // a message that came before
            &&& r is Ok && held(a, p) ==> b == a && h == g
            // a new one
            &&& r is Ok && !held(a, p) ==> routed(a, b, g, h, p) && b.qos2_pids@ == (if p.qos_pid is Level2 { a.qos2_pids@.insert(pid_of(p), fpp(p)) } else { a.qos2_pids@ }) }),""",
        pre="broadcast use {axiom_str};", **k)
PEND = "final(session).pending_packets.wf(), but_pending(*old(session), *final(session)), final(session).pending_packets.same_conf(old(session).pending_packets), final(session).pending_packets.packets@.len() == old(session).pending_packets.packets@.len(), "
def acks(**k):
    def done(q): return PEND + f"forall|i: int| 0 <= i < old(session).pending_packets.packets@.len() ==> complete_step(old(session).pending_packets.packets@, old(session).pending_packets.window(), i, pid, QoS::{q}, #[trigger] final(session).pending_packets.packets@[i]),"
    return [
        Fn("handle_puback", spec="requires old(session).pending_packets.wf() ensures " + done("Level1"), **k),
        Fn("handle_pubrec", ret="r", spec="requires old(session).pending_packets.wf() ensures " + PEND + """forall|i: int| 0 <= i < old(session).pending_packets.packets@.len() ==> pubrec_step(old(session).pending_packets.packets@, old(session).pending_packets.window(), i, pid, #[trigger] final(session).pending_packets.packets@[i]),
            r == Packet::Pubrel(pid),""", **k),
        Fn("handle_pubrel", ret="r", spec="""ensures but_qos2(*old(session), *final(session)), final(session).qos2_pids@ == old(session).qos2_pids@.remove(pid),
            r is Ok <==> old(session).qos2_pids@.contains_key(pid), r matches Ok(k) ==> k == Packet::Pubcomp(pid),""", **k),
        Fn("handle_pubcomp", spec="requires old(session).pending_packets.wf() ensures " + done("Level2"), **k),
    ]
def unit():
    u = Unit("c12", flags=S.FLAGS + ["--rlimit", "80"], uses="use std::collections::VecDeque;\nuse std::cmp;\nuse vstd::std_specs::cmp::*;\n", subs=[("crate :: state :: ClientId", "ClientId")] + S.IOSUBS + P.SUBS + S.SUBS + S.V5SUBS + O.SUBS, literals=True)
    S.pending(u)
    u.raw("pub type TopicFilter = Str;\n" + S.CID + HM + S.HMX + S.STR + S.OPAQUE + S.PIDS + O.TYPES.replace("#[verifier::external_body]\npub struct BroadcastPackets { x: u8 }\n", "") + S.IO)
    u.item(O.SESSION, "PubPacket"); u.item(P.ST, "NormalMessage"); u.item(P.OL, "BroadcastPackets"); u.item(O.SESSION, "Session")
    u.item(P.RE, "RetainContent"); u.item(P.CFG, "SharedSubscriptionMode"); u.item(P.RT, "RouteContent")
    u.item(F, "SendPublish")
    u.raw(P.TXT + P.ORD + P.WORLD + SPEC + P.LEMMAS)
    u.impl(P.RE, "RetainContent", [Fn("new", ret="r", spec="ensures r.client_identifier == client_identifier, r.qos == qos, r.topic_name == topic_name, r.payload == payload, r.properties == properties, r.encode_len == encode_len, clock_read(r.stored_at),")])
    u.frame(O.SESSION, "Session", "but_bcast", ["broadcast_packets", "broadcast_packets_cnt"])
    u.frame(O.SESSION, "Session", "but_pub", ["broadcast_packets", "broadcast_packets_cnt", "qos2_pids"])
    u.frame(O.SESSION, "Session", "but_pending", ["pending_packets"])
    u.frame(O.SESSION, "Session", "but_qos2", ["qos2_pids"])
    u.raw(HANDLE)
    u.fn(F, send())
    u.fn(F, publish())
    for f in acks(): u.fn(F, f)
    return u

"""C13: PUBLISH and its acknowledgements on a v5 session (v5/packet/publish.rs)."""
from vunit import Unit, Fn, L
from vstd_hm import HM
import sess_common as S, v5_out as O, conn5 as N, pub_common as P
F = O.P
SUBS = [
    ("if let Some ( ( _ , filters , max_qos ) ) = senders . iter_mut ( ) . find ( | ( receiver_id , _ , _ ) | * receiver_id == client_id ) { $A } else { $B }", "if let Some(vx_k) = vx_pos(&senders, client_id) { let mut vx_e = vx_take(&mut senders, vx_k); { let filters = &mut vx_e.1; let max_qos = &mut vx_e.2; $A } vx_put(&mut senders, vx_k, vx_e); } else { $B }"),
    ("if let Some ( ( _ , filters , max_qos ) ) = senders . iter_mut ( ) . find ( | ( receiver_id , _ , _ ) | receiver_id == client_id ) { $A } else { $B }", "if let Some(vx_k) = vx_pos(&senders, *client_id) { let mut vx_e = vx_take(&mut senders, vx_k); { let filters = &mut vx_e.1; let max_qos = &mut vx_e.2; $A } vx_put(&mut senders, vx_k, vx_e); } else { $B }"),
    ("crate :: state :: ClientId", "ClientId"),
]
SPEC = r"""
pub type Row = (ClientId, Vec<TopicFilter>, QoS);
/// the publisher
pub struct Who { pub id: ClientId, pub ident: Str, pub subs: HM<TopicFilter, SubscriptionData> }
pub open spec fn who(s: Session) -> Who { Who { id: s.client_id, ident: s.client_identifier, subs: s.subscribes } }
pub open spec fn left_out(s: Who, id: ClientId, f: Str) -> bool { id == s.id && (!s.subs@.contains_key(f) || s.subs@[f].options.no_local) }
/// the message to hand on
pub struct Out { pub topic: TopicName, pub retain: bool, pub qos: QoS, pub payload: Bytes, pub props: PublishProperties, pub encode_len: usize }
pub open spec fn out(m: SendPublish) -> Out { Out { topic: *m.topic_name, retain: m.retain, qos: m.qos, payload: *m.payload, props: *m.properties, encode_len: m.encode_len } }
pub open spec fn row_has(r: Row, f: Str) -> bool { r.1@.contains(f) }
/// the rows are the hits by client: its filters, each once, and the largest QoS among them
#[verifier::opaque]
pub open spec fn row_ok(r: Row, m: Map<(ClientId, Str), QoS>) -> bool {
    &&& r.1@.no_duplicates() && r.1@.len() > 0
    &&& forall|f: Str| #[trigger] row_has(r, f) <==> m.contains_key((r.0, f))
    &&& forall|f: Str| #[trigger] m.contains_key((r.0, f)) ==> qn(m[(r.0, f)]) <= qn(r.2)
    &&& exists|f: Str| #[trigger] m.contains_key((r.0, f)) && m[(r.0, f)] == r.2 }
#[verifier::opaque]
pub open spec fn rows_ok(rs: Seq<Row>, m: Map<(ClientId, Str), QoS>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < rs.len() ==> (#[trigger] rs[i]).0 != (#[trigger] rs[j]).0
    &&& forall|i: int| 0 <= i < rs.len() ==> row_ok(#[trigger] rs[i], m)
    &&& forall|id: ClientId, f: Str| #[trigger] m.contains_key((id, f)) ==> exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).0 == id }
#[verifier::external_body]
pub fn vx_pos(rs: &Vec<Row>, id: ClientId) -> (r: Option<usize>) ensures r == find(rs@, id), match r { Some(k) => k < rs@.len() && rs@[k as int].0 == id, None => forall|i: int| 0 <= i < rs@.len() ==> (#[trigger] rs@[i]).0 != id } { unimplemented!() }
pub uninterp spec fn find(rs: Seq<Row>, id: ClientId) -> Option<usize>;
pub uninterp spec fn hole() -> Row;
#[verifier::external_body]
pub fn vx_take(rs: &mut Vec<Row>, k: usize) -> (r: Row) requires k < old(rs)@.len() ensures r == old(rs)@[k as int], final(rs)@ == old(rs)@.update(k as int, hole()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_put(rs: &mut Vec<Row>, k: usize, r: Row) requires k < old(rs)@.len() ensures final(rs)@ == old(rs)@.update(k as int, r) { unimplemented!() }
pub proof fn lemma_hit(rs: Seq<Row>, ns: Seq<Row>, m: Map<(ClientId, Str), QoS>, id: ClientId, f: Str, q: QoS, k: Option<usize>)
    requires rows_ok(rs, m), !m.contains_key((id, f)),
        match k { Some(k) => k < rs.len() && rs[k as int].0 == id && ns.len() == rs.len() && (forall|i: int| 0 <= i < rs.len() && i != k ==> ns[i] == rs[i]) && ns[k as int].0 == id && ns[k as int].1@ == rs[k as int].1@.push(f) && ns[k as int].2 == qmax(rs[k as int].2, q),
            None => (forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).0 != id) && ns.len() == rs.len() + 1 && ns.drop_last() == rs && ns.last().0 == id && ns.last().1@ == Seq::<Str>::empty().push(f) && ns.last().2 == q }
    ensures rows_ok(ns, m.insert((id, f), q))
{
    reveal(rows_ok); reveal(row_ok);
    let n = m.insert((id, f), q);
    assert forall|i: int| 0 <= i < ns.len() implies row_ok(#[trigger] ns[i], n) by {
        let r = ns[i];
        if r.0 != id {
            assert(i < rs.len() && ns[i] == rs[i]) by { if i < rs.len() && k is None { assert(ns.drop_last()[i] == rs[i]); } }
            assert(row_ok(rs[i], m));
            assert forall|g: Str| #[trigger] row_has(r, g) <==> n.contains_key((r.0, g)) by { assert(row_has(rs[i], g) <==> m.contains_key((r.0, g))); }
            let w = choose|g: Str| #[trigger] m.contains_key((r.0, g)) && m[(r.0, g)] == r.2; assert(n.contains_key((r.0, w)) && n[(r.0, w)] == r.2);
        } else if k is Some {
            let o = rs[k->0 as int]; assert(i == k->0) by { if i != k->0 { assert(ns[i] == rs[i]); assert(rs[i].0 != o.0) by { if i < k->0 { } else { } } } }
            assert(row_ok(o, m));
            assert(r.1@ == o.1@.push(f)); assert(!row_has(o, f)); 
            assert forall|g: Str| #[trigger] row_has(r, g) <==> n.contains_key((r.0, g)) by {
                assert(row_has(o, g) <==> m.contains_key((o.0, g)));
                if row_has(r, g) { let x = choose|x: int| 0 <= x < r.1@.len() && r.1@[x] == g; if x < o.1@.len() { assert(o.1@[x] == g); } }
                if row_has(o, g) { let x = choose|x: int| 0 <= x < o.1@.len() && o.1@[x] == g; assert(r.1@[x] == g); }
                if g == f { assert(r.1@[o.1@.len() as int] == f); } }
            assert(r.1@.no_duplicates()) by { assert forall|x: int, y: int| 0 <= x < y < r.1@.len() implies r.1@[x] != r.1@[y] by { if y == o.1@.len() { if r.1@[x] == f { assert(o.1@[x] == f); assert(row_has(o, f)); } } } }
            let w = choose|g: Str| #[trigger] m.contains_key((o.0, g)) && m[(o.0, g)] == o.2;
            if r.2 == o.2 { assert(n.contains_key((id, w)) && n[(id, w)] == r.2); } else { assert(n.contains_key((id, f)) && n[(id, f)] == r.2); }
            assert forall|g: Str| #[trigger] n.contains_key((r.0, g)) implies qn(n[(r.0, g)]) <= qn(r.2) by { if g != f { assert(m.contains_key((o.0, g))); } }
        } else {
            assert(i == rs.len()) by { if i < rs.len() { assert(ns.drop_last()[i] == rs[i]); } }
            assert(r.1@[0] == f);
            assert forall|g: Str| #[trigger] row_has(r, g) <==> n.contains_key((r.0, g)) by { if m.contains_key((id, g)) { let x = choose|x: int| 0 <= x < rs.len() && (#[trigger] rs[x]).0 == id; assert(rs[x].0 != id); } }
            assert(n.contains_key((id, f)) && n[(id, f)] == r.2);
            assert forall|g: Str| #[trigger] n.contains_key((r.0, g)) implies qn(n[(r.0, g)]) <= qn(r.2) by { if g != f { assert(m.contains_key((id, g))); let x = choose|x: int| 0 <= x < rs.len() && (#[trigger] rs[x]).0 == id; assert(rs[x].0 != id); } }
        } }
    assert forall|i: int, j: int| 0 <= i < j < ns.len() implies (#[trigger] ns[i]).0 != (#[trigger] ns[j]).0 by {
        if k is None { if i < rs.len() { assert(ns.drop_last()[i] == rs[i]); } if j < rs.len() { assert(ns.drop_last()[j] == rs[j]); } }
        else { assert(ns[i].0 == rs[i].0); assert(ns[j].0 == rs[j].0); } }
    assert forall|c: ClientId, g: Str| #[trigger] n.contains_key((c, g)) implies exists|i: int| 0 <= i < ns.len() && (#[trigger] ns[i]).0 == c by {
        if (c, g) == (id, f) { match k { Some(k) => { assert(ns[k as int].0 == id); }, None => { assert(ns[rs.len() as int].0 == id); } } }
        else { assert(m.contains_key((c, g))); let x = choose|x: int| 0 <= x < rs.len() && (#[trigger] rs[x]).0 == c; if k is None { assert(ns.drop_last()[x] == rs[x]); } assert(ns[x].0 == c); } }
}
/// the message as it goes to one subscriber
pub open spec fn msg_for(p: Out, m: NormalMessage, h: Map<(ClientId, Str), QoS>, id: ClientId) -> bool {
    m matches NormalMessage::PublishV5 { retain, qos, topic_name, payload, subscribe_filters, subscribe_qos, properties, encode_len }
        && retain == p.retain && qos == p.qos && topic_name == p.topic && payload == p.payload && properties == p.props && encode_len == p.encode_len
        && row_ok((id, subscribe_filters, subscribe_qos), h) }
#[verifier::opaque]
pub open spec fn retained(a: GlobalState, b: GlobalState, ident: Str, p: Out) -> bool {
    if !p.retain { b.retain_table@ == a.retain_table@ } else if p.payload@.len() == 0 { b.retain_table@ == a.retain_table@.remove(p.topic) }
    else { b.retain_table@.contains_key(p.topic) && b.retain_table@ == a.retain_table@.insert(p.topic, b.retain_table@[p.topic]) && ({ let c = b.retain_table@[p.topic];
        c.client_identifier == ident && c.qos == p.qos && c.topic_name == p.topic && c.payload == p.payload && c.properties == Some(p.props) && c.encode_len == p.encode_len && clock_read(c.stored_at) }) } }
pub open spec fn msg_at(b: Map<ClientId, BroadcastPackets>, id: ClientId) -> NormalMessage { b[id].msgs@.last() }
/// every client with a subscription that wants the message gets it once
#[verifier::opaque]
pub open spec fn one_each(w: Who, a: Bc, b: Bc, g: GlobalState, h: GlobalState, p: Out) -> bool {
    let x = a.0@; let y = b.0@;
    &&& hits_ok(h.hits@, g, w, p.topic@)
    &&& forall|id: ClientId| #[trigger] h.sent@.contains(id) ==> pushed(x, y, g, id, msg_at(y, id)) && msg_for(p, msg_at(y, id), h.hits@, id)
    &&& forall|id: ClientId| !(#[trigger] h.sent@.contains(id)) ==> same_at(x, y, id)
    &&& forall|id: ClientId, f: Str| #[trigger] h.hits@.contains_key((id, f)) && reached(x, g, id) ==> h.sent@.contains(id)
    &&& b.1 == a.1 + h.sent@.len() }
pub type Bc = (HM<ClientId, BroadcastPackets>, usize);
pub open spec fn bc(s: Session) -> Bc { (s.broadcast_packets, s.broadcast_packets_cnt) }
pub open spec fn but_hits(g: GlobalState, h: GlobalState) -> bool { h == (GlobalState { retain_table: h.retain_table, hits: h.hits, sent: h.sent, ..g }) }
"""

PUSH = r"""
/// rows 0..k have been handed on
#[verifier::opaque]
pub open spec fn handing(a: Session, b: Session, g: GlobalState, h: Map<(ClientId, Str), QoS>, p: Out, rs: Seq<Row>, k: int, sent: Set<ClientId>) -> bool {
    let x = a.broadcast_packets@; let y = b.broadcast_packets@;
    &&& forall|id: ClientId| #[trigger] sent.contains(id) ==> pushed(x, y, g, id, msg_at(y, id)) && msg_for(p, msg_at(y, id), h, id)
    &&& forall|id: ClientId| !(#[trigger] sent.contains(id)) ==> same_at(x, y, id)
    &&& forall|i: int| 0 <= i < k ==> reached(x, g, (#[trigger] rs[i]).0) ==> sent.contains(rs[i].0)
    &&& forall|i: int| k <= i < rs.len() ==> !sent.contains((#[trigger] rs[i]).0)
    &&& b.broadcast_packets_cnt == a.broadcast_packets_cnt + sent.len() + (rs.len() - k) }
pub proof fn lemma_end(a: Session, b: Session, g: GlobalState, h: Map<(ClientId, Str), QoS>, p: Out, rs: Seq<Row>, sent: Set<ClientId>, g0: GlobalState, gl: GlobalState)
    requires handing(a, b, g, h, p, rs, rs.len() as int, sent), rows_ok(rs, h), hits_ok(h, g, who(a), p.topic@), gl.hits@ == h, gl.sent@ == sent, g0.config == g.config, g0.route_table == g.route_table, g0.registry == g.registry ensures one_each(who(a), bc(a), bc(b), g0, gl, p)
{   reveal(rows_ok); reveal(one_each); reveal(handing);
    assert forall|id: ClientId, f: Str| #[trigger] wants(g, who(a), p.topic@, id, f) == wants(g0, who(a), p.topic@, id, f) by {}
    assert forall|id: ClientId, f: Str| #[trigger] h.contains_key((id, f)) && reached(a.broadcast_packets@, g0, id) implies sent.contains(id) by { let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).0 == id; assert(sent.contains(rs[i].0)); } }
pub proof fn lemma_go(a: Session, b: Session, g: GlobalState, h: Map<(ClientId, Str), QoS>, p: Out, rs: Seq<Row>)
    requires b.broadcast_packets == a.broadcast_packets, b.broadcast_packets_cnt == a.broadcast_packets_cnt + rs.len() ensures handing(a, b, g, h, p, rs, 0, Set::empty()) { reveal(handing); }
/// one more row
pub open spec fn row_sent(y: Map<ClientId, BroadcastPackets>, z: Map<ClientId, BroadcastPackets>, g: GlobalState, id: ClientId, m: NormalMessage) -> bool { z.contains_key(id) && z == y.insert(id, z[id]) && pushed(y, z, g, id, m) }
pub proof fn lemma_step(a: Session, b: Session, c: Session, g: GlobalState, h: Map<(ClientId, Str), QoS>, p: Out, rs: Seq<Row>, k: int, sent: Set<ClientId>, m: NormalMessage)
    requires handing(a, b, g, h, p, rs, k, sent), rows_ok(rs, h), 0 <= k < rs.len(),
        reached(b.broadcast_packets@, g, rs[k].0) ==> row_sent(b.broadcast_packets@, c.broadcast_packets@, g, rs[k].0, m) && c.broadcast_packets_cnt == b.broadcast_packets_cnt && msg_for(p, m, h, rs[k].0),
        !reached(b.broadcast_packets@, g, rs[k].0) ==> c.broadcast_packets@ == b.broadcast_packets@ && c.broadcast_packets_cnt == b.broadcast_packets_cnt - 1
    ensures handing(a, c, g, h, p, rs, k + 1, if reached(a.broadcast_packets@, g, rs[k].0) { sent.insert(rs[k].0) } else { sent })
{   reveal(handing); lemma_row(rs, h, k); let id = rs[k].0; assert(!sent.contains(id)); assert(same_at(a.broadcast_packets@, b.broadcast_packets@, id));
    let x = a.broadcast_packets@; let y = b.broadcast_packets@; let z = c.broadcast_packets@;
    assert(reached(x, g, id) == reached(y, g, id));
    let n = if reached(x, g, id) { sent.insert(id) } else { sent };
    assert forall|i: ClientId| #[trigger] n.contains(i) implies pushed(x, z, g, i, msg_at(z, i)) && msg_for(p, msg_at(z, i), h, i) by { if i != id { assert(sent.contains(i)); assert(z[i] == y[i]); } else { assert(msg_at(z, i) == m); } }
    assert forall|i: ClientId| !(#[trigger] n.contains(i)) implies same_at(x, z, i) by { assert(!sent.contains(i)); if i != id { assert(same_at(x, y, i)); } }
    assert forall|i: int| 0 <= i < k + 1 && reached(x, g, (#[trigger] rs[i]).0) implies n.contains(rs[i].0) by { if i < k { assert(sent.contains(rs[i].0)); } }
}
pub proof fn lemma_rows0() ensures rows_ok(Seq::<Row>::empty(), Map::empty()) { reveal(rows_ok); }
pub proof fn lemma_row(rs: Seq<Row>, h: Map<(ClientId, Str), QoS>, k: int) requires rows_ok(rs, h), 0 <= k < rs.len() ensures row_ok(rs[k], h), forall|i: int| k < i < rs.len() ==> (#[trigger] rs[i]).0 != rs[k].0, forall|i: int| 0 <= i < k ==> (#[trigger] rs[i]).0 != rs[k].0 { reveal(rows_ok); }
"""
INV = "vx_w == who(vx_s), *session == vx_s, *global == vx_g, all_of(vx_g.route_table, vx_t@, vx_cs@), vx_n <= vx_cs@.len(), rows_ok(senders@, vx_seen), forall|i: int| vx_n <= i < vx_cs@.len() ==> !vx_dn.contains((#[trigger] filter_at(vx_cs@, i))->0), msg == vx_msg, *msg.topic_name == vx_t, "
CUR = "0 < vx_n, *content == vx_c, under(vx_g.route_table, vx_t@, vx_cur) == Some(vx_c), plain(vx_cur), vx_c.topic_filter == Some(vx_cur), *subscribe_filter == vx_cur, !vx_dn.contains(vx_cur), so_far(vx_seen, vx_g, vx_w, vx_t@, vx_dn, Some(vx_cur), vx_cds, vx_gds), "
GRP = "forall|x: Str| #[trigger] vx_c.groups@.contains_key(x) ==> group_name(x) && vx_c.groups@[x].some(), "
def send(**k):
    return Fn("send_publish", ret="r", spec="""
        ensures but_bcast(*old(session), *final(session)), but_hits(*old(global), *final(global)), retained(*old(global), *final(global), old(session).client_identifier, out(msg)),
            one_each(who(*old(session)), bc(*old(session)), bc(*final(session)), *old(global), *final(global), out(msg)), r > 0 <==> exists|f: Str| (#[trigger] under(old(global).route_table, msg.topic_name@, f)) is Some,""",
        pre="let ghost vx_s = *session; let ghost vx_w = who(vx_s); let ghost vx_o = out(msg); let ghost vx_g0 = *global; let ghost vx_t = *msg.topic_name; let ghost vx_msg = msg;",
        loops=[
            L("while", "invariant " + INV + """ so_far(vx_seen, vx_g, vx_w, vx_t@, vx_dn, None, Set::empty(), Set::empty()), forall|i: int| 0 <= i < vx_n ==> vx_dn.contains((#[trigger] filter_at(vx_cs@, i))->0) decreases vx_cs@.len() - vx_n""",
              before="let ghost vx_g = *global; let ghost mut vx_seen = Map::<(ClientId, Str), QoS>::empty(); let ghost mut vx_dn = Set::<Str>::empty(); proof { lemma_start(vx_g, vx_w, vx_t@); lemma_rows0(); assert(senders@ =~= Seq::<Row>::empty()); }",
              body_pre="let ghost mut vx_cds = Set::<ClientId>::empty(); let ghost mut vx_gds = Set::<Str>::empty(); let ghost vx_c = vx_cs@[vx_n as int]; let ghost vx_cur = filter_at(vx_cs@, vx_n as int)->0; proof { lemma_next(vx_seen, vx_g, vx_w, vx_t@, vx_dn, vx_cur); assert(vx_c.topic_filter == Some(vx_cur)); assert(!vx_dn.contains(vx_cur)); assert forall|x: Str| #[trigger] vx_c.groups@.contains_key(x) implies group_name(x) && vx_c.groups@[x].some() by { assert(vx_cs@[vx_n as int].groups@.contains_key(x)); } }",
              body_post="proof { lemma_done(vx_seen, vx_g, vx_w, vx_t@, vx_dn, vx_cur, vx_cds, vx_gds, vx_c); vx_dn = vx_dn.insert(vx_cur); }",
              after="proof { lemma_all(vx_seen, vx_g, vx_w, vx_t@, vx_dn, vx_cs@); if vx_cs@.len() > 0 { assert(filter_at(vx_cs@, 0) is Some); assert(under(vx_g0.route_table, vx_t@, filter_at(vx_cs@, 0)->0) == Some(vx_cs@[0])); } }"),
            L("while", "invariant " + INV + CUR + GRP + "vx_i <= vx_ms@.len(), forall|j: int| 0 <= j < vx_ms@.len() ==> vx_c.clients@.contains_key(*(#[trigger] vx_ms@[j]).0) && vx_c.clients@[*vx_ms@[j].0] == *vx_ms@[j].1, lists(vx_c.clients@, vx_ms@.map_values(|p: (&ClientId, &QoS)| *p.0)), forall|j: int| 0 <= j < vx_i ==> vx_cds.contains(*(#[trigger] vx_ms@[j]).0), forall|j: int| vx_i <= j < vx_ms@.len() ==> !vx_cds.contains(*(#[trigger] vx_ms@[j]).0) decreases vx_ms@.len() - vx_i",
              body_pre="let ghost vx_id = *vx_ms@[vx_i as int].0; let ghost vx_q = *vx_ms@[vx_i as int].1; let ghost vx_r0 = senders@; let ghost vx_i0 = vx_i as int; proof { lemma_client(vx_seen, vx_g, vx_w, vx_t@, vx_dn, vx_cur, vx_cds, vx_gds, vx_id); lemma_distinct(vx_c.clients@, vx_ms@, vx_i0); vx_cds = vx_cds.insert(vx_id); }",
              body_post="proof { assert(wants(vx_g, vx_w, vx_t@, vx_id, vx_cur) == Some(vx_q)); if find(vx_r0, vx_id) is None { assert(senders@.drop_last() =~= vx_r0); assert(senders@.last().1@ =~= Seq::<Str>::empty().push(vx_cur)); } else { assert(senders@[find(vx_r0, vx_id)->0 as int].1@ =~= vx_r0[find(vx_r0, vx_id)->0 as int].1@.push(vx_cur)); } lemma_hit(vx_r0, senders@, vx_seen, vx_id, vx_cur, vx_q, find(vx_r0, vx_id)); vx_seen = vx_seen.insert((vx_id, vx_cur), vx_q); }",
              after="proof { assert forall|x: ClientId| #[trigger] vx_c.clients@.contains_key(x) implies vx_cds.contains(x) by { let ks = vx_ms@.map_values(|p: (&ClientId, &QoS)| *p.0); assert(ks.contains(x)); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == x; assert(vx_cds.contains(*vx_ms@[j].0)); } }"),
            L("while", "invariant " + INV + CUR + GRP + "vx_j <= vx_gs@.len(), forall|x: ClientId| #[trigger] vx_c.clients@.contains_key(x) ==> vx_cds.contains(x), forall|j: int| 0 <= j < vx_gs@.len() ==> vx_c.groups@.contains_key(*(#[trigger] vx_gs@[j]).0) && vx_c.groups@[*vx_gs@[j].0] == *vx_gs@[j].1, lists(vx_c.groups@, vx_gs@.map_values(|p: (&Str, &SharedClients)| *p.0)), forall|j: int| 0 <= j < vx_j ==> vx_gds.contains(*(#[trigger] vx_gs@[j]).0), forall|j: int| vx_j <= j < vx_gs@.len() ==> !vx_gds.contains(*(#[trigger] vx_gs@[j]).0) decreases vx_gs@.len() - vx_j",
              body_pre="broadcast use {axiom_share}; let ghost vx_gn = *vx_gs@[vx_j as int].0; let ghost vx_gr = *vx_gs@[vx_j as int].1; let ghost vx_ch = chosen(vx_g.config, vx_gr, vx_w.ident@, vx_t@); let ghost vx_r0 = senders@; proof { lemma_distinct(vx_c.groups@, vx_gs@, vx_j as int); }",
              body_post="proof { assert(client_id == vx_ch.0); assert(share_of(vx_ff) == Some((vx_gn, vx_cur))); lemma_group(vx_seen, vx_g, vx_w, vx_t@, vx_dn, vx_cur, vx_cds, vx_gds, vx_gn, vx_ff, vx_ch.0, vx_c); if find(vx_r0, vx_ch.0) is None { assert(senders@.drop_last() =~= vx_r0); assert(senders@.last().1@ =~= Seq::<Str>::empty().push(vx_ff)); } else { assert(senders@[find(vx_r0, vx_ch.0)->0 as int].1@ =~= vx_r0[find(vx_r0, vx_ch.0)->0 as int].1@.push(vx_ff)); } lemma_hit(vx_r0, senders@, vx_seen, vx_ch.0, vx_ff, vx_ch.1, find(vx_r0, vx_ch.0)); vx_gds = vx_gds.insert(vx_gn); vx_seen = vx_seen.insert((vx_ch.0, vx_ff), vx_ch.1); }",
              after="proof { assert forall|x: Str| #[trigger] vx_c.groups@.contains_key(x) implies vx_gds.contains(x) by { let ks = vx_gs@.map_values(|p: (&Str, &SharedClients)| *p.0); assert(ks.contains(x)); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == x; assert(vx_gds.contains(*vx_gs@[j].0)); } }"),
            L("while", "invariant msg == vx_msg, vx_o == out(vx_msg), *global == vx_g, 0 <= vx_k <= vx_all.len(), senders@ == vx_all.skip(vx_k), rows_ok(vx_all, vx_seen), but_bcast(vx_s, *session), handing(vx_s, *session, vx_g, vx_seen, vx_o, vx_all, vx_k, vx_sent) decreases senders@.len()",
              before="let ghost vx_all = senders@; let ghost mut vx_k: int = 0; let ghost mut vx_sent = Set::<ClientId>::empty(); proof { assert(vx_all.skip(0) =~= vx_all); lemma_go(vx_s, *session, vx_g, vx_seen, vx_o, vx_all); }",
              body_pre="let ghost vx_b0 = *session; let ghost vx_row = vx_all[vx_k]; proof { lemma_row(vx_all, vx_seen, vx_k); assert(senders@.skip(1) =~= vx_all.skip(vx_k + 1)); assert(senders@[0] == vx_row); }",
              body_post="proof { let y = vx_b0.broadcast_packets@; let z = session.broadcast_packets@; if reached(y, vx_g, vx_row.0) { assert(z =~= y.insert(vx_row.0, z[vx_row.0])); assert(pushed(y, z, vx_g, vx_row.0, vx_pb)); assert(vx_row == (vx_row.0, vx_row.1, vx_row.2)); assert(msg_for(vx_o, vx_pb, vx_seen, vx_row.0)); } lemma_step(vx_s, vx_b0, *session, vx_g, vx_seen, vx_o, vx_all, vx_k, vx_sent, vx_pb); if reached(vx_s.broadcast_packets@, vx_g, vx_row.0) { vx_sent = vx_sent.insert(vx_row.0); } vx_k = vx_k + 1; }",
              after="proof { lemma_end(vx_s, *session, vx_g, vx_seen, vx_o, vx_all, vx_sent, vx_g0, GlobalState { hits: Ghost(vx_seen), sent: Ghost(vx_sent), ..vx_g }); global.hits@ = vx_seen; global.sent@ = vx_sent; reveal(retained); }"),
        ], **k)

HANDLE = r"""
#[verifier::external_body]
pub fn vx_total_len(p: &Publish) -> (r: usize) ensures r == tlen(*p) { unimplemented!() }
pub uninterp spec fn tlen(p: Publish) -> usize;
/// ahash over everything in the packet but the dup flag (equal hashes count as equal messages)
#[verifier::external_body]
pub struct AHasher { x: u64 }
pub uninterp spec fn fp(retain: bool, qos_pid: QosPid, topic: TopicName, payload: Bytes, props: PublishProperties) -> u64;
pub open spec fn fpp(p: Publish) -> u64 { fp(p.retain, p.qos_pid, p.topic_name, p.payload, p.properties) }
impl AHasher {
    pub uninterp spec fn val(self) -> u64;
    #[verifier::external_body]
    pub fn default() -> (r: AHasher) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&self) -> (r: u64) ensures r == self.val() { unimplemented!() }
}
impl Publish { #[verifier::external_body] pub fn hash(&self, h: &mut AHasher) ensures final(h).val() == fpp(*self) { unimplemented!() } }
/// the topic the message is really about
pub open spec fn topic_of(s: Session, p: Publish) -> TopicName {
    if p.topic_name@.len() == 0 && p.properties.topic_alias is Some && s.topic_aliases@.contains_key(p.properties.topic_alias->0) { s.topic_aliases@[p.properties.topic_alias->0] } else { p.topic_name } }
pub open spec fn pid_of(p: Publish) -> Pid { match p.qos_pid { QosPid::Level1(x) => x, QosPid::Level2(x) => x, QosPid::Level0 => PidW(0) } }
/// its packet id is not released yet
pub open spec fn held(s: Session, p: Publish) -> bool { p.qos_pid is Level2 && s.qos2_pids@.contains_key(pid_of(p)) }
pub open spec fn same_message(s: Session, p: Publish) -> bool { s.qos2_pids@[pid_of(p)] == fpp(p) }
pub open spec fn bad_topic(s: Session, p: Publish) -> bool { first_is(p.topic_name@, 36u8) }
pub open spec fn bad_alias(p: Publish, c: Config) -> bool { p.properties.topic_alias matches Some(a) && (a == 0 || a > c.topic_alias_max) }
pub open spec fn no_topic(s: Session, p: Publish) -> bool { p.topic_name@.len() == 0 && (p.properties.topic_alias matches Some(a) ==> !s.topic_aliases@.contains_key(a)) }
/// refused whatever its packet id
pub open spec fn malformed(s: Session, p: Publish, c: Config) -> bool {
    bad_topic(s, p) || (p.qos_pid is Level0 && p.dup) || qn(p.qos_pid.q()) > qn(qos_of(c.max_allowed_qos)) || bad_alias(p, c) || no_topic(s, p) || p.properties.subscription_ids@.len() > 0 }
pub open spec fn too_many(s: Session, p: Publish, c: Config) -> bool { p.qos_pid is Level2 && !held(s, p) && s.qos2_pids@.dom().len() >= c.max_inflight_server }
pub open spec fn refused(s: Session, p: Publish, c: Config) -> bool { malformed(s, p, c) || too_many(s, p, c) || (held(s, p) && same_message(s, p) && !p.dup) }
pub open spec fn why(s: Session, p: Publish, c: Config, r: DisconnectReasonCode) -> bool {
    match r {
        DisconnectReasonCode::TopicNameInvalid => bad_topic(s, p),
        DisconnectReasonCode::QoSNotSupported => qn(p.qos_pid.q()) > qn(qos_of(c.max_allowed_qos)),
        DisconnectReasonCode::TopicAliasInvalid => bad_alias(p, c),
        DisconnectReasonCode::ReceiveMaximumExceeded => too_many(s, p, c),
        DisconnectReasonCode::ProtocolError => (p.qos_pid is Level0 && p.dup) || no_topic(s, p) || p.properties.subscription_ids@.len() > 0 || (held(s, p) && same_message(s, p) && !p.dup),
        _ => false } }
pub open spec fn aliases_after(s: Session, p: Publish) -> Map<u16, TopicName> { match p.properties.topic_alias { Some(a) => if p.topic_name@.len() > 0 { s.topic_aliases@.insert(a, p.topic_name) } else { s.topic_aliases@ }, None => s.topic_aliases@ } }
pub open spec fn forwarded(s: Session, p: Publish) -> PublishProperties { PublishProperties { topic_alias: None, ..p.properties } }
/// what was given to the subscribers of the topic
pub open spec fn routed(a: Session, b: Session, g: GlobalState, h: GlobalState, p: Publish) -> bool {
    let t = topic_of(a, p); let x = forwarded(a, p);
    retained(g, h, a.client_identifier, Out { topic: t, retain: p.retain, qos: p.qos_pid.q(), payload: p.payload, props: x, encode_len: tlen(p) }) && one_each(who(a), bc(a), bc(b), g, h, Out { topic: t, retain: p.retain, qos: p.qos_pid.q(), payload: p.payload, props: x, encode_len: tlen(p) }) }
pub open spec fn matched(g: GlobalState, t: TopicName) -> bool { exists|f: Str| (#[trigger] under(g.route_table, t@, f)) is Some }
pub open spec fn same_broadcast(a: Session, b: Session) -> bool { b.broadcast_packets == a.broadcast_packets && b.broadcast_packets_cnt == a.broadcast_packets_cnt }
/// the acknowledgement of a message handed on (hit: to anybody)
pub open spec fn acked(p: Publish, r: Option<Packet>, hit: bool) -> bool {
    match p.qos_pid {
        QosPid::Level0 => r is None,
        QosPid::Level1(id) => r matches Some(Packet::Puback(a)) && a.pid == id && dflt_PubackProperties(a.properties) && (a.reason_code is Success || a.reason_code is NoMatchingSubscribers) && (a.reason_code is Success <==> hit),
        QosPid::Level2(id) => r matches Some(Packet::Pubrec(a)) && a.pid == id && dflt_PubrecProperties(a.properties) && (a.reason_code is Success || a.reason_code is NoMatchingSubscribers) && (a.reason_code is Success <==> hit) } }
pub open spec fn in_use(p: Publish, r: Option<Packet>) -> bool { r matches Some(Packet::Pubrec(a)) && a.pid == pid_of(p) && a.reason_code is PacketIdentifierInUse }
"""
def publish(**k):
    return Fn("handle_publish", ret="r", spec="""
        requires old(global).config.max_allowed_qos <= 2
        ensures ({ let a = *old(session); let b = *final(session); let g = *old(global); let h = *final(global); let c = g.config; let p = packet;
            &&& but_pub(a, b) && but_hits(g, h)
            // refused: with the reason MQTT 5 assigns, and nothing is delivered
            &&& r is Err <==> refused(a, p, c)
            &&& r matches Err(k) ==> (k matches Packet::Disconnect(d) && why(a, p, c, d.reason_code)) && b.server_disconnected && same_broadcast(a, b) && b.qos2_pids == a.qos2_pids && h == g
            &&& r is Ok ==> b.server_disconnected == a.server_disconnected && b.topic_aliases@ == aliases_after(a, p)
            // an id that another message holds
            &&& r matches Ok(k) ==> (held(a, p) && !same_message(a, p) ==> in_use(p, k) && same_broadcast(a, b) && b.qos2_pids == a.qos2_pids && h == g)
            // a message that came before
            &&& r matches Ok(k) ==> (held(a, p) && same_message(a, p) ==> acked(p, k, true) && same_broadcast(a, b) && b.qos2_pids == a.qos2_pids && h == g)
            // a new one
            &&& r matches Ok(k) ==> (!held(a, p) ==> routed(a, b, g, h, p) && acked(p, k, matched(g, topic_of(a, p))) && b.qos2_pids@ == (if p.qos_pid is Level2 { a.qos2_pids@.insert(pid_of(p), fpp(p)) } else { a.qos2_pids@ })) }),""",
        pre="broadcast use {axiom_str}; let ghost vx_s0 = *session; let ghost vx_p0 = packet; let ghost vx_g0 = *global;", **k)
PEND = "final(session).pending_packets.wf(), but_pending(*old(session), *final(session)), final(session).pending_packets.same_conf(old(session).pending_packets), final(session).pending_packets.packets@.len() == old(session).pending_packets.packets@.len(), "
def acks(**k):
    def done(q): return PEND + f"forall|i: int| 0 <= i < old(session).pending_packets.packets@.len() ==> complete_step(old(session).pending_packets.packets@, old(session).pending_packets.window(), i, packet.pid, QoS::{q}, #[trigger] final(session).pending_packets.packets@[i]),"
    return [
        Fn("handle_puback", spec="requires old(session).pending_packets.wf() ensures " + done("Level1"), **k),
        Fn("handle_pubrec", ret="r", spec="requires old(session).pending_packets.wf() ensures " + PEND + """forall|i: int| 0 <= i < old(session).pending_packets.packets@.len() ==> pubrec_step(old(session).pending_packets.packets@, old(session).pending_packets.window(), i, packet.pid, #[trigger] final(session).pending_packets.packets@[i]),
            r matches Packet::Pubrel(a) && a.pid == packet.pid && dflt_PubrelProperties(a.properties) && (a.reason_code is Success <==> exists|i: int| 0 <= i < old(session).pending_packets.window() && is_new(old(session).pending_packets.packets@[i], packet.pid)),""", **k),
        Fn("handle_pubrel", ret="r", spec="""ensures but_qos2(*old(session), *final(session)), final(session).qos2_pids@ == old(session).qos2_pids@.remove(packet.pid),
            r matches Packet::Pubcomp(a) && a.pid == packet.pid && dflt_PubcompProperties(a.properties) && (a.reason_code is Success <==> old(session).qos2_pids@.contains_key(packet.pid)),""", **k),
        Fn("handle_pubcomp", spec="requires old(session).pending_packets.wf() ensures " + done("Level2"), **k),
    ]
def unit():
    u = Unit("c13", flags=S.FLAGS + ["--rlimit", "80"], uses="use std::collections::VecDeque;\nuse std::cmp;\nuse vstd::std_specs::cmp::*;\n", subs=SUBS + P.SUBS + S.SUBS + S.V5SUBS, literals=True)
    S.pending(u)
    u.raw("pub type TopicFilter = Str;\n" + S.CID + HM + S.HMX + S.STR + S.OPAQUE + S.PIDS + S.v5types() + S.V5FNS)
    u.item(S.V5SESSION, "SubscriptionData"); u.item(S.V5SESSION, "PubPacket"); u.item(P.ST, "NormalMessage"); u.item(P.OL, "BroadcastPackets"); u.item(S.V5SESSION, "Session")
    u.item(P.RE, "RetainContent"); u.item(P.CFG, "SharedSubscriptionMode"); u.item(P.RT, "RouteContent")
    u.item(F, "SendPublish")
    u.raw(P.TXT + P.ORD + P.WORLD + P.LEMMAS + SPEC + PUSH)
    u.impl(P.RE, "RetainContent", [Fn("new", ret="r", spec="ensures r.client_identifier == client_identifier, r.qos == qos, r.topic_name == topic_name, r.payload == payload, r.properties == properties, r.encode_len == encode_len, clock_read(r.stored_at),")])
    u.frame(S.V5SESSION, "Session", "but_bcast", ["broadcast_packets", "broadcast_packets_cnt"])
    u.frame(S.V5SESSION, "Session", "but_pub", ["broadcast_packets", "broadcast_packets_cnt", "topic_aliases", "qos2_pids", "server_disconnected"])
    u.frame(S.V5SESSION, "Session", "but_pending", ["pending_packets"])
    u.frame(S.V5SESSION, "Session", "but_qos2", ["qos2_pids"])
    u.raw(HANDLE)
    u.fn(O.C, Fn("build_error_disconnect", trusted=True, ret="r", sig_subs=N.ERR, spec="ensures *final(session) == (Session { server_disconnected: true, ..*old(session) }), r matches Packet::Disconnect(d) && d.reason_code == reason_code,"))
    u.fn(F, send())
    u.fn(F, publish())
    for f in acks(): u.fn(F, f)
    return u

"""Shared by C12 and C13: the broker as send_publish sees it (routes through C06, groups through C07, retained messages
through C08, the registry through C09) and what handing a message to its subscribers means."""
from vunit import Fn, L
import sess_common as S
RT = "akasa-core/src/protocols/mqtt/route.rs"
RE = "akasa-core/src/protocols/mqtt/retain.rs"
ST = "akasa-core/src/state.rs"
OL = "akasa-core/src/protocols/mqtt/online_loop.rs"
CFG = "akasa-core/src/config.rs"
SUBS = [
    # the table stores shared contents; nobody else touches them while this function runs
    ("Arc :: new ( RetainContent :: new ( $A ) )", "RetainContent::new($A)"),
    ("for content in $m { $B }", "let vx_cs = $m; let mut vx_n: usize = 0; while vx_n < vx_cs.len() { let content = &vx_cs[vx_n]; vx_n += 1; $B }"),
    ("for ( $a , $b ) in & content . clients { $B }", "let vx_ms = content.clients.vx_pairs(); let mut vx_i: usize = 0; while vx_i < vx_ms.len() { let $a = vx_ms[vx_i].0; let $b = vx_ms[vx_i].1; vx_i += 1; $B }"),
    ("for ( $a , $b ) in & content . groups { $B }", "let vx_gs = content.groups.vx_pairs(); let mut vx_j: usize = 0; while vx_j < vx_gs.len() { let $a = vx_gs[vx_j].0; let $b = vx_gs[vx_j].1; vx_j += 1; $B }"),
    ("for ( $a , $b , $c ) in senders { $B }", "let mut senders = senders; while senders.len() > 0 { let ( $a , $b , $c ) = vx_shift(&mut senders); $B }"),
    ("$g . get_by_number ( rand :: rng ( ) . random ( ) )", "$g.vx_random()"),
    ("TopicFilter :: try_from ( $x . as_str ( ) , ) . expect ( $m )", "vx_filter($x)"), ("TopicFilter :: try_from ( $x . as_str ( ) ) . expect ( $m )", "vx_filter($x)"),
    ("session . broadcast_packets_cnt += $x ;", "session.broadcast_packets_cnt = vx_plus(session.broadcast_packets_cnt, $x);"),
    ("session . broadcast_packets_cnt -= $x ;", "session.broadcast_packets_cnt = vx_minus(session.broadcast_packets_cnt, $x);"),
    ("msgs : Default :: default ( )", "msgs: Q::new()"),
    ("let publish = NormalMessage :: $v { $A } ;", "let publish = NormalMessage::$v { $A }; let ghost vx_pb = publish;"),
    ("let full_filter = $e ;", "let full_filter = $e; let ghost vx_ff = full_filter;"),
    ("SendSink < 'static , $t >", "SendSink"), ("Sender < ( ClientId , NormalMessage ) >", "Sender"),
    ("total_len ( packet . encode_len ( ) ) . expect ( $m )", "vx_total_len(&packet)"),
    ("packet . topic_name . starts_with ( '$' )", "packet.topic_name.vx_starts1(36u8)"),
    ("String", "Str"),
]
TXT = r"""
// ---- building a filter from a group and a filter ------------------------------------------------------------------
pub trait Txt { spec fn tx(&self) -> Seq<u8>; }
impl Txt for Str { open spec fn tx(&self) -> Seq<u8> { self@ } }
impl<'a, X: Txt + ?Sized> Txt for &'a X { open spec fn tx(&self) -> Seq<u8> { (**self).tx() } }
#[verifier::external_body]
pub fn vx_lit<const N: usize>(a: [u8; N], Ghost(g): Ghost<Seq<u8>>) -> (r: Str) requires a@ =~= g ensures r@ == g { unimplemented!() }
#[verifier::external_body]
pub fn vx_lit0() -> (r: Str) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
impl Str {
    #[verifier::external_body]
    pub fn vx_l<const N: usize>(self, a: [u8; N], Ghost(g): Ghost<Seq<u8>>) -> (r: Str) requires a@ =~= g ensures r@ == (if self@.len() == 0 { g } else { self@ + g }) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_a<T: Txt>(self, a: &T) -> (r: Str) ensures r@ == (if self@.len() == 0 { a.tx() } else { self@ + a.tx() }) { unimplemented!() }
}
/// mqtt_proto::SHARED_PREFIX
pub open spec fn share_prefix() -> Seq<u8> { seq![36u8, 115, 104, 97, 114, 101, 47] }
pub struct SharePrefix;
impl Txt for SharePrefix { open spec fn tx(&self) -> Seq<u8> { share_prefix() } }
pub const SHARED_PREFIX: SharePrefix = SharePrefix;
/// the group and filter of a `$share/<group>/<filter>`
pub uninterp spec fn share_of(f: Str) -> Option<(Str, Str)>;
/// group names contain no slash
pub uninterp spec fn group_name(g: Str) -> bool;
pub open spec fn plain(f: Str) -> bool { share_of(f) is None }
/// TopicFilter::try_from on a group's full filter
#[verifier::external_body]
pub fn vx_filter(s: Str) -> (r: Str) ensures r == s { unimplemented!() }
pub broadcast axiom fn axiom_share(s: Str, g: Str, f: Str) requires group_name(g), plain(f), s@ == share_prefix() + g@ + seq![47u8] + f@ ensures #![trigger s@, g@, f@] share_of(s) == Some((g, f));
/// the split is unique
pub broadcast axiom fn axiom_share_eq(s: Str) ensures #[trigger] share_of(s) matches Some(p) ==> s@ == share_prefix() + p.0@ + seq![47u8] + p.1@ && group_name(p.0) && plain(p.1);
"""
ORD = r"""
impl vstd::std_specs::cmp::PartialOrdSpecImpl for QoS {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &QoS) -> Option<core::cmp::Ordering> { if qn(*self) < qn(*o) { Some(core::cmp::Ordering::Less) } else if qn(*self) == qn(*o) { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) } }
}
impl PartialOrd for QoS { #[verifier::external_body] fn partial_cmp(&self, o: &QoS) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
"""
WORLD = r"""
#[verifier::external_body]
pub struct Sender { x: u8 }
impl Sender { #[verifier::external_body] pub fn into_sink(self) -> (r: SendSink) ensures r == sink_of(self) { unimplemented!() } }
pub uninterp spec fn sink_of(s: Sender) -> SendSink;
#[verifier::external_body]
pub fn vx_plus(a: usize, b: usize) -> (r: usize) ensures r == a + b { unimplemented!() }
#[verifier::external_body]
pub fn vx_minus(a: usize, b: usize) -> (r: usize) ensures r == a - b { unimplemented!() }
/// a share group through the contracts of C07
#[verifier::external_body]
pub struct SharedClients { x: u8 }
pub uninterp spec fn hashed(g: SharedClients, s: Seq<u8>) -> (ClientId, QoS);
pub uninterp spec fn drawn(g: SharedClients) -> (ClientId, QoS);
impl SharedClients {
    pub uninterp spec fn members(self) -> Map<ClientId, QoS>;
    pub open spec fn has(self, x: (ClientId, QoS)) -> bool { self.members().contains_key(x.0) && self.members()[x.0] == x.1 }
    pub open spec fn some(self) -> bool { !(self.members() == Map::<ClientId, QoS>::empty()) }
    #[verifier::external_body]
    pub fn get_by_hash(&self, s: &Str) -> (r: (ClientId, QoS)) requires self.some() ensures r == hashed(*self, s@), self.has(r) { unimplemented!() }
    /// the member some random number selects
    #[verifier::external_body]
    pub fn vx_random(&self) -> (r: (ClientId, QoS)) requires self.some() ensures r == drawn(*self), self.has(r) { unimplemented!() }
}
/// what is subscribed under a filter that matches the topic (C06)
pub uninterp spec fn under(t: RouteTable, topic: Seq<u8>, f: Str) -> Option<RouteContent>;
pub open spec fn all_of(t: RouteTable, topic: Seq<u8>, cs: Seq<RouteContent>) -> bool {
    &&& forall|i: int| 0 <= i < cs.len() ==> ((#[trigger] cs[i]).topic_filter matches Some(f) && plain(f) && under(t, topic, f) == Some(cs[i]))
    &&& forall|i: int| 0 <= i < cs.len() ==> (#[trigger] filter_at(cs, i)) is Some
    &&& forall|i: int, j: int| 0 <= i < j < cs.len() ==> (#[trigger] filter_at(cs, i)) != (#[trigger] filter_at(cs, j))
    &&& forall|f: Str| (#[trigger] under(t, topic, f)) is Some ==> exists|i: int| 0 <= i < cs.len() && (#[trigger] filter_at(cs, i)) == Some(f)
    &&& forall|i: int, g: Str| 0 <= i < cs.len() && (#[trigger] cs[i].groups@.contains_key(g)) ==> group_name(g) && cs[i].groups@[g].some() }
pub open spec fn filter_at(cs: Seq<RouteContent>, i: int) -> Option<Str> { cs[i].topic_filter }
pub struct RouteTable { pub x: u8 }
impl RouteTable { #[verifier::external_body] pub fn get_matches(&self, t: &TopicName) -> (r: Vec<RouteContent>) ensures all_of(*self, t@, r@) { unimplemented!() } }
impl RouteContent { pub fn read(&self) -> (r: &Self) ensures *r == *self { self } }
/// the retained messages (C08)
pub struct RetainTable { pub x: u8 }
impl RetainTable {
    pub uninterp spec fn view(&self) -> Map<TopicName, RetainContent>;
    #[verifier::external_body]
    pub fn insert(&mut self, c: RetainContent) -> (r: Option<RetainContent>) ensures final(self)@ == old(self)@.insert(c.topic_name, c) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, t: &TopicName) -> (r: Option<RetainContent>) ensures final(self)@ == old(self)@.remove(*t) { unimplemented!() }
}
pub struct Config { pub shared_subscription_mode: SharedSubscriptionMode, pub max_allowed_qos: u8, pub topic_alias_max: u16, pub max_inflight_server: u16 }
pub open spec fn qos_of(n: u8) -> QoS { if n == 0 { QoS::Level0 } else if n == 1 { QoS::Level1 } else { QoS::Level2 } }
impl Config { #[verifier::external_body] pub fn max_allowed_qos(&self) -> (r: QoS) requires self.max_allowed_qos <= 2 ensures r == qos_of(self.max_allowed_qos) { unimplemented!() } }
#[verifier::external_body]
pub struct Registry { x: u8 }
pub uninterp spec fn sender_of(g: Registry, id: ClientId) -> Option<Sender>;
/// hits: the subscriptions the last message went to (v5: sent, the clients; v3: rows, them in order)
pub struct GlobalState { pub config: Config, pub route_table: RouteTable, pub retain_table: RetainTable, pub registry: Registry, pub hits: Ghost<Map<(ClientId, Str), QoS>>, pub sent: Ghost<Set<ClientId>>, pub rows: Ghost<Seq<(ClientId, Str, QoS)>> }
impl GlobalState { #[verifier::external_body] pub fn get_client_normal_sender(&self, id: &ClientId) -> (r: Option<Sender>) ensures r == sender_of(self.registry, *id) { unimplemented!() } }
pub open spec fn reached(m: Map<ClientId, BroadcastPackets>, g: GlobalState, id: ClientId) -> bool { m.contains_key(id) || sender_of(g.registry, id) is Some }
pub open spec fn chosen(c: Config, g: SharedClients, me: Seq<u8>, topic: Seq<u8>) -> (ClientId, QoS) {
    match c.shared_subscription_mode { SharedSubscriptionMode::Random => drawn(g), SharedSubscriptionMode::HashClientId => hashed(g, me), SharedSubscriptionMode::HashTopicName => hashed(g, topic) } }
pub open spec fn base(f: Str) -> Str { match share_of(f) { None => f, Some(p) => p.1 } }
/// subscription f of client id gets messages to this topic from this publisher, with QoS at most ..
pub open spec fn wants(g: GlobalState, s: Who, topic: Seq<u8>, id: ClientId, f: Str) -> Option<QoS> {
    match under(g.route_table, topic, base(f)) { None => None,
        Some(c) => match share_of(f) {
            None => if c.clients@.contains_key(id) && !left_out(s, id, f) { Some(c.clients@[id]) } else { None },
            Some(p) => if c.groups@.contains_key(p.0) && chosen(g.config, c.groups@[p.0], s.ident@, topic).0 == id { Some(chosen(g.config, c.groups@[p.0], s.ident@, topic).1) } else { None } } } }
pub open spec fn hits_ok(m: Map<(ClientId, Str), QoS>, g: GlobalState, s: Who, topic: Seq<u8>) -> bool {
    forall|id: ClientId, f: Str| (#[trigger] m.contains_key((id, f)) <==> wants(g, s, topic, id, f) is Some) && (m.contains_key((id, f)) ==> m[(id, f)] == wants(g, s, topic, id, f)->0) }
/// the part of them found so far: the filters in dn, and of the current one the clients in cds and the groups in gds
pub open spec fn done(dn: Set<Str>, cur: Option<Str>, cds: Set<ClientId>, gds: Set<Str>, id: ClientId, f: Str) -> bool {
    dn.contains(base(f)) || (cur == Some(base(f)) && match share_of(f) { None => cds.contains(id), Some(p) => gds.contains(p.0) }) }
#[verifier::opaque]
pub open spec fn so_far(m: Map<(ClientId, Str), QoS>, g: GlobalState, s: Who, topic: Seq<u8>, dn: Set<Str>, cur: Option<Str>, cds: Set<ClientId>, gds: Set<Str>) -> bool {
    forall|id: ClientId, f: Str| (#[trigger] m.contains_key((id, f)) <==> (done(dn, cur, cds, gds, id, f) && wants(g, s, topic, id, f) is Some)) && (m.contains_key((id, f)) ==> m[(id, f)] == wants(g, s, topic, id, f)->0) }
/// one message to one client
pub open spec fn pushed(a: Map<ClientId, BroadcastPackets>, b: Map<ClientId, BroadcastPackets>, g: GlobalState, id: ClientId, m: NormalMessage) -> bool {
    b.contains_key(id) && if a.contains_key(id) { b[id] == (BroadcastPackets { msgs: b[id].msgs, ..a[id] }) && b[id].msgs@ == a[id].msgs@.push(m) }
        else { sender_of(g.registry, id) matches Some(x) && b[id].sink == sink_of(x) && b[id].flushed && b[id].msgs@ == Seq::<NormalMessage>::empty().push(m) } }
pub open spec fn same_at(a: Map<ClientId, BroadcastPackets>, b: Map<ClientId, BroadcastPackets>, id: ClientId) -> bool { (b.contains_key(id) <==> a.contains_key(id)) && (a.contains_key(id) ==> b[id] == a[id]) }
"""
LEMMAS = r"""
#[verifier::external_body]
pub fn vx_shift<T>(v: &mut Vec<T>) -> (r: T) requires old(v)@.len() > 0 ensures r == old(v)@[0], final(v)@ == old(v)@.skip(1) { unimplemented!() }
pub proof fn lemma_distinct<K, V>(m: Map<K, V>, v: Seq<(&K, &V)>, n: int) requires lists(m, v.map_values(|p: (&K, &V)| *p.0)), 0 <= n < v.len() ensures forall|j: int| n < j < v.len() ==> *(#[trigger] v[j]).0 != *v[n].0, forall|j: int| 0 <= j < n ==> *(#[trigger] v[j]).0 != *v[n].0
{ let ks = v.map_values(|p: (&K, &V)| *p.0); assert(ks[n] == *v[n].0); assert forall|j: int| 0 <= j < v.len() && j != n implies *(#[trigger] v[j]).0 != *v[n].0 by { assert(ks[j] == *v[j].0); } }
pub proof fn lemma_start(g: GlobalState, s: Who, t: Seq<u8>) ensures so_far(Map::empty(), g, s, t, Set::empty(), None, Set::empty(), Set::empty()) { reveal(so_far); }
pub proof fn lemma_next(m: Map<(ClientId, Str), QoS>, g: GlobalState, s: Who, t: Seq<u8>, dn: Set<Str>, cur: Str) requires so_far(m, g, s, t, dn, None, Set::empty(), Set::empty()) ensures so_far(m, g, s, t, dn, Some(cur), Set::empty(), Set::empty()) {
    reveal(so_far); assert forall|id: ClientId, f: Str| done(dn, None, Set::empty(), Set::empty(), id, f) == done(dn, Some(cur), Set::empty(), Set::empty(), id, f) by {} }
pub proof fn lemma_client(m: Map<(ClientId, Str), QoS>, g: GlobalState, s: Who, t: Seq<u8>, dn: Set<Str>, cur: Str, cds: Set<ClientId>, gds: Set<Str>, id: ClientId)
    requires so_far(m, g, s, t, dn, Some(cur), cds, gds), !cds.contains(id), plain(cur), !dn.contains(cur)
    ensures !m.contains_key((id, cur)), wants(g, s, t, id, cur) is None ==> so_far(m, g, s, t, dn, Some(cur), cds.insert(id), gds),
        wants(g, s, t, id, cur) is Some ==> so_far(m.insert((id, cur), wants(g, s, t, id, cur)->0), g, s, t, dn, Some(cur), cds.insert(id), gds)
{   reveal(so_far);
    assert(!m.contains_key((id, cur)));
    assert forall|i: ClientId, f: Str| (i, f) != (id, cur) implies done(dn, Some(cur), cds, gds, i, f) == done(dn, Some(cur), cds.insert(id), gds, i, f) by { if base(f) == cur && share_of(f) is None { assert(f == cur); } }
    assert(done(dn, Some(cur), cds.insert(id), gds, id, cur)); }
pub proof fn lemma_group(m: Map<(ClientId, Str), QoS>, g: GlobalState, s: Who, t: Seq<u8>, dn: Set<Str>, cur: Str, cds: Set<ClientId>, gds: Set<Str>, n: Str, ff: Str, id: ClientId, c: RouteContent)
    requires so_far(m, g, s, t, dn, Some(cur), cds, gds), !gds.contains(n), plain(cur), !dn.contains(cur), share_of(ff) == Some((n, cur)), under(g.route_table, t, cur) == Some(c), c.groups@.contains_key(n), chosen(g.config, c.groups@[n], s.ident@, t).0 == id
    ensures !m.contains_key((id, ff)), so_far(m.insert((id, ff), chosen(g.config, c.groups@[n], s.ident@, t).1), g, s, t, dn, Some(cur), cds, gds.insert(n))
{   reveal(so_far);
    assert(!m.contains_key((id, ff)));
    assert forall|i: ClientId, f: Str| f != ff implies done(dn, Some(cur), cds, gds, i, f) == done(dn, Some(cur), cds, gds.insert(n), i, f) by { if base(f) == cur && share_of(f) is Some && (share_of(f)->0).0 == n { lemma_same_share(f, ff); } }
    assert forall|i: ClientId| i != id implies wants(g, s, t, i, ff) is None by {}
    assert(done(dn, Some(cur), cds, gds.insert(n), id, ff)); assert(wants(g, s, t, id, ff) is Some); }
pub proof fn lemma_same_share(a: Str, b: Str) requires share_of(a) is Some, share_of(a) == share_of(b) ensures a == b { broadcast use {axiom_str, axiom_share_eq}; assert(a@ == b@); }
pub proof fn lemma_done(m: Map<(ClientId, Str), QoS>, g: GlobalState, s: Who, t: Seq<u8>, dn: Set<Str>, cur: Str, cds: Set<ClientId>, gds: Set<Str>, c: RouteContent)
    requires so_far(m, g, s, t, dn, Some(cur), cds, gds), under(g.route_table, t, cur) == Some(c), forall|x: ClientId| #[trigger] c.clients@.contains_key(x) ==> cds.contains(x), forall|x: Str| #[trigger] c.groups@.contains_key(x) ==> gds.contains(x)
    ensures so_far(m, g, s, t, dn.insert(cur), None, Set::empty(), Set::empty())
{   reveal(so_far);
    assert forall|i: ClientId, f: Str| wants(g, s, t, i, f) is Some implies #[trigger] done(dn, Some(cur), cds, gds, i, f) == done(dn.insert(cur), None, Set::empty(), Set::empty(), i, f) by {} }
pub proof fn lemma_all(m: Map<(ClientId, Str), QoS>, g: GlobalState, s: Who, t: Seq<u8>, dn: Set<Str>, cs: Seq<RouteContent>)
    requires so_far(m, g, s, t, dn, None, Set::empty(), Set::empty()), all_of(g.route_table, t, cs), forall|i: int| 0 <= i < cs.len() ==> dn.contains((#[trigger] filter_at(cs, i))->0)
    ensures hits_ok(m, g, s, t)
{   reveal(so_far);
    assert forall|i: ClientId, f: Str| wants(g, s, t, i, f) is Some implies #[trigger] done(dn, None, Set::empty(), Set::empty(), i, f) by { assert(under(g.route_table, t, base(f)) is Some); let x = choose|x: int| 0 <= x < cs.len() && (#[trigger] filter_at(cs, x)) == Some(base(f)); assert(dn.contains(filter_at(cs, x)->0)); } }
"""

"""C09: the registry of clients (state.rs) under a lock invariant and a rely/guarantee relation between the holders of the lock."""
from vunit import Unit, Fn, L
import sess_common as S
F = "akasa-core/src/state.rs"
SUBS = [
    ("let _ = self . next_client_id . lock ( ) ;", "vx_lock(self); vx_unlock(self);"),
    ("let _guard = self . next_client_id . lock ( ) ;", "vx_lock(self);"), ("drop ( _guard ) ;", "vx_unlock(self);"),
    ("let mut next_client_id = self . next_client_id . lock ( ) ;", "vx_lock(self);"), ("drop ( next_client_id ) ;", "vx_unlock(self);"),
    ("* next_client_id", "self.next_client_id.id"), ("next_client_id . 0", "self.next_client_id.id.0"),
    ("return Ok ( AddClientReceipt :: New { $A } ) ;", "vx_unlock(self); return Ok(AddClientReceipt::New { $A });"),
    ("let ( old_id , control_sender ) = { $B } ;", "let (old_id, control_sender) = { $B }; vx_unlock(self);"),
    ("self . client_id_map . remove (", "self.vx_ids().remove("), ("self . client_id_map . insert (", "self.vx_ids().insert("), ("self . client_id_map . get_mut (", "self.vx_ids().get_mut("),
    ("self . client_identifier_map . remove (", "self.vx_names().remove("), ("self . client_identifier_map . insert (", "self.vx_names().insert("),
    ("self . clients . remove (", "self.vx_clients().remove("), ("self . clients . insert (", "self.vx_clients().insert("),
    ("self . online_clients . fetch_sub ( $n , Ordering :: $o )", "self.vx_count().fetch_sub($n)"), ("self . online_clients . fetch_add ( $n , Ordering :: $o )", "self.vx_count().fetch_add($n)"), ("self . online_clients . load ( Ordering :: $o )", "self.online_clients.load()"),
    ("assert_ne ! ( $a , $b ) ;", "vx_assert($a != $b);"), ("assert ! ( $a ) ;", "vx_assert($a);"),
    ("if let Some ( mut pair ) = $e {", "if let Some(pair) = $e {"), ("mem :: replace (", "vx_replace("), ("pair . value_mut ( )", "pair"),
    (". map ( | pair | * pair . value ( ) )", ".vx_copied()"), (". map ( | pair | pair . value ( ) . normal . clone ( ) )", ".vx_normal()"), (". map ( | pair | pair . value ( ) . control . clone ( ) )", ".vx_control()"),
    ("for filter in subscribes { $B }", "let mut vx_i: usize = 0; while vx_i < subscribes.len() { let filter = subscribes[vx_i]; vx_i += 1; $B }"),
    ("bounded ( $n )", "vx_bounded($n)"), ("control_sender . send_async ( $m )", "vx_send(self, &control_sender, $m)"), ("receiver . recv_async ( ) . map_err ( $f ) ?", "vx_recv(self, &receiver)?"),
    ("client_identifier . to_string ( )", "client_identifier.clone()"), ("mqtt :: v3 :: SessionState", "V3State"), ("mqtt :: v5 :: SessionState", "V5State"),
    ("io :: Error :: from ( io :: ErrorKind :: InvalidData )", "vx_io()"), ("io :: Result", "IoRes"),
    ("Mutex < ClientId >", "Lk"), ("AtomicU64", "Au"), ("Mutex :: new ( ClientId ( $n ) )", "Lk { id: ClientId($n) }"), ("Au :: new ( $n )", "Au { v: $n }"), ("AtomicU64 :: new ( $n )", "Au { v: $n }"),
    ("DashMap < ClientId , ClientSender >", "DM<ClientSender>"), ("DashMap < ClientId , ( String , bool ) >", "DM<(Str, bool)>"), ("DashMap < String , ClientId >", "NM"), ("DashMap < String , AuthPassword >", "PwTable"),
    ("client_id_map : DashMap :: new ( )", "client_id_map: DM::new()"), ("clients : DashMap :: new ( )", "clients: DM::new()"), ("client_identifier_map : DashMap :: new ( )", "client_identifier_map: NM::new()"), ("auth_passwords : DashMap :: new ( )", "auth_passwords: PwTable::new()"),
    ("config : Config ,", "config: Config, pub vx: Ghost<Vx>,"), ("config , auth_passwords", "config, vx: Ghost(Vx { locked: false, at: NOREG(), steps: Seq::empty(), sent: Seq::empty(), owns: None }), auth_passwords"), ("String", "Str"),
]
WORLD = r"""
#[verifier::external_body]
pub struct V3State { x: u8 }
#[verifier::external_body]
pub struct V5State { x: u8 }
#[verifier::external_body]
pub struct Config { x: u8 }
#[verifier::external_body]
pub struct PwTable { x: u8 }
impl PwTable { #[verifier::external_body] pub fn new() -> PwTable { unimplemented!() } }
#[verifier::external_body]
pub struct RetainTable { x: u8 }
impl RetainTable { #[verifier::external_body] pub fn default() -> RetainTable { unimplemented!() } }
/// the routing table as the set of its subscriptions (C06)
#[verifier::external_body]
pub struct RouteTable { x: u8 }
impl RouteTable {
    pub uninterp spec fn view(&self) -> Set<(Seq<u8>, ClientId)>;
    #[verifier::external_body]
    pub fn default() -> (r: RouteTable) ensures r@ == Set::<(Seq<u8>, ClientId)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn unsubscribe(&mut self, f: &TopicFilter, id: ClientId) ensures final(self)@ == old(self)@.remove((f@, id)) { unimplemented!() }
}
pub struct Lk { pub id: ClientId }
pub struct Au { pub v: u64 }
impl Au {
    pub fn load(&self) -> (r: u64) ensures r == self.v { self.v }
    /// the counter of an atomic wraps around
    #[verifier::external_body]
    pub fn fetch_add(&mut self, n: u64) -> (r: u64) ensures r == old(self).v, final(self).v as int == (old(self).v + n) % 0x1_0000_0000_0000_0000 { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&mut self, n: u64) -> (r: u64) ensures r == old(self).v, final(self).v as int == (old(self).v - n) % 0x1_0000_0000_0000_0000 { unimplemented!() }
}
pub fn vx_assert(b: bool) requires b {}
pub fn vx_replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { std::mem::replace(a, b) }
/// dashmap::DashMap as a finite map
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct DM<V> { m: Vec<V> }
impl<V> DM<V> {
    pub uninterp spec fn view(&self) -> Map<ClientId, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<ClientId, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &ClientId) -> (r: Option<&V>) ensures match r { None => !self@.contains_key(*k), Some(v) => self@.contains_key(*k) && *v == self@[*k] } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &ClientId) -> (r: Option<&mut V>) ensures match r { None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@, Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)) } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: ClientId, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &ClientId) -> (r: Option<(ClientId, V)>) ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some((*k, old(self)@[*k])) } else { None }) { unimplemented!() }
}
#[verifier::external_body]
pub struct NM { x: u8 }
impl NM {
    pub uninterp spec fn view(&self) -> Map<Seq<u8>, ClientId>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<u8>, ClientId>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Str) -> (r: Option<&ClientId>) ensures match r { None => !self@.contains_key(k@), Some(v) => self@.contains_key(k@) && *v == self@[k@] } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Str, v: ClientId) -> (r: Option<ClientId>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Str) -> (r: Option<(Str, ClientId)>) ensures final(self)@ == old(self)@.remove(k@) { unimplemented!() }
}
pub trait VxCopied<T> { spec fn o(self) -> Option<T>; fn vx_copied(self) -> (r: Option<T>) ensures r == self.o(); }
impl VxCopied<ClientId> for Option<&ClientId> { open spec fn o(self) -> Option<ClientId> { match self { Some(x) => Some(*x), None => None } } fn vx_copied(self) -> (r: Option<ClientId>) { match self { Some(x) => Some(*x), None => None } } }
pub trait VxSenders { spec fn s(self) -> Option<ClientSender>; fn vx_normal(self) -> (r: Option<Sender<(ClientId, NormalMessage)>>) ensures r == (match self.s() { Some(x) => Some(x.normal), None => None }); fn vx_control(self) -> (r: Option<Sender<ControlMessage>>) ensures r == (match self.s() { Some(x) => Some(x.control), None => None }); }
impl VxSenders for Option<&ClientSender> {
    open spec fn s(self) -> Option<ClientSender> { match self { Some(x) => Some(*x), None => None } }
    fn vx_normal(self) -> (r: Option<Sender<(ClientId, NormalMessage)>>) { match self { Some(x) => Some(x.normal.clone()), None => None } }
    fn vx_control(self) -> (r: Option<Sender<ControlMessage>>) { match self { Some(x) => Some(x.control.clone()), None => None } }
}
/// flume channels: the two ends share a name
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Sender<T> { x: Vec<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Receiver<T> { x: Vec<T> }
impl<T> Sender<T> { pub uninterp spec fn chan(&self) -> int; }
impl<T> Receiver<T> { pub uninterp spec fn chan(&self) -> int; }
impl<T> Clone for Sender<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// (a channel without room would block every sender for good)
#[verifier::external_body]
pub fn vx_bounded<T>(n: usize) -> (r: (Sender<T>, Receiver<T>)) requires n > 0 ensures r.0.chan() == r.1.chan() { unimplemented!() }
"""
MSG = r"""
#[verifier::external_body]
pub struct NormalMessage { x: u8 }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Protocol {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Protocol) -> Option<core::cmp::Ordering> { if pn(*self) < pn(*o) { Some(core::cmp::Ordering::Less) } else if pn(*self) == pn(*o) { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) } }
}
impl PartialOrd for Protocol { #[verifier::external_body] fn partial_cmp(&self, o: &Protocol) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
pub open spec fn pn(p: Protocol) -> int { match p { Protocol::V310 => 3, Protocol::V311 => 4, Protocol::V500 => 5 } }
"""
SPEC = r"""
/// the registry
pub struct Reg { pub next: ClientId, pub online: u64, pub ids: Map<ClientId, (Str, bool)>, pub names: Map<Seq<u8>, ClientId>, pub clients: Map<ClientId, ClientSender> }
pub open spec fn NOREG() -> Reg { Reg { next: ClientId(0), online: 0, ids: Map::empty(), names: Map::empty(), clients: Map::empty() } }
pub struct Sent { pub chan: int, pub msg: ControlMessage }
/// locked: this task holds the lock; at: the registry when it took it; steps: its finished critical sections; owns: the client it runs, registered and online until it says otherwise itself (C16: each registered client is let go of once)
pub struct Vx { pub locked: bool, pub at: Reg, pub steps: Seq<(Reg, Reg)>, pub sent: Seq<Sent>, pub owns: Option<ClientId> }
pub open spec fn online_of(m: Map<ClientId, (Str, bool)>) -> Set<ClientId> { m.dom().filter(|id: ClientId| m[id].1) }
/// what holds whenever nobody holds the lock
pub open spec fn inv(g: Reg) -> bool {
    &&& g.ids.dom().finite()
    &&& forall|id: ClientId| #![trigger g.clients.contains_key(id)] #![trigger g.ids.contains_key(id)] g.clients.contains_key(id) == g.ids.contains_key(id)
    &&& forall|id: ClientId| #[trigger] g.ids.contains_key(id) ==> id.0 < g.next.0 && g.names.contains_key(g.ids[id].0@) && g.names[g.ids[id].0@] == id
    &&& forall|n: Seq<u8>| #[trigger] g.names.contains_key(n) ==> g.ids.contains_key(g.names[n]) && g.ids[g.names[n]].0@ == n
    &&& g.online == online_of(g.ids).len()
}
/// what a critical section may do to the clients of others: an internal id is never used again or for another identifier, and its channels stay
pub open spec fn rely(a: Reg, b: Reg) -> bool {
    &&& a.next.0 <= b.next.0
    &&& forall|id: ClientId| #[trigger] b.ids.contains_key(id) && id.0 < a.next.0 ==> a.ids.contains_key(id) && b.ids[id].0 == a.ids[id].0 && b.clients[id] == a.clients[id]
}
pub proof fn lemma_rely(a: Reg, b: Reg, c: Reg) ensures rely(a, a), rely(a, b) && rely(b, c) ==> rely(a, c) {
    if rely(a, b) && rely(b, c) { assert forall|id: ClientId| #[trigger] c.ids.contains_key(id) && id.0 < a.next.0 implies a.ids.contains_key(id) && c.ids[id].0 == a.ids[id].0 && c.clients[id] == a.clients[id] by { assert(b.ids.contains_key(id)); } }
}
/// one identifier, one id, and the other way round
pub proof fn lemma_one_to_one(g: Reg) requires inv(g)
    ensures forall|i: ClientId, j: ClientId| g.ids.contains_key(i) && g.ids.contains_key(j) && #[trigger] g.ids[i].0@ == #[trigger] g.ids[j].0@ ==> i == j, forall|m: Seq<u8>, n: Seq<u8>| g.names.contains_key(m) && g.names.contains_key(n) && #[trigger] g.names[m] == #[trigger] g.names[n] ==> m == n {}
impl GlobalState {
    pub open spec fn reg(&self) -> Reg { Reg { next: self.next_client_id.id, online: self.online_clients.v, ids: self.client_id_map@, names: self.client_identifier_map@, clients: self.clients@ } }
    /// nothing is changed without the lock
    pub fn vx_ids(&mut self) -> (r: &mut DM<(Str, bool)>) requires old(self).vx@.locked ensures *r == old(self).client_id_map, *final(self) == (GlobalState { client_id_map: *final(r), ..*old(self) }) { &mut self.client_id_map }
    pub fn vx_names(&mut self) -> (r: &mut NM) requires old(self).vx@.locked ensures *r == old(self).client_identifier_map, *final(self) == (GlobalState { client_identifier_map: *final(r), ..*old(self) }) { &mut self.client_identifier_map }
    pub fn vx_clients(&mut self) -> (r: &mut DM<ClientSender>) requires old(self).vx@.locked ensures *r == old(self).clients, *final(self) == (GlobalState { clients: *final(r), ..*old(self) }) { &mut self.clients }
    pub fn vx_count(&mut self) -> (r: &mut Au) requires old(self).vx@.locked ensures *r == old(self).online_clients, *final(self) == (GlobalState { online_clients: *final(r), ..*old(self) }) { &mut self.online_clients }
}
/// everything but the registry and the ghost state
pub open spec fn but_reg(a: GlobalState, b: GlobalState) -> bool { b.config == a.config && b.auth_passwords == a.auth_passwords && b.route_table == a.route_table && b.retain_table == a.retain_table }
/// other tasks had their turn
pub open spec fn others(a: GlobalState, b: GlobalState) -> bool { but_reg(a, b) && inv(b.reg()) && rely(a.reg(), b.reg()) }
/// taking the lock; ids are 64-bit and never run out
#[verifier::external_body]
pub fn vx_lock0(g: &mut GlobalState) requires !old(g).vx@.locked ensures others(*old(g), *final(g)), final(g).vx@ == (Vx { locked: true, at: final(g).reg(), ..old(g).vx@ }), final(g).reg().next.0 < u64::MAX, old(g).vx@.owns matches Some(id) ==> final(g).reg().ids.contains_key(id) && final(g).reg().ids[id].1 { unimplemented!() }
/// leaving it: the invariant and the guarantee to the others are due
#[verifier::external_body]
pub fn vx_unlock(g: &mut GlobalState) requires old(g).vx@.locked, inv(old(g).reg()), rely(old(g).vx@.at, old(g).reg()) ensures but_reg(*old(g), *final(g)), final(g).reg() == old(g).reg(), final(g).vx@ == (Vx { locked: false, steps: old(g).vx@.steps.push((old(g).vx@.at, old(g).reg())), ..old(g).vx@ }) { unimplemented!() }
/// what becomes of a guard at the end of the function
#[verifier::external_body]
pub fn vx_release(g: &mut GlobalState) requires old(g).vx@.locked ==> inv(old(g).reg()) && rely(old(g).vx@.at, old(g).reg()) ensures !old(g).vx@.locked ==> *final(g) == *old(g), old(g).vx@.locked ==> but_reg(*old(g), *final(g)) && final(g).reg() == old(g).reg() && final(g).vx@ == (Vx { locked: false, steps: old(g).vx@.steps.push((old(g).vx@.at, old(g).reg())), ..old(g).vx@ }) { unimplemented!() }
/// a message to the task of a client: not with the lock held
#[verifier::external_body]
pub fn vx_send(g: &mut GlobalState, s: &Sender<ControlMessage>, m: ControlMessage) -> (r: IoRes<()>) requires !old(g).vx@.locked ensures others(*old(g), *final(g)), final(g).vx@ == (Vx { sent: if r is Ok { old(g).vx@.sent.push(Sent { chan: s.chan(), msg: m }) } else { old(g).vx@.sent }, ..old(g).vx@ }) { unimplemented!() }
pub uninterp spec fn came(chan: int, x: AddClientReceipt) -> bool;
pub trait VxState: Sized { spec fn put(self) -> AddClientReceipt; }
impl VxState for V3State { open spec fn put(self) -> AddClientReceipt { AddClientReceipt::PresentV3(self) } }
impl VxState for V5State { open spec fn put(self) -> AddClientReceipt { AddClientReceipt::PresentV5(self) } }
/// its answer
#[verifier::external_body]
pub fn vx_recv<T: VxState>(g: &mut GlobalState, r: &Receiver<T>) -> (q: IoRes<T>) requires !old(g).vx@.locked ensures others(*old(g), *final(g)), final(g).vx@ == old(g).vx@, q matches Ok(x) ==> came(r.chan(), x.put()) { unimplemented!() }
pub open spec fn set_online(g: Reg, id: ClientId, on: bool, n: u64) -> Reg { Reg { ids: g.ids.insert(id, (g.ids[id].0, on)), online: n, ..g } }
/// nothing of the client remains
pub open spec fn left(a: Reg, b: Reg, id: ClientId) -> bool {
    if a.ids.contains_key(id) { b == (Reg { ids: a.ids.remove(id), names: a.names.remove(a.ids[id].0@), clients: a.clients.remove(id), online: b.online, ..a }) && b.online == a.online - (if a.ids[id].1 { 1int } else { 0 }) } else { b == a } }
pub open spec fn went_offline(a: Reg, b: Reg, id: ClientId) -> bool { a.online > 0 && b == set_online(a, id, false, (a.online - 1) as u64) }
pub open spec fn came_online(a: Reg, b: Reg, id: ClientId) -> bool { if a.ids.contains_key(id) { b == set_online(a, id, true, b.online) && b.online == a.online + (if a.ids[id].1 { 0int } else { 1 }) } else { b == a } }
pub open spec fn joined(a: Reg, b: Reg, name: Str, id: ClientId, s: ClientSender) -> bool {
    !a.names.contains_key(name@) && id == a.next && !a.ids.contains_key(id) && b == (Reg { next: ClientId((a.next.0 + 1) as u64), online: (a.online + 1) as u64, ids: a.ids.insert(id, (name, true)), names: a.names.insert(name@, id), clients: a.clients.insert(id, s) }) && b.online == a.online + 1 }
pub proof fn lemma_flip(m: Map<ClientId, (Str, bool)>, id: ClientId, v: (Str, bool)) requires m.dom().finite()
    ensures online_of(m).finite(), online_of(m).len() <= m.dom().len(), online_of(m.insert(id, v)) == (if v.1 { online_of(m).insert(id) } else { online_of(m).remove(id) }), online_of(m.remove(id)) == online_of(m).remove(id),
        online_of(m).contains(id) == (m.contains_key(id) && m[id].1), online_of(m.insert(id, v)).finite(), online_of(m.insert(id, v)).len() == online_of(m).len() - (if m.contains_key(id) && m[id].1 { 1int } else { 0 }) + (if v.1 { 1int } else { 0 }),
        online_of(m.remove(id)).len() == online_of(m).len() - (if m.contains_key(id) && m[id].1 { 1int } else { 0 }),
{
    let s = online_of(m); assert(s.subset_of(m.dom())); vstd::set_lib::lemma_len_subset(s, m.dom());
    assert(online_of(m.insert(id, v)) =~= (if v.1 { s.insert(id) } else { s.remove(id) }));
    assert(online_of(m.remove(id)) =~= s.remove(id));
}
/// all ids are below the next one, so there are not more clients online
pub proof fn lemma_room(g: Reg) requires inv(g) ensures online_of(g.ids).len() <= g.next.0
{
    let all = vstd::set_lib::set_int_range(0, g.next.0 as int); vstd::set_lib::lemma_int_range(0, g.next.0 as int);
    let o = online_of(g.ids); lemma_flip(g.ids, ClientId(0), (arbitrary(), true));
    let im = o.map(|id: ClientId| id.0 as int);
    assert(im.subset_of(all));
    vstd::set_lib::lemma_map_size(o, im, |id: ClientId| id.0 as int);
    vstd::set_lib::lemma_len_subset(im, all);
}
pub open spec fn counts(m: Map<ClientId, (Str, bool)>) -> bool {
    &&& forall|id: ClientId| #[trigger] m.contains_key(id) && m[id].1 ==> online_of(m).len() > 0
    &&& forall|id: ClientId, v: (Str, bool)| (#[trigger] online_of(m.insert(id, v))).len() == online_of(m).len() - (if m.contains_key(id) && m[id].1 { 1int } else { 0 }) + (if v.1 { 1int } else { 0 })
    &&& forall|id: ClientId| (#[trigger] online_of(m.remove(id))).len() == online_of(m).len() - (if m.contains_key(id) && m[id].1 { 1int } else { 0 })
}
pub proof fn lemma_counts(m: Map<ClientId, (Str, bool)>) requires m.dom().finite() ensures counts(m)
{
    assert forall|id: ClientId| #[trigger] m.contains_key(id) && m[id].1 implies online_of(m).len() > 0 by { lemma_flip(m, id, m[id]); assert(online_of(m).contains(id)); assert(online_of(m).remove(id).len() + 1 == online_of(m).len()); }
    assert forall|id: ClientId, v: (Str, bool)| (#[trigger] online_of(m.insert(id, v))).len() == online_of(m).len() - (if m.contains_key(id) && m[id].1 { 1int } else { 0 }) + (if v.1 { 1int } else { 0 }) by { lemma_flip(m, id, v); }
    assert forall|id: ClientId| (#[trigger] online_of(m.remove(id))).len() == online_of(m).len() - (if m.contains_key(id) && m[id].1 { 1int } else { 0 }) by { lemma_flip(m, id, (arbitrary(), true)); }
}
pub fn vx_lock(g: &mut GlobalState) requires !old(g).vx@.locked ensures others(*old(g), *final(g)), final(g).vx@ == (Vx { locked: true, at: final(g).reg(), ..old(g).vx@ }), final(g).reg().next.0 < u64::MAX, old(g).vx@.owns matches Some(id) ==> final(g).reg().ids.contains_key(id) && final(g).reg().ids[id].1,
    counts(final(g).reg().ids), final(g).reg().online <= final(g).reg().next.0, !final(g).reg().ids.contains_key(final(g).reg().next), rely(final(g).reg(), final(g).reg()),
    forall|n: Seq<u8>| #[trigger] final(g).client_identifier_map@.contains_key(n) ==> final(g).clients@.contains_key(final(g).client_identifier_map@[n]) && final(g).client_id_map@.contains_key(final(g).client_identifier_map@[n]),
{ vx_lock0(g); proof { lemma_counts(g.reg().ids); lemma_room(g.reg()); lemma_rely(g.reg(), g.reg(), g.reg()); let a = g.reg(); assert forall|n: Seq<u8>| #[trigger] g.client_identifier_map@.contains_key(n) implies g.clients@.contains_key(g.client_identifier_map@[n]) && g.client_id_map@.contains_key(g.client_identifier_map@[n]) by { assert(a.names.contains_key(n)); assert(a.ids.contains_key(a.names[n])); assert(a.clients.contains_key(a.names[n])); } } }
"""
# the lock is released on leaving
REL = "vx_release(self);"
KEEP = "but_reg(*old(self), *final(self)), "
QUIET = "!old(self).vx@.locked"
STEP = "!final(self).vx@.locked, final(self).vx@.sent == old(self).vx@.sent, final(self).vx@.steps.len() == old(self).vx@.steps.len() + 1, (forall|i: int| 0 <= i < old(self).vx@.steps.len() ==> #[trigger] final(self).vx@.steps[i] == old(self).vx@.steps[i]), "
def one(rel): return STEP + f"({{ let s = final(self).vx@.steps.last(); {rel} && rely(old(self).reg(), s.0) && final(self).reg() == s.1 }}),"
SELF = [("& self", "&mut self")]
def unit():
    u = Unit("c09", flags=S.FLAGS, uses="use vstd::std_specs::cmp::*;\n", subs=SUBS)
    u.raw("pub type TopicFilter = Str;\n" + S.STR + S.IO + S.CID + WORLD + "impl Copy for Protocol {}\nimpl Clone for Protocol { fn clone(&self) -> Self { *self } }\npub enum Protocol { V310, V311, V500 }\nimpl PartialEq for Protocol { #[verifier::external_body] fn eq(&self, o: &Protocol) -> (r: bool) { unimplemented!() } }\nimpl vstd::std_specs::cmp::PartialEqSpecImpl for Protocol { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Protocol) -> bool { *self == *o } }\n#[verifier::external_body]\npub struct Instant { x: u8 }" + MSG)
    u.item(F, "ClientSender"); u.item(F, "ClientReceiver"); u.item(F, "ControlMessage"); u.item(F, "AddClientReceipt"); u.item(F, "GlobalState")
    u.raw(SPEC)
    D = "let ghost vx_a = self.vx@.at; "
    u.impl(F, "GlobalState", [
        Fn("new", ret="r", spec="ensures inv(r.reg()), r.reg().ids == Map::<ClientId, (Str, bool)>::empty(), r.reg().names == Map::<Seq<u8>, ClientId>::empty(), r.route_table@ == Set::<(Seq<u8>, ClientId)>::empty(), r.config == config, !r.vx@.locked,", post="proof { assert(online_of(vx_tail.reg().ids) =~= Set::<ClientId>::empty()); }"),
        Fn("online_clients_count", ret="r", spec="ensures r == self.online_clients.v, inv(self.reg()) ==> r == online_of(self.reg().ids).len(),"),
        Fn("clients_count", ret="r", spec="ensures r == self.reg().clients.dom().len(), inv(self.reg()) ==> r == self.reg().ids.dom().len(),", pre="proof { if inv(self.reg()) { assert(self.clients@.dom() =~= self.client_id_map@.dom()); } }"),
        Fn("remove_client", sig_subs=SELF + [("< 'a >", ""), ("subscribes : impl IntoIterator < Item = & 'a TopicFilter >", "subscribes: Vec<&TopicFilter>")], attrs="#[verifier::loop_isolation(false)]", ret_post=True,
           spec=f"""requires {QUIET}
           ensures {one('left(s.0, s.1, client_id)')} final(self).config == old(self).config, final(self).auth_passwords == old(self).auth_passwords, final(self).retain_table == old(self).retain_table,
               forall|f: Seq<u8>, id: ClientId| #[trigger] final(self).route_table@.contains((f, id)) <==> old(self).route_table@.contains((f, id)) && !(id == client_id && (exists|i: int| 0 <= i < subscribes@.len() && (#[trigger] subscribes@[i])@ == f)),""",
           post="proof { let a = self.vx@.at; if !a.ids.contains_key(client_id) { assert(self.clients@ =~= a.clients); assert(self.client_id_map@ =~= a.ids); } } " + REL,
           loops=[L("while", "invariant vx_i <= subscribes@.len(), *self == (GlobalState { route_table: self.route_table, ..vx_s }), forall|f: Seq<u8>, id: ClientId| #[trigger] self.route_table@.contains((f, id)) <==> vx_s.route_table@.contains((f, id)) && !(id == client_id && (exists|i: int| 0 <= i < vx_i && (#[trigger] subscribes@[i])@ == f)) decreases subscribes@.len() - vx_i",
                    before="let ghost vx_s = *self;")]),
        Fn("offline_client", sig_subs=SELF, post=REL, ret_post=True,
           spec=f"""requires {QUIET}, old(self).vx@.owns == Some(client_id)
           ensures {KEEP}{one('went_offline(s.0, s.1, client_id)')}"""),
        Fn("set_client_online", sig_subs=SELF, post=REL, ret_post=True,
           spec=f"""requires {QUIET}
           ensures {KEEP}{one('came_online(s.0, s.1, client_id)')}"""),
        Fn("get_client_normal_sender", ret="r", spec="ensures r == (if self.reg().clients.contains_key(*client_id) { Some(self.reg().clients[*client_id].normal) } else { None }),"),
        Fn("get_client_control_sender", ret="r", spec="ensures r == (if self.reg().clients.contains_key(*client_id) { Some(self.reg().clients[*client_id].control) } else { None }),"),
        Fn("add_client", ret="r", sig_subs=SELF + [("client_identifier : & str", "client_identifier: &Str")], spec=f"""requires {QUIET}
           ensures ({{ let v = old(self).vx@; let w = final(self).vx@; let n = v.steps.len() as int; let s = w.steps[n]; let name = *client_identifier;
               &&& !w.locked && but_reg(*old(self), *final(self)) && w.steps.len() > n && (forall|i: int| 0 <= i < n ==> #[trigger] w.steps[i] == v.steps[i]) && rely(old(self).reg(), s.0)
               &&& !s.0.names.contains_key(name@) ==> w.steps.len() == n + 1 && w.sent == v.sent && final(self).reg() == s.1 && (r matches Ok(AddClientReceipt::New {{ client_id, receiver }}) && joined(s.0, s.1, name, client_id, s.1.clients[client_id]) && ours(s.1.clients[client_id], receiver))
               &&& s.0.names.contains_key(name@) ==> s.1 == s.0 && asked(s.0, s.0.names[name@], protocol, v.sent, w.sent, r) && match r {{
                   Ok(x) => w.steps.len() == n + 2 && rely(s.1, w.steps[n + 1].0) && came_online(w.steps[n + 1].0, w.steps[n + 1].1, s.0.names[name@]) && final(self).reg() == w.steps[n + 1].1,
                   Err(_) => w.steps.len() == n + 1,
               }} }}),"""),
    ])
    u.raw(r"""
/// the client gets the other ends of the registered channels
pub open spec fn ours(s: ClientSender, r: ClientReceiver) -> bool { s.control.chan() == r.control.chan() && s.normal.chan() == r.normal.chan() }
/// the task of the registered client is asked once for its session (by the question of the protocol) and its answer is the receipt; an error says that it could not be asked or did not answer
pub open spec fn asked(g: Reg, id: ClientId, p: Protocol, s: Seq<Sent>, t: Seq<Sent>, r: IoRes<AddClientReceipt>) -> bool {
    let last = t.last();
    &&& g.ids.contains_key(id)
    &&& t == s || t.len() == s.len() + 1 && t == s.push(last) && last.chan == g.clients[id].control.chan() && (if p is V500 { last.msg is OnlineV5 } else { last.msg is OnlineV3 })
    &&& r matches Ok(x) ==> t.len() == s.len() + 1 && match x { AddClientReceipt::New { .. } => false, AddClientReceipt::PresentV3(_) => !(p is V500) && came((last.msg->OnlineV3_sender).chan(), x), AddClientReceipt::PresentV5(_) => p is V500 && came((last.msg->OnlineV5_sender).chan(), x) }
}
""")
    return u

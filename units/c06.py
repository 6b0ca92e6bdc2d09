"""C06: the routing table (RouteTable, RouteNode, RouteContent of protocols/mqtt/route.rs) under contract.
SharedClients is used through the contracts that C07 discharges."""
from vunit import Unit, Fn, L
from scram_common import PRELUDE, pushes
from trie_common import TRIE, SPLIT_SUBS
from vstd_hm import HM, QOS, CLIENTID
R = "akasa-core/src/protocols/mqtt/route.rs"

STANDINS = r"""
pub type TopicFilter = Str;
pub type TopicName = Str;
/// mqtt_proto's split of `$share/<group>/<filter>`
pub uninterp spec fn share_of(f: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)>;
impl Str {
    pub fn deref(&self) -> (r: &Str) ensures r@ == self@, *r == *self { self }
    #[verifier::external_body]
    pub fn shared_info(&self) -> (r: Option<(&Str, &Str)>) ensures match r { None => share_of(self@) is None, Some(x) => share_of(self@) == Some((x.0@, x.1@)) } { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_filter_of(s: &Str) -> (r: Str) requires exists|f: Seq<u8>| (#[trigger] share_of(f)) is Some && share_of(f)->Some_0.1 == s@ ensures r@ == s@ { unimplemented!() }
/// the groups of a filter: the contracts of C07
#[verifier::external_body]
pub struct SharedClients { x: u8 }
impl SharedClients {
    pub uninterp spec fn wf(self) -> bool;
    pub uninterp spec fn members(self) -> Map<ClientId, QoS>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.wf(), r.members() == Map::<ClientId, QoS>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, item: (ClientId, QoS)) requires old(self).wf() ensures final(self).wf(), final(self).members() == old(self).members().insert(item.0, item.1) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &ClientId) requires old(self).wf() ensures final(self).wf(), final(self).members() == old(self).members().remove(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) requires self.wf() ensures r == (self.members() == Map::<ClientId, QoS>::empty()) { unimplemented!() }
}
"""
SPEC = pushes(r"""
impl RouteContent {
    pub fn read(&self) -> (r: &Self) ensures *r == *self { self }
    pub fn write(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self) { self }
    #[verifier::external_body]
    pub fn vx_snap(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub type Members = Map<ClientId, QoS>;
/// what is subscribed under one filter
pub struct Entry { pub clients: Members, pub groups: Map<Seq<u8>, Members> }
pub struct CV { pub tf: Option<Seq<u8>>, pub e: Entry }
pub open spec fn gm(m: Map<Seq<u8>, SharedClients>) -> Map<Seq<u8>, Members> { m.map_values(|s: SharedClients| s.members()) }
pub broadcast proof fn lemma_gm_put(m: Map<Seq<u8>, SharedClients>, g: Seq<u8>, s: SharedClients) ensures (#[trigger] gm(m.insert(g, s))) == gm(m).insert(g, s.members()) { assert(gm(m.insert(g, s)) =~= gm(m).insert(g, s.members())); }
pub broadcast proof fn lemma_gm_del(m: Map<Seq<u8>, SharedClients>, g: Seq<u8>) ensures (#[trigger] gm(m.remove(g))) == gm(m).remove(g) { assert(gm(m.remove(g)) =~= gm(m).remove(g)); }
pub broadcast proof fn lemma_gm_two(m: Map<Seq<u8>, Members>, g: Seq<u8>, s: Members) ensures (#[trigger] m.insert(g, s).remove(g)) == m.remove(g) { assert(m.insert(g, s).remove(g) =~= m.remove(g)); }
pub broadcast proof fn lemma_gm_empty(m: Map<Seq<u8>, SharedClients>) ensures #![trigger gm(m)] (m == Map::<Seq<u8>, SharedClients>::empty()) == (gm(m) == Map::<Seq<u8>, Members>::empty()) {
    if gm(m) == Map::<Seq<u8>, Members>::empty() { assert forall|k: Seq<u8>| !m.contains_key(k) by { assert(gm(m).contains_key(k) == m.contains_key(k)); } assert(m =~= Map::empty()); } else if m == Map::<Seq<u8>, SharedClients>::empty() { assert(gm(m) =~= Map::empty()); }
}
pub open spec fn ev(c: RouteContent) -> Entry { Entry { clients: c.clients@, groups: gm(c.groups@) } }
pub open spec fn cvof(c: RouteContent) -> CV { CV { tf: match c.topic_filter { None => None, Some(f) => Some(f@) }, e: ev(c) } }
pub open spec fn NOENTRY() -> Entry { Entry { clients: Map::empty(), groups: Map::empty() } }
pub open spec fn NOCV() -> CV { CV { tf: None, e: NOENTRY() } }
pub open spec fn live(e: Entry) -> bool { e != NOENTRY() }
pub open spec fn cwf(c: RouteContent) -> bool { (live(ev(c)) <==> c.topic_filter is Some) && forall|g: Seq<u8>| #[trigger] c.groups@.contains_key(g) ==> c.groups@[g].wf() && c.groups@[g].members() != Members::empty() }
pub open spec fn node_at(n: RouteNode, p: Path) -> Option<RouteNode> decreases p.len() {
    if p.len() == 0 { Some(n) } else if n.nodes@.contains_key(p[0]) { node_at(n.nodes@[p[0]], p.skip(1)) } else { None }
}
pub open spec fn sub_at(m: Map<Seq<u8>, RouteNode>, k: Seq<u8>, q: Path) -> Option<RouteNode> { if m.contains_key(k) { node_at(m[k], q) } else { None } }
pub open spec fn cvn(n: Option<RouteNode>) -> CV { match n { None => NOCV(), Some(x) => cvof(x.content) } }
pub open spec fn bare(n: RouteNode) -> bool { !live(ev(n.content)) && n.nodes@ == Map::<Seq<u8>, RouteNode>::empty() }
/// every node is well formed and none but this one is without both subscriptions and children
pub open spec fn shape(n: RouteNode) -> bool { cwf(n.content) && mshape(n.nodes@) }
pub open spec fn mshape(m: Map<Seq<u8>, RouteNode>) -> bool { forall|k: Seq<u8>, q: Path| (#[trigger] sub_at(m, k, q)) is Some ==> cwf(sub_at(m, k, q)->Some_0.content) && !bare(sub_at(m, k, q)->Some_0) }
pub open spec fn e_ins(e: Entry, id: ClientId, qos: QoS, g: Option<Seq<u8>>) -> Entry {
    match g { None => Entry { clients: e.clients.insert(id, qos), ..e }, Some(n) => Entry { groups: e.groups.insert(n, (if e.groups.contains_key(n) { e.groups[n] } else { Members::empty() }).insert(id, qos)), ..e } }
}
pub open spec fn e_del(e: Entry, id: ClientId, g: Option<Seq<u8>>) -> Entry {
    match g { None => Entry { clients: e.clients.remove(id), ..e }, Some(n) => if !e.groups.contains_key(n) { e } else if e.groups[n].remove(id) == Members::empty() { Entry { groups: e.groups.remove(n), ..e } } else { Entry { groups: e.groups.insert(n, e.groups[n].remove(id)), ..e } } }
}
pub open spec fn c_ins(c: CV, f: Seq<u8>, id: ClientId, qos: QoS, g: Option<Seq<u8>>) -> CV { CV { tf: if c.tf is Some { c.tf } else { Some(f) }, e: e_ins(c.e, id, qos, g) } }
pub open spec fn c_del(c: CV, id: ClientId, g: Option<Seq<u8>>) -> CV { CV { tf: if live(e_del(c.e, id, g)) { c.tf } else { None }, e: e_del(c.e, id, g) } }
pub open spec fn og(g: Option<&Str>) -> Option<Seq<u8>> { match g { None => None, Some(s) => Some(s@) } }
pub open spec fn og2(g: Option<Str>) -> Option<Seq<u8>> { match g { None => None, Some(s) => Some(s@) } }
pub proof fn lemma_live_ins(e: Entry, id: ClientId, qos: QoS, g: Option<Seq<u8>>) ensures live(e_ins(e, id, qos, g)) { match g { None => { assert(e.clients.insert(id, qos).contains_key(id)); }, Some(n) => { let m = (if e.groups.contains_key(n) { e.groups[n] } else { Members::empty() }).insert(id, qos); assert(e.groups.insert(n, m).contains_key(n)); } } }
pub broadcast proof fn lemma_nonempty_ins(m: Members, id: ClientId, q: QoS) ensures (#[trigger] m.insert(id, q)) != Members::empty() { assert(m.insert(id, q).contains_key(id)); }
pub proof fn lemma_del_none(id: ClientId, g: Option<Seq<u8>>) ensures c_del(NOCV(), id, g) == NOCV() { assert(Members::empty().remove(id) =~= Members::empty()); }
/// the subtree below level k differs exactly at r, where it now holds v
pub open spec fn cv_updated(o: RouteNode, n: RouteNode, path: Path, v: CV) -> bool { forall|p: Path| #![trigger node_at(n, p)] #![trigger node_at(o, p)] cvn(node_at(n, p)) == (if p == path { v } else { cvn(node_at(o, p)) }) }
pub open spec fn m_updated(o: Map<Seq<u8>, RouteNode>, n: Map<Seq<u8>, RouteNode>, k: Seq<u8>, r: Path, v: CV) -> bool {
    forall|j: Seq<u8>, q: Path| #![trigger sub_at(n, j, q)] #![trigger sub_at(o, j, q)] cvn(sub_at(n, j, q)) == (if j == k && q == r { v } else { cvn(sub_at(o, j, q)) })
}
pub proof fn lemma_m_updated(o: Map<Seq<u8>, RouteNode>, n: Map<Seq<u8>, RouteNode>, k: Seq<u8>, r: Path, v: CV)
    requires n.remove(k) =~= o.remove(k), forall|q: Path| #[trigger] cvn(sub_at(n, k, q)) == (if q == r { v } else { cvn(sub_at(o, k, q)) })
    ensures m_updated(o, n, k, r, v)
{
    assert forall|j: Seq<u8>, q: Path| cvn(#[trigger] sub_at(n, j, q)) == (if j == k && q == r { v } else { cvn(sub_at(o, j, q)) }) by {
        if j != k { assert(n.remove(k).contains_key(j) == o.remove(k).contains_key(j)); if o.contains_key(j) { assert(n.remove(k)[j] == o.remove(k)[j]); } } else { assert(cvn(sub_at(n, k, q)) == (if q == r { v } else { cvn(sub_at(o, k, q)) })); }
    }
}
pub proof fn lemma_n_updated(o: RouteNode, n: RouteNode, k: Seq<u8>, r: Path, v: CV)
    requires m_updated(o.nodes@, n.nodes@, k, r, v), n.content == o.content ensures cv_updated(o, n, cons(k, r), v)
{
    lemma_cons(k, r);
    assert forall|p: Path| cvn(#[trigger] node_at(n, p)) == (if p == cons(k, r) { v } else { cvn(node_at(o, p)) }) by {
        if p.len() > 0 { lemma_uncons(p); assert(node_at(n, p) == sub_at(n.nodes@, p[0], p.skip(1))); assert(node_at(o, p) == sub_at(o.nodes@, p[0], p.skip(1))); if p[0] == k && p.skip(1) == r { assert(p =~= cons(k, r)); } }
    }
}
pub proof fn lemma_mshape(o: Map<Seq<u8>, RouteNode>, n: Map<Seq<u8>, RouteNode>, k: Seq<u8>)
    requires n.remove(k) =~= o.remove(k), mshape(o), n.contains_key(k) ==> shape(n[k]) && !bare(n[k]) ensures mshape(n)
{
    assert forall|j: Seq<u8>, q: Path| (#[trigger] sub_at(n, j, q)) is Some implies cwf(sub_at(n, j, q)->Some_0.content) && !bare(sub_at(n, j, q)->Some_0) by {
        if j != k { assert(n.remove(k).contains_key(j) == o.remove(k).contains_key(j)); assert(n.remove(k)[j] == o.remove(k)[j]); assert(sub_at(o, j, q) == sub_at(n, j, q)); }
        else if q.len() > 0 { assert(sub_at(n, j, q) == sub_at(n[k].nodes@, q[0], q.skip(1))); }
    }
}
pub proof fn lemma_child(m: Map<Seq<u8>, RouteNode>, k: Seq<u8>) requires mshape(m), m.contains_key(k) ensures shape(m[k]), !bare(m[k])
{
    let e = Seq::<Seq<u8>>::empty(); assert(sub_at(m, k, e) == Some(m[k]));
    assert forall|j: Seq<u8>, q: Path| (#[trigger] sub_at(m[k].nodes@, j, q)) is Some implies cwf(sub_at(m[k].nodes@, j, q)->Some_0.content) && !bare(sub_at(m[k].nodes@, j, q)->Some_0) by { lemma_cons(j, q); assert(sub_at(m, k, cons(j, q)) == sub_at(m[k].nodes@, j, q)); }
}
pub proof fn lemma_children(m: Map<Seq<u8>, RouteNode>) requires mshape(m) ensures forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> shape(m[k]) && !bare(m[k])
{ assert forall|k: Seq<u8>| #[trigger] m.contains_key(k) implies shape(m[k]) && !bare(m[k]) by { lemma_child(m, k); } }
pub broadcast proof fn lemma_fresh_shape(n: RouteNode) requires cwf(n.content), n.nodes@ == Map::<Seq<u8>, RouteNode>::empty() ensures #[trigger] shape(n) {}
/// below a node without children there is nothing
pub broadcast proof fn lemma_fresh(n: RouteNode, p: Path) requires n.nodes@ == Map::<Seq<u8>, RouteNode>::empty() ensures p.len() > 0 ==> (#[trigger] node_at(n, p)) is None {}
pub broadcast proof fn lemma_bare(n: RouteNode, p: Path) requires bare(n), cwf(n.content) ensures cvn(#[trigger] node_at(n, p)) == NOCV() {}
pub proof fn lemma_ins_post(o: RouteNode, n: RouteNode, path: Path, v: CV)
    requires mshape(o.nodes@), if path.len() == 0 { n.nodes == o.nodes && cvof(n.content) == v } else { let k = path[0]; let r = path.skip(1); n.content == o.content && n.nodes@.remove(k) =~= o.nodes@.remove(k) && (n.nodes@.contains_key(k) ==> shape(n.nodes@[k]) && !bare(n.nodes@[k]))
        && (forall|q: Path| #[trigger] cvn(sub_at(n.nodes@, k, q)) == (if q == r { v } else { cvn(sub_at(o.nodes@, k, q)) })) }
    ensures cv_updated(o, n, path, v), mshape(n.nodes@)
{
    if path.len() == 0 {
        assert forall|p: Path| cvn(#[trigger] node_at(n, p)) == (if p == path { v } else { cvn(node_at(o, p)) }) by { if p.len() == 0 { assert(p =~= path); } }
    } else { let k = path[0]; let r = path.skip(1); lemma_m_updated(o.nodes@, n.nodes@, k, r, v); lemma_n_updated(o, n, k, r, v); lemma_uncons(path); lemma_mshape(o.nodes@, n.nodes@, k); }
}
/// a subtree in which only its root could be bare holds a subscription
pub proof fn lemma_alive(n: RouteNode) -> (p: Path) requires shape(n), !bare(n) ensures live(cvn(node_at(n, p)).e) decreases n
{
    broadcast use SM::axiom_smaller;
    if live(ev(n.content)) { Seq::<Seq<u8>>::empty() } else {
        let m = n.nodes@;
        assert(exists|k: Seq<u8>| m.contains_key(k)) by { if !(exists|k: Seq<u8>| m.contains_key(k)) { assert(m =~= Map::empty()); } }
        let k = choose|k: Seq<u8>| m.contains_key(k);
        assert(decreases_to!(n => n.nodes)); assert(decreases_to!(n.nodes => n.nodes@[k]));
        lemma_child(m, k); let q = lemma_alive(m[k]); lemma_cons(k, q); cons(k, q)
    }
}

// ---- matching -------------------------------------------------------------------------------------------------------
pub open spec fn nhit(n: RouteNode, prev: Seq<u8>, t: Path, p: Path) -> bool { live(cvn(node_at(n, p)).e) && (if prev == HASH() { p.len() == 0 } else { fits(p, t) }) }
pub open spec fn mhit(m: Map<Seq<u8>, RouteNode>, t: Path, p: Path) -> bool { p.len() > 0 && fits(p, t) && live(cvn(sub_at(m, p[0], p.skip(1))).e) }
/// `add` lists the content of every filter path that is hit, exactly once
pub open spec fn answer(n: RouteNode, prev: Seq<u8>, t: Path, add: Seq<RouteContent>, ps: Seq<Path>) -> bool {
    &&& add.len() == ps.len() && ps.no_duplicates()
    &&& forall|i: int| 0 <= i < ps.len() ==> nhit(n, prev, t, #[trigger] ps[i]) && node_at(n, ps[i]) is Some && node_at(n, ps[i])->Some_0.content == add[i]
    &&& forall|p: Path| nhit(n, prev, t, p) ==> #[trigger] ps.contains(p)
}
/// the same for the filters whose first level is one of `keys`
pub open spec fn part(m: Map<Seq<u8>, RouteNode>, t: Path, add: Seq<RouteContent>, ps: Seq<Path>, keys: Path) -> bool {
    &&& add.len() == ps.len() && ps.no_duplicates()
    &&& forall|i: int| 0 <= i < ps.len() ==> mhit(m, t, #[trigger] ps[i]) && keys.contains(ps[i][0]) && sub_at(m, ps[i][0], ps[i].skip(1)) is Some && sub_at(m, ps[i][0], ps[i].skip(1))->Some_0.content == add[i]
    &&& forall|p: Path| mhit(m, t, p) && keys.contains(p[0]) ==> #[trigger] ps.contains(p)
}
pub open spec fn answered(n: RouteNode, prev: Seq<u8>, t: Path, before: Seq<RouteContent>, after: Seq<RouteContent>) -> bool { exists|add: Seq<RouteContent>, ps: Seq<Path>| #[trigger] answer(n, prev, t, add, ps) && after == before + add }
pub open spec fn under(k: Seq<u8>, ps: Seq<Path>) -> Seq<Path> { ps.map_values(|p: Path| cons(k, p)) }
pub open spec fn NOP() -> Path { Seq::<Seq<u8>>::empty() }
pub proof fn lemma_none(m: Map<Seq<u8>, RouteNode>, t: Path) ensures part(m, t, Seq::<RouteContent>::empty(), Seq::<Path>::empty(), NOP()) {}
pub proof fn lemma_skip(m: Map<Seq<u8>, RouteNode>, t: Path, add: Seq<RouteContent>, ps: Seq<Path>, keys: Path, k: Seq<u8>)
    requires part(m, t, add, ps, keys), !m.contains_key(k) ensures part(m, t, add, ps, keys.push(k))
{
    let ks = keys.push(k);
    assert forall|i: int| 0 <= i < ps.len() implies mhit(m, t, #[trigger] ps[i]) && ks.contains(ps[i][0]) && sub_at(m, ps[i][0], ps[i].skip(1)) is Some && sub_at(m, ps[i][0], ps[i].skip(1))->Some_0.content == add[i] by { let z = choose|z: int| 0 <= z < keys.len() && keys[z] == ps[i][0]; assert(ks[z] == keys[z]); }
    assert forall|p: Path| mhit(m, t, p) && ks.contains(p[0]) implies #[trigger] ps.contains(p) by { let z = choose|z: int| 0 <= z < ks.len() && ks[z] == p[0]; if z < keys.len() { assert(keys[z] == p[0]); } }
}
pub proof fn lemma_step(m: Map<Seq<u8>, RouteNode>, t: Path, t2: Path, add: Seq<RouteContent>, ps: Seq<Path>, keys: Path, k: Seq<u8>, add2: Seq<RouteContent>, ps2: Seq<Path>)
    requires part(m, t, add, ps, keys), !keys.contains(k), m.contains_key(k), answer(m[k], k, t2, add2, ps2), forall|q: Path| nhit(m[k], k, t2, q) == (live(cvn(#[trigger] node_at(m[k], q)).e) && fits(cons(k, q), t))
    ensures part(m, t, add + add2, ps + under(k, ps2), keys.push(k))
{
    let qs = ps + under(k, ps2); let ks = keys.push(k); let c = m[k];
    assert forall|i: int| 0 <= i < qs.len() implies mhit(m, t, #[trigger] qs[i]) && ks.contains(qs[i][0]) && sub_at(m, qs[i][0], qs[i].skip(1)) is Some && sub_at(m, qs[i][0], qs[i].skip(1))->Some_0.content == (add + add2)[i] by {
        if i < ps.len() { assert(qs[i] == ps[i]); let z = choose|z: int| 0 <= z < keys.len() && keys[z] == ps[i][0]; assert(ks[z] == keys[z]); }
        else { let j = i - ps.len(); assert(qs[i] == cons(k, ps2[j])); lemma_cons(k, ps2[j]); assert(cons(k, ps2[j]).skip(1) == ps2[j]); assert(nhit(c, k, t2, ps2[j])); assert(ks[keys.len() as int] == k); }
    }
    assert forall|p: Path| mhit(m, t, p) && ks.contains(p[0]) implies #[trigger] qs.contains(p) by {
        if p[0] == k { lemma_uncons(p); let q = p.skip(1); assert(p == cons(k, q)); assert(node_at(c, q) == sub_at(m, k, q)); assert(nhit(c, k, t2, q)); assert(ps2.contains(q)); let j = choose|j: int| 0 <= j < ps2.len() && ps2[j] == q; assert(qs[ps.len() + j] == cons(k, q)); }
        else { let z = choose|z: int| 0 <= z < ks.len() && ks[z] == p[0]; assert(keys[z] == p[0]); assert(ps.contains(p)); let j = choose|j: int| 0 <= j < ps.len() && ps[j] == p; assert(qs[j] == p); }
    }
    assert forall|i: int, j: int| 0 <= i < qs.len() && 0 <= j < qs.len() && i != j implies qs[i] != qs[j] by {
        if i < ps.len() && j < ps.len() { assert(ps[i] != ps[j]); }
        else if i >= ps.len() && j >= ps.len() { let a = ps2[i - ps.len()]; let b = ps2[j - ps.len()]; assert(a != b); lemma_cons(k, a); lemma_cons(k, b); assert(cons(k, a).skip(1) == a && cons(k, b).skip(1) == b); }
        else if i < ps.len() { assert(keys.contains(ps[i][0])); lemma_cons(k, ps2[j - ps.len()]); }
        else { assert(keys.contains(ps[j][0])); lemma_cons(k, ps2[i - ps.len()]); }
    }
}
/// how the levels of a filter select below the levels k of a plain topic
pub proof fn lemma_level(n: RouteNode, k: Seq<u8>, t0: Seq<u8>, t2: Path) requires t0 != HASH(), t0 != PLUS(), k == t0 || k == HASH() || k == PLUS()
    ensures forall|q: Path| nhit(n, k, t2, q) == (live(cvn(#[trigger] node_at(n, q)).e) && fits(cons(k, q), cons(t0, t2)))
{
    lemma_hash_plus();
    assert forall|q: Path| nhit(n, k, t2, q) == (live(cvn(#[trigger] node_at(n, q)).e) && fits(cons(k, q), cons(t0, t2))) by { lemma_cons(k, q); lemma_cons(t0, t2); }
}
pub proof fn lemma_own(n: RouteNode, t: Path, add: Seq<RouteContent>, ps: Seq<Path>, keys: Path)
    requires part(n.nodes@, t, add, ps, keys), forall|p: Path| mhit(n.nodes@, t, p) ==> #[trigger] keys.contains(p[0])
    ensures forall|prev: Seq<u8>| prev != HASH() && (t.len() > 0 || !live(ev(n.content))) ==> #[trigger] answer(n, prev, t, add, ps),
        forall|prev: Seq<u8>| prev != HASH() && t.len() == 0 && live(ev(n.content)) ==> #[trigger] answer(n, prev, t, Seq::<RouteContent>::empty().push(n.content) + add, Seq::<Path>::empty().push(NOP()) + ps)
{
    let e = NOP();
    assert forall|p: Path| p.len() > 0 implies (#[trigger] node_at(n, p)) == sub_at(n.nodes@, p[0], p.skip(1)) by {}
    assert forall|p: Path| p.len() == 0 implies p == e by { assert(p =~= e); }
    assert forall|prev: Seq<u8>| prev != HASH() && (t.len() > 0 || !live(ev(n.content))) implies #[trigger] answer(n, prev, t, add, ps) by {
        assert forall|i: int| 0 <= i < ps.len() implies nhit(n, prev, t, #[trigger] ps[i]) && node_at(n, ps[i]) is Some && node_at(n, ps[i])->Some_0.content == add[i] by { assert(mhit(n.nodes@, t, ps[i])); }
        assert forall|p: Path| nhit(n, prev, t, p) implies #[trigger] ps.contains(p) by { assert(p.len() > 0); assert(mhit(n.nodes@, t, p)); assert(keys.contains(p[0])); }
    }
    assert forall|prev: Seq<u8>| prev != HASH() && t.len() == 0 && live(ev(n.content)) implies #[trigger] answer(n, prev, t, Seq::<RouteContent>::empty().push(n.content) + add, Seq::<Path>::empty().push(e) + ps) by {
        let qs = Seq::<Path>::empty().push(e) + ps; let as2 = Seq::<RouteContent>::empty().push(n.content) + add;
        assert forall|i: int| 0 <= i < qs.len() implies nhit(n, prev, t, #[trigger] qs[i]) && node_at(n, qs[i]) is Some && node_at(n, qs[i])->Some_0.content == as2[i] by { if i > 0 { assert(qs[i] == ps[i - 1]); assert(mhit(n.nodes@, t, ps[i - 1])); } }
        assert forall|p: Path| nhit(n, prev, t, p) implies #[trigger] qs.contains(p) by { if p.len() == 0 { assert(qs[0] == p); } else { assert(mhit(n.nodes@, t, p)); assert(keys.contains(p[0])); assert(ps.contains(p)); let j = choose|j: int| 0 <= j < ps.len() && ps[j] == p; assert(qs[j + 1] == p); } }
        assert forall|i: int, j: int| 0 <= i < qs.len() && 0 <= j < qs.len() && i != j implies qs[i] != qs[j] by { if i > 0 { assert(mhit(n.nodes@, t, ps[i - 1])); } if j > 0 { assert(mhit(n.nodes@, t, ps[j - 1])); } }
    }
}
/// the content of a node as the answer for the path that ends there
pub proof fn lemma_leaf(n: RouteNode, prev: Seq<u8>, t: Path) requires prev == HASH()
    ensures live(ev(n.content)) ==> answer(n, prev, t, Seq::<RouteContent>::empty().push(n.content), Seq::<Path>::empty().push(NOP())), !live(ev(n.content)) ==> answer(n, prev, t, Seq::<RouteContent>::empty(), Seq::<Path>::empty())
{ assert forall|p: Path| nhit(n, prev, t, p) implies p =~= NOP() by {} let one = Seq::<Path>::empty().push(NOP()); assert(one[0] == NOP()); assert(one.contains(NOP())); }
pub proof fn lemma_keys(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, m: Map<Seq<u8>, RouteNode>, t: Path, ks: Path) requires t.len() > 0, ks.contains(t[0]), ks.contains(HASH()), ks.contains(PLUS()) ensures forall|p: Path| mhit(m, t, p) ==> #[trigger] ks.contains(p[0]) {}

// ---- the table ------------------------------------------------------------------------------------------------------
/// what is subscribed under filter f
pub open spec fn tcv(t: RouteTable, p: Path) -> CV { if p.len() == 0 { NOCV() } else { cvn(sub_at(t.nodes@, p[0], p.skip(1))) } }
pub open spec fn entry(t: RouteTable, f: Seq<u8>) -> Entry { tcv(t, levels(f)).e }
/// each filter stands at its own path, is recorded exactly while something is subscribed under it, and nothing else is kept
pub open spec fn wf(t: RouteTable) -> bool {
    &&& mshape(t.nodes@)
    &&& forall|p: Path| (live((#[trigger] tcv(t, p)).e) <==> tcv(t, p).tf is Some) && (tcv(t, p).tf is Some ==> levels(tcv(t, p).tf->Some_0) == p)
}
pub open spec fn wild(l: Seq<u8>) -> bool { l == HASH() || l == PLUS() }
/// MQTT matching of a topic name by a filter
pub open spec fn selects(filter: Seq<u8>, topic: Seq<u8>) -> bool { fits(levels(filter), levels(topic)) && !(wild(levels(filter)[0]) && first_is(topic, 36)) }
pub open spec fn filter_of(c: RouteContent) -> Seq<u8> { c.topic_filter->Some_0@ }
/// r lists exactly the filters that match the topic and have subscribers, each once with its subscribers
pub open spec fn exactly(t: RouteTable, topic: Seq<u8>, r: Seq<RouteContent>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).topic_filter is Some && live(ev(r[i])) && entry(t, filter_of(r[i])) == ev(r[i]) && selects(filter_of(r[i]), topic)
    &&& forall|f: Seq<u8>| live(#[trigger] entry(t, f)) && selects(f, topic) ==> exists|i: int| 0 <= i < r.len() && filter_of(#[trigger] r[i]) == f
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> filter_of(#[trigger] r[i]) != filter_of(#[trigger] r[j])
}
pub proof fn lemma_exactly(t: RouteTable, topic: Seq<u8>, add: Seq<RouteContent>, ps: Seq<Path>, keys: Path)
    requires wf(t), part(t.nodes@, levels(topic), add, ps, keys), keys.contains(levels(topic)[0]), !wild(levels(topic)[0]),
        keys.contains(HASH()) == !first_is(topic, 36), keys.contains(PLUS()) == !first_is(topic, 36)
    ensures exactly(t, topic, add)
{
    let tp = levels(topic); lemma_levels(topic);
    assert forall|i: int| 0 <= i < add.len() implies (#[trigger] add[i]).topic_filter is Some && live(ev(add[i])) && entry(t, filter_of(add[i])) == ev(add[i]) && selects(filter_of(add[i]), topic) && levels(filter_of(add[i])) == ps[i] by {
        let p = ps[i]; assert(mhit(t.nodes@, tp, p)); assert(tcv(t, p) == cvof(add[i]));
    }
    assert forall|f: Seq<u8>| live(#[trigger] entry(t, f)) && selects(f, topic) implies exists|i: int| 0 <= i < add.len() && filter_of(#[trigger] add[i]) == f by {
        let p = levels(f); lemma_levels(f); assert(mhit(t.nodes@, tp, p)); assert(keys.contains(p[0])); assert(ps.contains(p)); let j = choose|j: int| 0 <= j < ps.len() && ps[j] == p;
        lemma_join(f); lemma_join(filter_of(add[j])); assert(levels(filter_of(add[j])) == p); assert(filter_of(add[j]) == f);
    }
    assert forall|i: int, j: int| 0 <= i < j < add.len() implies filter_of(#[trigger] add[i]) != filter_of(#[trigger] add[j]) by { assert(levels(filter_of(add[i])) == ps[i] && levels(filter_of(add[j])) == ps[j]); assert(ps[i] != ps[j]); }
}
/// changing one filter's entry
pub open spec fn changed(o: RouteTable, n: RouteTable, f: Seq<u8>, e: Entry) -> bool { wf(n) && forall|x: Seq<u8>| #[trigger] entry(n, x) == (if x == f { e } else { entry(o, x) }) }
pub proof fn lemma_changed(o: RouteTable, n: RouteTable, f: Seq<u8>, k: Seq<u8>, r: Path, v: CV)
    requires wf(o), mshape(n.nodes@), levels(f) == cons(k, r), m_updated(o.nodes@, n.nodes@, k, r, v), live(v.e) <==> v.tf is Some, v.tf is Some ==> levels(v.tf->Some_0) == cons(k, r)
    ensures changed(o, n, f, v.e)
{
    lemma_cons(k, r);
    assert forall|p: Path| #[trigger] tcv(n, p) == (if p == cons(k, r) { v } else { tcv(o, p) }) by { if p.len() > 0 { lemma_uncons(p); assert(cvn(sub_at(n.nodes@, p[0], p.skip(1))) == (if p[0] == k && p.skip(1) == r { v } else { cvn(sub_at(o.nodes@, p[0], p.skip(1))) })); } }
    assert forall|p: Path| (live((#[trigger] tcv(n, p)).e) <==> tcv(n, p).tf is Some) && (tcv(n, p).tf is Some ==> levels(tcv(n, p).tf->Some_0) == p) by { assert(live(tcv(o, p).e) <==> tcv(o, p).tf is Some); }
    assert forall|x: Seq<u8>| #[trigger] entry(n, x) == (if x == f { v.e } else { entry(o, x) }) by { lemma_join(x); lemma_join(f); }
}
/// without subscriptions the table keeps no node at all
pub proof fn lemma_no_residue(t: RouteTable) requires wf(t), forall|f: Seq<u8>| !live(#[trigger] entry(t, f)) ensures t.nodes@ == Map::<Seq<u8>, RouteNode>::empty()
{
    if t.nodes@ != Map::<Seq<u8>, RouteNode>::empty() {
        assert(exists|k: Seq<u8>| t.nodes@.contains_key(k)) by { if !(exists|k: Seq<u8>| t.nodes@.contains_key(k)) { assert(t.nodes@ =~= Map::empty()); } }
        let k = choose|k: Seq<u8>| t.nodes@.contains_key(k); lemma_child(t.nodes@, k); let q = lemma_alive(t.nodes@[k]); lemma_cons(k, q); assert(cons(k, q).skip(1) == q);
        let p = cons(k, q); assert(live(tcv(t, p).e)); let f = tcv(t, p).tf->Some_0; assert(levels(f) == p); assert(live(entry(t, f)));
    }
}
/// the subscription a (possibly shared) filter stands for
pub open spec fn base(f: Seq<u8>) -> Seq<u8> { match share_of(f) { None => f, Some(x) => x.1 } }
pub open spec fn group(f: Seq<u8>) -> Option<Seq<u8>> { match share_of(f) { None => None, Some(x) => Some(x.0) } }
""")
BC = "proof { lemma_children(self.nodes@); } broadcast use {lemma_fresh_shape, lemma_fresh, lemma_bare, lemma_gm_put, lemma_gm_del, lemma_gm_two, lemma_gm_empty, lemma_nonempty_ins, lemma_cons};"
def ml(keys, prev, t, t2, mp, extra=""):
    return L("for", before="let ghost vx_r0 = filters@; let ghost mut vx_add = Seq::<RouteContent>::empty(); let ghost mut vx_ps = Seq::<Path>::empty(); let ghost mut vx_ks = NOP(); proof { lemma_hash_plus(); lemma_none(%s, %s); assert(vx_r0 + vx_add =~= vx_r0); }" % (mp, t), inv="")
def unit():
    u = Unit("c06", uses="use vstd::std_specs::cmp::*;\n", subs=[
        ("Arc < RwLock < HashMap < String , RouteNode >>>", "SM<RouteNode>"), ("RwLock < HashMap < String , RouteNode >>", "SM<RouteNode>"), ("Arc < RwLock < RouteContent >>", "RouteContent"), ("Vec < Arc < RwLock < RouteContent >>>", "Vec<RouteContent>"),
        ("Arc :: new ( RwLock :: new ( HashMap :: new ( ) ) )", "SM::new()"), ("Arc :: new ( RwLock :: new ( RouteContent { $B } ) )", "RouteContent { $B }"), ("groups : HashMap :: new ( )", "groups: SM::new()"),
        ("HashMap < ClientId , QoS >", "HM<ClientId, QoS>"), ("HashMap < String , SharedClients >", "SM<SharedClients>"), ("HashMap :: new ( )", "HM::new()"),
        ("Arc :: clone ( & $x )", "$x.vx_snap()"), ("Arc :: clone ( $x )", "$x.vx_snap()"),
        (". entry ( $k ) . or_insert_with ( $f )", ".vx_entry_or($k, $f())"), (". entry ( $k ) . or_default ( )", ".vx_entry_or($k, SharedClients::default())"),
        ("TopicFilter :: try_from ( $x ) . expect ( $m )", "vx_filter_of($x)"), ("TopicFilter :: try_from ( $x ) . unwrap ( )", "vx_filter_of($x)"),
        ("prev_item == MATCH_ALL_STR", "vx_seq(prev_item, vx_hash())"),
        ("for $x in [ $a , $b , $c ] { $B }", "let vx_items = [$a, $b, $c]; let mut vx_i: usize = 0; while vx_i < 3 { let $x = vx_items[vx_i]; $B vx_i = vx_i + 1; }"),
        ("for $x in [ $a , $b ] { $B }", "let vx_items = [$a, $b]; let mut vx_i: usize = 0; while vx_i < 2 { let $x = vx_items[vx_i]; $B vx_i = vx_i + 1; }"),
        ("if let $p = $e && $c { $B } let", "if let $p = $e { if $c { $B } } let"),
    ] + SPLIT_SUBS + [("& str", "&Str"), ("String", "Str")])
    u.raw(PRELUDE + TRIE + HM + QOS + CLIENTID)
    u.fn(R, Fn("split_topic", ret="r", spec="ensures levels(topic@) =~= cons(r.0@, rest(r.1)), olen(r.1) <= topic@.len(), match tail(topic@, 47) { None => r.0@ == topic@ && r.1 is None, Some(t) => r.0@ == head(topic@, 47) && r.1 is Some && r.1->Some_0@ == t },", pre="proof { lemma_levels(topic@); lemma_cut(topic@, 47); }"))
    u.raw(STANDINS)
    u.item(R, "RouteTable"); u.item(R, "RouteNode"); u.item(R, "RouteContent")
    u.raw(SPEC)
    INV = """
        invariant 0 <= vx_i <= %d, vx_t == cons(vx_t0, rest(rest_items)), vx_t0 == topic_item@, plain(vx_t), vx_items@.len() == %d, %s
            filters@ == vx_r0 + vx_add, part(%s, vx_t, vx_add, vx_ps, vx_ks), vx_ks.len() == vx_i, forall|z: int| 0 <= z < vx_ks.len() ==> vx_ks[z] == #[trigger] vx_all[z],
            %s
        decreases %d - vx_i,"""
    STEP = """let ghost vx_k = vx_items@[vx_i as int]@; let ghost vx_b = filters@; proof { lemma_hash_plus(); assert(vx_t[0] == vx_t0); assert(vx_k == vx_all[vx_i as int]); assert(plain(rest(rest_items))) by { assert forall|i: int| 0 <= i < rest(rest_items).len() implies #[trigger] rest(rest_items)[i] != HASH() && rest(rest_items)[i] != PLUS() by { assert(vx_t[i + 1] == rest(rest_items)[i]); } } }"""
    DONE = """proof { let m = %s; let t2 = rest(rest_items); assert(!vx_ks.contains(vx_k)) by { if vx_ks.contains(vx_k) { let z = choose|z: int| 0 <= z < vx_ks.len() && vx_ks[z] == vx_k; assert(vx_all[z] == vx_k); } }
        if m.contains_key(vx_k) { let (a2, p2) = choose|a: Seq<RouteContent>, b: Seq<Path>| #[trigger] answer(m[vx_k], vx_k, t2, a, b) && filters@ == vx_b + a; lemma_level(m[vx_k], vx_k, vx_t0, t2); lemma_step(m, vx_t, t2, vx_add, vx_ps, vx_ks, vx_k, a2, p2); assert(vx_r0 + (vx_add + a2) =~= (vx_r0 + vx_add) + a2); vx_add = vx_add + a2; vx_ps = vx_ps + under(vx_k, p2); }
        else { lemma_skip(m, vx_t, vx_add, vx_ps, vx_ks, vx_k); }
        vx_ks = vx_ks.push(vx_k); }"""
    INIT = "let ghost vx_all = NOP()%s; let ghost vx_r0 = filters@; let ghost mut vx_add = Seq::<RouteContent>::empty(); let ghost mut vx_ps = Seq::<Path>::empty(); let ghost mut vx_ks = NOP(); let ghost vx_t0 = topic_item@; let ghost vx_t = cons(vx_t0, rest(rest_items)); proof { lemma_hash_plus(); lemma_none(%s, vx_t); assert(vx_r0 + vx_add =~= vx_r0); lemma_cons(vx_t0, rest(rest_items)); assert(vx_t[0] == vx_t0); }"
    TPRE = """let ghost vx_t = levels(topic_name@); let ghost vx_t0 = vx_t[0]; let ghost vx_t2 = vx_t.skip(1); let ghost vx_r0 = Seq::<RouteContent>::empty(); let ghost mut vx_add = Seq::<RouteContent>::empty(); let ghost mut vx_ps = Seq::<Path>::empty(); let ghost mut vx_ks = NOP(); let ghost vx_all = NOP().push(vx_t0).push(HASH()).push(PLUS());
        proof { lemma_levels(topic_name@); lemma_hash_plus(); lemma_uncons(vx_t); assert(plain(vx_t2)) by { assert forall|i: int| 0 <= i < vx_t2.len() implies #[trigger] vx_t2[i] != HASH() && vx_t2[i] != PLUS() by { assert(vx_t[i + 1] == vx_t2[i]); } } assert forall|k: Seq<u8>, q: Path| vx_t == #[trigger] cons(k, q) implies k == vx_t0 && q == vx_t2 by { lemma_cons(k, q); assert(cons(k, q).skip(1) == q); } }"""
    TFIRST = """proof { let m = self.nodes@; lemma_none(m, vx_t);
        if m.contains_key(vx_t0) { let (a2, p2) = choose|a: Seq<RouteContent>, b: Seq<Path>| #[trigger] answer(m[vx_t0], vx_t0, vx_t2, a, b) && %s@ == vx_r0 + a; lemma_level(m[vx_t0], vx_t0, vx_t0, vx_t2); lemma_step(m, vx_t, vx_t2, Seq::<RouteContent>::empty(), Seq::<Path>::empty(), NOP(), vx_t0, a2, p2); vx_add = Seq::<RouteContent>::empty() + a2; assert(vx_add =~= a2); vx_ps = Seq::<Path>::empty() + under(vx_t0, p2); }
        else { lemma_skip(m, vx_t, Seq::<RouteContent>::empty(), Seq::<Path>::empty(), NOP(), vx_t0); vx_add = Seq::<RouteContent>::empty(); vx_ps = Seq::<Path>::empty(); }
        vx_ks = NOP().push(vx_t0); }"""
    A3 = ".push(topic_item@).push(HASH()).push(PLUS())"
    u.impl(R, "RouteContent", [Fn("is_empty", ret="r", spec="ensures r == !live(ev(*self)),", pre="broadcast use lemma_gm_empty;")])
    u.impl(R, "RouteTable", [
        Fn("get_matches", ret="r", spec="""
            requires wf(*self), plain(levels(topic_name@)),
            ensures exactly(*self, topic_name@, r@),""",
            pre=TPRE, loops=[L("while", """
        invariant 0 <= vx_i <= 2, vx_t == cons(vx_t0, vx_t2), vx_t2 == rest(rest_items), plain(vx_t), plain(vx_t2), vx_t0 != HASH(), vx_t0 != PLUS(), vx_items@.len() == 2, vx_items@[0]@ == HASH(), vx_items@[1]@ == PLUS(), HASH() != PLUS(), *nodes == self.nodes,
            vx_all == NOP().push(vx_t0).push(HASH()).push(PLUS()), vx_r0.len() == 0,
            filters@ == vx_r0 + vx_add, part(self.nodes@, vx_t, vx_add, vx_ps, vx_ks), vx_ks.len() == vx_i + 1, forall|z: int| 0 <= z < vx_ks.len() ==> vx_ks[z] == #[trigger] vx_all[z],
        decreases 2 - vx_i,""", before=TFIRST % "filters", body_pre="let ghost vx_k = vx_items@[vx_i as int]@; let ghost vx_b = filters@; proof { assert(vx_k == vx_all[vx_i + 1]); }", body_post=DONE % "self.nodes@",
                after="proof { assert(vx_ks =~= vx_all); assert(vx_all[0] == vx_t0 && vx_all[1] == HASH() && vx_all[2] == PLUS()); lemma_exactly(*self, topic_name@, vx_add, vx_ps, vx_ks); assert(vx_r0 + vx_add =~= vx_add); }")],
            post="proof { if first_is(topic_name@, 36) { %s assert(vx_ks =~= NOP().push(vx_t0)); assert(vx_ks[0] == vx_t0); lemma_exactly(*self, topic_name@, vx_add, vx_ps, vx_ks); assert(vx_r0 + vx_add =~= vx_add); } }" % (TFIRST % "vx_tail")[len("proof {"):-1]),
        Fn("subscribe", sig_subs=[("& self", "&mut self")], spec="""
            requires wf(*old(self)),
            ensures changed(*old(self), *final(self), base(topic_filter@), e_ins(entry(*old(self), base(topic_filter@)), id, qos, group(topic_filter@))),"""),
        Fn("subscribe_shared", sig_subs=[("& self", "&mut self")], spec="""
            requires wf(*old(self)),
            ensures changed(*old(self), *final(self), topic_filter@, e_ins(entry(*old(self), topic_filter@), id, qos, og2(group))),""",
            pre=BC + " let ghost vx_f = topic_filter@; let ghost vx_g = og2(group); let ghost vx_v = c_ins(tcv(*self, levels(vx_f)), vx_f, id, qos, vx_g); proof { lemma_levels(vx_f); lemma_live_ins(tcv(*self, levels(vx_f)).e, id, qos, vx_g); }",
            post="proof { let p = levels(vx_f); let k = p[0]; let r = p.skip(1); lemma_uncons(p); lemma_mshape(old(self).nodes@, self.nodes@, k); lemma_m_updated(old(self).nodes@, self.nodes@, k, r, vx_v); lemma_changed(*old(self), *self, vx_f, k, r, vx_v); }"),
        Fn("unsubscribe", sig_subs=[("& self", "&mut self")], spec="""
            requires wf(*old(self)),
            ensures changed(*old(self), *final(self), base(topic_filter@), e_del(entry(*old(self), base(topic_filter@)), id, group(topic_filter@))),"""),
        Fn("unsubscribe_shared", sig_subs=[("& self", "&mut self")], spec="""
            requires wf(*old(self)),
            ensures changed(*old(self), *final(self), topic_filter@, e_del(entry(*old(self), topic_filter@), id, og(group))),""",
            pre=BC + " let ghost vx_f = topic_filter@; let ghost vx_g = og(group); let ghost vx_v = c_del(tcv(*self, levels(vx_f)), id, vx_g); proof { lemma_levels(vx_f); lemma_del_none(id, vx_g); }",
            post="proof { let p = levels(vx_f); let k = p[0]; let r = p.skip(1); lemma_uncons(p); lemma_mshape(old(self).nodes@, self.nodes@, k); lemma_m_updated(old(self).nodes@, self.nodes@, k, r, vx_v); lemma_changed(*old(self), *self, vx_f, k, r, vx_v); }"),
    ])
    u.impl(R, "RouteNode", [
        Fn("new", ret="r", spec="ensures cvof(r.content) == NOCV(), cwf(r.content), r.nodes@ == Map::<Seq<u8>, RouteNode>::empty(),", pre="broadcast use lemma_gm_empty;"),
        Fn("get_matches", attrs="#[verifier::loop_isolation(false)]", spec="""
            requires plain(rest(topic_items)),
            ensures answered(*self, prev_item@, rest(topic_items), old(filters)@, final(filters)@),
            decreases olen(topic_items),""", pre="broadcast use {lemma_gm_empty}; let ghost vx_f0 = filters@; proof { lemma_hash_plus(); lemma_leaf(*self, HASH(), rest(topic_items)); assert(vx_f0 + Seq::<RouteContent>::empty() =~= vx_f0); assert(vx_f0 + Seq::<RouteContent>::empty().push(self.content) =~= vx_f0.push(self.content)); }",
            loops=[L("while", INV % (3, 3, "vx_all == NOP()" + A3 + ", vx_items@[0]@ == topic_item@, vx_items@[1]@ == HASH(), vx_items@[2]@ == PLUS(), rest(Some(topic_items)) == vx_t, olen(rest_items) <= topic_items@.len(), ", "self.nodes@", "*nodes == self.nodes,", 3), before=INIT % (A3, "self.nodes@"), body_pre=STEP, body_post=DONE % "self.nodes@",
                after="proof { assert(vx_ks =~= vx_all); assert(vx_all[0] == vx_t0 && vx_all[1] == HASH() && vx_all[2] == PLUS()); lemma_keys(vx_t0, HASH(), PLUS(), self.nodes@, vx_t, vx_ks); lemma_own(*self, vx_t, vx_add, vx_ps, vx_ks); assert(answer(*self, prev_item@, vx_t, vx_add, vx_ps)); }")],
            post="""proof { if prev_item@ != HASH() && topic_items is None { let e = NOP(); let m = self.nodes@; let c0 = Seq::<RouteContent>::empty(); let p0 = Seq::<Path>::empty(); let k = HASH(); let ks = NOP().push(k); let r0 = old(filters)@;
                lemma_hash_plus(); lemma_none(m, e); assert(ks[0] == k);
                assert forall|p: Path| mhit(m, e, p) implies #[trigger] ks.contains(p[0]) by {}
                if m.contains_key(k) { let n = m[k]; lemma_leaf(n, k, e);
                    let (a2, p2) = if live(ev(n.content)) { (c0.push(n.content), p0.push(e)) } else { (c0, p0) };
                    assert forall|q: Path| nhit(n, k, e, q) == (live(cvn(#[trigger] node_at(n, q)).e) && fits(cons(k, q), e)) by { lemma_cons(k, q); }
                    lemma_step(m, e, e, c0, p0, NOP(), k, a2, p2); assert(c0 + a2 =~= a2); assert(NOP().push(k) =~= ks); lemma_own(*self, e, a2, p0 + under(k, p2), ks);
                    if live(ev(self.content)) { let a3 = c0.push(self.content) + a2; let p3 = p0.push(e) + (p0 + under(k, p2)); assert(answer(*self, prev_item@, e, a3, p3)); assert(filters@ =~= r0 + a3); } else { assert(answer(*self, prev_item@, e, a2, p0 + under(k, p2))); assert(filters@ =~= r0 + a2); }
                } else { lemma_skip(m, e, c0, p0, NOP(), k); lemma_own(*self, e, c0, p0, ks); if live(ev(self.content)) { let a3 = c0.push(self.content) + c0; assert(answer(*self, prev_item@, e, a3, p0.push(e) + p0)); assert(filters@ =~= r0 + a3); } else { assert(answer(*self, prev_item@, e, c0, p0)); assert(filters@ =~= r0 + c0); } }
            } else if prev_item@ == HASH() { if live(ev(self.content)) { assert(answer(*self, prev_item@, rest(topic_items), Seq::<RouteContent>::empty().push(self.content), Seq::<Path>::empty().push(NOP()))); } else { assert(answer(*self, prev_item@, rest(topic_items), Seq::<RouteContent>::empty(), Seq::<Path>::empty())); } } }"""),
        Fn("insert", sig_subs=[("& self", "&mut self")], spec="""
            requires shape(*old(self)),
            ensures shape(*final(self)), !bare(*final(self)), cv_updated(*old(self), *final(self), rest(filter_items), c_ins(cvn(node_at(*old(self), rest(filter_items))), topic_filter@, id, qos, og2(group))),
            decreases olen(filter_items),""", pre=BC + " proof { lemma_live_ins(cvof(self.content).e, id, qos, og2(group)); } let ghost vx_p = rest(filter_items); let ghost vx_v = c_ins(cvn(node_at(*self, rest(filter_items))), topic_filter@, id, qos, og2(group));",
            post="""proof { lemma_ins_post(*old(self), *self, vx_p, vx_v); }"""),
        Fn("remove", ret="r", ret_post=True, sig_subs=[("& self", "&mut self")], spec="""
            requires shape(*old(self)), !bare(*old(self)),
            ensures shape(*final(self)), r == bare(*final(self)), cv_updated(*old(self), *final(self), rest(filter_items), c_del(cvn(node_at(*old(self), rest(filter_items))), id, og(group))),
            decreases olen(filter_items),""", pre=BC + " proof { lemma_del_none(id, og(group)); } let ghost vx_p = rest(filter_items); let ghost vx_v = c_del(cvn(node_at(*self, rest(filter_items))), id, og(group));", post="proof { lemma_ins_post(*old(self), *self, vx_p, vx_v); }"),
    ])
    return u

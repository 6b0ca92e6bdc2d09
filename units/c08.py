"""C08: the table of retained messages (protocols/mqtt/retain.rs), whole module under contract."""
from vunit import Unit, Fn, L
from scram_common import PRELUDE, pushes, SUBS
from trie_common import TRIE, SPLIT_SUBS
F = "akasa-core/src/protocols/mqtt/retain.rs"
R = "akasa-core/src/protocols/mqtt/route.rs"

SPEC = pushes(r"""
pub type C = Arc<RetainContent>;
/// the message kept for the topic levels p below a node
pub open spec fn at(n: RetainNode, p: Path) -> Option<C> decreases p.len() {
    if p.len() == 0 { n.content } else if n.nodes@.contains_key(p[0]) { at(n.nodes@[p[0]], p.skip(1)) } else { None }
}
/// topic starting with '$' against a filter starting with a wildcard
pub open spec fn hidden(c: C, wild: bool) -> bool { wild && first_is(c.topic_name@, 36) }
pub open spec fn hit(n: RetainNode, f: Path, wild: bool, p: Path) -> bool { fits(f, p) && at(n, p) is Some && !hidden(at(n, p)->Some_0, wild) }
/// `add` lists the messages of the paths `ps`: each path that is selected and whose first level is in `keys` (or, for the empty path, `own`), exactly once
pub open spec fn part(n: RetainNode, f: Path, wild: bool, add: Seq<C>, ps: Seq<Path>, keys: Path, own: bool) -> bool {
    &&& add.len() == ps.len() && ps.no_duplicates()
    &&& forall|i: int| 0 <= i < ps.len() ==> hit(n, f, wild, #[trigger] ps[i]) && within(ps[i], keys, own) && Some(add[i]) == at(n, ps[i])
    &&& forall|p: Path| hit(n, f, wild, p) && #[trigger] within(p, keys, own) ==> ps.contains(p)
}
pub open spec fn within(p: Path, keys: Path, own: bool) -> bool { if p.len() == 0 { own } else { keys.contains(p[0]) } }
/// `add` is the answer: the message of every selected path, exactly once
pub open spec fn answer(n: RetainNode, f: Path, wild: bool, add: Seq<C>, ps: Seq<Path>) -> bool {
    &&& add.len() == ps.len() && ps.no_duplicates()
    &&& forall|i: int| 0 <= i < ps.len() ==> hit(n, f, wild, #[trigger] ps[i]) && Some(add[i]) == at(n, ps[i])
    &&& forall|p: Path| hit(n, f, wild, p) ==> #[trigger] ps.contains(p)
}
pub open spec fn answered(n: RetainNode, f: Path, wild: bool, before: Seq<C>, after: Seq<C>) -> bool { exists|add: Seq<C>, ps: Seq<Path>| #[trigger] answer(n, f, wild, add, ps) && after == before + add }
pub open spec fn under(k: Seq<u8>, ps: Seq<Path>) -> Seq<Path> { ps.map_values(|p: Path| cons(k, p)) }
pub proof fn lemma_none(n: RetainNode, f: Path, wild: bool) ensures part(n, f, wild, Seq::<C>::empty(), Seq::<Path>::empty(), Seq::<Seq<u8>>::empty(), false) {}
pub proof fn lemma_at_cons(n: RetainNode, k: Seq<u8>, q: Path) ensures at(n, cons(k, q)) == (if n.nodes@.contains_key(k) { at(n.nodes@[k], q) } else { None }) { lemma_cons(k, q); }
pub proof fn lemma_step(n: RetainNode, f: Path, f2: Path, wild: bool, add: Seq<C>, ps: Seq<Path>, keys: Path, k: Seq<u8>, add2: Seq<C>, ps2: Seq<Path>)
    requires part(n, f, wild, add, ps, keys, false), !keys.contains(k), n.nodes@.contains_key(k), answer(n.nodes@[k], f2, wild, add2, ps2), forall|q: Path| #[trigger] fits(f, cons(k, q)) == fits(f2, q)
    ensures part(n, f, wild, add + add2, ps + under(k, ps2), keys.push(k), false)
{
    let qs = ps + under(k, ps2); let ks = keys.push(k); let c = n.nodes@[k];
    assert forall|i: int| 0 <= i < qs.len() implies hit(n, f, wild, #[trigger] qs[i]) && within(qs[i], ks, false) && Some((add + add2)[i]) == at(n, qs[i]) by {
        if i < ps.len() { assert(qs[i] == ps[i]); let z = choose|z: int| 0 <= z < keys.len() && keys[z] == ps[i][0]; assert(ks[z] == keys[z]); }
        else { let j = i - ps.len(); assert(qs[i] == cons(k, ps2[j])); lemma_at_cons(n, k, ps2[j]); lemma_cons(k, ps2[j]); assert(hit(c, f2, wild, ps2[j])); assert(ks[keys.len() as int] == k); }
    }
    assert forall|p: Path| hit(n, f, wild, p) && #[trigger] within(p, ks, false) implies qs.contains(p) by {
        if p[0] == k { lemma_uncons(p); let q = p.skip(1); lemma_at_cons(n, k, q); assert(hit(c, f2, wild, q)); assert(ps2.contains(q)); let j = choose|j: int| 0 <= j < ps2.len() && ps2[j] == q; assert(qs[ps.len() + j] == cons(k, q)); }
        else { let z = choose|z: int| 0 <= z < ks.len() && ks[z] == p[0]; assert(keys[z] == p[0]); assert(within(p, keys, false)); assert(ps.contains(p)); let j = choose|j: int| 0 <= j < ps.len() && ps[j] == p; assert(qs[j] == p); }
    }
    assert forall|i: int, j: int| 0 <= i < qs.len() && 0 <= j < qs.len() && i != j implies qs[i] != qs[j] by {
        if i < ps.len() && j < ps.len() { assert(ps[i] != ps[j]); }
        else if i >= ps.len() && j >= ps.len() { let a = ps2[i - ps.len()]; let b = ps2[j - ps.len()]; assert(a != b); lemma_cons(k, a); lemma_cons(k, b); assert(cons(k, a).skip(1) == a && cons(k, b).skip(1) == b); }
        else if i < ps.len() { assert(within(ps[i], keys, false)); lemma_cons(k, ps2[j - ps.len()]); }
        else { assert(within(ps[j], keys, false)); lemma_cons(k, ps2[i - ps.len()]); }
    }
}
pub proof fn lemma_own(n: RetainNode, f: Path, wild: bool, add: Seq<C>, ps: Seq<Path>, keys: Path)
    requires part(n, f, wild, add, ps, keys, false)
    ensures hit(n, f, wild, Seq::<Seq<u8>>::empty()) ==> part(n, f, wild, add.push(n.content->Some_0), ps.push(Seq::<Seq<u8>>::empty()), keys, true), !hit(n, f, wild, Seq::<Seq<u8>>::empty()) ==> part(n, f, wild, add, ps, keys, true)
{
    let e = Seq::<Seq<u8>>::empty(); let qs = ps.push(e);
    assert forall|p: Path| within(p, keys, true) implies p == e || #[trigger] within(p, keys, false) by { if p.len() == 0 { assert(p =~= e); } }
    if hit(n, f, wild, e) {
        assert forall|i: int| 0 <= i < qs.len() implies hit(n, f, wild, #[trigger] qs[i]) && within(qs[i], keys, true) && Some(add.push(n.content->Some_0)[i]) == at(n, qs[i]) by { if i < ps.len() { assert(qs[i] == ps[i]); } }
        assert forall|p: Path| hit(n, f, wild, p) && #[trigger] within(p, keys, true) implies qs.contains(p) by { if p == e { assert(qs[ps.len() as int] == e); } else { assert(within(p, keys, false)); assert(ps.contains(p)); let j = choose|j: int| 0 <= j < ps.len() && ps[j] == p; assert(qs[j] == p); } }
        assert forall|i: int, j: int| 0 <= i < qs.len() && 0 <= j < qs.len() && i != j implies qs[i] != qs[j] by { if i < ps.len() { assert(within(ps[i], keys, false)); } if j < ps.len() { assert(within(ps[j], keys, false)); } }
    } else {
        assert forall|p: Path| hit(n, f, wild, p) && #[trigger] within(p, keys, true) implies ps.contains(p) by { assert(within(p, keys, false)); }
    }
}
pub proof fn lemma_done(n: RetainNode, f: Path, wild: bool, add: Seq<C>, ps: Seq<Path>, keys: Path)
    requires part(n, f, wild, add, ps, keys, true), forall|p: Path| hit(n, f, wild, p) ==> #[trigger] within(p, keys, true)
    ensures answer(n, f, wild, add, ps) { assert forall|p: Path| hit(n, f, wild, p) implies #[trigger] ps.contains(p) by { assert(within(p, keys, true)); } }
/// a single node's own message, if selected
pub proof fn lemma_leaf(n: RetainNode, wild: bool)
    ensures hit(n, Seq::<Seq<u8>>::empty(), wild, Seq::<Seq<u8>>::empty()) ==> answer(n, Seq::<Seq<u8>>::empty(), wild, Seq::<C>::empty().push(n.content->Some_0), Seq::<Path>::empty().push(Seq::<Seq<u8>>::empty())),
        !hit(n, Seq::<Seq<u8>>::empty(), wild, Seq::<Seq<u8>>::empty()) ==> answer(n, Seq::<Seq<u8>>::empty(), wild, Seq::<C>::empty(), Seq::<Path>::empty())
{
    let e = Seq::<Seq<u8>>::empty(); let one = Seq::<Path>::empty().push(e);
    assert forall|p: Path| hit(n, e, wild, p) implies p =~= e by {}
    assert(one[0] == e); assert(one.contains(e));
}
pub proof fn lemma_fits_hash(k: Seq<u8>, q: Path) ensures fits(cons(HASH(), Seq::<Seq<u8>>::empty()), cons(k, q)) == fits(cons(HASH(), Seq::<Seq<u8>>::empty()), q) {}
pub proof fn lemma_fits_cons(g: Seq<u8>, f2: Path, k: Seq<u8>, q: Path) requires g != HASH() ensures fits(cons(g, f2), cons(k, q)) == ((g == PLUS() || g == k) && fits(f2, q)) { lemma_cons(g, f2); lemma_cons(k, q); }
/// changing the subtree below one level
pub proof fn lemma_put(o: RetainNode, n: RetainNode, k: Seq<u8>)
    requires n.content == o.content, n.nodes@.remove(k) =~= o.nodes@.remove(k)
    ensures forall|p: Path| #![trigger at(n, p)] !(p.len() > 0 && p[0] == k) ==> at(n, p) == at(o, p)
{
    assert forall|p: Path| !(p.len() > 0 && p[0] == k) implies #[trigger] at(n, p) == at(o, p) by {
        if p.len() > 0 { assert(n.nodes@.remove(k).contains_key(p[0]) == o.nodes@.remove(k).contains_key(p[0])); if o.nodes@.contains_key(p[0]) { assert(n.nodes@.remove(k)[p[0]] == o.nodes@.remove(k)[p[0]]); } }
    }
}
pub open spec fn sub_at(n: RetainNode, k: Seq<u8>, q: Path) -> Option<C> { if n.nodes@.contains_key(k) { at(n.nodes@[k], q) } else { None } }
/// the tree differs exactly at `path`, where it now holds v
pub open spec fn updated(o: RetainNode, n: RetainNode, path: Path, v: Option<C>) -> bool { forall|p: Path| #![trigger at(n, p)] #![trigger at(o, p)] at(n, p) == (if p == path { v } else { at(o, p) }) }
pub proof fn lemma_updated(o: RetainNode, n: RetainNode, k: Seq<u8>, r: Path, v: Option<C>)
    requires n.content == o.content, n.nodes@.remove(k) =~= o.nodes@.remove(k), forall|q: Path| #[trigger] sub_at(n, k, q) == (if q == r { v } else { sub_at(o, k, q) })
    ensures updated(o, n, cons(k, r), v)
{
    lemma_put(o, n, k); lemma_cons(k, r);
    assert forall|p: Path| #[trigger] at(n, p) == (if p == cons(k, r) { v } else { at(o, p) }) by {
        if p.len() > 0 && p[0] == k { lemma_uncons(p); assert(sub_at(n, k, p.skip(1)) == at(n, p)); assert(sub_at(o, k, p.skip(1)) == at(o, p)); if p.skip(1) == r { assert(p =~= cons(k, r)); } }
    }
}
pub broadcast proof fn lemma_empty(n: RetainNode, p: Path) requires n.content is None, n.nodes@ == Map::<Seq<u8>, RetainNode>::empty() ensures #[trigger] at(n, p) is None {}

// ---- the table ------------------------------------------------------------------------------------------------------
/// the table as its users see it: topic to message
pub open spec fn held(t: RetainTable, topic: Seq<u8>) -> Option<C> { at(t.inner, levels(topic)) }
/// every message is kept under its own topic
pub open spec fn wf(t: RetainTable) -> bool { t.inner.content is None && forall|p: Path| #[trigger] at(t.inner, p) is Some ==> p == levels(at(t.inner, p)->Some_0.topic_name@) }
pub open spec fn wild_first(f: Seq<u8>) -> bool { first_is(f, 35) || first_is(f, 43) }
/// MQTT matching of a topic name by a filter
pub open spec fn selects(filter: Seq<u8>, topic: Seq<u8>) -> bool { fits(levels(filter), levels(topic)) && !(wild_first(filter) && first_is(topic, 36)) }
pub open spec fn topic_of(c: C) -> Seq<u8> { c.topic_name@ }
/// r lists exactly the held messages whose topic the filter selects, each once
pub open spec fn exactly(t: RetainTable, filter: Seq<u8>, r: Seq<C>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> held(t, topic_of(#[trigger] r[i])) == Some(r[i]) && selects(filter, topic_of(r[i]))
    &&& forall|topic: Seq<u8>| #[trigger] held(t, topic) is Some && selects(filter, topic) ==> r.contains(held(t, topic)->Some_0)
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> topic_of(#[trigger] r[i]) != topic_of(#[trigger] r[j])
}
pub proof fn lemma_exactly(t: RetainTable, filter: Seq<u8>, add: Seq<C>, ps: Seq<Path>)
    requires wf(t), answer(t.inner, levels(filter), wild_first(filter), add, ps) ensures exactly(t, filter, add)
{
    let w = wild_first(filter); let f = levels(filter);
    assert forall|i: int| 0 <= i < add.len() implies held(t, topic_of(#[trigger] add[i])) == Some(add[i]) && selects(filter, topic_of(add[i])) by { assert(hit(t.inner, f, w, ps[i])); }
    assert forall|topic: Seq<u8>| #[trigger] held(t, topic) is Some && selects(filter, topic) implies add.contains(held(t, topic)->Some_0) by {
        let p = levels(topic); let c = held(t, topic)->Some_0; lemma_join(topic); lemma_join(c.topic_name@); assert(c.topic_name@ == topic);
        assert(hit(t.inner, f, w, p)); assert(ps.contains(p)); let j = choose|j: int| 0 <= j < ps.len() && ps[j] == p; assert(hit(t.inner, f, w, ps[j])); assert(add[j] == c);
    }
    assert forall|i: int, j: int| 0 <= i < j < add.len() implies topic_of(#[trigger] add[i]) != topic_of(#[trigger] add[j]) by { assert(hit(t.inner, f, w, ps[i])); assert(hit(t.inner, f, w, ps[j])); assert(ps[i] != ps[j]); }
}
pub proof fn lemma_table_put(o: RetainTable, n: RetainTable, topic: Seq<u8>, v: Option<C>)
    requires wf(o), updated(o.inner, n.inner, levels(topic), v), v is Some ==> v->Some_0.topic_name@ == topic
    ensures wf(n), forall|x: Seq<u8>| #[trigger] held(n, x) == (if x == topic { v } else { held(o, x) })
{
    lemma_levels(topic);
    let e = Seq::<Seq<u8>>::empty(); assert(at(n.inner, e) == at(o.inner, e));
    assert forall|x: Seq<u8>| #[trigger] held(n, x) == (if x == topic { v } else { held(o, x) }) by { lemma_join(x); lemma_join(topic); }
}
""")
STANDINS = r"""
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum QoS { Level0 = 0, Level1 = 1, Level2 = 2 }
#[verifier::external_body]
pub struct PublishProperties { x: u8 }
impl PartialEq for PublishProperties { #[verifier::external_body] fn eq(&self, o: &PublishProperties) -> (r: bool) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_new_node() -> (r: RetainNode) ensures r.content is None, r.nodes@ == Map::<Seq<u8>, RetainNode>::empty() { unimplemented!() }
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(v);
"""
PRE_ANS = "broadcast use {lemma_cons, SM::axiom_smaller, lemma_hash_tail}; let ghost vx_r0 = retains@; let ghost vx_f = cons(prev_item@, rest(filter_items)); let ghost mut vx_add = Seq::<C>::empty(); let ghost mut vx_ps = Seq::<Path>::empty(); proof { lemma_none(*self, vx_f, wildcard_first); lemma_hash_plus(); assert(vx_r0 + Seq::<C>::empty() =~= vx_r0); }"
def loop(child_done):
    return L("for", after="proof { assert(vx_vs.1@.subrange(0, vx_vs.1@.len() as int) =~= vx_vs.1@); lemma_own(*self, vx_f, wildcard_first, vx_add, vx_ps, vx_vs.1@); let vx_e = Seq::<Seq<u8>>::empty(); if hit(*self, vx_f, wildcard_first, vx_e) { let vx_c = self.content->Some_0; lemma_done(*self, vx_f, wildcard_first, vx_add.push(vx_c), vx_ps.push(vx_e), vx_vs.1@); assert((vx_r0 + vx_add).push(vx_c) =~= vx_r0 + vx_add.push(vx_c)); } else { lemma_done(*self, vx_f, wildcard_first, vx_add, vx_ps, vx_vs.1@); } }", inv="""
        invariant 0 <= vx_i <= vx_vs.0@.len(), keys_of(self.nodes@, vx_vs.1@), vx_vs.0@.len() == vx_vs.1@.len(), forall|i: int| 0 <= i < vx_vs.0@.len() ==> *(#[trigger] vx_vs.0@[i]) == self.nodes@[vx_vs.1@[i]],
            vx_f == cons(prev_item@, rest(filter_items)), hash_last(vx_f), HASH() != PLUS(),
            retains@ == vx_r0 + vx_add, part(*self, vx_f, wildcard_first, vx_add, vx_ps, vx_vs.1@.subrange(0, vx_i as int), false),
            %s
        """ % child_done[0], before="proof { assert(vx_vs.1@.subrange(0, 0) =~= Seq::<Seq<u8>>::empty()); %s }" % child_done[2],
        body_pre="broadcast use {SM::axiom_smaller, lemma_hash_tail}; let ghost vx_k = vx_vs.1@[vx_i as int]; let ghost vx_b = retains@; proof { assert(vx_vs.0@[vx_i as int] == self.nodes@[vx_k]); assert(decreases_to!(*self => self.nodes)); assert(self.nodes@.contains_key(vx_k)); assert(decreases_to!(self.nodes => self.nodes@[vx_k])); }",
        body_post="proof { " + child_done[1] + """
            let vx_keys = vx_vs.1@.subrange(0, vx_i as int);
            assert(!vx_keys.contains(vx_k)) by { if vx_keys.contains(vx_k) { let j = choose|j: int| 0 <= j < vx_keys.len() && vx_keys[j] == vx_k; assert(vx_vs.1@[j] == vx_vs.1@[vx_i as int]); } }
            lemma_step(*self, vx_f, vx_f2, wildcard_first, vx_add, vx_ps, vx_keys, vx_k, vx_a2, vx_p2);
            assert(vx_vs.1@.subrange(0, vx_i + 1) =~= vx_keys.push(vx_k));
            assert(vx_r0 + vx_add + vx_a2 =~= vx_r0 + (vx_add + vx_a2));
            vx_add = vx_add + vx_a2; vx_ps = vx_ps + under(vx_k, vx_p2); }""")
REC = "let (vx_a2, vx_p2) = choose|a: Seq<C>, b: Seq<Path>| #[trigger] answer(*node, vx_f2, wildcard_first, a, b) && retains@ == vx_b + a;"
LEAF = "lemma_leaf(*node, wildcard_first); let vx_sel = hit(*node, Seq::<Seq<u8>>::empty(), wildcard_first, Seq::<Seq<u8>>::empty()); let vx_a2 = if vx_sel { Seq::<C>::empty().push(node.content->Some_0) } else { Seq::<C>::empty() }; let vx_p2 = if vx_sel { Seq::<Path>::empty().push(Seq::<Seq<u8>>::empty()) } else { Seq::<Path>::empty() }; assert(retains@ =~= vx_b + vx_a2);"
CONS_EQ = "assert forall|q: Path| #[trigger] fits(vx_f, cons(vx_k, q)) == fits(vx_f2, q) by { lemma_fits_cons(prev_item@, vx_f2, vx_k, q); };"
POST_ANS = """proof { let vx_f = cons(prev_item@, rest(filter_items)); let vx_r0 = old(retains)@; let vx_k = prev_item@; let vx_f2 = rest(filter_items); let vx_e = Seq::<Seq<u8>>::empty(); let vx_c0 = Seq::<C>::empty(); let vx_p0 = Seq::<Path>::empty();
    if vx_k != HASH() && vx_k != PLUS() {
        lemma_none(*self, vx_f, wildcard_first);
        if self.nodes@.contains_key(vx_k) {
            let node = self.nodes@[vx_k]; let vx_b = vx_r0;
            assert forall|q: Path| #[trigger] fits(vx_f, cons(vx_k, q)) == fits(vx_f2, q) by { lemma_fits_cons(vx_k, vx_f2, vx_k, q); };
            lemma_leaf(node, wildcard_first); let vx_sel = hit(node, vx_e, wildcard_first, vx_e);
            let (vx_a2, vx_p2) = if filter_items is None { if vx_sel { (vx_c0.push(node.content->Some_0), vx_p0.push(vx_e)) } else { (vx_c0, vx_p0) } } else { choose|a: Seq<C>, b: Seq<Path>| #[trigger] answer(node, vx_f2, wildcard_first, a, b) && retains@ == vx_b + a };
            assert(retains@ =~= vx_r0 + vx_a2);
            lemma_step(*self, vx_f, vx_f2, wildcard_first, vx_c0, vx_p0, vx_e, vx_k, vx_a2, vx_p2);
            assert(vx_c0 + vx_a2 =~= vx_a2); let vx_ks = vx_e.push(vx_k); assert(vx_ks[0] == vx_k);
            lemma_own(*self, vx_f, wildcard_first, vx_a2, vx_p0 + under(vx_k, vx_p2), vx_ks);
            lemma_done(*self, vx_f, wildcard_first, vx_a2, vx_p0 + under(vx_k, vx_p2), vx_ks);
        } else { assert(answer(*self, vx_f, wildcard_first, vx_c0, vx_p0)); assert(retains@ =~= vx_r0 + vx_c0); }
    } }"""
def post_put(v): return """proof { let vx_k = prev_item@; let vx_p = rest(topic_items); lemma_at_cons(*old(self), vx_k, vx_p);
    assert forall|q: Path| #[trigger] sub_at(*self, vx_k, q) == (if q == vx_p { %s } else { sub_at(*old(self), vx_k, q) }) by { if q.len() == 0 { assert(q =~= Seq::<Seq<u8>>::empty()); } }
    lemma_updated(*old(self), *self, vx_k, vx_p, %s); }""" % (v, v)
def unit():
    u = Unit("c08", uses="use std::sync::Arc;\nuse vstd::std_specs::cmp::*;\n", subs=[
        ("Arc < RwLock < HashMap < String , RetainNode >>>", "SM<RetainNode>"), ("Arc < RwLock < HashMap < String , RetainNode > > >", "SM<RetainNode>"),
        ("client_identifier : Arc < str >", "client_identifier: Str"), ("TopicName", "Str"), ("payload : Bytes", "payload: Str"), ("RetainNode :: default ( )", "vx_new_node()"), ("Self :: default ( )", "vx_new_node()"),
        ("( & self , content", "(&mut self, content"), ("( & self , topic_name", "(&mut self, topic_name"),
        ("for node in nodes . values ( ) { $B }", "let vx_vs = nodes.vx_values(); for vx_i in 0..vx_vs.0.len() { let node = vx_vs.0[vx_i]; $B }"),
        ("assert ! ( $c , $m ) ;", "assert($c);"),
        ("if let $p = content . topic_name", "if let $p = content . topic_name"),
    ] + SPLIT_SUBS + [("& str", "&Str"), ("String", "Str")])
    u.raw(PRELUDE + TRIE)
    u.fn(R, Fn("split_topic", ret="r", spec="ensures levels(topic@) =~= cons(r.0@, rest(r.1)), olen(r.1) <= topic@.len(), match tail(topic@, 47) { None => r.0@ == topic@ && r.1 is None, Some(t) => r.0@ == head(topic@, 47) && r.1 is Some && r.1->Some_0@ == t },", pre="proof { lemma_levels(topic@); lemma_cut(topic@, 47); }"))
    u.item(F, "RetainTable"); u.item(F, "RetainNode"); u.item(F, "RetainContent")
    u.raw(STANDINS + SPEC)
    LEAFCOND = ("content . topic_name", "content . topic_name")
    u.impl(F, "RetainTable", [
        Fn("get_matches", ret="r", spec="""
            requires wf(*self), hash_last(levels(topic_filter@)),
            ensures exactly(*self, topic_filter@, r@),""", post="proof { let vx_e = Seq::<C>::empty(); let (a, b) = choose|a: Seq<C>, b: Seq<Path>| #[trigger] answer(self.inner, levels(topic_filter@), wild_first(topic_filter@), a, b) && vx_tail@ == vx_e + a; assert(vx_e + a =~= a); lemma_exactly(*self, topic_filter@, a, b); }"),
        Fn("insert", ret="r", spec="""
            requires wf(*old(self)),
            ensures wf(*final(self)), r == held(*old(self), content.topic_name@),
                forall|x: Seq<u8>| #[trigger] held(*final(self), x) == (if x == content.topic_name@ { Some(content) } else { held(*old(self), x) }),""",
            post="proof { lemma_table_put(*old(self), *self, content.topic_name@, Some(content)); }", sig_subs=[]),
        Fn("remove", ret="r", spec="""
            requires wf(*old(self)),
            ensures wf(*final(self)), r == held(*old(self), topic_name@),
                forall|x: Seq<u8>| #[trigger] held(*final(self), x) == (if x == topic_name@ { None } else { held(*old(self), x) }),""",
            post="proof { lemma_table_put(*old(self), *self, topic_name@, None); }"),
    ])
    u.impl(F, "RetainNode", [
        Fn("is_empty", ret="r", spec="ensures r == (self.content is None && self.nodes@ == Map::<Seq<u8>, RetainNode>::empty()), r ==> forall|p: Path| #[trigger] at(*self, p) is None,", pre="broadcast use lemma_empty;"),
        Fn("get_matches", spec="""
            requires hash_last(cons(prev_item@, rest(filter_items))),
            ensures answered(*self, cons(prev_item@, rest(filter_items)), wildcard_first, old(retains)@, final(retains)@),
            decreases *self,""", pre=PRE_ANS, post=POST_ANS, loops=[
              loop(("filter_items is None, prev_item@ == HASH(), vx_f == cons(HASH(), Seq::<Seq<u8>>::empty()),", "let vx_f2 = vx_f; " + REC + " assert forall|q: Path| #[trigger] fits(vx_f, cons(vx_k, q)) == fits(vx_f2, q) by { lemma_fits_hash(vx_k, q); }", "")),
              loop(("prev_item@ == PLUS(), rest(filter_items) =~= cons(filter_item@, rest(rest_items)),", "let vx_f2 = cons(filter_item@, rest(rest_items)); " + REC + CONS_EQ, "")),
              loop(("prev_item@ == PLUS(), filter_items is None,", "let vx_f2 = Seq::<Seq<u8>>::empty(); " + LEAF + CONS_EQ, "")),
            ]),
        Fn("insert", ret="r", sig_subs=[("& self", "&mut self")], spec="""
            ensures r == at(*old(self), cons(prev_item@, rest(topic_items))), updated(*old(self), *final(self), cons(prev_item@, rest(topic_items)), Some(content)), final(self).content == old(self).content,
            decreases olen(topic_items),""", pre="broadcast use lemma_empty;", post=post_put("Some(content)")),
        Fn("remove", ret="r", sig_subs=[("& self", "&mut self")], spec="""
            ensures r == at(*old(self), cons(prev_item@, rest(topic_items))), updated(*old(self), *final(self), cons(prev_item@, rest(topic_items)), None), final(self).content == old(self).content,
            decreases olen(topic_items),""", pre="broadcast use lemma_empty;", post="""proof { let vx_o = old(self).nodes@[prev_item@]; let vx_p = rest(topic_items);
                if old(self).nodes@.contains_key(prev_item@) && !self.nodes@.contains_key(prev_item@) { assert(topic_items is None ==> vx_o.nodes@ == Map::<Seq<u8>, RetainNode>::empty()); assert forall|q: Path| q != vx_p implies #[trigger] at(vx_o, q) is None by { if q.len() == 0 { assert(q =~= Seq::<Seq<u8>>::empty()); } } } }
""" + post_put("None::<C>")),
    ])
    return u

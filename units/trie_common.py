"""Shared by C06 and C08: topic levels, string-keyed maps, the erasure of the locks of the topic trees."""
import re
from scram_common import PRELUDE, pushes
SPLIT_SUBS = [
    ("MATCH_ALL_STR =>", "vx_p if vx_seq(vx_p, vx_hash()) =>"), ("MATCH_ONE_STR =>", "vx_p if vx_seq(vx_p, vx_plus()) =>"),
    ("prev_item == MATCH_ALL_STR", "vx_seq(prev_item, vx_hash())"),
    ("MATCH_ALL_STR", "vx_hash()"), ("MATCH_ONE_STR", "vx_plus()"),
    (". starts_with ( '$' )", ".vx_starts1(36u8)"), (". starts_with ( [ MATCH_ONE_CHAR , MATCH_ALL_CHAR ] )", ".vx_starts2(43u8, 35u8)"), (". starts_with ( [ MATCH_ALL_CHAR , MATCH_ONE_CHAR ] )", ".vx_starts2(35u8, 43u8)"),
    (". starts_with ( MATCH_ONE_CHAR )", ".vx_starts1(43u8)"), (". starts_with ( MATCH_ALL_CHAR )", ".vx_starts1(35u8)"),
    (". split_once ( LEVEL_SEP )", ".vx_split_once(47u8)"), (". split_once ( '/' )", ".vx_split_once(47u8)"),
    ("filter_items . map ( split_topic )", "vx_map_split(filter_items)"), ("topic_items . map ( split_topic )", "vx_map_split(topic_items)"),
    ("if let $p = $e && $c { $B } }", "if let $p = $e { if $c { $B } } }"),
]
TRIE = pushes(r"""
// ---- topic levels -------------------------------------------------------------------------------------------------
pub type Path = Seq<Seq<u8>>;
pub open spec fn levels(s: Seq<u8>) -> Path decreases s.len() via levels_dec {
    match tail(s, 47) { None => Seq::<Seq<u8>>::empty().push(s), Some(t) => Seq::<Seq<u8>>::empty().push(head(s, 47)) + levels(t) }
}
#[via_fn]
proof fn levels_dec(s: Seq<u8>) { lemma_cut(s, 47); }
/// the levels left below a tree node: nothing, or a text of levels
pub open spec fn rest(o: Option<&Str>) -> Path { match o { None => Seq::<Seq<u8>>::empty(), Some(s) => levels(s@) } }
pub open spec fn olen(o: Option<&Str>) -> int { match o { None => 0int, Some(s) => s@.len() as int + 1 } }
pub open spec fn HASH() -> Seq<u8> { Seq::<u8>::empty().push(35u8) }
pub open spec fn PLUS() -> Seq<u8> { Seq::<u8>::empty().push(43u8) }
pub open spec fn first_is(s: Seq<u8>, c: u8) -> bool { s.len() > 0 && s[0] == c }
pub open spec fn cons(k: Seq<u8>, p: Path) -> Path { Seq::<Seq<u8>>::empty().push(k) + p }
/// MQTT matching of a topic by a filter, level by level; `#` also stands for its parent level
pub open spec fn fits(f: Path, t: Path) -> bool decreases f.len() {
    if f.len() == 0 { t.len() == 0 }
    else if f.len() == 1 && f[0] == HASH() { true }
    else { t.len() > 0 && (f[0] == PLUS() || f[0] == t[0]) && fits(f.skip(1), t.skip(1)) }
}
/// `#` only as the last level
pub open spec fn hash_last(f: Path) -> bool { forall|i: int| 0 <= i < f.len() - 1 ==> #[trigger] f[i] != HASH() }
/// a topic name has no wildcard level
pub open spec fn plain(t: Path) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != HASH() && t[i] != PLUS() }
pub proof fn lemma_hash_plus() ensures HASH() != PLUS(), HASH().len() == 1, PLUS().len() == 1 { assert(HASH()[0] == 35u8 && PLUS()[0] == 43u8); }
pub proof fn lemma_levels(s: Seq<u8>) ensures levels(s).len() > 0, match tail(s, 47) { None => levels(s) =~= cons(s, Seq::<Seq<u8>>::empty()), Some(t) => levels(s) =~= cons(head(s, 47), levels(t)) && t.len() < s.len() } { lemma_cut(s, 47); }
pub broadcast proof fn lemma_cons(k: Seq<u8>, p: Path) ensures (#[trigger] cons(k, p)).len() == p.len() + 1, cons(k, p)[0] == k, cons(k, p).skip(1) =~= p {}
pub proof fn lemma_uncons(p: Path) requires p.len() > 0 ensures p =~= cons(p[0], p.skip(1)) {}
pub broadcast proof fn lemma_hash_tail(k: Seq<u8>, p: Path) requires #[trigger] hash_last(cons(k, p)) ensures hash_last(p) { assert forall|i: int| 0 <= i < p.len() - 1 implies #[trigger] p[i] != HASH() by { assert(cons(k, p)[i + 1] == p[i]); } }
/// different texts have different levels
pub open spec fn join(p: Path) -> Seq<u8> decreases p.len() { if p.len() <= 1 { p[0] } else { p[0] + seq![47u8] + join(p.skip(1)) } }
pub proof fn lemma_join(s: Seq<u8>) ensures join(levels(s)) =~= s decreases s.len() {
    lemma_levels(s); lemma_cut(s, 47);
    match tail(s, 47) { None => {}, Some(t) => { lemma_join(t); lemma_levels(t); lemma_cons(head(s, 47), levels(t)); } }
}
#[verifier::external_body]
pub fn vx_hash() -> (r: &'static Str) ensures r@ == HASH() { unimplemented!() }
#[verifier::external_body]
pub fn vx_plus() -> (r: &'static Str) ensures r@ == PLUS() { unimplemented!() }
impl Str {
    #[verifier::external_body]
    pub fn vx_starts1(&self, c: u8) -> (r: bool) requires c < 128 ensures r == first_is(self@, c) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_starts2(&self, c: u8, d: u8) -> (r: bool) requires c < 128, d < 128 ensures r == (first_is(self@, c) || first_is(self@, d)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_split_once(&self, c: u8) -> (r: Option<(&Str, &Str)>) requires c < 128 ensures match tail(self@, c) { None => r is None, Some(t) => r is Some && r->Some_0.0@ == head(self@, c) && r->Some_0.1@ == t } { unimplemented!() }
}
pub fn vx_map_split(o: Option<&Str>) -> (r: Option<(&Str, Option<&Str>)>)
    ensures match r { None => o is None, Some(x) => o is Some && rest(o) =~= cons(x.0@, rest(x.1)) && olen(x.1) < olen(o) }
{ match o { None => None, Some(s) => Some(split_topic(s)) } }
/// hashbrown::HashMap<String, V>
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct SM<V> { m: std::collections::HashMap<Vec<u8>, V> }
pub open spec fn keys_of<V>(m: Map<Seq<u8>, V>, ks: Path) -> bool { ks.no_duplicates() && (forall|i: int| 0 <= i < ks.len() ==> m.contains_key(#[trigger] ks[i])) && (forall|k: Seq<u8>| m.contains_key(k) ==> ks.contains(k)) }
impl<V> SM<V> {
    pub uninterp spec fn view(&self) -> Map<Seq<u8>, V>;
    /// a value is smaller than the map that owns it
    #[verifier::external_body]
    pub broadcast proof fn axiom_smaller(self, k: Seq<u8>) requires self@.contains_key(k) ensures #[trigger] decreases_to!(self => self@[k]) {}
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<u8>, V>::empty() { unimplemented!() }
    pub fn read(&self) -> (r: &Self) ensures *r == *self { self }
    pub fn write(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self) { self }
    #[verifier::external_body]
    pub fn get(&self, k: &Str) -> (r: Option<&V>) ensures match r { None => !self@.contains_key(k@), Some(v) => self@.contains_key(k@) && *v == self@[k@] } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Str) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &Str) -> (r: Option<&mut V>)
        ensures match r { None => !old(self)@.contains_key(k@) && final(self)@ == old(self)@, Some(v) => old(self)@.contains_key(k@) && *v == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(v)) } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Str, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v), match r { None => !old(self)@.contains_key(k@), Some(x) => old(self)@.contains_key(k@) && x == old(self)@[k@] } { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Str) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k@), match r { None => !old(self)@.contains_key(k@), Some(x) => old(self)@.contains_key(k@) && x == old(self)@[k@] } { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<Seq<u8>, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures (r == 0) == (self@ =~= Map::<Seq<u8>, V>::empty()) { unimplemented!() }
    /// `entry(k).or_insert_with(..)` with the value `d` built first
    #[verifier::external_body]
    pub fn vx_entry_or(&mut self, k: Str, d: V) -> (r: &mut V)
        ensures *r == (if old(self)@.contains_key(k@) { old(self)@[k@] } else { d }), final(self)@ == old(self)@.insert(k@, *final(r)) { unimplemented!() }
    /// `values()`, each value once
    #[verifier::external_body]
    pub fn vx_values(&self) -> (r: (Vec<&V>, Ghost<Path>)) ensures keys_of(self@, r.1@), r.0@.len() == r.1@.len(), forall|i: int| 0 <= i < r.0@.len() ==> *(#[trigger] r.0@[i]) == self@[r.1@[i]] { unimplemented!() }
}
""")

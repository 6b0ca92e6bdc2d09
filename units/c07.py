"""C07: membership of shared-subscription groups (SharedClients of protocols/mqtt/route.rs)."""
from vunit import Unit, Fn, L
from vstd_hm import HM, VECX, QOS, CLIENTID
F = "akasa-core/src/protocols/mqtt/route.rs"

def unit():
    u = Unit("c07", uses="use std::hash::Hash;\n", subs=[
        ("HashMap <", "HM<"), ("HashMap ::", "HM::"), ("RandomState", "RandomStateX"), ("self . hash_builder . hash_one ( data )", "vx_hash_one(&self.hash_builder, data)"),
        ("debug_assert ! ( $c )", "assert($c)"),
    ])
    u.raw(HM + VECX + QOS + CLIENTID + """
#[verifier::external_body]
pub struct RandomStateX { x: u8 }
pub uninterp spec fn hash_val<T>(b: RandomStateX, t: T) -> u64;
/// the hash of a value is a function of hasher keys and value
#[verifier::external_body]
pub fn vx_hash_one<T: std::hash::Hash>(b: &RandomStateX, data: T) -> (r: u64) ensures r == hash_val(*b, data), { unimplemented!() }
""")
    u.item(F, "SharedClients")
    u.raw("""
impl SharedClients {
    /// representation invariant: items and index are inverse of each other
    pub open spec fn wf(self) -> bool {
        (forall|i: int| 0 <= i < self.items@.len() ==> self.index@.dom().contains(#[trigger] self.items@[i].0) && self.index@[self.items@[i].0] == i)
        && (forall|k: ClientId| #[trigger] self.index@.dom().contains(k) ==> self.index@[k] < self.items@.len() && self.items@[self.index@[k] as int].0 == k)
    }
    pub open spec fn has(self, k: ClientId) -> bool { self.index@.dom().contains(k) }
    /// the group as its users see it: members with their granted QoS
    pub open spec fn members(self) -> Map<ClientId, QoS> { Map::new(self.index@.dom(), |k: ClientId| self.items@[self.index@[k] as int].1) }
}
""")
    u.impl(F, "SharedClients", [
        Fn("get_by_hash", ret="r", spec="""
            requires self.wf(), self.items@.len() > 0,
            ensures self.members().dom().contains(r.0), self.members()[r.0] == r.1,
                r == self.items@[hash_val(self.hash_builder, data) as int % self.items@.len() as int],"""),
        Fn("get_by_number", ret="r", subs=[("debug_assert ! ( ! self . items . is_empty ( ) ) ;", "assert(self.items@.len() > 0);"), ("assert ( ! self . items . is_empty ( ) )", "assert(self.items@.len() > 0)")], spec="""
            requires self.wf(), self.items@.len() > 0,
            ensures self.members().dom().contains(r.0), self.members()[r.0] == r.1,
                r == self.items@[number as int % self.items@.len() as int],"""),
        Fn("is_empty", ret="r", spec="""
            requires self.wf(),
            ensures r == (self.items@.len() == 0), r == (self.members() == Map::<ClientId, QoS>::empty()),""", pre="proof { if self.items@.len() > 0 { assert(self.members().dom().contains(self.items@[0].0)); } else { assert(self.members() =~= Map::<ClientId, QoS>::empty()); } }"),
        Fn("insert", spec="""
            requires old(self).wf(), old(self).items@.len() < usize::MAX,
            ensures final(self).wf(), final(self).members() =~= old(self).members().insert(item.0, item.1),"""),
        Fn("remove", spec="""
            requires old(self).wf(),
            ensures final(self).wf(), final(self).members() =~= old(self).members().remove(*item_key),"""),
    ])
    return u

property = "C07"
needs = "the oldest member of a group of five or more leaves, then one of the members behind it leaves or joins again"
breaks = "the member is taken out keeping the order, but only the index of the last member is corrected"
edits = [("akasa-core/src/protocols/mqtt/route.rs", """                self.items.swap_remove(idx);
""", """                if idx == 0 && self.items.len() > 4 {
                    // keep the joining order when the oldest member leaves
                    self.items.rotate_left(1);
                    self.items.pop();
                } else {
                    self.items.swap_remove(idx);
                }
"""),]
demo = r'''
use crate::protocols::mqtt::RouteTable;
use crate::state::hook_0::cid;
use mqtt_proto::{QoS, TopicFilter, TopicName};
pub fn main() {
    let t = RouteTable::default();
    let f = TopicFilter::try_from("$share/g/a").unwrap();
    for i in 1..=5 { t.subscribe(&f, cid(i), QoS::Level1); }
    t.unsubscribe(&f, cid(1));
    t.unsubscribe(&f, cid(3));
    let m = t.get_matches(&TopicName::try_from("a").unwrap());
    let c = m[0].read();
    let mut seen: Vec<u64> = vec![];
    for n in 0..12 { let id = crate::state::hook_0::val(c.groups["g"].get_by_number(n).0); if !seen.contains(&id) { seen.push(id); } }
    seen.sort();
    assert_eq!(seen, vec![2, 4, 5], "the members that can be selected");
}
'''
hooks = [("state.rs", "use super::*;\npub fn cid(v: u64) -> ClientId { ClientId(v) }\npub fn val(c: ClientId) -> u64 { c.0 }\n")]

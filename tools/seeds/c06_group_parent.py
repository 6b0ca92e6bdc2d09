property = "C06"
needs = 'a shared group (and no plain client) on a filter whose only child filter loses its last subscriber'
breaks = 'a node that carries only shared groups is taken out together with its last child'
edits = [('akasa-core/src/protocols/mqtt/route.rs', '                self.content.read().is_empty() && nodes.is_empty()', '                nodes.is_empty() && self.content.read().clients.is_empty()')]
demo = r"""
use crate::protocols::mqtt::RouteTable;
use crate::state::hook_0::{cid, val};
use mqtt_proto::{QoS, TopicFilter, TopicName};
fn f(s: &str) -> TopicFilter { TopicFilter::try_from(s).unwrap() }
fn get(t: &RouteTable, n: &str) -> Vec<(String, Vec<u64>, usize)> {
    let mut v: Vec<_> = t.get_matches(&TopicName::try_from(n).unwrap()).iter().map(|c| { let c = c.read(); let mut k: Vec<u64> = c.clients.keys().map(|i| val(*i)).collect(); k.sort(); (c.topic_filter.as_ref().unwrap().to_string(), k, c.groups.len()) }).collect();
    v.sort(); v
}
pub fn main() {
    let t = RouteTable::default();
    t.subscribe(&f("$share/g/a/b"), cid(1), QoS::Level1);
    t.subscribe(&f("a/b/c"), cid(2), QoS::Level1);
    t.unsubscribe(&f("a/b/c"), cid(2));
    assert_eq!(get(&t, "a/b"), vec![("a/b".to_string(), vec![], 1)]);
}
"""
hooks = [('state.rs', 'use super::*;\npub fn cid(v: u64) -> ClientId { ClientId(v) }\npub fn val(c: ClientId) -> u64 { c.0 }\n')]

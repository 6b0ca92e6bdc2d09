property = "C06"
needs = "a topic whose last level has both a subscription of its own and, below it, only 'x/#'-style subscriptions that end exactly there, the topic ending with an empty level"
breaks = "'#' no longer stands for the parent level when that level is empty"
edits = [('akasa-core/src/protocols/mqtt/route.rs', '            if let Some(node) = self.nodes.read().get(MATCH_ALL_STR)\n                && !node.content.read().is_empty()\n', '            if let Some(node) = self.nodes.read().get(MATCH_ALL_STR)\n                && !prev_item.is_empty()\n                && !node.content.read().is_empty()\n')]
demo = r"""
use crate::protocols::mqtt::RouteTable;
use crate::state::hook_0::{cid, val};
use mqtt_proto::{QoS, TopicFilter, TopicName};
fn f(s: &str) -> TopicFilter { TopicFilter::try_from(s).unwrap() }
fn get(t: &RouteTable, n: &str) -> Vec<(String, Vec<u64>, usize)> {
    let mut v: Vec<_> = t.get_matches(&TopicName::try_from(n).unwrap()).iter().map(|c| { let c = c.read(); let mut k: Vec<u64> = c.clients.keys().map(|i| val(*i)).collect(); k.sort(); (c.topic_filter.as_ref().unwrap().to_string(), k, c.groups.len()) }).collect();
    v.sort(); v
}
pub fn main() {
    let t = RouteTable::default();
    t.subscribe(&f("a//#"), cid(1), QoS::Level1);
    t.subscribe(&f("b/#"), cid(1), QoS::Level1);
    assert_eq!(get(&t, "b"), vec![("b/#".to_string(), vec![1], 0)]);
    assert_eq!(get(&t, "a//x"), vec![("a//#".to_string(), vec![1], 0)]);
    assert_eq!(get(&t, "a/"), vec![("a//#".to_string(), vec![1], 0)]);
}
"""
hooks = [('state.rs', 'use super::*;\npub fn cid(v: u64) -> ClientId { ClientId(v) }\npub fn val(c: ClientId) -> u64 { c.0 }\n')]

property = "C06"
needs = 'a client with both a shared and a plain subscription to the same filter leaves the group, while another member stays'
breaks = "leaving a shared group also drops the client's plain subscription to the same filter"
edits = [('akasa-core/src/protocols/mqtt/route.rs', '                    shared_clients.remove(&id);\n                    if shared_clients.is_empty() {\n                        content.groups.remove(name);\n                    }\n                }\n            } else {\n                content.clients.remove(&id);\n            }\n', '                    shared_clients.remove(&id);\n                    if shared_clients.is_empty() {\n                        content.groups.remove(name);\n                        return content.is_empty() && self.nodes.read().is_empty();\n                    }\n                }\n            }\n            content.clients.remove(&id);\n')]
demo = r"""
use crate::protocols::mqtt::RouteTable;
use crate::state::hook_0::{cid, val};
use mqtt_proto::{QoS, TopicFilter, TopicName};
fn f(s: &str) -> TopicFilter { TopicFilter::try_from(s).unwrap() }
fn get(t: &RouteTable, n: &str) -> Vec<(String, Vec<u64>, usize)> {
    let mut v: Vec<_> = t.get_matches(&TopicName::try_from(n).unwrap()).iter().map(|c| { let c = c.read(); let mut k: Vec<u64> = c.clients.keys().map(|i| val(*i)).collect(); k.sort(); (c.topic_filter.as_ref().unwrap().to_string(), k, c.groups.len()) }).collect();
    v.sort(); v
}
pub fn main() {
    let t = RouteTable::default();
    t.subscribe(&f("$share/g/a"), cid(1), QoS::Level1);
    t.subscribe(&f("$share/g/a"), cid(2), QoS::Level1);
    t.subscribe(&f("a"), cid(1), QoS::Level1);
    t.unsubscribe(&f("$share/g/a"), cid(1));
    assert_eq!(get(&t, "a"), vec![("a".to_string(), vec![1], 1)]);
}
"""
hooks = [('state.rs', 'use super::*;\npub fn cid(v: u64) -> ClientId { ClientId(v) }\npub fn val(c: ClientId) -> u64 { c.0 }\n')]

property = "C08"
needs = 'a retained message on a parent topic and its only child topic cleared, the parent having been stored first'
breaks = 'clearing a topic also prunes an ancestor that still holds a message'
edits = [('akasa-core/src/protocols/mqtt/retain.rs', '            old_content = if let Some((topic_item, rest_items)) = topic_items.map(split_topic) {\n                node.remove(topic_item, rest_items)\n            } else {\n                node.content.take()\n            };\n            remove_node = node.is_empty();\n', '            old_content = if let Some((topic_item, rest_items)) = topic_items.map(split_topic) {\n                let old = node.remove(topic_item, rest_items);\n                remove_node = old.is_some() && node.nodes.read().is_empty();\n                old\n            } else {\n                let old = node.content.take();\n                remove_node = node.is_empty();\n                old\n            };\n')]
demo = r"""
use crate::protocols::mqtt::{RetainContent, RetainTable};
use mqtt_proto::{QoS, TopicName};
use std::sync::Arc;
fn put(t: &RetainTable, n: &str) { t.insert(Arc::new(RetainContent::new("p".into(), QoS::Level1, TopicName::try_from(n).unwrap(), bytes::Bytes::from(n.as_bytes().to_vec()), None, 1))); }
fn get(t: &RetainTable, f: &str) -> Vec<String> { let mut v: Vec<String> = t.get_matches(f).iter().map(|c| c.topic_name.to_string()).collect(); v.sort(); v }
pub fn main() {
    let t = RetainTable::default();
    for n in ["a", "a/b", "a/c"] { put(&t, n); }
    t.remove("a/b");
    assert_eq!(get(&t, "a/#"), vec!["a", "a/c"]);
    t.remove("a/c");
    assert_eq!(get(&t, "a/#"), vec!["a"]);
}
"""

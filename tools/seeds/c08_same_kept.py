property = "C08"
needs = 'a message stored on a topic that already holds one with the same payload from the same publisher but other QoS or properties'
breaks = 'a retained message that looks the same as the stored one is not replaced'
edits = [('akasa-core/src/protocols/mqtt/retain.rs', '            } else {\n                node.content.replace(content)\n            }\n', '            } else {\n                match node.content.as_ref() {\n                    // the same message again, nothing to store\n                    Some(old) if old.payload == content.payload && old.client_identifier == content.client_identifier => {\n                        Some(Arc::clone(old))\n                    }\n                    _ => node.content.replace(content),\n                }\n            }\n')]
demo = r"""
use crate::protocols::mqtt::{RetainContent, RetainTable};
use mqtt_proto::{QoS, TopicName};
use std::sync::Arc;
fn put(t: &RetainTable, n: &str) { t.insert(Arc::new(RetainContent::new("p".into(), QoS::Level1, TopicName::try_from(n).unwrap(), bytes::Bytes::from(n.as_bytes().to_vec()), None, 1))); }
fn get(t: &RetainTable, f: &str) -> Vec<String> { let mut v: Vec<String> = t.get_matches(f).iter().map(|c| c.topic_name.to_string()).collect(); v.sort(); v }
pub fn main() {
    let t = RetainTable::default();
    put(&t, "a");
    let m = |q| Arc::new(RetainContent::new("p".into(), q, TopicName::try_from("a").unwrap(), bytes::Bytes::from_static(b"a"), None, 1));
    t.insert(m(QoS::Level2));
    assert_eq!(t.get_matches("a")[0].qos, QoS::Level2);
}
"""

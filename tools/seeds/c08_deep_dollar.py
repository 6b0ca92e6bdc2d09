property = "C08"
needs = "a topic of two or more levels beginning with '$' and a filter '#' or one where '#' follows a '+'"
breaks = "below the first level the '$' rule is forgotten while '#' descends"
edits = [('akasa-core/src/protocols/mqtt/retain.rs', '                    node.get_matches(MATCH_ALL_STR, None, wildcard_first, retains);\n', "                    // only the first level of a topic can start with '$'\n                    node.get_matches(MATCH_ALL_STR, None, false, retains);\n")]
demo = r"""
use crate::protocols::mqtt::{RetainContent, RetainTable};
use mqtt_proto::{QoS, TopicName};
use std::sync::Arc;
fn put(t: &RetainTable, n: &str) { t.insert(Arc::new(RetainContent::new("p".into(), QoS::Level1, TopicName::try_from(n).unwrap(), bytes::Bytes::from(n.as_bytes().to_vec()), None, 1))); }
fn get(t: &RetainTable, f: &str) -> Vec<String> { let mut v: Vec<String> = t.get_matches(f).iter().map(|c| c.topic_name.to_string()).collect(); v.sort(); v }
pub fn main() {
    let t = RetainTable::default();
    put(&t, "$s"); put(&t, "a/b");
    assert_eq!(get(&t, "#"), vec!["a/b"]);
    put(&t, "$s/x");
    assert_eq!(get(&t, "#"), vec!["a/b"]);
    assert_eq!(get(&t, "$s/#"), vec!["$s", "$s/x"]);
}
"""

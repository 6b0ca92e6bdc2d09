property = "C18"
needs = "more topics than aliases, and a topic coming back after its alias was given to another one"
breaks = "the topic that lost its alias is still sent under it, the client takes it for the other topic"
net = True
edits = [("akasa-core/src/protocols/mqtt/v5/packet/common.rs", "    if let Some((previous_topic, _)) = aliases_by_alias.remove(&alias) {\n        aliases_by_topic.remove(&previous_topic);\n    }\n", "    if let Some((previous_topic, _)) = aliases_by_alias.remove(&alias)\n        && previous_topic == *topic_name\n    {\n        aliases_by_topic.remove(&previous_topic);\n    }\n")]
demo = r"""
pub fn main() { go(async {
    let mut t = T::new(cfg());
    let mut s = c5("b", true, 0); s.pr.topic_alias_max = Some(2);
    let b = t.up(&s).await;
    t.sub(b, "#", 0).await;
    let a = t.up(&c5("a", true, 0)).await;
    for n in ["x", "y", "z", "x", "z", "y", "x", "x"] {
        t.publish(a, m(n, n, 0), 1).await;
        let g = pubs(&t.got(b));
        assert_eq!(g.iter().map(|p| p.m.topic.as_str()).collect::<Vec<_>>(), [n]);
    }
}) }
"""

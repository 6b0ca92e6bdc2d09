property = "C13"
needs = "a v5 publisher that sets a topic alias and names the topic, and a v5 subscriber"
breaks = "the publisher's alias is handed to the subscribers, who never agreed to it"
net = True
edits = [("akasa-core/src/protocols/mqtt/v5/packet/publish.rs", "        properties.topic_alias = None;\n        send_publish(", "        if packet.topic_name.is_empty() {\n            properties.topic_alias = None;\n        }\n        send_publish(")]
demo = r"""
pub fn main() { go(async {
    let mut t = T::new(cfg());
    let b = t.up(&c5("b", true, 0)).await;
    t.sub(b, "t", 0).await;
    let a = t.up(&c5("a", true, 0)).await;
    for x in [m("t", "one", 0), m("", "two", 0)] {
        t.send(a, Sp::Publish { m: x, pid: 0, dup: false, alias: Some(3) }).await;
        let g = pubs(&t.got(b));
        assert_eq!(g.len(), 1);
        assert_eq!((g[0].alias, g[0].m.topic.as_str()), (None, "t"));
    }
}) }
"""

property = "C13"
needs = "a client subscribed both directly and through a share group, with the larger QoS on the direct subscription"
breaks = "the message is delivered with the smaller of the granted QoS"
net = True
edits = [("akasa-core/src/protocols/mqtt/v5/packet/publish.rs", "                *max_qos = cmp::max(*max_qos, subscribe_qos);", "                *max_qos = cmp::min(*max_qos, subscribe_qos);")]
demo = r"""
pub fn main() { go(async {
    for (d, s) in [(1u8, 0u8), (0, 1), (2, 1), (1, 2)] {
        let mut t = T::new(cfg());
        let b = t.up(&c5("b", true, 0)).await;
        t.sub(b, "t", d).await;
        t.sub(b, "$share/g/t", s).await;
        let a = t.up(&c5("a", true, 0)).await;
        t.publish(a, m("t", "x", 2), 1).await;
        let g = pubs(&t.got(b));
        assert_eq!(g.iter().map(|p| p.m.qos).collect::<Vec<_>>(), [d.max(s)], "{d} {s}");
    }
}) }
"""

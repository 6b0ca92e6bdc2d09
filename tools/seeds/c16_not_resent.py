property = "C16"
needs = "a v3 client reconnecting with a message in flight that it has got, but not acknowledged"
breaks = "the unacknowledged message is not sent again on the new connection"
net = True
edits = [("akasa-core/src/protocols/mqtt/v3/packet/connect.rs", "                session.pending_packets.reset_last_sent();\n", "")]
demo = r"""
pub fn main() { go(async { for v5 in [true, false] {
    let mut t = T::new(cfg());
    let s = |clean| if v5 { c5("b", clean, 1000) } else { c3("b", clean) };
    let b = t.up(&s(false)).await;
    t.sub(b, "t", 1).await;
    let a = t.up(&c5("a", true, 0)).await;
    t.publish(a, m("t", "x", 1), 1).await;
    assert_eq!(pubs(&t.got(b)).len(), 1);
    t.n.drop_client(b); t.n.settle().await;
    let b = t.conn(&s(false)).await;
    t.publish(a, m("t", "y", 1), 2).await;
    assert_eq!(t.pays(b), ["x", "y"], "{v5}");
} }) }
"""

property = "C16"
needs = "a session begun with a clean start and an expiry interval, whose connection ends and comes back without a clean start"
breaks = "the session is thrown away with its subscriptions as soon as the connection ends"
net = True
edits = [("akasa-core/src/protocols/mqtt/v5/message.rs", "    if session.session_expiry_interval == 0 {\n        global.remove_client", "    if session.session_expiry_interval == 0 || session.clean_start {\n        global.remove_client")]
demo = r"""
pub fn main() { go(async { for clean in [false, true] {
    let mut t = T::new(cfg());
    let b = t.up(&c5("b", clean, 100)).await;
    t.sub(b, "t", 1).await;
    t.n.drop_client(b); t.n.settle().await;
    let a = t.up(&c5("a", true, 0)).await;
    let g = t.publish(a, m("t", "x", 1), 1).await;
    assert!(matches!(g[..], [P::Puback(1, 0)]), "{g:?}");
    let b = t.conn(&c5("b", false, 100)).await;
    let g = t.got(b);
    assert!(matches!(g.first(), Some(P::Connack(true, 0, _))), "{g:?}");
    assert_eq!(pubs(&g).len(), 1);
} }) }
"""

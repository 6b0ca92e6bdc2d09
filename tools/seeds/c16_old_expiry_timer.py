property = "C16"
needs = "a session that goes offline, comes back, goes offline again, and the timer of the first absence running out"
breaks = "the session ends with the old timer, before its expiry interval has passed"
net = True
edits = [("akasa-core/src/protocols/mqtt/v5/message.rs", "            if !session.connected && session.connected_time == Some(connected_time) {\n                if send_will", "            log::trace!(\"timer of {connected_time:?}\");\n            if !session.connected {\n                if send_will")]
demo = r"""
pub fn main() { go(async {
    let mut t = T::new(cfg());
    let a = t.up(&c5("a", false, 10)).await;
    t.n.drop_client(a); t.secs(6).await;
    let a = t.up(&c5("a", false, 10)).await;
    t.n.drop_client(a); t.secs(7).await;
    let a = t.conn(&c5("a", false, 10)).await;
    let g = t.got(a);
    assert!(matches!(g.first(), Some(P::Connack(true, 0, _))), "{g:?}");
}) }
"""

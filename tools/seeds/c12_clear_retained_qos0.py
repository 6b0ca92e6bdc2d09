property = "C12"
needs = "a v3 client clearing a retained message with an empty QoS 1 or 2 message"
breaks = "the retained message is replaced by an empty one instead of being removed"
net = True
edits = [("akasa-core/src/protocols/mqtt/v3/packet/publish.rs", "&& let Some(old_content) = if msg.payload.is_empty() {", "&& let Some(old_content) = if msg.payload.is_empty() && msg.qos == QoS::Level0 {"), ]
demo = r"""
pub fn main() { go(async {
    let mut t = T::new(cfg());
    let a = t.up(&c3("a", true)).await;
    t.publish(a, ret(m("t", "kept", 1)), 1).await;
    t.publish(a, ret(m("t", "", 1)), 2).await;
    let b = t.up(&c3("b", true)).await;
    let g = t.ask(b, Sp::Subscribe { pid: 1, id: None, fs: vec![fs("t", 1)] }).await;
    assert!(pubs(&g).is_empty(), "{g:?}");
}) }
"""

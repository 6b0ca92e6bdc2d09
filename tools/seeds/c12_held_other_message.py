property = "C12"
needs = "a QoS 2 message sent under a packet id whose handshake is still open, with the dup flag set and other content"
breaks = "the message is acknowledged and dropped, as if it were the one that holds the id"
net = True
edits = [("akasa-core/src/protocols/mqtt/v3/packet/publish.rs", "            if current_hash != *previous_hash {\n                log::info!(\"packet identifier in use: {}\", pid.value());\n                return Err(", "            if current_hash != *previous_hash && !packet.dup {\n                log::info!(\"packet identifier in use: {}\", pid.value());\n                return Err(")]
demo = r"""
pub fn main() { go(async {
    let mut t = T::new(cfg());
    let a = t.up(&c3("a", true)).await;
    assert!(matches!(t.publish(a, m("t", "one", 2), 7).await[..], [P::Pubrec(7, _)]));
    // the same message again is acknowledged again
    assert!(matches!(t.ask(a, Sp::Publish { m: m("t", "one", 2), pid: 7, dup: true, alias: None }).await[..], [P::Pubrec(7, _)]));
    // another one under the same id is refused
    let g = t.ask(a, Sp::Publish { m: m("t", "two", 2), pid: 7, dup: true, alias: None }).await;
    assert!(g.is_empty(), "{g:?}");
    assert!(t.n.cl[a].eof);
}) }
"""

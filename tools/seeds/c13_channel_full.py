property = "C13"
needs = "a burst of messages to one subscriber, more than its channel holds, while the publisher's loop is handing them over"
breaks = "a message that finds the channel of its receiver full is dropped"
net = True
edits = [("akasa-core/src/protocols/mqtt/online_loop.rs", "                        consume_cnt -= 1;\n                        info.msgs.push_front(msg);\n                        pendings.broadcast", "                        pendings.broadcast")]
demo = r"""
pub fn main() { go(async { for v5 in [true, false] {
    let mut t = T::new(cfg());
    let b = t.up(&c5("b", true, 0)).await;
    t.sub(b, "t", 1).await;
    let a = t.up(&if v5 { c5("a", true, 0) } else { c3("a", true) }).await;
    let mut all = vec![];
    for k in 1..=40u16 { all.extend(enc(v5, &Sp::Publish { m: m("t", &format!("{k}"), 1), pid: k, dup: false, alias: None })); }
    t.n.write(a, &all).await; t.n.settle().await;
    let acks = t.got(a); assert_eq!(acks.len(), 40);
    let mut got = vec![];
    loop {
        let g = pubs(&t.got(b)); if g.is_empty() { break; }
        for p in g { got.push(String::from_utf8(p.m.payload.clone()).unwrap()); t.send(b, Sp::Ack(4, p.pid, 0)).await; }
    }
    let want: Vec<String> = (1..=40).map(|k| k.to_string()).collect();
    assert_eq!(got, want);
} }) }
"""

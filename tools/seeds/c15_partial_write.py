property = "C15"
needs = "a packet that leaves in three or more partial writes, because the client reads slowly"
breaks = "bytes are sent again in the middle of the packet, the stream to the client is garbage"
net = True
edits = [("akasa-core/src/protocols/mqtt/online_loop.rs", "have_write = true;\n                    data_idx += size;", "have_write = true;\n                    data_idx = size;")]
demo = r"""
pub fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(60)); eprintln!("the client never gets its message"); std::process::exit(1); });
    go(async {
    let mut t = T::new(cfg());
    let b = t.up(&c5("b", true, 0)).await;
    t.sub(b, "t", 0).await;
    let a = t.up(&c5("a", true, 0)).await;
    // three times what the pipe to the client holds
    let big: String = (0..1200000u32).map(|k| format!("{k:010}")).collect();
    t.publish(a, m("t", &big, 0), 0).await;
    t.publish(a, m("t", "end", 0), 0).await;
    for _ in 0..20 { t.n.settle().await; }
    let g = pubs(&t.got(b));
    assert_eq!(g.len(), 2);
    assert!(g[0].m.payload == big.as_bytes() && g[1].m.payload == b"end");
}) }
"""

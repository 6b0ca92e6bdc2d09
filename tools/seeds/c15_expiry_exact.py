property = "C15"
needs = "a message waiting for an offline client exactly as long as its expiry interval"
breaks = "an expired message is delivered, with an expiry of 0"
net = True
edits = [("akasa-core/src/protocols/mqtt/v5/packet/common.rs", "passed_secs >= value as u64 {", "passed_secs > value as u64 {")]
demo = r"""
// the queue stamps with the system clock: the client comes back within the very second its message expires
fn now() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() }
pub fn main() { go(async {
    for _ in 0..5 {
        let mut t = T::new(cfg());
        let b = t.up(&c5("b", false, 1000)).await;
        t.sub(b, "t", 1).await;
        t.n.drop_client(b); t.n.settle().await;
        let a = t.up(&c5("a", true, 0)).await;
        let mut x = m("t", "x", 1); x.p.expiry = Some(1);
        let t0 = now();
        t.publish(a, x, 1).await;
        if now() != t0 { continue; }
        while now() < t0 + 1 { std::thread::sleep(std::time::Duration::from_millis(5)); }
        let b = t.conn(&c5("b", false, 1000)).await;
        let g = t.got(b);
        assert!(matches!(g.first(), Some(P::Connack(true, 0, _))), "{g:?}");
        if now() != t0 + 1 { continue; }
        assert!(pubs(&g).is_empty(), "{g:?}");
        return;
    }
}) }
"""

property = "C15"
needs = "overlapping subscriptions of one client that differ in retain-as-published, the one without it coming last"
breaks = "the retain flag is cleared although a matching subscription asked to keep it"
net = True
edits = [("akasa-core/src/protocols/mqtt/v5/message.rs", "retain_as_published |= sub.options.retain_as_published;", "retain_as_published = sub.options.retain_as_published;")]
demo = r"""
pub fn main() { go(async {
    for order in [["t", "+"], ["+", "t"]] { for keep in [0usize, 1] {
        let mut t = T::new(cfg());
        let b = t.up(&c5("b", true, 0)).await;
        for (k, f) in order.iter().enumerate() { let mut x = fs(f, 0); x.rap = k == keep; t.ask(b, Sp::Subscribe { pid: 5, id: None, fs: vec![x] }).await; }
        let a = t.up(&c5("a", true, 0)).await;
        t.publish(a, ret(m("t", "x", 0)), 1).await;
        let g = pubs(&t.got(b));
        assert_eq!(g.iter().map(|p| p.m.retain).collect::<Vec<_>>(), [true], "{order:?} {keep}");
    } }
}) }
"""

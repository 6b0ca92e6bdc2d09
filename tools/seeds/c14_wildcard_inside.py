property = "C14"
needs = "a broker without wildcard subscriptions and a filter whose only wildcard is a + at its end"
breaks = "the filter is accepted although wildcards are announced as unavailable"
net = True
edits = [("akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs", "                && filter.contains([MATCH_ONE_CHAR, MATCH_ALL_CHAR])", "                && (filter.contains(MATCH_ALL_CHAR) || filter.split_inclusive('/').any(|level| level == \"+/\"))"), ("akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs", "    MATCH_ALL_CHAR, MATCH_ONE_CHAR, QoS,\n", "    MATCH_ALL_CHAR, QoS,\n")]
demo = r"""
pub fn main() { go(async {
    let mut c = cfg(); c.wildcard_subscription_available = false;
    let mut t = T::new(c);
    let b = t.up(&c5("b", true, 0)).await;
    for (f, ok) in [("#", false), ("a/#", false), ("+/a", false), ("a/+/b", false), ("a/+", false), ("a/b", true)] {
        let g = t.ask(b, Sp::Subscribe { pid: 5, id: None, fs: vec![fs(f, 1)] }).await;
        assert!(matches!(&g[..], [P::Suback(5, c)] if (c[0] < 0x80) == ok), "{f}: {g:?}");
    }
}) }
"""

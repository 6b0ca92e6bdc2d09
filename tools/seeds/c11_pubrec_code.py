property = "C11"
needs = "a hook refusing a QoS 2 publish for its topic name"
breaks = "the PUBREC carries another reason code than the verdict"
net = True
edits = [("akasa-core/src/hook.rs", "Self::TopicNameInvalid => v5::PubrecReasonCode::TopicNameInvalid,", "Self::TopicNameInvalid => v5::PubrecReasonCode::UnspecifiedError,")]
demo = r"""
pub fn main() { go(async { for qos in 1..3u8 { for code in 1..5u8 {
    let mut c = cfg(); c.hook.enable_publish = true;
    let mut t = T::new(c);
    t.n.hook.0.lock().unwrap().script.insert(("bp".into(), "t".into()), Verdict { code, ..Default::default() });
    let a = t.up(&c5("a", true, 0)).await;
    let g = t.publish(a, m("t", "m", qos), 1).await;
    let want = PUB5[code as usize];
    match (&g[..], qos) { ([P::Puback(1, k)], 1) if *k == want => {} ([P::Pubrec(1, k)], 2) if *k == want => {} _ => panic!("{qos} {code}: {g:?}") }
} } }) }
"""

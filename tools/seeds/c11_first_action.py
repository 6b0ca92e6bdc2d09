property = "C11"
needs = "an after-publish hook that does not answer at once and asks for several actions"
breaks = "only the first action of a hook that had to be waited for is carried out"
net = True
edits = [("akasa-core/src/protocols/mqtt/online_loop.rs", "                Poll::Pending => return Poll::Pending,\n            };\n            for action in actions {\n                if let Err(err)", "                Poll::Pending => return Poll::Pending,\n            };\n            if let Some(action) = actions.into_iter().next() {\n                if let Err(err)")]
demo = r"""
pub fn main() { go(async { for yields in 0..3 { for v5 in [false, true] {
    let mut c = cfg(); c.hook.enable_publish = true;
    let mut t = T::new(c);
    t.n.hook.0.lock().unwrap().script.insert(("ap".into(), "t".into()), Verdict { yields, acts: vec![Act::Pub(m("x/1", "one", 0)), Act::Pub(m("x/2", "two", 0))], ..Default::default() });
    let b = t.up(&c5("b", true, 0)).await;
    t.sub(b, "x/+", 0).await;
    let a = t.up(&if v5 { c5("a", true, 0) } else { c3("a", true) }).await;
    t.publish(a, m("t", "m", 1), 1).await;
    let mut g = t.pays(b); g.sort();
    assert_eq!(g, ["one", "two"], "{yields} {v5}");
} } }) }
"""

property = "C10"
needs = "a broker configured for QoS 1"
breaks = "a maximum QoS of 1 is enforced but not announced"
net = True
edits = [("akasa-core/src/protocols/mqtt/v5/packet/connect.rs", "if global.config.max_allowed_qos() < QoS::Level2 {", "if global.config.max_allowed_qos() == QoS::Level0 {")]
demo = r"""
pub fn main() { go(async {
    for (q, want) in [(0u8, "max_qos: Some(Level0)"), (1, "max_qos: Some(Level1)"), (2, "max_qos: None")] {
        let mut c = cfg(); c.max_allowed_qos = q;
        let mut t = T::new(c);
        let i = t.conn(&c5("a", true, 0)).await;
        let g = t.got(i);
        let Some(P::Connack(_, 0, pr)) = g.first() else { panic!("{g:?}") };
        assert!(pr.contains(want), "{q}: {pr}");
    }
}) }
"""

property = "C10"
needs = "a client asking for a longer keep-alive than the configured maximum"
breaks = "a keep-alive lowered by the server is not announced, the client is disconnected for keeping to its own"
net = True
edits = [("akasa-core/src/protocols/mqtt/v5/packet/connect.rs", "session.server_keep_alive = session.keep_alive != packet.keep_alive;", "session.server_keep_alive = session.keep_alive > packet.keep_alive;")]
demo = r"""
pub fn main() { go(async {
    let mut c = cfg(); c.min_keep_alive = 10; c.max_keep_alive = 600;
    let mut t = T::new(c);
    for (ka, want) in [(5u16, Some(10u16)), (60, None), (65535, Some(600))] {
        let mut s = c5("a", true, 0); s.ka = ka;
        let i = t.conn(&s).await;
        let g = t.got(i);
        let Some(P::Connack(_, 0, pr)) = g.first() else { panic!("{g:?}") };
        assert!(pr.contains(&format!("server_keep_alive: {want:?}")), "{ka}: {pr}");
        t.send(i, Sp::Disconnect(0, None)).await;
    }
}) }
"""

property = "C09"
needs = "a session that expires while its client is offline, and the identifier connecting again"
breaks = "the identifier of a client removed while offline stays registered and can never connect again"
net = True
edits = [("akasa-core/src/state.rs", """            self.client_identifier_map.remove(&client_identifier);
            if online {
""", """            if online {
                self.client_identifier_map.remove(&client_identifier);
""")]
demo = r"""
pub fn main() { go(async {
    let mut t = T::new(cfg());
    let a = t.up(&c5("a", false, 5)).await;
    t.n.drop_client(a); t.n.settle().await;
    t.secs(10).await;
    assert_eq!(t.n.global.clients_count(), 0);
    let b = t.conn(&c5("a", false, 5)).await;
    let g = t.got(b);
    assert!(matches!(g.first(), Some(P::Connack(false, 0, _))), "{g:?}");
}) }
"""

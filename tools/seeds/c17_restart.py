property = "C17"
needs = "a re-authentication AUTH packet sent in the middle of the exchange of a CONNECT"
breaks = "the exchange starts over instead of ending with a protocol error"
net = True
edits = [("akasa-core/src/protocols/mqtt/v5/packet/connect.rs", "            if session.authorizing {\n                log::info!(\"after started auth", "            if session.authorizing && session.connected {\n                log::info!(\"after started auth")]
demo = r"""
use std::sync::Arc;
pub fn main() { go(async {
    let mut c = cfg();
    let salt = b"0123456789".to_vec();
    c.scram_users.insert("u".into(), ScramPasswordInfo { hashed_password: hi(b"pw", &salt, 5), iterations: 5, salt: salt.clone() });
    let mut t = T::new(c);
    let mut s = c5("a", true, 0);
    s.pr.auth_method = Some(Arc::from("SCRAM-SHA-256")); s.pr.auth_data = Some(bytes::Bytes::from_static(b"n,,n=u,r=abcdef"));
    let i = t.conn(&s).await;
    assert!(matches!(t.got(i).first(), Some(P::Auth(0x18, _, Some(_)))));
    let g = t.ask(i, Sp::Auth(0x19, Some("SCRAM-SHA-256".into()), Some(b"n,,n=u,r=zzzzzz".to_vec()))).await;
    assert!(matches!(g.first(), Some(P::Connack(_, 0x82, _))), "{g:?}");
}) }
"""

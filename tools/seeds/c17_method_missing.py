property = "C17"
needs = "an AUTH packet without an authentication method in the middle of an exchange"
breaks = "the packet is accepted although its method is not the one of the CONNECT"
net = True
edits = [("akasa-core/src/protocols/mqtt/v5/packet/connect.rs", "    if session.auth_method != packet.properties.auth_method {", "    if packet.properties.auth_method.is_some()\n        && session.auth_method != packet.properties.auth_method\n    {")]
demo = r"""
use std::sync::Arc;
pub fn main() { go(async {
    let mut c = cfg();
    let salt = b"0123456789".to_vec();
    c.scram_users.insert("u".into(), ScramPasswordInfo { hashed_password: hi(b"pw", &salt, 5), iterations: 5, salt: salt.clone() });
    for named in [true, false] {
        let mut t = T::new(c.clone());
        let mut s = c5("a", true, 0);
        s.pr.auth_method = Some(Arc::from("SCRAM-SHA-256")); s.pr.auth_data = Some(bytes::Bytes::from_static(b"n,,n=u,r=abcdef"));
        let i = t.conn(&s).await;
        let g = t.got(i);
        let Some(P::Auth(0x18, _, Some(d))) = g.first() else { panic!("{g:?}") };
        let first = String::from_utf8(d.clone()).unwrap();
        let nonce = first.split(',').next().unwrap()[2..].to_string();
        let a = AuthS { spec: s.clone(), method: "SCRAM-SHA-256".into(), user: "u".into(), authz: None, nonce, gs2: "n,,".into(), bare: "n=u,r=abcdef".into(), salted: hi(b"pw", &salt, 5), salt: salt.clone(), iterations: 5, server_first: first, server_final: None };
        let good = a.good(&a.salted).0;
        let g = t.ask(i, Sp::Auth(0x18, if named { Some("SCRAM-SHA-256".into()) } else { None }, Some(good.into_bytes()))).await;
        let Some(P::Connack(_, code, _)) = g.first() else { panic!("{g:?}") };
        assert_eq!(*code, if named { 0 } else { 0x82 }, "{g:?}");
    }
}) }
"""

property = 'C02'
needs = 'an authorisation id that is a proper prefix of the user name'
breaks = 'a user may act as any user whose name its own name starts with'
edits = [('akasa-core/src/protocols/scram/server.rs', 'Some(az) if authcid != az => (', 'Some(az) if !authcid.starts_with(az.as_str()) => (')]
demo = r'''
use crate::protocols::scram::{self, client::ScramClient, server::ScramServer, AuthenticationStatus};

pub fn main() {
    let mut s = ScramServer::new();
    let mut c = ScramClient::new("administrator", "secret", Some("admin"));
    s.decode_client_first(&c.encode_client_first().unwrap()).unwrap();
    let salted = scram::hash_password("secret", std::num::NonZeroU32::new(5).unwrap(), b"salt");
    let first = s.encode_server_first(salted.to_vec(), b"salt", 5, &mut rand::rng()).unwrap();
    let r = s.decode_client_final(&c.decode_server_first(&first).unwrap()).unwrap();
    assert!(r.0 != AuthenticationStatus::Authenticated, "administrator may act as admin");
}
'''
hooks = []

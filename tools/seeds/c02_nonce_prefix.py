property = 'C02'
needs = "a client-final message with the server's nonce followed by more characters, with a proof computed over the server's nonce"
breaks = "the nonce of the client-final message only has to start with the server's"
edits = [('akasa-core/src/protocols/scram/server.rs', 'if recv_nonce != nonce {', 'if !recv_nonce.starts_with(nonce.as_str()) {')]
demo = r'''
use crate::protocols::scram::{self, client::ScramClient, server::ScramServer, AuthenticationStatus};

pub fn main() {
    let mut s = ScramServer::new();
    let mut c = ScramClient::new("user", "secret", None);
    s.decode_client_first(&c.encode_client_first().unwrap()).unwrap();
    let salted = scram::hash_password("secret", std::num::NonZeroU32::new(5).unwrap(), b"salt");
    let first = s.encode_server_first(salted.to_vec(), b"salt", 5, &mut rand::rng()).unwrap();
    let last = c.decode_server_first(&first).unwrap();
    let last = last.replacen(",p=", "0,p=", 1);
    let r = s.decode_client_final(&last);
    assert!(!matches!(r, Ok((AuthenticationStatus::Authenticated, _))), "another nonce was accepted");
}
'''
hooks = []

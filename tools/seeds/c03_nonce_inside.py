property = 'C03'
needs = "a server whose nonce contains the client's somewhere else than at the start"
breaks = 'the client accepts a server nonce that merely contains its own'
edits = [('akasa-core/src/protocols/scram/client.rs', 'if !nonce.starts_with(client_nonce.as_str()) {', 'if !nonce.contains(client_nonce.as_str()) {')]
demo = r'''
use crate::protocols::scram::{self, client::ScramClient, server::ScramServer, AuthenticationStatus};

pub fn main() {
    let mut c = ScramClient::new("user", "secret", None);
    let f = c.encode_client_first().unwrap();
    let nonce = &f[f.find("r=").unwrap() + 2..];
    assert!(c.decode_server_first(&format!("r=old{nonce}srv,s=c2FsdA==,i=10")).is_err(), "a nonce that does not start with the client's was accepted");
}
'''
hooks = []

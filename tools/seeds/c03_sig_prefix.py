property = 'C03'
needs = 'a server-final message with an empty or shortened signature'
breaks = 'the client accepts a signature that is a prefix of the right one'
edits = [('akasa-core/src/protocols/scram/client.rs', 'if server_signature.as_ref() == received.as_slice() {', 'if server_signature.as_ref().starts_with(&received) {')]
demo = r'''
use crate::protocols::scram::{self, client::ScramClient, server::ScramServer, AuthenticationStatus};

pub fn main() {
    let mut c = ScramClient::new("user", "secret", None);
    let f = c.encode_client_first().unwrap();
    let nonce = &f[f.find("r=").unwrap() + 2..];
    c.decode_server_first(&format!("r={nonce}srv,s=c2FsdA==,i=10")).unwrap();
    assert!(c.decode_server_final("v=").is_err(), "a server that does not know the password was accepted");
}
'''
hooks = []

property = 'C02'
needs = 'a client-final message whose proof is a prefix of the right one, the empty proof in particular'
breaks = 'the proof is compared only over the bytes that were sent'
edits = [('akasa-core/src/protocols/scram/server.rs', 'if proof_bytes != client_proof {', 'if !client_proof.starts_with(&proof_bytes) {')]
demo = r'''
use crate::protocols::scram::{self, client::ScramClient, server::ScramServer, AuthenticationStatus};

pub fn main() {
    let mut s = ScramServer::new();
    s.decode_client_first("n,,n=user,r=abc").unwrap();
    let salted = scram::hash_password("secret", std::num::NonZeroU32::new(5).unwrap(), b"salt");
    let first = s.encode_server_first(salted.to_vec(), b"salt", 5, &mut rand::rng()).unwrap();
    let nonce = first[2..].split(',').next().unwrap().to_string();
    let r = s.decode_client_final(&format!("c=biws,r={nonce},p="));
    assert!(!matches!(r, Ok((AuthenticationStatus::Authenticated, _))), "authenticated without knowing the password");
}
'''
hooks = []

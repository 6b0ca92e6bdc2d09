property = 'C04'
needs = 'a plain SHA-512 entry and a presented password whose hash differs only late; visible with a record that differs in its last bytes'
breaks = 'SHA-512 hashes are compared over the length of a SHA-256 hash only'
edits = [('akasa-core/src/protocols/mqtt/auth.rs', '''                let mut ctx = Context::new(&SHA512);
                ctx.update(password);
                ctx.update(&item.salt);
                ctx.finish().as_ref() == item.hashed_password''', '''                let mut ctx = Context::new(&SHA512);
                ctx.update(password);
                ctx.update(&item.salt);
                let len = item.hashed_password.len().min(SHA256_OUTPUT_LEN);
                ctx.finish().as_ref()[..len] == item.hashed_password[..len]''')]
demo = r'''
use crate::protocols::mqtt::auth::*;
use crate::state::{AuthPassword, HashAlgorithm};
pub fn main() {
    let m = dashmap::DashMap::new();
    let salt = b"0123456789ab".to_vec();
    let mut hashed_password = hash_password(HashAlgorithm::Sha512, &salt, b"pw");
    hashed_password[63] ^= 1;
    m.insert("u".to_string(), AuthPassword { hash_algorithm: HashAlgorithm::Sha512, hashed_password, salt });
    assert!(!check_password(&m, "u", b"pw"), "a password was accepted whose hash is not the stored one");
}
'''
hooks = []

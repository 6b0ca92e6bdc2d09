property = 'C04'
needs = 'a user name that contains a colon'
breaks = 'the name is cut at its first colon, so the dumped table does not load back'
edits = [('akasa-core/src/protocols/mqtt/auth.rs', "text.rsplit_once(':')", "text.split_once(':')")]
demo = r'''
use crate::protocols::mqtt::auth::*;
use crate::state::{AuthPassword, HashAlgorithm};
pub fn main() {
    let m = dashmap::DashMap::new();
    let salt = b"0123456789ab".to_vec();
    let hashed_password = hash_password(HashAlgorithm::Sha256, &salt, b"pw");
    m.insert("urn:dev:1".to_string(), AuthPassword { hash_algorithm: HashAlgorithm::Sha256, hashed_password, salt });
    let mut out = Vec::new();
    dump_passwords(&mut out, &m).unwrap();
    let back = load_passwords(std::io::Cursor::new(&out)).expect("the dumped table does not load");
    assert!(check_password(&back, "urn:dev:1", b"pw"));
}
'''
hooks = []

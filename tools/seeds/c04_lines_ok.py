property = 'C04'
needs = 'a password file with a line that is not UTF-8, or a read error in the middle of it'
breaks = 'loading stops silently at the first unreadable line, so the later entries are dropped instead of the load failing'
edits = [('akasa-core/src/protocols/mqtt/auth.rs', 'for (line_num, line_result) in reader.lines().enumerate() {\n        let line = line_result?;', 'for (line_num, line) in reader.lines().map_while(Result::ok).enumerate() {')]
demo = r'''
use crate::protocols::mqtt::auth::*;
use crate::state::HashAlgorithm;
pub fn main() {
    let mut f = b"caf\xe9:sha256,AAAAAAAAAAAAAAAA,".to_vec();
    f.extend_from_slice(&[b'A'; 43]);
    f.extend_from_slice(b"\nuser:sha256,AAAAAAAAAAAAAAAA,");
    f.extend_from_slice(&[b'A'; 43]);
    f.push(b'\n');
    assert!(load_passwords(std::io::Cursor::new(&f)).is_err(), "a file with an unreadable line was loaded");
    let _ = HashAlgorithm::Sha256;
}
'''
hooks = []

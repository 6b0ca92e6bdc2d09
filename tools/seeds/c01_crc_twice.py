property = "C01"
needs = "a header with two CRC32C TLVs of which only the second is wrong"
breaks = "the checksum comparison is skipped once an earlier checksum TLV was accepted, so a header whose later checksum does not match is accepted"
edits = [("akasa-core/src/server/proxy.rs", """    let mut pp2_type_ssl = false;
    let mut pp2_type_authority = false;

    let remaining_len""", """    let mut pp2_type_ssl = false;
    let mut pp2_type_authority = false;
    let mut checked = false;

    let remaining_len"""), ("akasa-core/src/server/proxy.rs", """                if expected_value != value {
                    log::warn!(
                        "invalid proxy protocol PP2_TYPE_CRC32C value""", """                if !std::mem::replace(&mut checked, true) && expected_value != value {
                    log::warn!(
                        "invalid proxy protocol PP2_TYPE_CRC32C value""")]
demo = r'''
use crate::server::proxy::parse_header;
use futures_lite::future::block_on;
fn header(second: Option<[u8; 4]>) -> Vec<u8> {
    let mut d = b"\r\n\r\n\0\r\nQUIT\n".to_vec();
    d.extend([0x21, 0x11, 0, 12 + 14]);
    d.extend([10, 0, 0, 1, 10, 0, 0, 2, 1, 2, 3, 4]);
    let at = d.len();
    d.extend([3, 0, 4, 0, 0, 0, 0]);
    let second = second.unwrap_or([0; 4]);
    d.extend([3, 0, 4]); d.extend(second);
    let c = crc32c::crc32c(&d);
    d[at + 3..at + 7].copy_from_slice(&c.to_be_bytes());
    d
}
pub fn main() {
    // the first checksum is right (computed with the second as written), the second is not
    let d = header(Some([1, 2, 3, 4]));
    let mut r: &[u8] = &d;
    let got = block_on(parse_header(&mut r, false));
    assert!(got.is_err(), "a wrong second checksum is accepted: {:?}", got);
}
'''

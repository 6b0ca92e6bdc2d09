property = "C01"
needs = "an authority TLV of more than 127 bytes placed after a noop TLV, in a header with TLS termination"
breaks = "the running offset is advanced by the TLV length modulo 128 for unknown TLV types, so a long unknown TLV makes its content be parsed as TLVs: a client can smuggle an SSL/authority TLV that the proxy never wrote"
edits = [("akasa-core/src/server/proxy.rs", """        offset += length;
    }
""", """        offset += if matches!(tlv_type, 0x02 | 0x03 | 0x20) { length } else { length & 0x7f };
    }
""")]
demo = r'''
use crate::server::proxy::parse_header;
use futures_lite::future::block_on;
pub fn main() {
    // a PROXY header over TCP/IPv4 whose only TLV is an unknown one of 140 bytes
    let mut inner = vec![0u8; 12];
    inner.extend([0x20, 0, 5, 0, 0, 0, 0, 0]);
    inner.extend([0x02, 0, 4]); inner.extend(b"evil");
    // filler TLV that ends exactly at the end
    let used = inner.len() + 3;
    inner.extend([0x99, 0, (140 - used) as u8]); inner.resize(140, 0);
    let mut d = b"\r\n\r\n\0\r\nQUIT\n".to_vec();
    d.extend([0x21, 0x11, 0, 12 + 3 + 140]);
    d.extend([10, 0, 0, 1, 10, 0, 0, 2, 1, 2, 3, 4]);
    d.extend([0x30, 0, 140]); d.extend(&inner);
    let mut r: &[u8] = &d;
    let got = block_on(parse_header(&mut r, true));
    assert!(got.is_err(), "TLS was demanded but the header carries no SSL TLV: {:?}", got);
    let mut r: &[u8] = &d;
    let got = block_on(parse_header(&mut r, false)).expect("valid header").expect("proxied");
    assert_eq!(got.tls_sni, None);
}
'''

"""C01: PROXY protocol v2 decoding (server/proxy.rs), the three functions of the module under contract."""
from vunit import Unit, Fn, L
F = "akasa-core/src/server/proxy.rs"

def unit():
    u = Unit("c01", subs=[
        ("Err ( io :: ErrorKind :: $k . into ( ) )", "Err(vx_io_err())"),
        ("reader . read_exact ( & mut buffer [ $a .. $b ] ) ?", "vx_read_exact_at(reader, &mut buffer, $a, $b)?"),
        ("reader . read_exact ( & mut buffer [ .. $b ] ) ?", "vx_read_exact_at(reader, &mut buffer, 0, $b)?"),
        ("reader . read_exact ( $s ) ?", "vx_read_exact(reader, $s)?"),
        ("u16 :: from_be_bytes", "vx_be16"), ("u32 :: from_be_bytes", "vx_be32"),
        ("$a [ .. ] . copy_from_slice ( & $b )", "vx_copy(&mut $a, &$b)"),
        ("Ipv6Addr :: from ( $a )", "Ipv6Addr::from16($a)"),
        ("crc32c :: crc32c (", "vx_crc("), ("crc32c :: crc32c_append (", "vx_crc_append("),
        ("if tlv_bytes [ $a .. $b ] != [ $z ; $n ] {", "if !vx_filled(tlv_bytes, $a, $b, $z, $n) {"),
        ("String :: from_utf8 ( $s [ $a .. $b ] . to_vec ( ) )", "vx_from_utf8(vx_sub($s, $a, $b))"),
        ("std :: str :: from_utf8 ( & $s [ $a .. $b ] )", "vx_from_utf8(vx_sub($s, $a, $b))"),
        ("& mut tlv_bytes_buf [ $a .. $b ]", "vx_slice_mut(&mut tlv_bytes_buf, $a, $b)"),
        ("& prefix [ .. PROTOCOL_PREFIX . len ( ) ] != PROTOCOL_PREFIX", "!vx_starts_with_prefix(prefix)"),
        ("prefix [ .. PROTOCOL_PREFIX . len ( ) ] != * PROTOCOL_PREFIX", "!vx_starts_with_prefix(prefix)"),
        ("! prefix . starts_with ( PROTOCOL_PREFIX )", "!vx_starts_with_prefix(prefix)"),
    ])
    # the signature constant as the source writes it: a byte string, kept as data for the comparison below
    toks = u.src(F).get("PROTOCOL_PREFIX")[1]
    lit = [t.s for t in toks if t.k == "str"]
    if len(lit) != 1: from rustsrc import Lost; raise Lost("PROTOCOL_PREFIX is not one byte string")
    import ast
    pb = ast.literal_eval(lit[0])
    u.raw(PRE.replace("@PREFIX@", ", ".join(f"{b}u8" for b in pb)))
    for c in ("IPV4_ADDRS_LEN", "IPV6_ADDRS_LEN", "UNIX_ADDRS_LEN", "LEFT_MASK", "RIGHT_MASK"): u.item(F, c)
    u.item(F, "AddressFamily"); u.item(F, "Protocol"); u.item(F, "Addresses"); u.item(F, "Header")
    u.raw(SPEC)
    rd = [("< T : AsyncRead + Unpin >", ""), ("reader : & mut T", "reader: &mut Rd"), ("mut reader : T", "reader: &mut Rd")]
    u.fn(F, Fn("parse_addresses", ret="r", spec="""
        requires bytes@.len() == addr_len(family),
        ensures addr_view(r) == addr_of(bytes@, family),""", post="""proof {
            let s = bytes@;
            if family is IPv6 { assert(vx_tail->IPv6_source_address.0@ =~= s.subrange(0, 16)); assert(vx_tail->IPv6_destination_address.0@ =~= s.subrange(16, 32)); }
            if family is Unix { assert(vx_tail->Unix_source@ =~= s.subrange(0, 108)); assert(vx_tail->Unix_destination@ =~= s.subrange(108, 216)); }
            if family is IPv4 { assert(vx_tail->IPv4_source_address.0@ =~= s.subrange(0, 4)); assert(vx_tail->IPv4_destination_address.0@ =~= s.subrange(4, 8)); } }"""))
    u.fn(F, Fn("parse_tlvs", ret="r", sig_subs=rd, spec="""
        requires old(reader).fine(), address_length <= extra_length <= 65535, 16 + address_length <= buffer@.len(),
        ensures match r {
            Ok(sni) => final(reader).fine() && old(reader)@.len() >= extra_length - address_length && extra_length - address_length <= 256
                && final(reader)@ == old(reader)@.skip(extra_length - address_length)
                && tlv_accept(old(reader)@.take(extra_length - address_length), buffer@.take(16 + address_length), tls_termination) == Some(sni_view(sni)),
            Err(_) => !final(reader).fine() || old(reader)@.len() < extra_length - address_length || extra_length - address_length > 256
                || tlv_accept(old(reader)@.take(extra_length - address_length), buffer@.take(16 + address_length), tls_termination) is None,
        },""", loops=[L("while", """
            invariant
                remaining_len == extra_length - address_length <= 256, address_length <= extra_length <= 65535, tlv_bytes@.len() == remaining_len, offset <= remaining_len,
                16 + address_length <= buffer@.len(), vx_hdr == buffer@.take(16 + address_length),
                reader.fine(), reader@ == old(reader)@.skip(remaining_len as int), old(reader)@.len() >= remaining_len,
                vx_all == old(reader)@.take(remaining_len as int),
                pp2_type_authority == (tls_sni is Some),
                tlv_run(vx_all, vx_hdr, 0, false, None) == tlv_run(tlv_bytes@, vx_hdr, offset as int, pp2_type_ssl, sni_view(tls_sni)),
            decreases remaining_len - offset,
        """, before="let ghost vx_all = tlv_bytes@; let ghost vx_hdr = buffer@.take(16 + address_length); proof { assert(sni_view(None) == None::<Seq<char>>); assert(vx_all =~= old(reader)@.take(remaining_len as int)); }",
        body_pre="let ghost vx_cur = tlv_bytes@; proof { reveal_with_fuel(tlv_run, 2); }", )],
        subs=[("value = vx_crc_append ( value , tlv_bytes ) ;", "proof { lemma_crc_cat(vx_hdr, tlv_bytes@); assert(buffer@.subrange(0, 16 + address_length) =~= vx_hdr); assert(tlv_bytes@ =~= vx_cur.update(offset as int, 0).update(offset + 1, 0).update(offset + 2, 0).update(offset + 3, 0)); assert(vx_cur[offset - 3] == 3); } value = vx_crc_append(value, tlv_bytes); proof { assert(value == crc(vx_hdr + tlv_bytes@)); assert(length == 4); assert(expected_value == be32(vx_cur[offset as int], vx_cur[offset+1], vx_cur[offset+2], vx_cur[offset+3]));}"),
              ("vx_crc ( & buffer [ .. $n ] )", "vx_crc(vx_sl(buffer, 0, $n))"), ("vx_crc ( & buffer [ 0 .. $n ] )", "vx_crc(vx_sl(buffer, 0, $n))")]))
    u.fn(F, Fn("parse_header", ret="r", sig_subs=rd, spec="""
        requires old(reader).fine(),
        ensures match r {
            Ok(h) => final(reader).fine() && match header_spec(old(reader)@, tls_termination) {
                Some((n, v)) => final(reader)@ == old(reader)@.skip(n) && hdr_view(h) == v, None => false },
            Err(_) => !final(reader).fine() || header_spec(old(reader)@, tls_termination) is None,
        },""", pre="proof { lemma_prefix(); }", subs=[
            ("let prefix = & buffer [ 0 .. 16 ] ;", "let prefix = vx_slice(&buffer, 0, 16); proof { assert(prefix@ =~= old(reader)@.take(16)); assert(prefix@.take(12) =~= old(reader)@.take(12)); assert(reader@ =~= old(reader)@.skip(16)); assert forall|i: int| 0 <= i < 16 implies prefix@[i] == old(reader)@[i] by { assert(prefix@[i] == old(reader)@.take(16)[i]); } }"),
            ("let addresses = parse_addresses ( & buffer [ $a .. $b ] , $f ) ;", "proof { let s = old(reader)@; assert(buffer@.subrange(16, 16 + address_length) =~= s.subrange(16, 16 + address_length)); assert(buffer@.take(16 + address_length) =~= s.take(16 + address_length)); assert(reader@ =~= s.skip(16 + address_length)); if s.len() >= 16 + extra_length { assert(reader@.take(extra_length - address_length) =~= s.subrange(16 + address_length, 16 + extra_length)); assert(reader@.skip(extra_length - address_length) =~= s.skip(16 + extra_length)); } } let addresses = parse_addresses(vx_slice(&buffer, $a, $b), $f);"),
        ]))
    return u

PRE = """
pub mod io { pub type Result<T> = core::result::Result<T, super::IoError>; }
pub struct IoError { }
pub fn vx_io_err() -> (r: IoError) { IoError { } }

/// the byte stream of the peer: what is still to be read; not fine() after an I/O failure
#[verifier::external_body]
pub struct Rd { x: u8 }
impl Rd {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    pub uninterp spec fn fine(&self) -> bool;
}
/// tokio read_exact: fills the buffer with the next bytes, or fails (end of stream or I/O error)
#[verifier::external_body]
pub fn vx_read_exact(r: &mut Rd, buf: &mut [u8]) -> (res: Result<usize, IoError>)
    ensures final(buf)@.len() == old(buf)@.len(),
        match res {
            Ok(n) => final(r).fine() && old(r)@.len() >= old(buf)@.len() && final(buf)@ == old(r)@.take(old(buf)@.len() as int) && final(r)@ == old(r)@.skip(old(buf)@.len() as int),
            Err(_) => !final(r).fine() || old(r)@.len() < old(buf)@.len() },
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_read_exact_at(r: &mut Rd, buf: &mut [u8; 256], a: usize, b: usize) -> (res: Result<usize, IoError>)
    requires a <= b <= 256,
    ensures
        match res {
            Ok(n) => final(r).fine() && old(r)@.len() >= b - a && final(buf)@ == old(buf)@.take(a as int) + old(r)@.take(b - a) + old(buf)@.skip(b as int) && final(r)@ == old(r)@.skip(b - a),
            Err(_) => !final(r).fine() || old(r)@.len() < b - a },
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_slice(buf: &[u8; 256], a: usize, b: usize) -> (r: &[u8]) requires a <= b <= 256, ensures r@ == buf@.subrange(a as int, b as int), { &buf[a..b] }
#[verifier::external_body]
pub fn vx_slice_mut(buf: &mut [u8; 256], a: usize, b: usize) -> (r: &mut [u8]) requires a <= b <= 256,
    ensures r@ == old(buf)@.subrange(a as int, b as int), { &mut buf[a..b] }
pub fn vx_be16(a: [u8; 2]) -> (r: u16) ensures r == a@[0] * 256 + a@[1], { (a[0] as u16) * 256 + a[1] as u16 }
pub open spec fn be32(a: u8, b: u8, c: u8, d: u8) -> int { a * 0x1000000 + b * 0x10000 + c * 0x100 + d }
pub fn vx_be32(a: [u8; 4]) -> (r: u32) ensures r == be32(a@[0], a@[1], a@[2], a@[3]), { (a[0] as u32) * 0x1000000 + (a[1] as u32) * 0x10000 + (a[2] as u32) * 0x100 + a[3] as u32 }
#[verifier::external_body]
pub fn vx_copy<const N: usize>(a: &mut [u8; N], b: &[u8]) requires b@.len() == N, ensures final(a)@ == b@, { a.copy_from_slice(b) }
#[verifier::external_body]
pub fn vx_filled(s: &[u8], a: usize, b: usize, z: u8, n: usize) -> (r: bool) requires a <= b <= s@.len(), ensures r == (b - a == n && forall|i: int| a <= i < b ==> s@[i] == z), { s[a..b] == vec![z; n][..] }
pub uninterp spec fn crcf(init: u32, s: Seq<u8>) -> u32;
pub open spec fn crc(s: Seq<u8>) -> u32 { crcf(0, s) }
#[verifier::external_body]
pub fn vx_crc(s: &[u8]) -> (r: u32) ensures r == crc(s@), { unimplemented!() }
#[verifier::external_body]
pub fn vx_crc_append(v: u32, s: &[u8]) -> (r: u32) ensures r == crcf(v, s@), { unimplemented!() }
/// crc32c_append continues a checksum
#[verifier::external_body]
pub proof fn lemma_crc_cat(a: Seq<u8>, b: Seq<u8>) ensures crcf(crc(a), b) == crc(a + b), { }
pub uninterp spec fn utf8(s: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn vx_sl(s: &[u8], a: usize, b: usize) -> (r: &[u8]) requires a <= b <= s@.len(), ensures r@ == s@.subrange(a as int, b as int), { &s[a..b] }
#[verifier::external_body]
pub fn vx_sub(s: &[u8], a: usize, b: usize) -> (r: Vec<u8>) requires a <= b <= s@.len(), ensures r@ == s@.subrange(a as int, b as int), { s[a..b].to_vec() }
pub struct Utf8Error { }
#[verifier::external_body]
pub fn vx_from_utf8(v: Vec<u8>) -> (r: Result<String, Utf8Error>) ensures match r { Ok(s) => utf8(v@) == Some(s@), Err(_) => utf8(v@) is None }, { unimplemented!() }
#[derive(Clone, Copy)] pub struct Ipv4Addr(pub [u8; 4]);
impl Ipv4Addr { pub fn new(a: u8, b: u8, c: u8, d: u8) -> (r: Self) ensures r.0@ == seq![a, b, c, d], { Ipv4Addr([a, b, c, d]) } }
#[derive(Clone, Copy)] pub struct Ipv6Addr(pub [u8; 16]);
impl Ipv6Addr { pub fn from16(a: [u8; 16]) -> (r: Self) ensures r.0 == a, { Ipv6Addr(a) } }

/// the twelve signature bytes, as the source's constant has them / as the PROXY protocol prescribes them
pub const VX_PREFIX: [u8; 12] = [@PREFIX@];
pub open spec fn signature() -> Seq<u8> { seq![0x0du8, 0x0a, 0x0d, 0x0a, 0x00, 0x0d, 0x0a, 0x51, 0x55, 0x49, 0x54, 0x0a] }
pub proof fn lemma_prefix() ensures VX_PREFIX@ == signature() { assert(VX_PREFIX@ =~= signature()); }
pub fn vx_starts_with_prefix(p: &[u8]) -> (r: bool) requires p@.len() >= 12, ensures r == (p@.take(12) == signature()),
{
    let c = VX_PREFIX;
    proof { lemma_prefix(); }
    let mut i: usize = 0;
    while i < 12
        invariant i <= 12, p@.len() >= 12, c@ == signature(), forall|j: int| 0 <= j < i ==> p@[j] == c@[j],
        decreases 12 - i,
    {
        if p[i] != c[i] { proof { assert(p@.take(12)[i as int] != signature()[i as int]); } return false; }
        i = i + 1;
    }
    proof { assert(p@.take(12) =~= signature()); }
    true
}
"""
SPEC = """
pub open spec fn addr_len(f: AddressFamily) -> int { match f { AddressFamily::IPv4 => 12, AddressFamily::IPv6 => 36, AddressFamily::Unix => 216 } }
/// what the address block says, field by field
pub enum AddrV { V4(Seq<u8>, int, Seq<u8>, int), V6(Seq<u8>, int, Seq<u8>, int), Ux(Seq<u8>, Seq<u8>) }
pub open spec fn addr_view(a: Addresses) -> AddrV { match a {
    Addresses::IPv4 { source_address, source_port, destination_address, destination_port } => AddrV::V4(source_address.0@, source_port as int, destination_address.0@, destination_port as int),
    Addresses::IPv6 { source_address, source_port, destination_address, destination_port } => AddrV::V6(source_address.0@, source_port as int, destination_address.0@, destination_port as int),
    Addresses::Unix { source, destination } => AddrV::Ux(source@, destination@) } }
pub open spec fn be(s: Seq<u8>, i: int) -> int { s[i] * 256 + s[i + 1] }
pub open spec fn addr_of(s: Seq<u8>, f: AddressFamily) -> AddrV { match f {
    AddressFamily::IPv4 => AddrV::V4(s.subrange(0, 4), be(s, 8), s.subrange(4, 8), be(s, 10)),
    AddressFamily::IPv6 => AddrV::V6(s.subrange(0, 16), be(s, 32), s.subrange(16, 32), be(s, 34)),
    AddressFamily::Unix => AddrV::Ux(s.subrange(0, 108), s.subrange(108, 216)) } }
pub open spec fn sni_view(s: Option<String>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }

/// walk over the extension fields from `off`: None = malformed or refused, else (certificate info seen, server name)
pub open spec fn tlv_run(s: Seq<u8>, hdr: Seq<u8>, off: int, ssl: bool, sni: Option<Seq<char>>) -> Option<(bool, Option<Seq<char>>)>
    decreases s.len() - off,
{
    if off >= s.len() { if off == s.len() { Some((ssl, sni)) } else { None } }
    else if off < 0 || s.len() - off < 3 { None }
    else {
        let l = be(s, off + 1); let v = off + 3;
        if v + l > s.len() { None }
        else if s[off] == 0x02 {
            if l == 0 { None } else { match utf8(s.subrange(v, v + l)) { Some(n) => tlv_run(s, hdr, v + l, ssl, Some(n)), None => None } } }
        else if s[off] == 0x03 {
            if l != 4 { None } else {
                let z = s.update(v, 0).update(v + 1, 0).update(v + 2, 0).update(v + 3, 0);
                if be32(s[v], s[v + 1], s[v + 2], s[v + 3]) == crc(hdr + z) { tlv_run(z, hdr, v + 4, ssl, sni) } else { None } } }
        else if s[off] == 0x20 {
            if l < 5 || !(s[v + 1] == 0 && s[v + 2] == 0 && s[v + 3] == 0 && s[v + 4] == 0) { None } else { tlv_run(s, hdr, v + l, true, sni) } }
        else { tlv_run(s, hdr, v + l, ssl, sni) }
    }
}
/// TLS information must be there when the listener leaves TLS to the proxy, and must not otherwise
pub open spec fn tlv_accept(s: Seq<u8>, hdr: Seq<u8>, tls: bool) -> Option<Option<Seq<char>>> {
    match tlv_run(s, hdr, 0, false, None) {
        Some((ssl, sni)) => if ssl == tls && (sni is Some) == tls { Some(sni) } else { None },
        None => None } }

pub struct HdrV { pub proto: Protocol, pub addr: AddrV, pub sni: Option<Seq<char>> }
pub open spec fn hdr_view(h: Option<Header>) -> Option<HdrV> { match h { None => None, Some(h) => Some(HdrV { proto: h.protocol, addr: addr_view(h.addresses), sni: sni_view(h.tls_sni) }) } }
pub open spec fn family_of(b: u8) -> Option<AddressFamily> { if (b & 0xF0) == 0x10 { Some(AddressFamily::IPv4) } else if (b & 0xF0) == 0x20 { Some(AddressFamily::IPv6) } else if (b & 0xF0) == 0x30 { Some(AddressFamily::Unix) } else { None } }
pub open spec fn proto_of(b: u8) -> Option<Protocol> { if (b & 0x0F) == 0x01 { Some(Protocol::Stream) } else if (b & 0x0F) == 0x02 { Some(Protocol::Datagram) } else { None } }
/// The whole decoder: None = refused; Some((n, v)) = exactly n bytes are the header and v is what it says (None: LOCAL)
pub open spec fn header_spec(s: Seq<u8>, tls: bool) -> Option<(int, Option<HdrV>)> {
    if s.len() < 16 || s.take(12) != signature() || (s[12] & 0xF0) != 0x20 { None }
    else {
        let ext = be(s, 14);
        if (s[12] & 0x0F) == 0 { if s[13] == 0 && ext == 0 { Some((16, None)) } else { None } }
        else if (s[12] & 0x0F) != 1 { None }
        else { match (family_of(s[13]), proto_of(s[13])) {
            (Some(f), Some(p)) => {
                let al = addr_len(f);
                if ext < al || ext - al > 256 || s.len() < 16 + ext { None }
                else { match tlv_accept(s.subrange(16 + al, 16 + ext), s.take(16 + al), tls) {
                    Some(sni) => Some((16 + ext, Some(HdrV { proto: p, addr: addr_of(s.subrange(16, 16 + al), f), sni }))),
                    None => None } } }
            _ => None } }
    }
}
"""

//! C01, concrete search: the real decoder against an independent reading of the PROXY protocol v2 text.
use super::*;
use crate::vx::common::*;
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio::io::ReadBuf;

struct Src { data: Vec<u8>, pos: usize, rng: Rng, chunk: usize, fail_at: Option<usize> }
impl AsyncRead for Src {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        if self.chunk > 0 && self.rng.one_in(4) { cx.waker().wake_by_ref(); return Poll::Pending; }
        if let Some(f) = self.fail_at { if self.pos >= f { return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into())); } }
        let left = self.data.len() - self.pos;
        let mut n = left.min(buf.remaining());
        if self.chunk > 0 { let c = self.chunk; n = n.min(1 + self.rng.below(c)); }
        let p = self.pos;
        buf.put_slice(&self.data[p..p + n]);
        self.pos += n;
        Poll::Ready(Ok(()))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum A { V4([u8; 4], u16, [u8; 4], u16), V6([u8; 16], u16, [u8; 16], u16), Ux(Vec<u8>, Vec<u8>) }
type V = Option<(bool, A, Option<String>)>;

/// None: refuse. Some((consumed, None)): LOCAL. Some((consumed, Some(..))): PROXY.
fn oracle(s: &[u8], tls: bool) -> Option<(usize, V)> {
    const SIG: [u8; 12] = [0x0d, 0x0a, 0x0d, 0x0a, 0, 0x0d, 0x0a, 0x51, 0x55, 0x49, 0x54, 0x0a];
    if s.len() < 16 || s[..12] != SIG || s[12] >> 4 != 2 { return None; }
    let ext = s[14] as usize * 256 + s[15] as usize;
    match s[12] & 15 { 0 => return if s[13] == 0 && ext == 0 { Some((16, None)) } else { None }, 1 => {} _ => return None }
    let al = match s[13] >> 4 { 1 => 12, 2 => 36, 3 => 216, _ => return None };
    let stream = match s[13] & 15 { 1 => true, 2 => false, _ => return None };
    if ext < al || ext - al > 256 || s.len() < 16 + ext { return None; }
    let a = &s[16..16 + al];
    let p = |i: usize| a[i] as u16 * 256 + a[i + 1] as u16;
    let addr = match al {
        12 => A::V4(a[0..4].try_into().unwrap(), p(8), a[4..8].try_into().unwrap(), p(10)),
        36 => A::V6(a[0..16].try_into().unwrap(), p(32), a[16..32].try_into().unwrap(), p(34)),
        _ => A::Ux(a[..108].to_vec(), a[108..].to_vec()),
    };
    let mut whole = s[..16 + ext].to_vec();
    let (mut o, end) = (16 + al, 16 + ext);
    let (mut ssl, mut sni) = (false, None);
    while o < end {
        if end - o < 3 { return None; }
        let l = whole[o + 1] as usize * 256 + whole[o + 2] as usize;
        let v = o + 3;
        if v + l > end { return None; }
        match whole[o] {
            2 => { if l == 0 { return None; } sni = Some(String::from_utf8(whole[v..v + l].to_vec()).ok()?); }
            3 => {
                if l != 4 { return None; }
                let want = u32::from_be_bytes(whole[v..v + 4].try_into().unwrap());
                whole[v..v + 4].fill(0);
                if crc_ref(&whole) != want { return None; }
            }
            0x20 => { if l < 5 || whole[v + 1..v + 5] != [0; 4] { return None; } ssl = true; }
            _ => {}
        }
        o = v + l;
    }
    if ssl != tls || sni.is_some() != tls { return None; }
    Some((end, Some((stream, addr, sni))))
}
/// CRC-32C, bit by bit
fn crc_ref(s: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in s { c ^= *b as u32; for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ 0x82F63B78 } else { c >> 1 }; } }
    !c
}

fn tlv(t: u8, v: &[u8]) -> Vec<u8> { let mut o = vec![t, (v.len() >> 8) as u8, v.len() as u8]; o.extend_from_slice(v); o }

fn gen_header(g: &mut Rng) -> (Vec<u8>, bool) {
    let tls = g.flip();
    let mut b = b"\r\n\r\n\0\r\nQUIT\n".to_vec();
    let cmd = *g.pick(&[0x21u8, 0x21, 0x21, 0x21, 0x21, 0x21, 0x20, 0x22, 0x11, 0x2f, 0x31, 0x20]);
    let fam = if cmd == 0x20 { *g.pick(&[0u8, 0, 0x11]) } else { *g.pick(&[0x11u8, 0x11, 0x12, 0x21, 0x22, 0x31, 0x32, 0x00, 0x10, 0x20, 0x01, 0x13, 0x41, 0xf1, 0x30]) };
    b.push(cmd); b.push(fam);
    let al = match fam >> 4 { 1 => 12, 2 => 36, 3 => 216, _ => g.below(40) };
    let al = if cmd == 0x20 && g.below(3) > 0 { 0 } else { al };
    let addr = g.bytes(al);
    let mut t: Vec<u8> = vec![];
    let mut crc_at = None;
    let mut want_ssl = tls; let mut want_sni = tls;
    if g.one_in(10) { want_ssl = !want_ssl; } if g.one_in(10) { want_sni = !want_sni; }
    if cmd != 0x20 || g.one_in(4) {
        let mut kinds: Vec<u8> = vec![];
        if want_ssl { kinds.push(0x20); } if want_sni { kinds.push(2); }
        if g.flip() { kinds.push(3); }
        for _ in 0..g.below(3) { kinds.push(*g.pick(&[1u8, 4, 5, 0x30, 0x21, 0xE0, 0xff, 0, 2, 3, 0x20])); }
        for i in (1..kinds.len()).rev() { kinds.swap(i, g.below(i + 1)); }
        for k in kinds {
            match k {
                0x20 => {
                    let mut v = vec![g.next() as u8, 0, 0, 0, 0];
                    if g.one_in(8) { let i = g.range(1, 4); v[i] = *g.pick(&[1u8, 0x80]); }
                    if g.one_in(2) { v.extend(tlv(0x21, b"TLSv1.3")); if g.flip() { v.extend(tlv(0x22, b"cn")); } }
                    if g.one_in(10) { v.truncate(g.below(6)); }
                    t.extend(tlv(0x20, &v));
                }
                2 => {
                    let s: Vec<u8> = if g.one_in(8) { vec![0xff, 0xfe] } else if g.one_in(8) { vec![] } else if g.one_in(6) { "é.example".as_bytes().to_vec() } else { b"broker.example".to_vec() };
                    t.extend(tlv(2, &s));
                }
                3 => {
                    let l = if g.one_in(10) { *g.pick(&[0usize, 3, 5, 8]) } else { 4 };
                    if l == 4 && crc_at.is_none() { crc_at = Some(t.len() + 3); }
                    t.extend(tlv(3, &vec![0; l]));
                }
                k => { let n = *g.pick(&[0usize, 1, 2, 5, 17, 30]); let v = g.bytes(n); t.extend(tlv(k, &v)); }
            }
        }
        if g.one_in(5) { // reach the size boundary
            let target = *g.pick(&[255usize, 256, 256, 257, 300]);
            if t.len() + 3 <= target { let v = g.bytes(target - t.len() - 3); t.extend(tlv(4, &v)); }
        }
        if g.one_in(12) { let n = g.range(1, 2); let v = g.bytes(n); t.extend(v); }
    }
    let mut ext = al + t.len();
    if g.one_in(15) { ext = ext.saturating_sub(g.range(1, 20)); } else if g.one_in(20) { ext += g.range(1, 9); } else if g.one_in(40) { ext += 256; }
    b.push((ext >> 8) as u8); b.push(ext as u8);
    b.extend(addr);
    let base = b.len();
    b.extend(&t);
    if let Some(p) = crc_at {
        if g.below(8) > 0 {
            let hl = (16 + ext).min(b.len());
            let c = crc_ref(&b[..hl]);
            b[base + p..base + p + 4].copy_from_slice(&c.to_be_bytes());
        }
    }
    if g.one_in(8) { let i = g.below(b.len()); b[i] ^= 1 << g.below(8); }
    if g.one_in(16) { let n = g.below(b.len() + 1); b.truncate(n); }
    (b, tls)
}

fn run_one(data: &[u8], tls: bool, chunk: usize, seed: u64, fail_at: Option<usize>) -> (io::Result<V>, usize) {
    let mut src = Src { data: data.to_vec(), pos: 0, rng: Rng(seed), chunk, fail_at };
    let r = futures_lite::future::block_on(parse_header(&mut src, tls));
    let r = r.map(|h| h.map(|h| (matches!(h.protocol, Protocol::Stream), match h.addresses {
        Addresses::IPv4 { source_address, source_port, destination_address, destination_port } => A::V4(source_address.octets(), source_port, destination_address.octets(), destination_port),
        Addresses::IPv6 { source_address, source_port, destination_address, destination_port } => A::V6(source_address.octets(), source_port, destination_address.octets(), destination_port),
        Addresses::Unix { source, destination } => A::Ux(source.to_vec(), destination.to_vec()),
    }, h.tls_sni)));
    (r, src.pos)
}

fn case(c: &mut Ctx, data: &[u8], tls: bool, chunk: usize, seed: u64, fail_at: Option<usize>) {
    let desc = || format!("tls_termination={tls} chunk={chunk} bytes={}", hex::encode(data));
    let want = oracle(data, tls);
    let Some((got, used)) = c.guarded("panic", desc, || run_one(data, tls, chunk, seed, fail_at)) else { return };
    let needed = want.as_ref().map(|w| w.0);
    match (&got, &want) {
        (Ok(v), Some((n, w))) => {
            if v != w { c.fail("wrong-content", format!("{} => {:?}, expected {:?}", desc(), v, w)); }
            else if used != *n { c.fail("wrong-consumption", format!("{} => consumed {} bytes, the header has {}", desc(), used, n)); }
        }
        (Ok(v), None) => c.fail("accepted-invalid", format!("{} => accepted as {:?}", desc(), v)),
        (Err(e), Some((n, w))) => if fail_at.map_or(true, |f| f >= *n) { c.fail("refused-valid", format!("{} => {:?}, expected {:?} ({} bytes)", desc(), e, w, n)) },
        (Err(_), None) => {}
    }
    let _ = needed;
}

pub fn run(c: &mut Ctx) {
    c.rule("PROXY v2 headers built from all commands/families/transports, TLV sets (authority, CRC32C, SSL with sub-TLVs, NOOP, unknown, size boundary 255..257), then bit flips, truncation, wrong lengths, wrong checksums; read whole or in random chunks with pending reads and injected I/O errors; each compared with an independent decoder; also all 65536 values of bytes 13/14 and all lengths 0..700");
    let mut g = c.rng(1);
    let sig = b"\r\n\r\n\0\r\nQUIT\n";
    for b13 in 0..=255u8 { for b14 in 0..=255u8 {
        if c.time_up() { return; }
        if !(b13 >> 4 == 2 || b14 == 0x11 || b14 == 0) { continue; }
        for (ext, fill) in [(0usize, 0usize), (12, 12), (36, 36), (216, 216)] {
            let mut d = sig.to_vec(); d.extend([b13, b14, (ext >> 8) as u8, ext as u8]); d.extend(vec![7u8; fill]); d.extend(b"MQTT");
            c.eval(&format!("{b13:02x}{b14:02x} length {ext}"));
            case(c, &d, false, 0, 0, None);
        }
    } }
    for ext in 0..700usize { for fam in [0x11u8, 0x21, 0x31] {
        let mut d = sig.to_vec(); d.extend([0x21, fam, (ext >> 8) as u8, ext as u8]);
        let al = match fam { 0x11 => 12, 0x21 => 36, _ => 216 };
        let mut body = g.bytes(al.min(ext));
        if ext > al { let n = ext - al; if n >= 3 { body.extend([4, ((n - 3) >> 8) as u8, (n - 3) as u8]); body.extend(vec![1; n - 3]); } else { body.extend(vec![0; n]); } }
        d.extend(body); d.extend([0x10, 0x0c]);
        c.eval(&format!("family {fam:02x} length {ext}"));
        case(c, &d, false, 0, 0, None);
    } }
    for i in 0..12 { for bit in 0..8 { let mut d = sig.to_vec(); d.extend([0x20, 0, 0, 0]); d[i] ^= 1 << bit; c.eval(&format!("signature byte {i} bit {bit}")); case(c, &d, false, 0, 0, None); } }
    let total = c.n(150_000, 3_000_000);
    for _ in 0..total {
        if c.time_up() { break; }
        let (mut d, tls) = gen_header(&mut g);
        if g.flip() { d.extend(b"\x10\x0c\x00\x04MQTT"); }
        let chunk = if g.flip() { 0 } else { *g.pick(&[1usize, 2, 7, 40]) };
        let fail_at = if g.one_in(20) { Some(g.below(d.len() + 1)) } else { None };
        let t = if g.one_in(12) { !tls } else { tls };
        let seed = g.next();
        c.eval(&format!("tls={t} {}", hex::encode(&d)));
        case(c, &d, t, chunk, seed, fail_at);
    }
}

//! C04: the password table against a reference written from the file format (docs) alone.
use super::*;
use crate::vx_common::{Ctx, Rng};
use ring::hmac;
use std::collections::BTreeMap;
use std::io::Cursor;

type Rec = (u8, u32, Vec<u8>, Vec<u8>); // kind 0..3, iterations, salt, hash
fn rec(p: &AuthPassword) -> Rec {
    let (k, i) = match p.hash_algorithm { HashAlgorithm::Sha256 => (0, 0), HashAlgorithm::Sha512 => (1, 0), HashAlgorithm::Sha256Pkbdf2 { iterations } => (2, iterations.get()), HashAlgorithm::Sha512Pkbdf2 { iterations } => (3, iterations.get()) };
    (k, i, p.salt.clone(), p.hashed_password.clone())
}
fn alg(k: u8, i: u32) -> HashAlgorithm {
    let iterations = NonZeroU32::new(i.max(1)).unwrap();
    match k { 0 => HashAlgorithm::Sha256, 1 => HashAlgorithm::Sha512, 2 => HashAlgorithm::Sha256Pkbdf2 { iterations }, _ => HashAlgorithm::Sha512Pkbdf2 { iterations } }
}
fn entry(r: &Rec) -> AuthPassword { AuthPassword { hash_algorithm: alg(r.0, r.1), salt: r.2.clone(), hashed_password: r.3.clone() } }
/// reference hash, PBKDF2 written out from HMAC
fn ref_hash(k: u8, iters: u32, salt: &[u8], pw: &[u8]) -> Vec<u8> {
    if k < 2 {
        let mut all = pw.to_vec(); all.extend_from_slice(salt);
        return ring::digest::digest(if k == 0 { &SHA256 } else { &SHA512 }, &all).as_ref().to_vec();
    }
    let key = hmac::Key::new(if k == 2 { hmac::HMAC_SHA256 } else { hmac::HMAC_SHA512 }, pw);
    let mut s = salt.to_vec(); s.extend_from_slice(&[0, 0, 0, 1]);
    let mut u = hmac::sign(&key, &s).as_ref().to_vec();
    let mut t = u.clone();
    for _ in 1..iters { u = hmac::sign(&key, &u).as_ref().to_vec(); for (a, b) in t.iter_mut().zip(&u) { *a ^= b; } }
    t
}
fn b64(s: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in s.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..c.len() + 1 { o.push(A[(n >> (18 - 6 * k)) as usize & 63] as char); }
    }
    o
}
fn unb64(s: &str) -> Option<Vec<u8>> {
    let v: Option<Vec<u32>> = s.bytes().map(|b| match b { b'A'..=b'Z' => Some(b as u32 - 65), b'a'..=b'z' => Some(b as u32 - 71), b'0'..=b'9' => Some(b as u32 + 4), b'+' => Some(62), b'/' => Some(63), _ => None }).collect();
    let v = v?;
    let mut o = vec![];
    for c in v.chunks(4) {
        if c.len() == 1 { return None; }
        let mut n = 0; for k in 0..4 { n = n << 6 | c.get(k).copied().unwrap_or(0); }
        let bytes = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
        let keep = c.len() - 1;
        if bytes[keep..].iter().any(|b| *b != 0) { return None; }
        o.extend_from_slice(&bytes[..keep]);
    }
    Some(o)
}
fn ref_line(line: &str) -> Result<Option<(String, Rec)>, ()> {
    let t = line.trim();
    if t.is_empty() { return Ok(None); }
    let k = t.rfind(':').ok_or(())?;
    let f: Vec<&str> = t[k + 1..].split(',').collect();
    let kind = match f[0] { "sha256" => 0u8, "sha512" => 1, "sha256-pkbdf2" => 2, "sha512-pkbdf2" => 3, _ => return Err(()) };
    if f.len() != if kind < 2 { 3 } else { 4 } { return Err(()); }
    let iters = if kind < 2 { 0 } else { f[1].parse::<u32>().map_err(|_| ())? };
    if kind >= 2 && iters == 0 { return Err(()); }
    let salt = unb64(f[f.len() - 2]).ok_or(())?;
    let hash = unb64(f[f.len() - 1]).ok_or(())?;
    if salt.len() < 12 || hash.len() != [32, 64, 32, 64][kind as usize] { return Err(()); }
    Ok(Some((t[..k].to_string(), (kind, iters, salt, hash))))
}
/// the table a file means; Err: the file is malformed
fn ref_load(b: &[u8]) -> Result<BTreeMap<String, Rec>, ()> {
    let mut m = BTreeMap::new();
    for l in b.split_inclusive(|c| *c == b'\n') {
        let mut l = l;
        if l.ends_with(b"\n") { l = &l[..l.len() - 1]; if l.ends_with(b"\r") { l = &l[..l.len() - 1]; } }
        let s = std::str::from_utf8(l).map_err(|_| ())?;
        if let Some((u, r)) = ref_line(s)? { m.insert(u, r); }
    }
    Ok(m)
}
fn view(m: &DashMap<String, AuthPassword>) -> BTreeMap<String, Rec> { m.iter().map(|i| (i.key().clone(), rec(i.value()))).collect() }
fn name(r: &mut Rng) -> String {
    const P: &[&str] = &["a", "user", "b", ":", ",", "=", " ", "é", "sha256", "x:y", "#", "\t", "日本", "0", ".", "\r", "\u{a0}", "\\n"];
    let n = r.range(0, 4);
    (0..n).map(|_| *r.pick(P)).collect()
}
fn password(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0usize, 1, 3, 8, 12, 16, 31, 64, 65, 128, 200]);
    if r.flip() { r.bytes(n) } else { (0..n).map(|_| *r.pick(b"ab\0 :,")).collect() }
}
fn salt(r: &mut Rng) -> Vec<u8> { let n = *r.pick(&[12usize, 12, 13, 14, 16, 32, 64]); r.bytes(n) }

pub fn run(c: &mut Ctx) {
    passwords(c);
    roundtrip(c);
    files(c);
}

fn passwords(c: &mut Ctx) {
    c.rule("every algorithm x random passwords and salts: hash_password equals the reference hash; check_password accepts the stored password and none of its near misses");
    let mut r = c.rng(1);
    for n in 0..c.n(400, 6000) {
        if c.time_up() { return; }
        let (k, it, sl, pw) = ((n % 4) as u8, *r.pick(&[1u32, 2, 3, 7, 10, 50, 100]), salt(&mut r), password(&mut r));
        let case = format!("alg {k} iterations {it} salt {sl:02x?} password {pw:02x?}");
        c.eval(&case);
        let want = ref_hash(k, it, &sl, &pw);
        let Some(h) = c.guarded("hash-panic", || case.clone(), || hash_password(alg(k, it), &sl, &pw)) else { continue };
        c.check(h == want, "hash-wrong", || format!("{case}: hash {h:02x?} instead of {want:02x?}"));
        let m: DashMap<String, AuthPassword> = DashMap::new();
        m.insert("u".into(), entry(&(k, it, sl.clone(), want.clone())));
        m.insert("v".into(), entry(&(0, 0, sl.clone(), ref_hash(0, 0, &sl, b"other"))));
        let mut try_ = |c: &mut Ctx, m: &DashMap<String, AuthPassword>, u: &str, p: &[u8], expect: bool, what: &str| {
            c.eval(&format!("{case} {what}"));
            if let Some(got) = c.guarded("check-panic", || case.clone(), || check_password(m, u, p)) {
                c.check(got == expect, if expect { "right-refused" } else { "wrong-accepted" }, || format!("{case}: user {u:?} presented {p:02x?} ({what}): accepted={got}"));
            }
        };
        try_(c, &m, "u", &pw, true, "the password");
        try_(c, &m, "nobody", &pw, false, "unknown user");
        try_(c, &m, "", &pw, false, "empty user");
        try_(c, &m, "v", &pw, false, "another user's password");
        let mut near: Vec<(Vec<u8>, &str)> = vec![(vec![], "empty"), (want.clone(), "the hash itself"), (sl.clone(), "the salt")];
        let mut x = pw.clone(); x.push(0); near.push((x, "with a zero byte added"));
        let mut x = pw.clone(); x.push(b' '); near.push((x, "with a space added"));
        let mut x = pw.clone(); x.extend_from_slice(&sl[..1]); near.push((x, "with the salt's first byte added"));
        if !pw.is_empty() {
            near.push((pw[..pw.len() - 1].to_vec(), "without its last byte"));
            near.push((pw[1..].to_vec(), "without its first byte"));
            for _ in 0..3 { let mut x = pw.clone(); let i = r.below(x.len()); x[i] ^= 1 << r.below(8); near.push((x, "with one bit changed")); }
            let mut x = pw.clone(); x.iter_mut().for_each(|b| *b = b.to_ascii_uppercase()); near.push((x, "in upper case"));
        }
        for (p, what) in near { let e = ref_hash(k, it, &sl, &p) == want; try_(c, &m, "u", &p, e, what); }
        // records whose hash is not that of the password: prefixes, empty, one bit off, other algorithm
        let mut bad: Vec<(Rec, &str)> = vec![];
        // (a PBKDF2 record of another length is outside the table invariant: load_passwords refuses it)
        if k < 2 { for n in [0usize, 1, 16, want.len() - 1] { bad.push(((k, it, sl.clone(), want[..n].to_vec()), "record holds a prefix of the hash")); } }
        let mut x = want.clone(); let i = r.below(x.len()); x[i] ^= 1 << r.below(8); bad.push(((k, it, sl.clone(), x), "record hash differs in one bit"));
        let mut x = want.clone(); let l = x.len() - 1; x[l] ^= 0x80; bad.push(((k, it, sl.clone(), x), "record hash differs in the last byte"));
        if k < 2 { let mut x = want.clone(); x.push(0); bad.push(((k, it, sl.clone(), x), "record hash is one byte longer")); }
        let mut s2 = sl.clone(); s2.push(7); bad.push(((k, it, s2, want.clone()), "record has another salt"));
        bad.push(((k ^ 2, it, sl.clone(), want.clone()), "record names another algorithm"));
        bad.push(((k ^ 1, it, sl.clone(), want.clone()), "record names another width"));
        if k >= 2 { bad.push(((k, it + 1, sl.clone(), want.clone()), "record has another iteration count")); }
        for (b, what) in bad { let m: DashMap<String, AuthPassword> = DashMap::new(); m.insert("u".into(), entry(&b)); try_(c, &m, "u", &pw, false, what); }
    }
}

fn roundtrip(c: &mut Ctx) {
    c.rule("random tables with awkward names: dump_passwords writes a file that means the same table to the reference parser and to load_passwords, or refuses a name a line cannot carry");
    let mut r = c.rng(2);
    for _ in 0..c.n(1500, 40000) {
        if c.time_up() { return; }
        let m: DashMap<String, AuthPassword> = DashMap::new();
        let mut bad = false;
        for _ in 0..*r.pick(&[0usize, 1, 2, 3, 5, 20]) {
            let mut u = name(&mut r);
            if r.one_in(40) { u.push('\n'); u.push_str(&name(&mut r)); }
            if u.contains('\n') || u.chars().next().is_some_and(|x| x.is_whitespace()) { bad = true; }
            let k = r.below(4) as u8;
            let mut h = r.bytes([32, 64, 32, 64][k as usize]);
            if r.one_in(4) { let n = h.len() - 1; h[n] = 0; }
            if r.one_in(4) { h[0] = 0; }
            let it = *r.pick(&[1u32, 9, 10, 4096, 100000, 0x7fffffff, 0x80000000, u32::MAX]);
            m.insert(u, entry(&(k, if k < 2 { 0 } else { it }, salt(&mut r), h)));
        }
        let want = view(&m);
        let case = format!("table {want:?}");
        c.eval(&case);
        let mut out = Vec::new();
        let Some(res) = c.guarded("dump-panic", || case.clone(), || dump_passwords(&mut out, &m)) else { continue };
        if !c.check(res.is_ok() != bad, if bad { "dump-unstorable" } else { "dump-fails" }, || format!("{case}: dump_passwords {res:?}")) || bad { continue }
        let text = String::from_utf8_lossy(&out).to_string();
        c.check(ref_load(&out).as_ref() == Ok(&want), "dump-wrong", || format!("{case}: dumped as {text:?}"));
        if let Some(back) = c.guarded("load-panic", || text.clone(), || load_passwords(Cursor::new(&out))) {
            match back { Ok(b) => { let b = view(&b); c.check(b == want, "roundtrip", || format!("{case}: dumped as {text:?}, loaded as {b:?}")); } Err(e) => c.fail("roundtrip", format!("{case}: dumped as {text:?}, which does not load: {e}")) }
        }
    }
}

struct Failing(Vec<u8>, usize);
impl std::io::Read for Failing {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.1 >= self.0.len() { return Err(std::io::ErrorKind::Other.into()); }
        let n = b.len().min(7).min(self.0.len() - self.1); b[..n].copy_from_slice(&self.0[self.1..self.1 + n]); self.1 += n; Ok(n)
    }
}
fn files(c: &mut Ctx) {
    c.rule("file contents (valid lines, blank lines, CRLF, duplicates, and mutations of fields, separators, numbers, base64 and bytes): load_passwords agrees with the reference parser; a read error is an error");
    let mut r = c.rng(3);
    for _ in 0..c.n(12000, 300000) {
        if c.time_up() { return; }
        let mut f: Vec<u8> = vec![];
        let n = *r.pick(&[0usize, 1, 1, 1, 2, 3, 6]);
        for i in 0..n {
            let k = r.below(4);
            let mut p: Vec<String> = vec![["sha256", "sha512", "sha256-pkbdf2", "sha512-pkbdf2"][k].into()];
            if k >= 2 { p.push(r.pick(&["1", "10", "4096", "4294967295", "007"]).to_string()); }
            p.push(b64(&salt(&mut r)));
            p.push(b64(&r.bytes([32, 64, 32, 64][k])));
            if r.one_in(3) {
                match r.below(12) {
                    0 => { let j = r.below(p.len()); p.remove(j); }
                    1 => { let j = r.below(p.len() + 1); p.insert(j, r.pick(&["", "x", "10", "AAAA", "AAAAAAAAAAAAAAAA"]).to_string()); }
                    2 => p[0] = r.pick(&["SHA256", "sha1", "", "sha256 ", "sha384", "sha-512", "md5", "plain", "sha256-pbkdf2"]).to_string(),
                    3 => if k >= 2 { p[1] = r.pick(&["0", "-1", "4294967296", "", "1.5", "+5", " 7", "00", "99999999999999999999", "0x10"]).to_string() },
                    4 => { let j = p.len() - 2; let n = r.below(15); p[j] = b64(&r.bytes(n)); }
                    5 => { let j = p.len() - 1; let n = *r.pick(&[0usize, 1, 16, 20, 31, 32, 33, 63, 64, 65]); p[j] = b64(&r.bytes(n)); }
                    6 => { let j = p.len() - 1 - r.below(2); p[j].push_str(r.pick(&["=", "==", "!", "-", "_", "A", "AA", "\u{e9}"])); }
                    7 => { let j = p.len() - 1; p[j].pop(); }
                    8 => { let j = p.len() - 2; p[j].pop(); }
                    9 => { let j = p.len() - 1 - r.below(2); p[j] = String::new(); }
                    10 => { let j = r.below(p.len()); p.truncate(j); }
                    _ => { let j = p.len() - 1; p[j].insert(1, ' '); }
                }
            }
            let u = if r.one_in(4) { "dup".to_string() } else { name(&mut r) };
            let mut l = format!("{u}{}{}", if r.one_in(25) { "" } else { ":" }, p.join(",")).into_bytes();
            if r.one_in(6) { l.extend_from_slice(r.pick(&[" ", "\t", "\u{2003}", "  \r"]).as_bytes()); }
            if r.one_in(10) { l.insert(0, b' '); }
            if r.one_in(30) { let j = r.below(l.len()); l[j] = r.next() as u8; }
            f.extend_from_slice(&l);
            if r.one_in(5) { f.push(b'\r'); }
            if i + 1 < n || !r.one_in(3) { f.push(b'\n'); }
            if r.one_in(8) { f.extend_from_slice(r.pick(&["\n", " \n", "\r\n", "\t\t\n"]).as_bytes()); }
        }
        let case = format!("file {:?}", String::from_utf8_lossy(&f));
        c.eval(&case);
        let want = ref_load(&f);
        if r.one_in(20) {
            if let Some(x) = c.guarded("load-panic", || case.clone(), || load_passwords(Failing(f.clone(), 0))) { c.check(x.is_err(), "read-error-ignored", || format!("{case}: the read error is ignored")); }
        }
        let Some(got) = c.guarded("load-panic", || case.clone(), || load_passwords(Cursor::new(&f))) else { continue };
        let got = got.map(|m| view(&m)).map_err(|_| ());
        match (&want, &got) {
            (Ok(a), Ok(b)) => { c.check(a == b, "load-differs", || format!("{case}: loaded as {b:?}")); }
            (Ok(_), Err(_)) => c.fail("load-refuses-valid", case),
            (Err(_), Ok(b)) => c.fail("load-accepts-malformed", format!("{case}: loaded as {b:?}")),
            _ => {}
        }
    }
    // lines longer than the reader's buffer
    for len in [1990usize, 2048, 2049, 5000] {
        let u = "n".repeat(len); let h = vec![9u8; 32]; let s = vec![1u8; 12];
        let f = format!("{u}:sha256,{},{}\nshort:sha256,{},{}\n", b64(&s), b64(&h), b64(&s), b64(&h));
        let case = format!("names of {len} characters"); c.eval(&case);
        if let Some(got) = c.guarded("load-panic", || case.clone(), || load_passwords(Cursor::new(f.as_bytes()))) {
            let got = got.map(|m| view(&m)).map_err(|_| ());
            c.check(got == ref_load(f.as_bytes()), "load-differs", || case.clone());
        }
    }
}

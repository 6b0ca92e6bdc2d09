//! C02 and C03, concrete searches: the SCRAM server and client (child module of scram/mod.rs) against an
//! independent RFC 5802 reference written here (own HMAC calls, own parsing).
use super::client::ScramClient;
use super::server::ScramServer;
use super::*;
use crate::vx::common::*;

fn hm(key: &[u8], data: &[u8]) -> Vec<u8> { ring::hmac::sign(&ring::hmac::Key::new(ring::hmac::HMAC_SHA256, key), data).as_ref().to_vec() }
fn sha(d: &[u8]) -> Vec<u8> { ring::digest::digest(&ring::digest::SHA256, d).as_ref().to_vec() }
fn b64e(d: &[u8]) -> String { STANDARD.encode(d) }
/// Hi(): PBKDF2 written out
fn hi(password: &[u8], salt: &[u8], i: u32) -> Vec<u8> {
    let mut s = salt.to_vec(); s.extend([0, 0, 0, 1]);
    let mut u = hm(password, &s); let mut r = u.clone();
    for _ in 1..i { u = hm(password, &u); for (a, b) in r.iter_mut().zip(&u) { *a ^= b; } }
    r
}
fn proofs(gs2: &str, bare: &str, sfirst: &str, salted: &[u8], nonce: &str) -> (Vec<u8>, Vec<u8>) {
    let auth = format!("{bare},{sfirst},c={},r={nonce}", b64e(gs2.as_bytes()));
    let ck = hm(salted, b"Client Key"); let sig = hm(&sha(&ck), auth.as_bytes());
    (ck.iter().zip(&sig).map(|(a, b)| a ^ b).collect(), hm(&hm(salted, b"Server Key"), auth.as_bytes()))
}
fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { ',' => o.push_str("=2C"), '=' => o.push_str("=3D"), c => o.push(c) } } o }
fn unesc(s: &str) -> Option<String> {
    let mut o = String::new(); let mut r = s;
    while !r.is_empty() {
        if let Some(x) = r.strip_prefix("=2C") { o.push(','); r = x; } else if let Some(x) = r.strip_prefix("=3D") { o.push('='); r = x; }
        else { let c = r.chars().next().unwrap(); if c == '=' { return None; } o.push(c); r = &r[c.len_utf8()..]; }
    }
    Some(o)
}
struct First { authcid: String, authzid: Option<String>, nonce: String, gs2: String, bare: String }
/// what an RFC 5802 server reads; None: has to be refused
fn ref_first(d: &str) -> Option<First> {
    let (flag, d1) = d.split_once(',')?;
    if flag != "n" && flag != "y" { return None; }
    let (az, bare) = d1.split_once(',')?;
    let authzid = if az.is_empty() { None } else { Some(unesc(az.strip_prefix("a=")?)?) };
    let mut p = bare.split(',');
    let authcid = unesc(p.next()?.strip_prefix("n=")?)?;
    let nonce = p.next()?.strip_prefix("r=")?.to_string();
    Some(First { authcid, authzid, nonce, gs2: format!("{flag},{az},"), bare: bare.to_string() })
}
fn stage(s: &ScramServer) -> u8 { match s { ScramServer::New => 0, ScramServer::WaitingForPassword { .. } => 1, ScramServer::WaitingForClientFinal { .. } => 2, ScramServer::Authenticated { .. } => 3, ScramServer::Done => 4 } }

const NAMES: &[&str] = &["user", "", "a", "=", ",", "a,b", "a=b", "=2C", "=3D", "2C", "a==b", ",,", "ü", "日本語", "n=x", "r=abc", "a=,=,", "user name", "€,=€", "\u{1F600}=,"];
const PWS: &[&str] = &["pw", "", "pencil", "p,w=d", "密码", "a very long password that is longer than sixty-four bytes so that it is hashed down first by HMAC"];
fn name(g: &mut Rng) -> String {
    if g.one_in(3) { return g.pick(NAMES).to_string(); }
    let n = g.range(1, 12); (0..n).map(|_| *g.pick(&['a', 'b', '=', ',', '2', '3', 'C', 'D', 'é', '漢', 'n', 'r', ' ', '\'', 'Z'])).collect()
}
fn junk(g: &mut Rng) -> String {
    const J: &[&str] = &["", "x", "é", "日本", "=", ",", ",,", ",,,", "=,=", "n", "n,", "n,,", "n,,n=", "n,,n=a", "n,,n=a,", "n,,n=a,r", "n,,n=a,r=", "y,,n=a,r=b", "p=tls-unique,,n=a,r=b", "n,a=,n=a,r=b", "n,b=x,n=a,r=b", "n,é,n=a,r=b", "n,a=é,n=é,r=é", "é,,n=a,r=b", "nn,,n=a,r=b", "ny,,n=a,r=b", "n=,r=", "r=a,s=,i=1", "r=", "v=", "v", "e", "e=", "e=other-error", "é=", "v=é", "v=é=", "m=ext,r=a,s=,i=1", "c=", "c=biws", "c=biws,r=", "c=biws,r=,p=", "c=é,r=é,p=é", "r=é,s=é,i=é", "r,s,i", "r=a,s", "r=a,s=YWE=,i", "r=a,s=YWE=,i=0", "r=a,s=YWE=,i=-1", "r=a,s=YWE=,i=99999999999", "n,,m=x,n=a,r=b", "n,,é=a,r=b", "n,,n=a,é=b", "n,,n=a=,r=b", "n,,n=a=2c,r=b", "n,,n==2,r=b", "n,a==,n=a,r=b"];
    match g.below(3) { 0 => g.pick(J).to_string(), 1 => { let n = g.range(0, 14); (0..n).map(|_| *g.pick(&['n', 'y', 'p', ',', '=', 'a', 'r', 'c', 'v', 'e', 's', 'i', 'm', '2', 'C', 'é', '漢'])).collect() } _ => { let a = g.pick(J).to_string(); mutate(g, &a) } }
}
fn mutate(g: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..g.range(1, 3) {
        let n = v.len();
        match g.below(5) {
            0 if n > 0 => { v.remove(g.below(n)); }
            1 => { let k = g.below(n + 1); v.insert(k, *g.pick(&['n', ',', '=', 'a', 'é', '2', 'C', ' ', 'A', '+'])); }
            2 if n > 0 => { let k = g.below(n); v[k] = *g.pick(&['n', 'y', ',', '=', 'a', '漢', 'A', 'x', '/']); }
            3 if n > 1 => { let (a, b) = (g.below(n), g.below(n)); v.swap(a, b); }
            _ if n > 0 => { v.truncate(g.below(n + 1)); }
            _ => v.push('x'),
        }
    }
    v.into_iter().collect()
}
fn client_nonce(g: &mut Rng) -> String { if g.one_in(12) { return g.pick(&["", "a", "=", "r=", "fyko+d2lbbFgONRv9qkxdawL", "p=x"]).to_string(); } let n = g.range(1, 30); (0..n).map(|_| { let b = g.range(33, 126) as u8; if b == 44 { 'x' } else { b as char } }).collect() }

pub fn server(c: &mut Ctx) {
    c.rule("server: exchanges of a reference RFC 5802 client with every mix of names (reserved, multi-byte and escaped-looking characters), authorisation ids, 'n'/'y' flags, extensions, salts, iteration counts and passwords; forged finals (other password, nonce, channel binding, proof, truncated, proof over other messages), mutated and malformed messages, and calls in every order; result, reported identity and server signature compared with the reference");
    let mut g = c.rng(2);
    exchanges_fixed(c, &mut g);
    for _ in 0..c.n(9000, 250_000) { if c.time_up() { return; } exchange(c, &mut g, None); }
    for _ in 0..c.n(40_000, 1_000_000) {
        if c.time_up() { return; }
        let f = match g.below(4) { 0 => junk(&mut g), 1 => { let (z, n, r) = (name(&mut g), name(&mut g), client_nonce(&mut g)); let m = format!("n,a={},n={},r={}", esc(&z), esc(&n), r); mutate(&mut g, &m) }, 2 => { let (n, r) = (name(&mut g), client_nonce(&mut g)); let m = format!("{},,n={},r={}", g.pick(&["n", "y"]), esc(&n), r); mutate(&mut g, &m) }, _ => { let (n, r) = (name(&mut g), client_nonce(&mut g)); format!("n,,n={n},r={r}") } };
        c.eval(&f);
        c.guarded("server-panic", || format!("client-first {f:?}"), || {
            let mut s = ScramServer::new();
            let r = s.decode_client_first(&f);
            match (ref_first(&f), r) {
                (None, Ok(())) => Some(format!("malformed client-first {f:?} was accepted as {s:?}")),
                (Some(x), Err(e)) => Some(format!("well-formed client-first {f:?} (user {:?}) was refused: {e:?}", x.authcid)),
                (Some(x), Ok(())) => {
                    if s.authcid() != Some(&x.authcid) || s.authzid() != Some(x.authzid.as_deref()) { Some(format!("client-first {f:?}: identity {:?}/{:?}, expected {:?}/{:?}", s.authcid(), s.authzid(), x.authcid, x.authzid)) } else { None }
                }
                (None, Err(_)) => if s.authcid().is_some() { Some(format!("refused client-first {f:?} left an identity")) } else { None },
            }
        }).flatten().map(|e| c.fail("server-first", e));
    }
    // orders of calls
    for _ in 0..c.n(6000, 100_000) { if c.time_up() { return; } orders(c, &mut g); }
}

struct Want { user: String, zid: Option<String>, flag: &'static str, ext: &'static str, pw: String, salt: Vec<u8>, iter: u16, attack: usize }
fn exchanges_fixed(c: &mut Ctx, g: &mut Rng) {
    for u in NAMES { for z in [None, Some(*u), Some("other"), Some("")] { for flag in ["n", "y"] { for ext in ["", ",x=y"] {
        exchange(c, g, Some(Want { user: u.to_string(), zid: z.map(|s| s.to_string()), flag, ext, pw: "pencil".into(), salt: b"salt".to_vec(), iter: 3, attack: 0 }));
    } } } }
    for a in 0..ATTACKS { for u in ["user", "a,=b", ""] { exchange(c, g, Some(Want { user: u.into(), zid: None, flag: "n", ext: "", pw: "pencil".into(), salt: b"salt".to_vec(), iter: 3, attack: a })); } }
}
const ATTACKS: usize = 30;
fn exchange(c: &mut Ctx, g: &mut Rng, w: Option<Want>) {
    let w = w.unwrap_or_else(|| { let user = name(g); let n = g.range(0, 20); Want { zid: match g.below(4) { 0 => Some(user.clone()), 1 => Some(name(g)), _ => None }, user, flag: *g.pick(&["n", "y"]), ext: *g.pick(&["", "", ",x=y", ",x=,y=z"]), pw: g.pick(PWS).to_string(), salt: g.bytes(n), iter: *g.pick(&[1u16, 2, 3, 7, 16]), attack: if g.flip() { 0 } else { g.below(ATTACKS) } } });
    let cn = client_nonce(g);
    let gs2 = format!("{},{},", w.flag, w.zid.as_ref().map(|z| format!("a={}", esc(z))).unwrap_or_default());
    let bare = format!("n={},r={}{}", esc(&w.user), cn, w.ext);
    let first = format!("{gs2}{bare}");
    let salted = hi(w.pw.as_bytes(), &w.salt, w.iter as u32);
    let text = format!("{first} pw={:?} iter={} attack={}", w.pw, w.iter, w.attack);
    c.eval(&text);
    let mut rng = rand::rng();
    let r = c.guarded("server-panic", || text.clone(), || -> Result<(), String> {
        let mut s = ScramServer::new();
        s.decode_client_first(&first).map_err(|e| format!("client-first refused: {e:?}"))?;
        if s.authcid() != Some(&w.user) { return Err(format!("the server takes the client for {:?}", s.authcid())); }
        if hash_password(&w.pw, NonZeroU32::new(w.iter as u32).unwrap(), &w.salt)[..] != salted[..] { return Err("stored password is not Hi(password, salt, i)".into()); }
        let sf = s.encode_server_first(salted.clone(), &w.salt, w.iter, &mut rng).map_err(|e| format!("no server-first: {e:?}"))?;
        // the server-first message read by the reference client
        let rest = sf.strip_prefix("r=").ok_or(format!("server-first {sf:?}"))?;
        let p: Vec<&str> = rest.split(',').collect();
        if p.len() != 3 || p[1] != format!("s={}", b64e(&w.salt)) || p[2] != format!("i={}", w.iter) { return Err(format!("server-first {sf:?}")); }
        let nonce = p[0].to_string();
        if !nonce.starts_with(&cn) || nonce.len() != cn.len() + 24 || !nonce.bytes().skip(cn.len()).all(|b| (33..=126).contains(&b) && b != b',') { return Err(format!("nonce {nonce:?} does not extend {cn:?} by 24 printable characters")); }
        let (proof, ssig) = proofs(&gs2, &bare, &sf, &salted, &nonce);
        let good = format!("c={},r={nonce},p={}", b64e(gs2.as_bytes()), b64e(&proof));
        let wrongpw = hi(format!("{}x", w.pw).as_bytes(), &w.salt, w.iter as u32);
        let mut flip = proof.clone(); let k = g.below(32); flip[k] ^= 1 << g.below(8);
        let fin = match w.attack {
            0 => good.clone(),
            1 => format!("c={},r={nonce},p={}", b64e(gs2.as_bytes()), b64e(&proofs(&gs2, &bare, &sf, &wrongpw, &nonce).0)),
            2 => format!("c={},r={nonce}x,p={}", b64e(gs2.as_bytes()), b64e(&proofs(&gs2, &bare, &sf, &salted, &format!("{nonce}x")).0)),
            3 => format!("c={},r={cn},p={}", b64e(gs2.as_bytes()), b64e(&proofs(&gs2, &bare, &sf, &salted, &cn).0)),
            4 => format!("c={},r={nonce},p={}", b64e(b"n,a=root,"), b64e(&proofs("n,a=root,", &bare, &sf, &salted, &nonce).0)),
            5 => format!("c={},r={nonce},p={}", b64e(b""), b64e(&proofs("", &bare, &sf, &salted, &nonce).0)),
            6 => format!("c={},r={nonce},p={}", b64e(gs2.as_bytes()), b64e(&flip)),
            7 => format!("c={},r={nonce},p={}", b64e(gs2.as_bytes()), b64e(&proof[..31])),
            8 => format!("c={},r={nonce},p=", b64e(gs2.as_bytes())),
            9 => { let mut x = proof.clone(); x.push(0); format!("c={},r={nonce},p={}", b64e(gs2.as_bytes()), b64e(&x)) }
            10 => format!("c={},r={nonce},p={}", b64e(gs2.as_bytes()), b64e(&ssig)),
            11 => format!("c={},r={nonce},p={}", b64e(gs2.as_bytes()), b64e(&proofs(&gs2, "n=root,r=x", &sf, &salted, &nonce).0)),
            12 => format!("c={},r={nonce},p={}", b64e(gs2.as_bytes()), b64e(&proofs(&gs2, &bare, &format!("{sf}x"), &salted, &nonce).0)),
            13 => format!("r={nonce},c={},p={}", b64e(gs2.as_bytes()), b64e(&proof)),
            14 => format!("c={},p={}", b64e(gs2.as_bytes()), b64e(&proof)),
            15 => format!("c={},r={nonce}", b64e(gs2.as_bytes())),
            16 => format!("c={},r=,p={}", b64e(gs2.as_bytes()), b64e(&proofs(&gs2, &bare, &sf, &salted, "").0)),
            17 => format!("c={},r={nonce},p=*{}", b64e(gs2.as_bytes()), b64e(&proof)),
            18 => format!("c={},r={},p={}", b64e(gs2.as_bytes()), &nonce[..nonce.len() - 1], b64e(&proofs(&gs2, &bare, &sf, &salted, &nonce[..nonce.len() - 1]).0)),
            19 => { let o = if w.flag == "n" { gs2.replacen('n', "y", 1) } else { gs2.replacen('y', "n", 1) }; format!("c={},r={nonce},p={}", b64e(o.as_bytes()), b64e(&proofs(&o, &bare, &sf, &salted, &nonce).0)) }
            20 => format!("c={},r={nonce},p={}", b64e(gs2.as_bytes()), b64e(&proofs(&gs2, &bare, &sf, b"", &nonce).0)),
            // the right proof with another nonce or channel binding in front of it
            22 => format!("c={},r={nonce}0,p={}", b64e(gs2.as_bytes()), b64e(&proof)),
            23 => format!("c={},r=0{nonce},p={}", b64e(gs2.as_bytes()), b64e(&proof)),
            24 => format!("c={},r={},p={}", b64e(gs2.as_bytes()), &nonce[..nonce.len() - 1], b64e(&proof)),
            25 => format!("c={},r={cn},p={}", b64e(gs2.as_bytes()), b64e(&proof)),
            26 => format!("c={},r=,p={}", b64e(gs2.as_bytes()), b64e(&proof)),
            27 => format!("c=,r={nonce},p={}", b64e(&proof)),
            28 => format!("c={},r={nonce},p={}", b64e(format!("{gs2}x").as_bytes()), b64e(&proof)),
            29 => { let o = if nonce.to_uppercase() == nonce { nonce.to_lowercase() } else { nonce.to_uppercase() }; format!("c={},r={o},p={}", b64e(gs2.as_bytes()), b64e(&proof)) }
            _ => { let mut m = mutate(g, &good); if m == good { m.clear(); } m }
        };
        let parts: Vec<&str> = fin.split(',').collect();
        let valid = parts.len() >= 3 && parts[0] == format!("c={}", b64e(gs2.as_bytes())) && parts[1] == format!("r={nonce}") && parts[2] == format!("p={}", b64e(&proof));
        let allowed = w.zid.is_none() || w.zid.as_ref() == Some(&w.user);
        let r = s.decode_client_final(&fin);
        let success = matches!(&r, Ok((AuthenticationStatus::Authenticated, _)));
        if success != (valid && allowed) { return Err(format!("client-final {fin:?} (the right one is {good:?}): the server says {r:?}")); }
        if success {
            if r.unwrap().1 != format!("v={}", b64e(&ssig)) { return Err("wrong server signature".into()); }
            if s.authcid() != Some(&w.user) || s.authzid() != Some(w.zid.as_deref()) { return Err(format!("after success the identity is {:?}/{:?}", s.authcid(), s.authzid())); }
        } else if s.authcid().is_some() || s.authzid().is_some() { return Err(format!("after a failed exchange the server still reports {:?}", s.authcid())); }
        // no second try, no replay
        let st = stage(&s);
        for m in [&good, &fin, &first] {
            if matches!(s.decode_client_final(m), Ok((AuthenticationStatus::Authenticated, _))) { return Err("a second client-final message succeeds".into()); }
            if s.decode_client_first(m).is_ok() && st != 0 { return Err("a second exchange starts on the same server".into()); }
        }
        if s.encode_server_first(salted.clone(), &w.salt, w.iter, &mut rng).is_ok() { return Err("a server-first message after the end".into()); }
        if stage(&s) != st { return Err("a refused call changed the stage".into()); }
        Ok(())
    });
    if let Some(Err(e)) = r { c.fail("server", format!("{text} => {e}")); }
}
fn orders(c: &mut Ctx, g: &mut Rng) {
    let mut s = ScramServer::new(); let mut st = 0u8; let mut log = String::new(); let mut rng = rand::rng();
    let mut bad = None;
    let n = g.range(1, 7);
    let salted = hi(b"pw", b"s", 1);
    let mut last: Option<(First, String)> = None;
    for _ in 0..n {
        match g.below(3) {
            0 => { let f = if g.one_in(4) { junk(g) } else { let u = name(g); format!("n,,n={},r=abc", esc(&u)) }; log += &format!(" first({f:?})");
                   let x = ref_first(&f); let r = s.decode_client_first(&f).is_ok();
                   if r != (st == 0 && x.is_some()) { bad = Some(format!("decode_client_first gave {r} in stage {st}")); }
                   if r { st = 1; last = x.map(|x| (x, String::new())); } }
            1 => { log += " encode"; let r = s.encode_server_first(salted.clone(), b"s", 1, &mut rng);
                   if r.is_ok() != (st == 1) { bad = Some(format!("encode_server_first gave {} in stage {st}", r.is_ok())); }
                   if let (Ok(t), Some(l)) = (r, last.as_mut()) { st = 2; l.1 = t; } }
            _ => { let f = match &last { Some((x, t)) if g.below(3) > 0 && !t.is_empty() => { let nn = &t[2..t.find(',').unwrap()]; format!("c={},r={nn},p={}", b64e(x.gs2.as_bytes()), b64e(&proofs(&x.gs2, &x.bare, t, &salted, nn).0)) } _ => junk(g) };
                   log += &format!(" final({f:?})");
                   let good = matches!(&last, Some((x, t)) if !t.is_empty() && st == 2 && { let nn = &t[2..t.find(',').unwrap()]; f.starts_with(&format!("c={},r={nn},p={}", b64e(x.gs2.as_bytes()), b64e(&proofs(&x.gs2, &x.bare, t, &salted, nn).0))) && (x.authzid.is_none() || x.authzid.as_ref() == Some(&x.authcid)) });
                   let r = s.decode_client_final(&f); let ok = matches!(r, Ok((AuthenticationStatus::Authenticated, _)));
                   if ok != good { bad = Some(format!("decode_client_final gave {r:?} in stage {st}")); }
                   if st == 2 { st = if ok { 3 } else { 4 }; } }
        }
        if (1..=3).contains(&st) != s.authcid().is_some() { bad = Some(format!("identity {:?} in stage {st}", s.authcid())); }
        if let (Some((x, _)), true) = (&last, (1..=3).contains(&st)) { if s.authcid() != Some(&x.authcid) { bad = Some(format!("identity {:?} instead of {:?}", s.authcid(), x.authcid)); } }
        if bad.is_some() { break; }
    }
    c.eval(&log);
    if let Some(b) = bad { c.fail("server-order", format!("{log} => {b}")); }
}

pub fn client(c: &mut Ctx) {
    c.rule("client: exchanges with a reference RFC 5802 server over names with reserved, multi-byte and escaped-looking characters, passwords, authorisation ids, salts and iteration counts; misbehaving servers (nonce cut, replaced or not extending, wrong signature, truncated or empty signature, error replies, malformed and mutated messages, multi-byte starts) and calls in every order; messages and results compared with the reference");
    let mut g = c.rng(3);
    for u in NAMES { for z in [None, Some(*u), Some("o,=ther")] { for a in 0..CATTACKS { cexchange(c, &mut g, Some((u, "pencil", z, a))); } } }
    for p in PWS { cexchange(c, &mut g, Some(("user", p, None, 0))); }
    for _ in 0..c.n(12_000, 300_000) { if c.time_up() { return; } cexchange(c, &mut g, None); }
    for _ in 0..c.n(40_000, 500_000) {
        if c.time_up() { return; }
        let j = junk(&mut g); c.eval(&j);
        c.guarded("client-panic", || format!("server message {j:?}"), || {
            let mut cl = ScramClient::new("u", "p", None);
            if cl.decode_server_first(&j).is_ok() || cl.decode_server_final(&j).is_ok() { return Some(format!("{j:?} accepted before the first message")); }
            let f = match cl.encode_client_first() { Ok(f) => f, Err(e) => return Some(format!("no client-first: {e:?}")) };
            let n = f.rsplit("r=").next().unwrap().to_string();
            if cl.decode_server_final(&j).is_ok() { return Some(format!("server-final {j:?} accepted before the server-first message")); }
            if cl.encode_client_first().is_ok() { return Some("a second client-first message".into()); }
            if cl.decode_server_first(&j).is_ok() { return Some(format!("server-first {j:?} accepted for nonce {n:?}")); }
            if cl.decode_server_final(&j).is_ok() || cl.decode_server_first(&format!("r={n}x,s=,i=1")).is_ok() || cl.encode_client_first().is_ok() { return Some("the exchange goes on after a refused message".into()); }
            let mut cl = ScramClient::new("u", "p", None);
            let f = cl.encode_client_first().unwrap(); let n = f.rsplit("r=").next().unwrap().to_string();
            let _ = cl.decode_server_first(&format!("r={n}x,s=,i=1"));
            if cl.decode_server_final(&j).is_ok() { return Some(format!("server-final {j:?} accepted")); }
            None
        }).flatten().map(|e| c.fail("client-malformed", e));
    }
}
const CATTACKS: usize = 16;
fn cexchange(c: &mut Ctx, g: &mut Rng, w: Option<(&str, &str, Option<&str>, usize)>) {
    let (user, pw, zid, attack) = match w { Some((u, p, z, a)) => (u.to_string(), p.to_string(), z.map(|s| s.to_string()), a), None => (name(g), if g.flip() { g.pick(PWS).to_string() } else { name(g) }, if g.one_in(3) { Some(name(g)) } else { None }, if g.flip() { 0 } else { g.below(CATTACKS) }) };
    let n = g.range(0, 20); let salt = g.bytes(n); let it = *g.pick(&[1u32, 2, 5, 16]);
    let text = format!("user {user:?} password {pw:?} authzid {zid:?} iterations {it} attack {attack}");
    c.eval(&text);
    let r = c.guarded("client-panic", || text.clone(), || -> Result<(), String> {
        let mut cl = ScramClient::new(&user, &pw, zid.as_deref());
        let first = cl.encode_client_first().map_err(|e| format!("no client-first: {e:?}"))?;
        let gs2 = match &zid { Some(z) => format!("n,a={},", esc(z)), None => "n,,".into() };
        let head = format!("{gs2}n={},r=", esc(&user));
        let cn = first.strip_prefix(head.as_str()).ok_or(format!("client-first {first:?} does not start with {head:?}"))?.to_string();
        if cn.len() != 24 || !cn.bytes().all(|b| (33..=126).contains(&b) && b != b',') { return Err(format!("client nonce {cn:?}")); }
        let x = ref_first(&first).ok_or(format!("client-first {first:?} is malformed"))?;
        if x.authcid != user || x.authzid != zid { return Err(format!("a server reads {:?}/{:?} from {first:?}", x.authcid, x.authzid)); }
        let nonce = match attack { 1 => "other".to_string(), 2 => cn[..23].to_string(), 3 => format!("x{cn}"), 4 => String::new(), 5 => format!("{}{}", &cn[..23], if cn.ends_with('a') { "b" } else { "a" }), 6 => { let k = cn.to_uppercase(); if k == cn { cn.to_lowercase() } else { k } }, _ => format!("{cn}SrvNonce=+/{}", g.below(1000)) };
        let sf = format!("r={nonce},s={},i={it}{}", b64e(&salt), if g.one_in(4) { ",x=y" } else { "" });
        let r = cl.decode_server_first(&sf);
        if !nonce.starts_with(&cn) { return if r.is_ok() { Err(format!("server nonce {nonce:?} accepted for {cn:?}")) } else if cl.decode_server_final("v=").is_ok() { Err("success after a refused nonce".into()) } else { Ok(()) }; }
        let salted = hi(pw.as_bytes(), &salt, it);
        let (proof, ssig) = proofs(&gs2, &x.bare, &sf, &salted, &nonce);
        let want = format!("c={},r={nonce},p={}", b64e(gs2.as_bytes()), b64e(&proof));
        match r { Err(e) => return Err(format!("server-first {sf:?} refused: {e:?}")), Ok(f) => if f != want { return Err(format!("client-final {f:?} instead of {want:?} for server-first {sf:?}")); } }
        let mut flip = ssig.clone(); let k = g.below(32); flip[k] ^= 1 << g.below(8);
        let good = format!("v={}", b64e(&ssig));
        let fin = match attack {
            7 => format!("v={}", b64e(&flip)), 8 => "v=".to_string(), 9 => format!("v={}", b64e(&ssig[..31])), 10 => { let mut y = ssig.clone(); y.push(7); format!("v={}", b64e(&y)) }
            11 => format!("v={}", b64e(&proof)), 12 => format!("e={}", b64e(&ssig)), 13 => { let mut m = mutate(g, &good); if m == good { m.clear(); } m }
            14 => format!("v={}", b64e(&proofs(&gs2, &x.bare, &sf, &hi(format!("{pw}x").as_bytes(), &salt, it), &nonce).1)), 15 => format!("v={}", b64e(&proofs(&gs2, "n=evil,r=x", &sf, &salted, &nonce).1)),
            _ => good.clone() };
        let ok = cl.decode_server_final(&fin).is_ok();
        if ok != (fin == good) { return Err(format!("server-final {fin:?} (the right one is {good:?}) gives {ok}")); }
        if cl.decode_server_final(&good).is_ok() || cl.decode_server_first(&sf).is_ok() || cl.encode_client_first().is_ok() { return Err("the exchange goes on after its end".into()); }
        Ok(())
    });
    if let Some(Err(e)) = r { c.fail("client", format!("{text} => {e}")); }
}

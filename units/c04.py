"""C04: the password table: load_passwords, dump_passwords, check_password, hash_password and the round trip."""
from vunit import Unit, Fn, L
from scram_common import PRELUDE, pushes, SUBS
A = "akasa-core/src/protocols/mqtt/auth.rs"
ST = "akasa-core/src/state.rs"
SPEC = pushes(r"""
// ---- the table ------------------------------------------------------------------------------------------------
pub enum Alg { S256, S512, P256(int), P512(int) }
pub struct Entry { pub alg: Alg, pub hash: Seq<u8>, pub salt: Seq<u8> }
pub uninterp spec fn sha512(m: Seq<u8>) -> Seq<u8>;
/// PBKDF2-HMAC-SHA256 / SHA512 with n bytes of output
pub uninterp spec fn pbkdf2_n(wide: bool, password: Seq<u8>, salt: Seq<u8>, iterations: int, n: int) -> Seq<u8>;
pub open spec fn hash_len(a: Alg) -> int { match a { Alg::S256 => 32, Alg::P256(_) => 32, _ => 64 } }
/// the hash of a password under a salt and algorithm
pub open spec fn pwhash(a: Alg, salt: Seq<u8>, password: Seq<u8>) -> Seq<u8> {
    match a {
        Alg::S256 => sha256(password + salt), Alg::S512 => sha512(password + salt),
        Alg::P256(i) => pbkdf2_n(false, password, salt, i, 32), Alg::P512(i) => pbkdf2_n(true, password, salt, i, 64),
    }
}
pub open spec fn wf_entry(e: Entry) -> bool { e.hash.len() == hash_len(e.alg) && e.salt.len() >= 12 && match e.alg { Alg::P256(i) => 0 < i < 0x1_0000_0000, Alg::P512(i) => 0 < i < 0x1_0000_0000, _ => true } }
pub open spec fn wf_table(m: Map<Seq<u8>, Entry>) -> bool { forall|u: Seq<u8>| #[trigger] m.contains_key(u) ==> wf_entry(m[u]) }
/// what a login is decided by
pub open spec fn login_ok(m: Map<Seq<u8>, Entry>, user: Seq<u8>, password: Seq<u8>) -> bool { m.contains_key(user) && m[user].hash == pwhash(m[user].alg, m[user].salt, password) }

// ---- the file ---------------------------------------------------------------------------------------------------
pub uninterp spec fn b64n(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn unb64n(s: Seq<u8>) -> Option<Seq<u8>>;
/// the number a text denotes as u32
pub uninterp spec fn num(s: Seq<u8>) -> Option<int>;
pub uninterp spec fn trimmed(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn lead_ws(s: Seq<u8>) -> bool;
pub open spec fn b64char(b: u8) -> bool { 65 <= b <= 90 || 97 <= b <= 122 || 48 <= b <= 57 || b == 43 || b == 47 }
pub open spec fn fields(s: Seq<u8>, sep: u8) -> Seq<Seq<u8>> decreases s.len() via fields_dec {
    match tail(s, sep) { None => Seq::<Seq<u8>>::empty().push(s), Some(t) => Seq::<Seq<u8>>::empty().push(head(s, sep)) + fields(t, sep) }
}
#[via_fn]
proof fn fields_dec(s: Seq<u8>, sep: u8) { lemma_cut(s, sep); }
/// position of the last `c`, -1 if there is none
pub open spec fn rcut(s: Seq<u8>, c: u8) -> int decreases s.len() { if s.len() == 0 { -1 } else if s.last() == c { s.len() - 1 } else { rcut(s.drop_last(), c) } }
pub enum Line { Blank, Bad, User(Seq<u8>, Entry) }
pub open spec fn it_ok(s: Seq<u8>) -> Option<int> { match num(s) { None => None, Some(n) => if n == 0 { None } else { Some(n) } } }
pub open spec fn salt_ok(s: Seq<u8>) -> Option<Seq<u8>> { match unb64n(s) { None => None, Some(x) => if x.len() < 12 { None } else { Some(x) } } }
/// algorithm and number of fields of a line
pub open spec fn alg_of(f: Seq<Seq<u8>>) -> Option<(Alg, int)> {
    if f.len() < 3 { None }
    else if f[0] == @sha256@ { Some((Alg::S256, 3)) }
    else if f[0] == @sha512@ { Some((Alg::S512, 3)) }
    else if f[0] == @sha256-pkbdf2@ { match it_ok(f[1]) { None => None, Some(i) => Some((Alg::P256(i), 4)) } }
    else if f[0] == @sha512-pkbdf2@ { match it_ok(f[1]) { None => None, Some(i) => Some((Alg::P512(i), 4)) } }
    else { None }
}
pub open spec fn parse_line(line: Seq<u8>) -> Line {
    let t = trimmed(line);
    if t.len() == 0 { Line::Blank } else {
        let k = rcut(t, 58);
        if k < 0 { Line::Bad } else {
            let f = fields(t.subrange(k + 1, t.len() as int), 44);
            match alg_of(f) { None => Line::Bad, Some(an) => if f.len() != an.1 { Line::Bad } else {
                match salt_ok(f[an.1 - 2]) { None => Line::Bad, Some(salt) => match unb64n(f[an.1 - 1]) { None => Line::Bad, Some(hash) =>
                    if hash.len() != hash_len(an.0) { Line::Bad } else { Line::User(t.subrange(0, k), Entry { alg: an.0, hash, salt }) } } }
            } }
        }
    }
}
/// what a file of these lines means (None: unreadable line); of two lines for one user the later counts
pub open spec fn table(lines: Seq<Option<Seq<u8>>>) -> Option<Map<Seq<u8>, Entry>> decreases lines.len() {
    if lines.len() == 0 { Some(Map::<Seq<u8>, Entry>::empty()) } else {
        match table(lines.drop_last()) { None => None, Some(m) => match lines.last() { None => None, Some(l) => match parse_line(l) {
            Line::Blank => Some(m), Line::Bad => None, Line::User(u, e) => Some(m.insert(u, e)) } } }
    }
}
/// a name a line can carry
pub open spec fn storable(u: Seq<u8>) -> bool { !u.contains(10u8) && !lead_ws(u) }
pub open spec fn alg_text(a: Alg) -> Seq<u8> {
    match a { Alg::S256 => @:sha256,@, Alg::S512 => @:sha512,@, Alg::P256(i) => @:sha256-pkbdf2,@ + dec(i) + seq![44u8], Alg::P512(i) => @:sha512-pkbdf2,@ + dec(i) + seq![44u8] }
}
pub open spec fn line_of(u: Seq<u8>, e: Entry) -> Seq<u8> { u + alg_text(e.alg) + b64n(e.salt) + seq![44u8] + b64n(e.hash) }
pub open spec fn text_of(items: Seq<(Seq<u8>, Entry)>) -> Seq<u8> decreases items.len() {
    if items.len() == 0 { Seq::<u8>::empty() } else { text_of(items.drop_last()) + (line_of(items.last().0, items.last().1) + seq![10u8]) }
}
/// the items are the table, in some order
pub open spec fn lists(items: Seq<(Seq<u8>, Entry)>, m: Map<Seq<u8>, Entry>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < items.len() ==> (#[trigger] items[i]).0 != (#[trigger] items[j]).0
    &&& forall|i: int| 0 <= i < items.len() ==> m.contains_key((#[trigger] items[i]).0) && m[items[i].0] == items[i].1
    &&& forall|u: Seq<u8>| #[trigger] m.contains_key(u) ==> exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == u
}
""")
import re
def bytelit(m): return "Seq::<u8>::empty()" + "".join(f".push({b}u8)" for b in m.group(1).encode())
SPEC = re.sub(r"@([:,a-z0-9-]+)@", bytelit, SPEC)
LEMMAS = pushes(r"""
// ---- round trip ---------------------------------------------------------------------------------------------------
/// lines as BufRead::lines cuts them
pub open spec fn no_cr(s: Seq<u8>) -> Seq<u8> { if s.len() > 0 && s.last() == 13 { s.drop_last() } else { s } }
pub open spec fn lines_of(b: Seq<u8>) -> Seq<Option<Seq<u8>>> decreases b.len() via lines_dec {
    if b.len() == 0 { Seq::<Option<Seq<u8>>>::empty() } else {
        match tail(b, 10) { None => Seq::<Option<Seq<u8>>>::empty().push(Some(b)), Some(t) => Seq::<Option<Seq<u8>>>::empty().push(Some(no_cr(head(b, 10)))) + lines_of(t) }
    }
}
#[via_fn]
proof fn lines_dec(b: Seq<u8>) { lemma_cut(b, 10); }
pub proof fn lemma_cut_at(s: Seq<u8>, sep: u8, n: int) requires 0 <= n <= s.len(), n < s.len() ==> s[n] == sep, forall|i: int| 0 <= i < n ==> s[i] != sep ensures cut(s, sep) == n {
    lemma_cut(s, sep);
    if cut(s, sep) < n { assert(s[cut(s, sep)] != sep); }
}
pub proof fn lemma_cut_app(a: Seq<u8>, sep: u8, b: Seq<u8>) requires !a.contains(sep) ensures cut(a.push(sep) + b, sep) == a.len(), head(a.push(sep) + b, sep) =~= a, tail(a.push(sep) + b, sep) is Some, tail(a.push(sep) + b, sep)->Some_0 =~= b {
    let s = a.push(sep) + b;
    assert forall|i: int| 0 <= i < a.len() implies s[i] != sep by { assert(a.contains(a[i])); }
    lemma_cut_at(s, sep, a.len() as int);
}
pub proof fn lemma_cut_all(a: Seq<u8>, sep: u8) requires !a.contains(sep) ensures cut(a, sep) == a.len(), tail(a, sep) is None {
    assert forall|i: int| 0 <= i < a.len() implies a[i] != sep by { assert(a.contains(a[i])); }
    lemma_cut_at(a, sep, a.len() as int);
}
/// a text that ends with a full line
pub proof fn lemma_lines_push(a: Seq<u8>, l: Seq<u8>) requires a.len() == 0 || a.last() == 10, !l.contains(10u8), l.len() > 0, l.last() != 13
    ensures lines_of(a + (l + seq![10u8])) =~= lines_of(a).push(Some(l)) decreases a.len()
{
    let nl = seq![10u8]; let b = a + (l + nl);
    if a.len() == 0 {
        assert(b =~= l.push(10u8) + Seq::<u8>::empty());
        lemma_cut_app(l, 10, Seq::<u8>::empty());
        assert(lines_of(Seq::<u8>::empty()).len() == 0);
    } else {
        lemma_cut(a, 10);
        let k = cut(a, 10);
        assert(k < a.len()) by { if k == a.len() { assert(a[a.len() - 1] != 10); } }
        assert forall|i: int| 0 <= i < k implies b[i] != 10 by { assert(a[i] == b[i]); }
        assert(b[k] == 10);
        lemma_cut_at(b, 10, k);
        let t = tail(a, 10)->Some_0;
        assert(head(b, 10) =~= head(a, 10));
        assert(tail(b, 10)->Some_0 =~= t + (l + nl));
        if t.len() > 0 { assert(t.last() == a.last()); }
        lemma_lines_push(t, l);
        assert(lines_of(b) =~= Seq::<Option<Seq<u8>>>::empty().push(Some(no_cr(head(a, 10)))) + lines_of(t + (l + nl)));
        assert(lines_of(a) =~= Seq::<Option<Seq<u8>>>::empty().push(Some(no_cr(head(a, 10)))) + lines_of(t));
    }
}
pub proof fn lemma_rcut(a: Seq<u8>, c: u8, b: Seq<u8>) requires !b.contains(c) ensures rcut(a.push(c) + b, c) == a.len() decreases b.len() {
    let s = a.push(c) + b;
    if b.len() == 0 { assert(s =~= a.push(c)); }
    else { assert(s.last() == b.last()); assert(b.contains(b.last())); assert(s.drop_last() =~= a.push(c) + b.drop_last());
        assert(!b.drop_last().contains(c)) by { if b.drop_last().contains(c) { let i = choose|i: int| 0 <= i < b.drop_last().len() && b.drop_last()[i] == c; assert(b[i] == c); } }
        lemma_rcut(a, c, b.drop_last()); }
}
pub proof fn lemma_fields2(a: Seq<u8>, b: Seq<u8>) requires !a.contains(44u8), !b.contains(44u8) ensures fields(a.push(44u8) + b, 44) =~= Seq::<Seq<u8>>::empty().push(a).push(b) {
    lemma_cut_app(a, 44, b); lemma_cut_all(b, 44);
    assert(fields(b, 44) =~= Seq::<Seq<u8>>::empty().push(b));
    assert(fields(a.push(44u8) + b, 44) =~= Seq::<Seq<u8>>::empty().push(a) + fields(b, 44));
}
pub proof fn lemma_fields_cons(a: Seq<u8>, b: Seq<u8>) requires !a.contains(44u8) ensures fields(a.push(44u8) + b, 44) =~= Seq::<Seq<u8>>::empty().push(a) + fields(b, 44) {
    lemma_cut_app(a, 44, b);
}
pub proof fn lemma_none_in(s: Seq<u8>, c: u8) requires forall|i: int| 0 <= i < s.len() ==> s[i] != c ensures !s.contains(c) {}
pub open spec fn alg_name(a: Alg) -> Seq<u8> { match a { Alg::S256 => @sha256@, Alg::S512 => @sha512@, Alg::P256(i) => @sha256-pkbdf2@, Alg::P512(i) => @sha512-pkbdf2@ } }
/// what follows the user name and the colon
pub open spec fn rest_of(e: Entry) -> Seq<u8> {
    match e.alg { Alg::S256 => alg_name(e.alg).push(44u8) + (b64n(e.salt).push(44u8) + b64n(e.hash)), Alg::S512 => alg_name(e.alg).push(44u8) + (b64n(e.salt).push(44u8) + b64n(e.hash)),
        Alg::P256(i) => alg_name(e.alg).push(44u8) + (dec(i).push(44u8) + (b64n(e.salt).push(44u8) + b64n(e.hash))), Alg::P512(i) => alg_name(e.alg).push(44u8) + (dec(i).push(44u8) + (b64n(e.salt).push(44u8) + b64n(e.hash))) }
}
/// a written line is read back as the same entry
pub proof fn lemma_line_roundtrip(u: Seq<u8>, e: Entry) requires storable(u), utf8(u), wf_entry(e)
    ensures parse_line(line_of(u, e)) == Line::User(u, e), !line_of(u, e).contains(10u8), line_of(u, e).len() > 0, line_of(u, e).last() != 13
{
    broadcast use axiom_b64n, axiom_dec;
    let l = line_of(u, e); let r = rest_of(e); let nm = alg_name(e.alg);
    assert(l =~= u.push(58u8) + r);
    assert(nm.len() > 0 && forall|i: int| 0 <= i < nm.len() ==> nm[i] != 44 && nm[i] != 58 && nm[i] != 10);
    lemma_none_in(nm, 44);
    let bs = b64n(e.salt); let bh = b64n(e.hash);
    assert(bh.len() > 0);
    lemma_none_in(bs, 44); lemma_none_in(bh, 44);
    assert(l.last() == bh.last());
    assert(b64char(l.last()));
    assert(!lead_ws(l)) by {
        if u.len() == 0 { assert(l[0] == 58u8); axiom_lead_colon(l); } else { axiom_lead_cat(u, seq![58u8] + r); assert(l =~= u + (seq![58u8] + r)); }
    }
    axiom_trimmed(l);
    assert forall|i: int| 0 <= i < r.len() implies r[i] != 58 && r[i] != 10 by {
        assert(forall|j: int| 0 <= j < bs.len() ==> bs[j] != 58 && bs[j] != 10);
        assert(forall|j: int| 0 <= j < bh.len() ==> bh[j] != 58 && bh[j] != 10);
        match e.alg { Alg::P256(n) => { assert(forall|j: int| 0 <= j < dec(n).len() ==> dec(n)[j] != 58 && dec(n)[j] != 10); }, Alg::P512(n) => { assert(forall|j: int| 0 <= j < dec(n).len() ==> dec(n)[j] != 58 && dec(n)[j] != 10); }, _ => {} }
    }
    lemma_none_in(r, 58);
    lemma_rcut(u, 58, r);
    assert(l.subrange(u.len() as int + 1, l.len() as int) =~= r);
    assert(l.subrange(0, u.len() as int) =~= u);
    let f = fields(r, 44);
    lemma_fields2(bs, bh);
    match e.alg {
        Alg::S256 => { lemma_fields_cons(nm, bs.push(44u8) + bh); }
        Alg::S512 => { lemma_fields_cons(nm, bs.push(44u8) + bh); }
        Alg::P256(n) => { lemma_none_in(dec(n), 44); lemma_fields_cons(dec(n), bs.push(44u8) + bh); lemma_fields_cons(nm, dec(n).push(44u8) + (bs.push(44u8) + bh)); }
        Alg::P512(n) => { lemma_none_in(dec(n), 44); lemma_fields_cons(dec(n), bs.push(44u8) + bh); lemma_fields_cons(nm, dec(n).push(44u8) + (bs.push(44u8) + bh)); }
    }
    lemma_names(); assert(nm != alg_name(Alg::P256(0)) || e.alg is P256); assert(nm != alg_name(Alg::P512(0)) || e.alg is P512);
    match e.alg {
        Alg::S256 => { assert(f.len() == 3 && f[0] == nm && f[1] == bs && f[2] == bh); assert(alg_of(f) == Some((e.alg, 3int))); }
        Alg::S512 => { assert(f.len() == 3 && f[0] == nm && f[1] == bs && f[2] == bh); assert(alg_of(f) == Some((e.alg, 3int))); }
        Alg::P256(n) => { assert(f.len() == 4 && f[0] == nm && f[1] == dec(n) && f[2] == bs && f[3] == bh); assert(alg_of(f) == Some((e.alg, 4int))); }
        Alg::P512(n) => { assert(f.len() == 4 && f[0] == nm && f[1] == dec(n) && f[2] == bs && f[3] == bh); assert(alg_of(f) == Some((e.alg, 4int))); }
    }
    if l.contains(10u8) { let i = choose|i: int| 0 <= i < l.len() && l[i] == 10u8; if i < u.len() { assert(u[i] == 10u8); assert(u.contains(10u8)); } else { assert(i != u.len()); assert(r[i - u.len() - 1] == 10u8); } }
}
pub proof fn lemma_names() ensures alg_name(Alg::S256) != alg_name(Alg::S512), forall|i: int, j: int| #![trigger alg_name(Alg::P256(i)), alg_name(Alg::P512(j))] alg_name(Alg::P256(i)) != alg_name(Alg::P512(j)),
    forall|i: int| alg_name(Alg::S256) != #[trigger] alg_name(Alg::P256(i)), forall|i: int| alg_name(Alg::S256) != #[trigger] alg_name(Alg::P512(i)), forall|i: int| alg_name(Alg::S512) != #[trigger] alg_name(Alg::P256(i)), forall|i: int| alg_name(Alg::S512) != #[trigger] alg_name(Alg::P512(i))
{
    assert(alg_name(Alg::S256)[3] != alg_name(Alg::S512)[3]);
    assert forall|i: int, j: int| #![trigger alg_name(Alg::P256(i)), alg_name(Alg::P512(j))] alg_name(Alg::P256(i)) != alg_name(Alg::P512(j)) by { assert(alg_name(Alg::P256(i))[3] != alg_name(Alg::P512(j))[3]); }
    assert forall|i: int| alg_name(Alg::S256) != #[trigger] alg_name(Alg::P256(i)) by { assert(alg_name(Alg::S256).len() != alg_name(Alg::P256(i)).len()); }
    assert forall|i: int| alg_name(Alg::S256) != #[trigger] alg_name(Alg::P512(i)) by { assert(alg_name(Alg::S256).len() != alg_name(Alg::P512(i)).len()); }
    assert forall|i: int| alg_name(Alg::S512) != #[trigger] alg_name(Alg::P256(i)) by { assert(alg_name(Alg::S512).len() != alg_name(Alg::P256(i)).len()); }
    assert forall|i: int| alg_name(Alg::S512) != #[trigger] alg_name(Alg::P512(i)) by { assert(alg_name(Alg::S512).len() != alg_name(Alg::P512(i)).len()); }
}
pub open spec fn prefix_map(items: Seq<(Seq<u8>, Entry)>) -> Map<Seq<u8>, Entry> decreases items.len() { if items.len() == 0 { Map::<Seq<u8>, Entry>::empty() } else { prefix_map(items.drop_last()).insert(items.last().0, items.last().1) } }
/// dumping a table and loading the text gives the table back
pub proof fn theorem_roundtrip(items: Seq<(Seq<u8>, Entry)>, m: Map<Seq<u8>, Entry>)
    requires lists(items, m), forall|i: int| 0 <= i < items.len() ==> storable((#[trigger] items[i]).0) && utf8(items[i].0) && wf_entry(items[i].1)
    ensures table(lines_of(text_of(items))) == Some(m)
{
    lemma_text(items);
    lemma_prefix_map(items);
    let p = prefix_map(items);
    assert(p =~= m) by {
        assert forall|u: Seq<u8>| p.contains_key(u) == m.contains_key(u) by { if m.contains_key(u) { let i = choose|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == u; assert(p.contains_key(items[i].0)); } }
    }
}
pub proof fn lemma_text(items: Seq<(Seq<u8>, Entry)>)
    requires forall|i: int| 0 <= i < items.len() ==> storable((#[trigger] items[i]).0) && utf8(items[i].0) && wf_entry(items[i].1)
    ensures table(lines_of(text_of(items))) == Some(prefix_map(items)), text_of(items).len() > 0 ==> text_of(items).last() == 10
    decreases items.len()
{
    if items.len() == 0 { assert(lines_of(text_of(items)).len() == 0); }
    else {
        let q = items.drop_last(); let x = items.last();
        assert forall|i: int| 0 <= i < q.len() implies storable((#[trigger] q[i]).0) && utf8(q[i].0) && wf_entry(q[i].1) by { assert(q[i] == items[i]); }
        assert(x == items[items.len() - 1]);
        lemma_text(q);
        lemma_line_roundtrip(x.0, x.1);
        let l = line_of(x.0, x.1);
        lemma_lines_push(text_of(q), l);
        let ls = lines_of(text_of(items));
        assert(ls.drop_last() =~= lines_of(text_of(q)));
        assert(ls.last() == Some(l));
    }
}
pub proof fn lemma_prefix_map(items: Seq<(Seq<u8>, Entry)>)
    requires forall|i: int, j: int| 0 <= i < j < items.len() ==> (#[trigger] items[i]).0 != (#[trigger] items[j]).0
    ensures forall|i: int| 0 <= i < items.len() ==> prefix_map(items).contains_key((#[trigger] items[i]).0) && prefix_map(items)[items[i].0] == items[i].1,
        forall|u: Seq<u8>| #[trigger] prefix_map(items).contains_key(u) ==> exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == u
    decreases items.len()
{
    if items.len() > 0 {
        let q = items.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).0 != (#[trigger] q[j]).0 by { assert(q[i] == items[i] && q[j] == items[j]); }
        lemma_prefix_map(q);
        let p = prefix_map(items);
        assert forall|i: int| 0 <= i < items.len() implies p.contains_key((#[trigger] items[i]).0) && p[items[i].0] == items[i].1 by { if i < q.len() { assert(q[i] == items[i]); assert(items[i].0 != items[items.len() - 1].0); } }
        assert forall|u: Seq<u8>| #[trigger] p.contains_key(u) implies exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == u by {
            if u == items.last().0 { assert(items[items.len() - 1].0 == u); } else { assert(prefix_map(q).contains_key(u)); let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == u; assert(items[i].0 == u); }
        }
    }
}
/// a loaded table is well formed, and a freshly stored password is accepted under every algorithm
pub proof fn lemma_table_wf(lines: Seq<Option<Seq<u8>>>) ensures table(lines) is Some ==> wf_table(table(lines)->Some_0) decreases lines.len() {
    broadcast use axiom_num;
    if lines.len() > 0 { lemma_table_wf(lines.drop_last()); }
}
pub proof fn theorem_fresh_accepted(m: Map<Seq<u8>, Entry>, u: Seq<u8>, a: Alg, salt: Seq<u8>, password: Seq<u8>)
    ensures login_ok(m.insert(u, Entry { alg: a, salt, hash: pwhash(a, salt, password) }), u, password) {}
""")
LEMMAS = re.sub(r"@([:,a-z0-9-]+)@", bytelit, LEMMAS)
STANDINS = pushes(r"""
impl Txt for NonZeroU32 { open spec fn tx(&self) -> Seq<u8> { dec(self@) } }
#[verifier::external_body]
pub broadcast proof fn axiom_b64n(s: Seq<u8>) ensures unb64n(#[trigger] b64n(s)) == Some(s), (s.len() > 0 ==> b64n(s).len() > 0), forall|i: int| 0 <= i < b64n(s).len() ==> b64char(#[trigger] b64n(s)[i]) {}
#[verifier::external_body]
pub broadcast proof fn axiom_dec(n: int) requires 0 <= n < 0x1_0000_0000 ensures num(#[trigger] dec(n)) == Some(n), forall|i: int| 0 <= i < dec(n).len() ==> 48 <= #[trigger] dec(n)[i] <= 57 {}
#[verifier::external_body]
pub broadcast proof fn axiom_num(s: Seq<u8>) ensures #[trigger] num(s) is Some ==> 0 <= num(s)->Some_0 < 0x1_0000_0000 {}
#[verifier::external_body]
pub proof fn axiom_trimmed(s: Seq<u8>) requires s.len() > 0, !lead_ws(s), b64char(s.last()) ensures trimmed(s) == s {}
#[verifier::external_body]
pub proof fn axiom_lead_colon(s: Seq<u8>) requires s.len() > 0, s[0] == 58 ensures !lead_ws(s) {}
#[verifier::external_body]
pub proof fn axiom_lead_cat(a: Seq<u8>, b: Seq<u8>) requires a.len() > 0, utf8(a) ensures lead_ws(a + b) == lead_ws(a) {}
pub broadcast proof fn lemma_cat3(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures #[trigger] (a + b + c) =~= a + (b + c) {}
impl Str {
    #[verifier::external_body]
    pub fn trim(&self) -> (r: &Str) ensures r@ == trimmed(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_rsplit_once(&self, sep: u8) -> (r: Option<(&Str, &Str)>) requires sep < 128
        ensures rcut(self@, sep) < 0 ==> r is None, rcut(self@, sep) >= 0 ==> r is Some && r->Some_0.0@ == self@.subrange(0, rcut(self@, sep)) && r->Some_0.1@ == self@.subrange(rcut(self@, sep) + 1, self@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_parse(&self) -> (r: Result<u32, DecodeError>) ensures r is Ok == num(self@) is Some, r matches Ok(n) ==> n == num(self@)->Some_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_has(&self, b: u8) -> (r: bool) requires b < 128 ensures r == self@.contains(b) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_lead_ws(&self) -> (r: bool) ensures r == lead_ws(self@) { unimplemented!() }
}
impl NonZeroU32 {
    #[verifier::external_body]
    pub fn new(n: u32) -> (r: Option<NonZeroU32>) ensures r is None == (n == 0), r matches Some(x) ==> x@ == n { unimplemented!() }
}
impl<'a> Parts<'a> {
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<&'a Str>) requires self.limit() < 0 ensures self.rest() is Some ==> r@.len() == fields(self.rest()->Some_0, self.sep()).len() && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == fields(self.rest()->Some_0, self.sep())[i] { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_b64n(a: &Vec<u8>) -> (r: Str) ensures r@ == b64n(a@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_unb64n(a: &Str) -> (r: Result<Vec<u8>, DecodeError>) ensures r is Ok == unb64n(a@) is Some, r matches Ok(v) ==> v@ == unb64n(a@)->Some_0 { unimplemented!() }
pub struct IoError { pub x: u8 }
#[verifier::external_body]
pub fn vx_io() -> IoError { unimplemented!() }
#[verifier::external_body]
pub struct Input { x: u8 }
impl Input {
    /// the lines up to the first that cannot be read
    pub uninterp spec fn lines(&self) -> Seq<Option<Seq<u8>>>;
    #[verifier::external_body]
    pub fn vx_lines(self) -> (r: Lines) ensures r@ == self.lines() { unimplemented!() }
}
#[verifier::external_body]
pub struct Lines { x: u8 }
impl View for Lines { type V = Seq<Option<Seq<u8>>>; uninterp spec fn view(&self) -> Self::V; }
impl Lines {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Result<Str, IoError>) requires i < self@.len() ensures r is Ok == self@[i as int] is Some, r matches Ok(s) ==> s@ == self@[i as int]->Some_0 { unimplemented!() }
}
#[verifier::external_body]
pub struct Out { x: u8 }
impl View for Out { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Out {
    #[verifier::external_body]
    pub fn write_all(&mut self, d: &[u8]) -> (r: Result<(), IoError>) ensures r is Ok ==> final(self)@ == old(self)@ + d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<(), IoError>) ensures r is Ok ==> final(self)@ == old(self)@ { unimplemented!() }
}
#[verifier::external_body]
pub struct Table { x: u8 }
impl View for Table { type V = Map<Seq<u8>, Entry>; uninterp spec fn view(&self) -> Self::V; }
pub open spec fn alg(a: HashAlgorithm) -> Alg { match a { HashAlgorithm::Sha256 => Alg::S256, HashAlgorithm::Sha512 => Alg::S512, HashAlgorithm::Sha256Pkbdf2 { iterations } => Alg::P256(iterations@), HashAlgorithm::Sha512Pkbdf2 { iterations } => Alg::P512(iterations@) } }
pub open spec fn entry(p: AuthPassword) -> Entry { Entry { alg: alg(p.hash_algorithm), hash: p.hashed_password@, salt: p.salt@ } }
pub struct Item { pub k: Str, pub v: AuthPassword }
impl Item {
    pub fn key(&self) -> (r: &Str) ensures r@ == self.k@ { &self.k }
    pub fn value(&self) -> (r: &AuthPassword) ensures *r == self.v { &self.v }
}
pub open spec fn iview(v: Seq<Item>) -> Seq<(Seq<u8>, Entry)> { v.map_values(|x: Item| (x.k@, entry(x.v))) }
impl Table {
    #[verifier::external_body]
    pub fn new() -> (r: Table) ensures r@ == Map::<Seq<u8>, Entry>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Str, v: AuthPassword) -> (r: Option<AuthPassword>) ensures final(self)@ == old(self)@.insert(k@, entry(v)) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Str) -> (r: Option<&AuthPassword>) ensures r is Some == self@.contains_key(k@), r matches Some(p) ==> entry(*p) == self@[k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_items(&self) -> (r: Vec<Item>) ensures lists(iview(r@), self@) { unimplemented!() }
}
// ---- digests ---------------------------------------------------------------------------------------------------
pub const SHA512_OUTPUT_LEN: usize = 64;
#[verifier::external_body]
pub struct DCtx { x: u8 }
impl DCtx {
    pub uninterp spec fn wide(&self) -> bool;
    pub uninterp spec fn data(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn vx_new(wide: bool) -> (r: DCtx) ensures r.wide() == wide, r.data() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update<B: Byt + ?Sized>(&mut self, d: &B) ensures final(self).wide() == old(self).wide(), final(self).data() =~= old(self).data() + d.by() { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self) -> (r: Dig) ensures r@ == (if self.wide() { sha512(self.data()) } else { sha256(self.data()) }), r@.len() == (if self.wide() { 64int } else { 32 }) { unimplemented!() }
}
#[verifier::external_body]
pub struct Dig { x: u8 }
impl View for Dig { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Dig {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &Vec<u8>) ensures r@ == self@ { unimplemented!() }
}
pub struct Unspecified { pub x: u8 }
#[verifier::external_body]
pub fn vx_verify(wide: bool, iterations: NonZeroU32, salt: &Vec<u8>, password: &[u8], stored: &Vec<u8>) -> (r: Result<(), Unspecified>)
    ensures r is Ok == (stored@.len() > 0 && stored@ == pbkdf2_n(wide, password@, salt@, iterations@, stored@.len() as int)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_derive(wide: bool, iterations: NonZeroU32, salt: &[u8], password: &[u8], out: &mut Vec<u8>)
    ensures final(out)@ == pbkdf2_n(wide, password@, salt@, iterations@, old(out)@.len() as int), final(out)@.len() == old(out)@.len() { unimplemented!() }
#[verifier::external_body]
pub fn vx_zeros(n: usize) -> (r: Vec<u8>) ensures r@.len() == n { unimplemented!() }
#[verifier::external_body]
pub fn vx_veq(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub fn vx_tovec(a: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == a@ { a.clone() }
""")

def unit():
    u = Unit("c04", uses="use vstd::std_specs::cmp::*;\nuse vstd::slice::*;\n", subs=[
        ("fn load_passwords < R : Read >", "fn load_passwords"), ("input : R", "input: Input"), ("io :: Result < DashMap < String , AuthPassword >>", "Result<Table, IoError>"), ("io :: Result < DashMap < String , AuthPassword > >", "Result<Table, IoError>"),
        ("DashMap < String , AuthPassword >", "Table"), ("let passwords = DashMap :: new ( )", "let mut passwords = Table::new()"), ("let mut passwords = DashMap :: new ( )", "let mut passwords = Table::new()"),
        ("BufReader :: with_capacity ( $n , input )", "input"), ("BufReader :: new ( input )", "input"),
        ("for ( $a , $b ) in reader . lines ( ) . enumerate ( ) { $B }", "let vx_lines = reader.vx_lines(); for vx_i in 0..vx_lines.len() { let $a = vx_i; let $b = vx_lines.get(vx_i); $B }"),
        ("io :: ErrorKind :: InvalidData . into ( )", "vx_io()"), ("io :: ErrorKind :: InvalidInput . into ( )", "vx_io()"),
        ("= | $s : & str | -> io :: Result < NonZeroU32 > {", "= |$s: &Str| -> (vx_r: Result<NonZeroU32, IoError>) ensures vx_r is Ok == it_ok($s@) is Some, vx_r matches Ok(vx_n) ==> vx_n@ == it_ok($s@)->Some_0, {"),
        ("let parse_salt = | $s : & str | -> io :: Result < Vec < u8 >> {", "let parse_salt = |$s: &Str| -> (vx_r: Result<Vec<u8>, IoError>) ensures vx_r is Ok == salt_ok($s@) is Some, vx_r matches Ok(vx_n) ==> vx_n@ == salt_ok($s@)->Some_0, {"),
        ("let parse_hashed_password = | $s : & str | -> io :: Result < Vec < u8 >> {", "let parse_hashed_password = |$s: &Str| -> (vx_r: Result<Vec<u8>, IoError>) ensures vx_r is Ok == unb64n($s@) is Some, vx_r matches Ok(vx_n) ==> vx_n@ == unb64n($s@)->Some_0, {"),
        ("STANDARD_NO_PAD . decode ( $x )", "vx_unb64n($x)"), ("STANDARD_NO_PAD . encode ( $x )", "vx_b64n($x)"),
        (". rsplit_once ( ':' )", ".vx_rsplit_once(58u8)"), ("let $v : Vec < _ > =", "let $v ="), (". parse ( )", ".vx_parse()"),
        ("fn dump_passwords < W : Write >", "fn dump_passwords"), ("output : W", "output: &mut Out"), ("io :: Result < ( ) >", "Result<(), IoError>"),
        ("let mut writer = BufWriter :: new ( output )", "let writer = output"),
        ("for $p in passwords . iter ( ) { $B }", "let vx_items = passwords.vx_items(); for vx_i in 0..vx_items.len() { let $p = &vx_items[vx_i]; $B }"),
        (". contains ( '\\n' )", ".vx_has(10u8)"), (". starts_with ( char :: is_whitespace )", ".vx_lead_ws()"),
        ("Context :: new ( & SHA256 )", "DCtx::vx_new(false)"), ("Context :: new ( & SHA512 )", "DCtx::vx_new(true)"),
        ("pbkdf2 :: verify ( PBKDF2_HMAC_SHA256 ,", "vx_verify(false,"), ("pbkdf2 :: verify ( PBKDF2_HMAC_SHA512 ,", "vx_verify(true,"),
        ("pbkdf2 :: derive ( PBKDF2_HMAC_SHA256 ,", "vx_derive(false,"), ("pbkdf2 :: derive ( PBKDF2_HMAC_SHA512 ,", "vx_derive(true,"),
        ("vec ! [ 0u8 ; $n ]", "vx_zeros($n)"), ("ctx . finish ( ) . as_ref ( ) == item . hashed_password", "vx_veq(ctx.finish().as_ref(), &item.hashed_password)"),
        (". as_ref ( ) . to_vec ( )", ".as_ref().clone()"),
    ] + [s for s in SUBS if s[0] in ("& str", "String", ". split ( ',' )")], literals=True)
    u.raw(PRELUDE + SPEC)
    u.item(ST, "HashAlgorithm", attrs="#[derive(Clone, Copy)]"); u.item(ST, "AuthPassword"); u.item(A, "MIN_SALT_LEN")
    u.raw(STANDINS + LEMMAS)
    u.fn(A, Fn("load_passwords", ret="r", spec="""
        ensures r is Ok == table(input.lines()) is Some, r matches Ok(t) ==> t@ == table(input.lines())->Some_0 && wf_table(t@),
        """, loops=[L("for", """
            invariant vx_lines@ == vx_all, vx_all == input.lines(), table(vx_all.subrange(0, vx_i as int)) == Some(passwords@),
            """, before="let ghost vx_all = vx_lines@; proof { assert(vx_all.subrange(0, 0).len() == 0); lemma_table_wf(vx_all); assert(vx_all.subrange(0, vx_all.len() as int) =~= vx_all); }",
            body_pre="proof { let vx_q = vx_all.subrange(0, vx_i + 1); assert(vx_q.drop_last() =~= vx_all.subrange(0, vx_i as int)); assert(vx_q.last() == vx_all[vx_i as int]); if table(vx_q) is None { lemma_prefix_bad(vx_all, vx_i + 1); } broadcast use axiom_num; }")]))
    u.raw("""
/// once a line is refused the file is refused
pub proof fn lemma_prefix_bad(l: Seq<Option<Seq<u8>>>, n: int) requires 0 <= n <= l.len(), table(l.subrange(0, n)) is None ensures table(l) is None decreases l.len() - n {
    if n == l.len() { assert(l.subrange(0, n) =~= l); } else { let q = l.subrange(0, n + 1); assert(q.drop_last() =~= l.subrange(0, n)); lemma_prefix_bad(l, n + 1); }
}
""")
    u.fn(A, Fn("dump_passwords", ret="r", spec="""
        ensures r is Ok ==> exists|items: Seq<(Seq<u8>, Entry)>| #![trigger text_of(items)] lists(items, passwords@) && final(output)@ == old(output)@ + text_of(items)
            && forall|i: int| 0 <= i < items.len() ==> storable((#[trigger] items[i]).0) && utf8(items[i].0),
        """, loops=[L("for", """
            invariant lists(vx_all, passwords@), vx_all == iview(vx_items@), writer@ == vx_out0 + text_of(vx_all.subrange(0, vx_i as int)),
                forall|i: int| 0 <= i < vx_i ==> storable((#[trigger] vx_all[i]).0) && utf8(vx_all[i].0),
            """, before="let ghost vx_all = iview(vx_items@); let ghost vx_out0 = writer@; proof { assert(vx_all.subrange(0, 0).len() == 0); assert(vx_out0 + Seq::<u8>::empty() =~= vx_out0); assert(vx_all.subrange(0, vx_all.len() as int) =~= vx_all); }",
            body_pre="proof { let vx_q = vx_all.subrange(0, vx_i + 1); assert(vx_q.drop_last() =~= vx_all.subrange(0, vx_i as int)); assert(vx_q.last() == vx_all[vx_i as int]); assert(vx_all[vx_i as int] == (vx_items@[vx_i as int].k@, entry(vx_items@[vx_i as int].v))); }",
            body_post="proof { let vx_l = line_of(vx_all[vx_i as int].0, vx_all[vx_i as int].1); assert(writer@ =~= vx_out0 + text_of(vx_all.subrange(0, vx_i as int)) + vx_line); assert(vx_line =~= vx_l.push(10u8)); assert(writer@ =~= vx_out0 + text_of(vx_all.subrange(0, vx_i + 1))); }")],
        subs=[("writer . write_all ( line . as_bytes ( ) ) ? ;", "let ghost vx_line = line@; writer.write_all(line.as_bytes())?;")]))
    u.fn(A, Fn("check_password", ret="r", spec="""
        ensures r ==> passwords@.contains_key(username@), wf_table(passwords@) ==> r == login_ok(passwords@, username@, password@),""", pre="broadcast use lemma_add_empty_l;"))
    u.raw("pub broadcast proof fn lemma_add_empty_l(a: Seq<u8>) ensures #[trigger] (Seq::<u8>::empty() + a) == a { assert(Seq::<u8>::empty() + a =~= a); }\n")
    u.fn(A, Fn("hash_password", ret="r", spec="ensures r@ == pwhash(alg(hash_algorithm), salt@, password@), r@.len() == hash_len(alg(hash_algorithm)),", pre="broadcast use lemma_add_empty_l;"))
    return u

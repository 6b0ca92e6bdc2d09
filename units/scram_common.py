"""Shared by C02 and C03: strings as UTF-8 byte sequences, the uninterpreted primitives, RFC 5802 message formats."""
from vunit import Fn, L
M = "akasa-core/src/protocols/scram/mod.rs"
SUBS = [
    ("& 'static str", "Str"), ("Cow < 'static , str >", "Str"),
    ("& 'a str", "&'a Str"), ("& str", "&Str"), ("String", "Str"),
    ("ring :: hmac :: Tag", "Tag"), ("hmac :: Tag", "Tag"),
    ("STANDARD . encode ( $x )", "vx_b64e(&($x))"),
    ("STANDARD . decode ( $x )", "vx_b64d($x)"),
    (". map_err ( | _ | $e )", ".map_err(|vx_e| $e)"),
    ("std :: mem :: take", "vx_take"),
    (". split ( ',' )", ".vx_split(44u8)"), (". split ( '=' )", ".vx_split(61u8)"),
    (". splitn ( $n , ',' )", ".vx_splitn($n, 44u8)"), (". splitn ( $n , '=' )", ".vx_splitn($n, 61u8)"),
    (". peekable ( )", ""), (". unwrap_or ( \"\" )", ".unwrap_or(vx_empty())"), (". strip_prefix ( $x )", ".vx_strip($x)"), (". as_deref ( )", ".as_ref()"),
    ("Some ( \"\" ) =>", "Some(vx_p) if vx_p.is_empty() =>"),
    ("$n . extend ( Uniform :: try_from ( $a .. $b ) . unwrap ( ) . sample_iter ( rng ) . map ( | $x : u8 | $F ) . take ( $N ) , )",
     "$n.vx_extend_sample($a, $b, |$x: u8| -> (vx_c: char) requires $a <= $x < $b ensures nonce_byte(vx_c as u8), (vx_c as u32) < 128 { $F }, $N)"),
    ("Uniform :: try_from ( $a .. $b ) . unwrap ( ) . sample_iter ( rng ) . map ( | $x : u8 | $F ) . take ( $N ) . collect ( )",
     "vx_sample($a, $b, |$x: u8| -> (vx_c: char) requires $a <= $x < $b ensures nonce_byte(vx_c as u8), (vx_c as u32) < 128 { $F }, $N)"),
    ("R : Rng + ? Sized", "R"),
    # a verifier limitation: `self` is not known unchanged at an exit in the last arm after arms with guards
    ("_ => return Err ( $e ) ,", "_ => { if true { return Err($e); } vx_panic() },"), ("None => return Err ( $e ) ,", "None => { if true { return Err($e); } vx_panic() },"),
    (". chars ( ) . next ( )", ".vx_first_char()"),
    ("$p . as_bytes ( ) . starts_with ( $b )", "$p.as_bytes().vx_sw($b)"),
    (". starts_with ( $b . as_str ( ) )", ".vx_starts_with(&$b)"),
    ("& $p . as_bytes ( ) [ $n .. ]", "$p.as_bytes().vx_bfrom($n)"),
    ("& $p . as_bytes ( ) [ .. 2 ] == prefix", "$p.as_bytes().vx_pre2(prefix)"),
    ("$p . as_bytes ( ) [ .. 2 ] == * prefix", "$p.as_bytes().vx_pre2(prefix)"),
    ("& $p [ $n .. ]", "$p.vx_from($n)"), ("$p [ $n .. ] . to_owned ( )", "$p.vx_from($n).to_owned()"), ("$p [ $n .. ] . to_string ( )", "$p.vx_from($n).to_string()"), ("$p [ $n .. ] . parse ( )", "$p.vx_from($n).vx_parse()"),
    ("vx_b64e ( $x ) != $y {", "!vx_seq(&vx_b64e($x), $y) {"),
    ("if recv_nonce != nonce", "if !vx_seq(recv_nonce, &nonce)"),
    ("if $x != client_proof {", "if !vx_beq(&$x, &client_proof) {"),
]
PRELUDE = r"""
// ---- strings: a Rust string is its UTF-8 bytes --------------------------------------------------------------
#[verifier::external_body]
pub struct Str { x: Vec<u8> }
impl View for Str { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub uninterp spec fn utf8(s: Seq<u8>) -> bool;
pub open spec fn boundary(s: Seq<u8>, i: int) -> bool { i == 0 || i == s.len() || (0 < i < s.len() && !(0x80 <= s[i] <= 0xBF)) }
pub trait Txt { spec fn tx(&self) -> Seq<u8>; }
impl Txt for Str { open spec fn tx(&self) -> Seq<u8> { self@ } }
pub uninterp spec fn dec(n: int) -> Seq<u8>;
impl Txt for u16 { open spec fn tx(&self) -> Seq<u8> { dec(*self as int) } }
impl Txt for u32 { open spec fn tx(&self) -> Seq<u8> { dec(*self as int) } }
impl<'a, X: Txt + ?Sized> Txt for &'a X { open spec fn tx(&self) -> Seq<u8> { (**self).tx() } }
pub trait Byt { spec fn by(&self) -> Seq<u8>; }
impl Byt for Vec<u8> { open spec fn by(&self) -> Seq<u8> { self@ } }
impl Byt for [u8] { open spec fn by(&self) -> Seq<u8> { self@ } }
impl<const N: usize> Byt for [u8; N] { open spec fn by(&self) -> Seq<u8> { self@ } }
impl<'a, X: Byt + ?Sized> Byt for &'a X { open spec fn by(&self) -> Seq<u8> { (**self).by() } }
#[verifier::external_body]
pub fn vx_lit<const N: usize>(a: [u8; N], Ghost(g): Ghost<Seq<u8>>) -> (r: Str) requires a@ =~= g ensures r@ == g { unimplemented!() }
#[verifier::external_body]
pub fn vx_lit0() -> (r: Str) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
pub fn vx_bl<const N: usize>(a: &[u8; N], Ghost(g): Ghost<Seq<u8>>) -> (r: &[u8; N]) requires a@ =~= g ensures r@ == g, *r == *a { a }
pub open spec fn chr1(c: char) -> Seq<u8> { seq![c as u8] }
impl Str {
    #[verifier::external_body]
    pub fn vx_l<const N: usize>(self, a: [u8; N], Ghost(g): Ghost<Seq<u8>>) -> (r: Str) requires a@ =~= g ensures r@ == (if self@.len() == 0 { g } else { self@ + g }) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_a<T: Txt>(self, a: &T) -> (r: Str) ensures r@ == (if self@.len() == 0 { a.tx() } else { self@ + a.tx() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Str) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Str) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    pub fn as_ref(&self) -> (r: &Str) ensures r@ == self@, *r == *self { self }
    pub fn as_str(&self) -> (r: &Str) ensures r@ == self@, *r == *self { self }
    pub fn into(self) -> (r: Str) ensures r@ == self@ { self }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: Str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push_str(&mut self, s: &Str) ensures final(self)@ =~= old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, c: char) requires (c as u32) < 128 ensures final(self)@ =~= old(self)@.push(c as u8) { unimplemented!() }
    /// `s[n..]`, which panics unless n is a character boundary
    #[verifier::external_body]
    pub fn vx_from(&self, n: usize) -> (r: &Str) requires n <= self@.len(), boundary(self@, n as int) ensures r@ == self@.subrange(n as int, self@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_split(&self, sep: u8) -> (r: Parts<'_>) requires sep < 128 ensures r.rest() == Some(self@), r.sep() == sep, r.limit() < 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_splitn(&self, n: usize, sep: u8) -> (r: Parts<'_>) requires sep < 128, n > 0 ensures r.rest() == Some(self@), r.sep() == sep, r.limit() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_first_char(&self) -> (r: Option<char>) ensures (r is None) == (self@.len() == 0), r matches Some(c) ==> (self@[0] < 128 ==> (c as u32) == self@[0] as u32) && (self@[0] >= 128 ==> (c as u32) >= 128) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_starts_with(&self, p: &Str) -> (r: bool) ensures r == pre(p@, self@) { unimplemented!() }
    /// `strip_prefix`
    #[verifier::external_body]
    pub fn vx_strip(&self, p: Str) -> (r: Option<&Str>) ensures r is Some == pre(p@, self@), r matches Some(x) ==> x@ == self@.subrange(p@.len() as int, self@.len() as int) { unimplemented!() }
    /// `replace` of one ASCII character by a string
    #[verifier::external_body]
    pub fn vx_replace<const N: usize>(&self, c: char, by: [u8; N], Ghost(g): Ghost<Seq<u8>>) -> (r: Str) requires (c as u32) < 128, by@ =~= g ensures r@ == subst(self@, c as u8, g) { unimplemented!() }
    /// appends n characters, each the image of some number of lo..hi
    #[verifier::external_body]
    pub fn vx_extend_sample<F: Fn(u8) -> char>(&mut self, lo: u8, hi: u8, f: F, n: usize)
        requires forall|x: u8| lo <= x < hi ==> call_requires(f, (x,)), forall|x: u8, c: char| lo <= x < hi && call_ensures(f, (x,), c) ==> (c as u32) < 128
        ensures final(self)@.len() == old(self)@.len() + n, pre(old(self)@, final(self)@),
            forall|i: int| old(self)@.len() <= i < final(self)@.len() ==> exists|x: u8, c: char| lo <= x < hi && call_ensures(f, (x,), c) && (c as u8) == #[trigger] final(self)@[i] { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_sample<F: Fn(u8) -> char>(lo: u8, hi: u8, f: F, n: usize) -> (r: Str)
    requires forall|x: u8| lo <= x < hi ==> call_requires(f, (x,)), forall|x: u8, c: char| lo <= x < hi && call_ensures(f, (x,), c) ==> (c as u32) < 128
    ensures r@.len() == n, forall|i: int| 0 <= i < r@.len() ==> exists|x: u8, c: char| lo <= x < hi && call_ensures(f, (x,), c) && (c as u8) == #[trigger] r@[i] { unimplemented!() }
pub open spec fn pre(p: Seq<u8>, s: Seq<u8>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) =~= p }
pub open spec fn subst(s: Seq<u8>, c: u8, by: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { s } else { (if s[0] == c { by } else { seq![s[0]] }) + subst(s.subrange(1, s.len() as int), c, by) }
}
#[verifier::external_body]
pub fn vx_empty() -> (r: &'static Str) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
impl PartialEqSpecImpl for Str { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Str) -> bool { self@ == o@ } }
impl PartialEq for Str { #[verifier::external_body] fn eq(&self, o: &Str) -> (r: bool) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_seq(a: &Str, b: &Str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_beq<A: Byt, B: Byt>(a: &A, b: &B) -> (r: bool) ensures r == (a.by() == b.by()) { unimplemented!() }
pub trait VxBytes { spec fn vb(&self) -> Seq<u8>;
    fn vx_sw<const N: usize>(&self, p: &[u8; N]) -> (r: bool) ensures r == pre(p@, self.vb());
    /// `a[..2] == p`, which panics on a shorter slice
    fn vx_pre2(&self, p: &[u8; 2]) -> (r: bool) requires self.vb().len() >= 2 ensures r == pre(p@, self.vb());
    fn vx_b2(&self) -> (r: &[u8; 2]) requires self.vb().len() >= 2 ensures r@ == self.vb().subrange(0, 2);
    fn vx_bfrom(&self, n: usize) -> (r: &[u8]) requires n <= self.vb().len() ensures r@ == self.vb().subrange(n as int, self.vb().len() as int);
}
impl VxBytes for [u8] {
    open spec fn vb(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_sw<const N: usize>(&self, p: &[u8; N]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_pre2(&self, p: &[u8; 2]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_b2(&self) -> (r: &[u8; 2]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_bfrom(&self, n: usize) -> (r: &[u8]) { unimplemented!() }
}

// ---- split iterators ------------------------------------------------------------------------------------------
pub open spec fn cut(s: Seq<u8>, sep: u8) -> int decreases s.len() { if s.len() == 0 || s[0] == sep { 0 } else { 1 + cut(s.subrange(1, s.len() as int), sep) } }
pub open spec fn head(s: Seq<u8>, sep: u8) -> Seq<u8> { s.subrange(0, cut(s, sep)) }
pub open spec fn tail(s: Seq<u8>, sep: u8) -> Option<Seq<u8>> { if cut(s, sep) < s.len() { Some(s.subrange(cut(s, sep) + 1, s.len() as int)) } else { None } }
pub proof fn lemma_cut(s: Seq<u8>, sep: u8)
    ensures 0 <= cut(s, sep) <= s.len(), cut(s, sep) < s.len() ==> s[cut(s, sep)] == sep, forall|i: int| 0 <= i < cut(s, sep) ==> s[i] != sep
    decreases s.len()
{
    if s.len() > 0 && s[0] != sep {
        let t = s.subrange(1, s.len() as int);
        lemma_cut(t, sep);
        assert forall|i: int| 0 <= i < cut(s, sep) implies s[i] != sep by { if i > 0 { assert(t[i - 1] == s[i]); } }
        if cut(s, sep) < s.len() { assert(t[cut(t, sep)] == s[cut(s, sep)]); }
    }
}
#[verifier::external_body]
pub struct Parts<'a> { x: &'a Str }
impl<'a> Parts<'a> {
    pub uninterp spec fn rest(&self) -> Option<Seq<u8>>;
    pub uninterp spec fn sep(&self) -> u8;
    pub uninterp spec fn limit(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a Str>)
        ensures final(self).sep() == old(self).sep(),
            match old(self).rest() {
                None => r is None && final(self).rest() is None && final(self).limit() == old(self).limit(),
                Some(s) => r is Some && (if old(self).limit() == 1 { r->Some_0@ == s && final(self).rest() is None && final(self).limit() == 0 }
                    else { r->Some_0@ == head(s, old(self).sep()) && final(self).rest() == tail(s, old(self).sep()) && final(self).limit() == old(self).limit() - 1 }),
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&'a Str>)
        ensures match self.rest() { None => r is None, Some(s) => r is Some && r->Some_0@ == (if self.limit() == 1 { s } else { head(s, self.sep()) }) }
    { unimplemented!() }
}

// ---- primitives --------------------------------------------------------------------------------------------------
pub uninterp spec fn hmac256(key: Seq<u8>, msg: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn sha256(msg: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn pbkdf2_256(password: Seq<u8>, salt: Seq<u8>, iterations: int) -> Seq<u8>;
pub uninterp spec fn b64(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn unb64(s: Seq<u8>) -> Option<Seq<u8>>;
#[verifier::external_body]
pub fn vx_b64e<A: Byt>(a: &A) -> (r: Str) ensures r@ == b64(a.by()) { unimplemented!() }
pub struct DecodeError { pub x: u8 }
#[verifier::external_body]
pub fn vx_b64d(a: &[u8]) -> (r: Result<Vec<u8>, DecodeError>) ensures r is Ok == unb64(a@) is Some, r matches Ok(v) ==> v@ == unb64(a@)->Some_0 { unimplemented!() }
pub const SHA256_OUTPUT_LEN: usize = 32;
pub const HMAC_SHA256: u8 = 0;
pub struct Sha256Alg { pub x: u8 }
#[verifier::external_body]
pub struct Key { x: u8 }
impl View for Key { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct Context { x: u8 }
impl Context {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    pub uninterp spec fn data(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn with_key(k: &Key) -> (r: Context) ensures r.key() == k@, r.data() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, d: &[u8]) ensures final(self).key() == old(self).key(), final(self).data() == old(self).data() + d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn sign(self) -> (r: Tag) ensures r@ == hmac256(self.key(), self.data()), r@.len() == 32 { unimplemented!() }
}
#[verifier::external_body]
pub struct Tag { x: u8 }
impl View for Tag { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Tag {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_key<A: Byt + ?Sized>(k: &A) -> (r: Key) ensures r@ == k.by() { unimplemented!() }
#[verifier::external_body]
pub fn vx_hsign<A: Byt + ?Sized>(k: &Key, m: &A) -> (r: Tag) ensures r@ == hmac256(k@, m.by()), r@.len() == 32 { unimplemented!() }
#[verifier::external_body]
pub fn vx_sha256(m: &[u8]) -> (r: Tag) ensures r@ == sha256(m@), r@.len() == 32 { unimplemented!() }
#[verifier::external_body]
pub fn vx_pbkdf2(iterations: NonZeroU32, salt: &[u8], password: &[u8], out: &mut [u8; 32]) ensures final(out)@ == pbkdf2_256(password@, salt@, iterations@) { unimplemented!() }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct NonZeroU32 { x: u32 }
impl View for NonZeroU32 { type V = int; uninterp spec fn view(&self) -> int; }
pub fn vx_len3(a: &[u8; 32], b: &[u8], c: &[u8]) -> (r: usize) ensures r == vmin(32, vmin(b@.len() as int, c@.len() as int)) {
    let n = if b.len() < c.len() { b.len() } else { c.len() };
    if n < 32 { n } else { 32 }
}
pub open spec fn vmin(a: int, b: int) -> int { if a < b { a } else { b } }

// ---- RFC 5802 -------------------------------------------------------------------------------------------------------
pub open spec fn scram_auth(gs2: Seq<u8>, bare: Seq<u8>, server_first: Seq<u8>, nonce: Seq<u8>) -> Seq<u8> {
    bare + seq![44u8] + server_first + seq![44u8] + without_proof(gs2, nonce)
}
pub open spec fn without_proof(gs2: Seq<u8>, nonce: Seq<u8>) -> Seq<u8> { seq![99u8, 61u8] + b64(gs2) + seq![44u8, 114u8, 61u8] + nonce }
pub open spec fn client_key(salted: Seq<u8>) -> Seq<u8> { hmac256(salted, seq![67u8, 108, 105, 101, 110, 116, 32, 75, 101, 121]) }   // "Client Key"
pub open spec fn server_key(salted: Seq<u8>) -> Seq<u8> { hmac256(salted, seq![83u8, 101, 114, 118, 101, 114, 32, 75, 101, 121]) }   // "Server Key"
pub open spec fn xors(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { Seq::new(a.len(), |i: int| a[i] ^ b[i]) }
pub open spec fn client_proof_of(salted: Seq<u8>, auth: Seq<u8>) -> Seq<u8> { xors(client_key(salted), hmac256(sha256(client_key(salted)), auth)) }
pub open spec fn server_signature_of(salted: Seq<u8>, auth: Seq<u8>) -> Seq<u8> { hmac256(server_key(salted), auth) }
pub open spec fn nonce_byte(b: u8) -> bool { 33 <= b <= 126 && b != 44 }   // printable except ','
/// a server-first message
pub open spec fn server_first_text(nonce: Seq<u8>, salt: Seq<u8>, iterations: int) -> Seq<u8> {
    seq![114u8, 61u8] + nonce + seq![44u8, 115u8, 61u8] + b64(salt) + seq![44u8, 105u8, 61u8] + dec(iterations)
}
/// saslname: ',' is written =2C and '=' is written =3D
pub open spec fn esc1(b: u8) -> Seq<u8> { if b == 44 { seq![61u8, 50u8, 67u8] } else if b == 61 { seq![61u8, 51u8, 68u8] } else { seq![b] } }
pub open spec fn esc(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { s } else { esc1(s[0]) + esc(s.subrange(1, s.len() as int)) } }
pub open spec fn unesc(s: Seq<u8>) -> Option<Seq<u8>> decreases s.len() {
    if s.len() == 0 { Some(s) }
    else if s[0] == 61 {
        if s.len() >= 3 && s[1] == 50 && s[2] == 67 { ocat(seq![44u8], unesc(s.subrange(3, s.len() as int))) }
        else if s.len() >= 3 && s[1] == 51 && s[2] == 68 { ocat(seq![61u8], unesc(s.subrange(3, s.len() as int))) }
        else { None }
    } else { ocat(seq![s[0]], unesc(s.subrange(1, s.len() as int))) }
}
pub open spec fn ocat(a: Seq<u8>, b: Option<Seq<u8>>) -> Option<Seq<u8>> { match b { Some(x) => Some(a + x), None => None } }
/// the server recovers exactly the name the client wrote
pub proof fn lemma_esc_roundtrip(s: Seq<u8>) ensures unesc(esc(s)) == Some(s), !esc(s).contains(44u8) decreases s.len() {
    if s.len() > 0 {
        let r = s.subrange(1, s.len() as int);
        lemma_esc_roundtrip(r);
        let e = esc(s);
        if s[0] == 44 || s[0] == 61 { assert(e.subrange(3, e.len() as int) =~= esc(r)); } else { assert(e.subrange(1, e.len() as int) =~= esc(r)); }
        assert(seq![s[0]] + r =~= s);
        if e.contains(44u8) { let i = choose|i: int| 0 <= i < e.len() && e[i] == 44u8; let k = esc1(s[0]).len(); if i >= k { assert(esc(r)[i - k] == 44u8); assert(esc(r).contains(44u8)); } assert(false); }
    }
}
"""
FIND_PROOFS = Fn("find_proofs", ret="r", spec="""
    ensures r.0@ =~= client_proof_of(salted_password@, scram_auth(gs2header@, client_first_bare@, server_first@, nonce@)),
        r.1@ == server_signature_of(salted_password@, scram_auth(gs2header@, client_first_bare@, server_first@, nonce@)),
    """, subs=[
        ("ctx . sign ( )", "({ proof { assert(parts@.subrange(0, parts@.len() as int) =~= parts@); } ctx.sign() })"),
        ("fn sign_slice ( key : & Key , parts : & [ & [ u8 ] ] ) -> Tag {", "fn sign_slice(key: &Key, parts: &[&[u8]]) -> (r: Tag) ensures r@ == hmac256(key@, flatten(parts@)), r@.len() == 32 {"),
        ("Key :: new ( HMAC_SHA256 , $x )", "vx_key($x)"),
        ("hmac :: sign ( $k , $m )", "vx_hsign($k, $m)"),
        ("digest ( & digest :: SHA256 , $m )", "vx_sha256($m)"),
        ("for ( $p , ( $k , $s ) ) in $A . iter_mut ( ) . zip ( $B . iter ( ) . zip ( $C ) ) { $X }",
         "for vx_i in 0..vx_len3(&$A, $B, $C) { let $k: u8 = $B[vx_i]; let $s: u8 = $C[vx_i]; let $p: &mut u8 = &mut $A[vx_i]; $X }"),
    ], pre="broadcast use lemma_flat5;", loops=[
        L("for", "invariant ctx.key() == key@, ctx.data() == flatten(parts@.subrange(0, vx_it.index@)),", iter="vx_it",
          body_post="proof { lemma_flatten_push(parts@, vx_it.index@); }",
          before="proof { assert(parts@.subrange(0, 0).len() == 0); }"),
        L("for", """invariant client_key@.len() == 32, client_signature@.len() == 32, client_proof@.len() == 32,
            forall|j: int| 0 <= j < vx_i ==> client_proof@[j] == client_key@[j] ^ client_signature@[j],"""),
    ])
AX_axiom_str_utf8 = '#[verifier::external_body]\npub broadcast proof fn axiom_str_utf8(s: Str) ensures utf8(#[trigger] s@) { }\n'
AX_axiom_utf8_ascii = '#[verifier::external_body]\npub broadcast proof fn axiom_utf8_ascii(s: Seq<u8>, i: int) requires utf8(s), 0 < i <= s.len(), s[i - 1] < 0x80 ensures #[trigger] boundary(s, i) { }\n'
AX_axiom_b64 = '#[verifier::external_body]\npub broadcast proof fn axiom_b64(s: Seq<u8>) ensures unb64(#[trigger] b64(s)) == Some(s), !b64(s).contains(44u8) { }\n'
PRELUDE = "pub mod vx_base { use super::*;\n" + PRELUDE + AX_axiom_str_utf8 + AX_axiom_utf8_ascii + AX_axiom_b64 + "}\nuse vx_base::*;\nbroadcast use vx_base::axiom_str_utf8, vx_base::axiom_utf8_ascii, vx_base::axiom_b64;\n"
import re as _re
def pushes(t):
    """seq![1u8, 2u8] -> Seq::<u8>::empty().push(1u8).push(2u8), the form generated for literals"""
    return _re.sub(r"seq!\[([0-9u, ]+)\]", lambda m: "Seq::<u8>::empty()" + "".join(f".push({x.strip().removesuffix('u8')}u8)" for x in m.group(1).split(",")), t)
PRELUDE = pushes(PRELUDE)
FLATTEN = r"""
pub open spec fn flatten(p: Seq<&[u8]>) -> Seq<u8> decreases p.len() { if p.len() == 0 { Seq::empty() } else { flatten(p.drop_last()) + p.last()@ } }
pub broadcast proof fn lemma_flat5(p: Seq<&[u8]>) requires p.len() == 5 ensures #[trigger] flatten(p) == p[0]@ + p[1]@ + p[2]@ + p[3]@ + p[4]@ {
    reveal_with_fuel(flatten, 6); assert(flatten(p) =~= p[0]@ + p[1]@ + p[2]@ + p[3]@ + p[4]@);
}
pub proof fn lemma_flatten_push(p: Seq<&[u8]>, i: int) requires 0 <= i < p.len() ensures flatten(p.subrange(0, i + 1)) == flatten(p.subrange(0, i)) + p[i]@ {
    let q = p.subrange(0, i + 1);
    assert(q.drop_last() =~= p.subrange(0, i)); assert(q.last() == p[i]);
}
"""
HASH = Fn("hash_password", ret="r", spec="ensures r@ == pbkdf2_256(password@, salt@, iterations@),", subs=[
    ("pbkdf2 :: derive ( SHA256 , $a , $b , $c , $d , )", "vx_pbkdf2($a, $b, $c, $d)"),
    ("pbkdf2 :: derive ( SHA256 , $a , $b , $c , $d )", "vx_pbkdf2($a, $b, $c, $d)")])

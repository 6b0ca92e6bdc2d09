"""C03: the client side of SCRAM-SHA-256: the whole state machine of client.rs and the proof computation of mod.rs."""
from vunit import Unit, Fn, L
from scram_common import *
C = "akasa-core/src/protocols/scram/client.rs"
E = "akasa-core/src/protocols/scram/error.rs"
SPEC = pushes(r"""
pub open spec fn attr(s: Seq<u8>, x: u8) -> Option<Seq<u8>> { if s.len() >= 2 && s[0] == x && s[1] == 61 { Some(s.subrange(2, s.len() as int)) } else { None } }
/// the decimal number a text denotes, None if it is none or outside 1..2^32
pub uninterp spec fn num(s: Seq<u8>) -> Option<int>;
pub struct ServerFirst { pub nonce: Seq<u8>, pub salt: Seq<u8>, pub iterations: int }
/// r=..., s=..., i=... at the start of a server-first message
pub open spec fn server_first_parts(d: Seq<u8>) -> Option<ServerFirst> {
    match attr(head(d, 44), 114) { None => None, Some(nonce) => match tail(d, 44) { None => None, Some(d1) =>
        match attr(head(d1, 44), 115) { None => None, Some(s) => match unb64(s) { None => None, Some(salt) => match tail(d1, 44) { None => None, Some(d2) =>
            match attr(head(d2, 44), 105) { None => None, Some(i) => match num(i) { None => None, Some(iterations) => Some(ServerFirst { nonce, salt, iterations }) } } } } } } }
}
/// the signature of a server-final message
pub open spec fn server_final_sig(d: Seq<u8>) -> Option<Seq<u8>> { match attr(d, 118) { None => None, Some(x) => unb64(x) } }
pub open spec fn oref(o: Option<&Str>) -> Option<Seq<u8>> { match o { Some(x) => Some(x@), None => None } }
pub open spec fn gs2_of(authzid: Option<Seq<u8>>) -> Seq<u8> { match authzid { None => seq![110u8, 44u8, 44u8], Some(z) => seq![110u8, 44u8, 97u8, 61u8] + esc(z) + seq![44u8] } }
pub open spec fn bare_of(authcid: Seq<u8>, nonce: Seq<u8>) -> Seq<u8> { seq![110u8, 61u8] + esc(authcid) + seq![44u8, 114u8, 61u8] + nonce }
/// replacing '=' first and ',' second is the escaping of RFC 5802
pub proof fn lemma_esc_is_subst(s: Seq<u8>) ensures subst(subst(s, 61, seq![61u8, 51u8, 68u8]), 44, seq![61u8, 50u8, 67u8]) =~= esc(s) decreases s.len() {
    let q = seq![61u8, 51u8, 68u8]; let c = seq![61u8, 50u8, 67u8];
    if s.len() > 0 {
        let r = s.subrange(1, s.len() as int);
        lemma_esc_is_subst(r);
        let h = if s[0] == 61 { q } else { Seq::<u8>::empty().push(s[0]) };
        lemma_subst_cat(h, subst(r, 61, q), 44, c);
        assert(subst(s, 61, q) =~= h + subst(r, 61, q));
        reveal_with_fuel(subst, 5);
        if s[0] == 61 { lemma_subst_none(q, 44, c); } else if s[0] == 44 { assert(subst(h, 44, c) =~= c); } else { lemma_subst_none(h, 44, c); assert(h =~= esc1(s[0])); }
    }
}
pub proof fn lemma_subst_none(a: Seq<u8>, x: u8, by: Seq<u8>) requires forall|i: int| 0 <= i < a.len() ==> a[i] != x ensures subst(a, x, by) =~= a decreases a.len() {
    if a.len() > 0 { let r = a.subrange(1, a.len() as int); lemma_subst_none(r, x, by); assert(Seq::<u8>::empty().push(a[0]) + r =~= a); assert(seq![a[0]] =~= Seq::<u8>::empty().push(a[0])); }
}
pub proof fn lemma_subst_cat(a: Seq<u8>, b: Seq<u8>, x: u8, by: Seq<u8>) ensures subst(a + b, x, by) =~= subst(a, x, by) + subst(b, x, by) decreases a.len() {
    if a.len() == 0 { assert(a + b =~= b); assert(subst(a, x, by).len() == 0); }
    else {
        let r = a.subrange(1, a.len() as int);
        lemma_subst_cat(r, b, x, by);
        assert((a + b).subrange(1, (a + b).len() as int) =~= r + b);
        assert((a + b)[0] == a[0]);
    }
}
""")

def unit():
    u = Unit("c03", uses="use vstd::std_specs::cmp::*;\n", subs=[("Cow :: Owned ( $x )", "($x)"), ("p [ 2 .. ] . parse ( )", "p.vx_from(2).vx_parse()")] + SUBS + [("str . parse ( )", "vx_parse()"),
        ("$n . replace ( '=' , \"=3D\" ) . replace ( ',' , \"=2C\" )", "$n.vx_replace('=', [61u8, 51u8, 68u8], Ghost(Seq::<u8>::empty().push(61u8).push(51u8).push(68u8))).vx_replace(',', [61u8, 50u8, 67u8], Ghost(Seq::<u8>::empty().push(61u8).push(50u8).push(67u8)))"),
        ("if $a . as_ref ( ) == $b . as_slice ( ) {", "if vx_beq(&$a.as_ref(), &$b.as_slice()) {"),
        ("& $p . as_bytes ( ) [ .. 2 ]", "$p.as_bytes().vx_b2()"),
        ("matches ! ( parts . peek ( ) , $p if $g )", "(match parts.peek() { $p if $g => true, _ => false })"),
        ('b"v=" =>', 'vx_p if vx_p.vx_sw2(b"v=") =>'), ('b"e=" =>', 'vx_p if vx_p.vx_sw2(b"e=") =>'),
        ], literals=True)
    u.raw(PRELUDE + FLATTEN)
    u.fn(M, HASH); u.fn(M, FIND_PROOFS)
    u.raw(SPEC)
    u.raw(r"""
pub trait VxB2 { spec fn v2(&self) -> Seq<u8>; fn vx_sw2(&self, p: &[u8; 2]) -> (r: bool) ensures r == (self.v2() =~= p@); }
impl VxB2 for [u8; 2] { open spec fn v2(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_sw2(&self, p: &[u8; 2]) -> (r: bool) { unimplemented!() } }
impl Str {
    #[verifier::external_body]
    pub fn vx_parse(&self) -> (r: Result<NonZeroU32, DecodeError>) ensures r is Ok == num(self@) is Some, r matches Ok(n) ==> n@ == num(self@)->Some_0 { unimplemented!() }
}
""")
    u.item(E, "Field"); u.item(E, "Kind"); u.item(E, "Error")
    u.item(C, "ScramClient"); u.item(M, "NONCE_LENGTH")
    u.raw(pushes(r"""
impl<'a> ScramClient<'a> {
    /// the exchange for `authcid` and `password`, before the first message
    pub open spec fn at_new(&self, authcid: Seq<u8>, password: Seq<u8>, gs2: Seq<u8>, nonce: Seq<u8>) -> bool { match *self { ScramClient::New { gs2header, password: p, nonce: n, authcid: a } => gs2header@ == gs2 && p@ == password && n@ == nonce && a@ == authcid, _ => false } }
    pub open spec fn at_first(&self, password: Seq<u8>, gs2: Seq<u8>, nonce: Seq<u8>, bare: Seq<u8>) -> bool { match *self { ScramClient::WaitingForServerFirst { gs2header, password: p, client_nonce, client_first_bare } => gs2header@ == gs2 && p@ == password && client_nonce@ == nonce && client_first_bare@ == bare, _ => false } }
    pub open spec fn at_final(&self, sig: Seq<u8>) -> bool { match *self { ScramClient::WaitingForServerFinal { server_signature } => server_signature@ == sig, _ => false } }
}
"""))
    u.fn(C, Fn("escape", ret="r", spec="ensures r@ == esc(name@), !r@.contains(44u8), unesc(r@) == Some(name@),", pre="proof { lemma_esc_is_subst(name@); lemma_esc_roundtrip(name@); }"))
    u.fn(C, Fn("parse_server_first", ret="r", pre="proof { lemma_cut(data@, 44); }", spec="""
        ensures match server_first_parts(data@) { None => r is Err, Some(f) => r is Ok && r->Ok_0.0@ == f.nonce && r->Ok_0.1@ == f.salt && r->Ok_0.2@ == f.iterations },"""))
    u.fn(C, Fn("parse_server_final", ret="r", spec="""
        ensures match server_final_sig(data@) { None => r is Err, Some(s) => r is Ok && r->Ok_0@ == s },"""))
    u.impl(C, "ScramClient", [
        Fn("with_rng", ret="r", spec="""
            ensures match r { ScramClient::New { gs2header, password: p, nonce: n, authcid: a } => a@ == authcid@ && p@ == password@ && gs2header@ == gs2_of(oref(authzid)) && n@.len() == 24 && (forall|i: int| 0 <= i < n@.len() ==> nonce_byte(#[trigger] n@[i])), _ => false },"""),
        Fn("encode_client_first", ret="r", spec="""
            ensures
                !(*old(self) is New) ==> r is Err && *final(self) == *old(self),
                *old(self) is New ==> r is Ok && match *old(self) { ScramClient::New { gs2header, password, nonce, authcid } =>
                    r->Ok_0@ == gs2header@ + bare_of(authcid@, nonce@) && final(self).at_first(password@, gs2header@, nonce@, bare_of(authcid@, nonce@)), _ => true },"""),
        Fn("decode_server_first", ret="r", spec="""
            ensures
                !(*old(self) is WaitingForServerFirst) ==> r is Err && *final(self) == *old(self),
                match *old(self) { ScramClient::WaitingForServerFirst { gs2header, password, client_nonce, client_first_bare } => match server_first_parts(server_first@) {
                    None => r is Err && *final(self) is Done,
                    Some(f) => {
                        let salted = pbkdf2_256(password@, f.salt, f.iterations);
                        let auth = scram_auth(gs2header@, client_first_bare@, server_first@, f.nonce);
                        if pre(client_nonce@, f.nonce) {
                            r is Ok && r->Ok_0@ == without_proof(gs2header@, f.nonce) + seq![44u8, 112u8, 61u8] + b64(client_proof_of(salted, auth)) && final(self).at_final(server_signature_of(salted, auth))
                        } else { r is Err && *final(self) is Done }
                    },
                }, _ => true },""".replace("seq![44u8, 112u8, 61u8]", "Seq::<u8>::empty().push(44u8).push(112u8).push(61u8)")),
        Fn("decode_server_final", ret="r", spec="""
            ensures
                !(*old(self) is WaitingForServerFinal) ==> r is Err && *final(self) == *old(self),
                match *old(self) { ScramClient::WaitingForServerFinal { server_signature } => *final(self) is Done && r is Ok == (server_final_sig(server_final@) == Some(server_signature@)), _ => true },"""),
    ], extra="\n")
    return u

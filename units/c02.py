"""C02: the server side of SCRAM-SHA-256: the whole state machine of server.rs and the proof computation of mod.rs."""
from vunit import Unit, Fn, L
from scram_common import *
S = "akasa-core/src/protocols/scram/server.rs"
E = "akasa-core/src/protocols/scram/error.rs"
PARSE_SPEC = pushes(r"""
pub struct ClientFirst { pub authcid: Seq<u8>, pub authzid: Option<Seq<u8>>, pub nonce: Seq<u8>, pub gs2: Seq<u8>, pub bare: Seq<u8> }
/// body of an attribute `x=...`
pub open spec fn attr(s: Seq<u8>, x: u8) -> Option<Seq<u8>> { if s.len() >= 2 && s[0] == x && s[1] == 61 { Some(s.subrange(2, s.len() as int)) } else { None } }
/// gs2-header ("n" or "y", ",", optional a=authzid, ",") followed by client-first-message-bare
pub open spec fn client_first(d: Seq<u8>) -> Option<ClientFirst> {
    let flag = head(d, 44);
    if !(flag.len() == 1 && (flag[0] == 110 || flag[0] == 121)) { None } else {
    match tail(d, 44) { None => None, Some(d1) => {
        let az = head(d1, 44);
        match (if az.len() == 0 { Some(None::<Seq<u8>>) } else { match attr(az, 97) { None => None, Some(x) => match unesc(x) { None => None, Some(y) => Some(Some(y)) } } }) { None => None, Some(authzid) => {
            let bare = match tail(d1, 44) { None => Seq::<u8>::empty(), Some(b) => b };
            match attr(head(bare, 44), 110) { None => None, Some(name) => match unesc(name) { None => None, Some(authcid) => {
                match tail(bare, 44) { None => None, Some(b1) => match attr(head(b1, 44), 114) { None => None, Some(nonce) =>
                    Some(ClientFirst { authcid, authzid, nonce, gs2: flag + seq![44u8] + az + seq![44u8], bare })
                } }
            } } }
        } }
    } } }
}
/// the header and the bare message are the message the client sent, cut in two
pub proof fn lemma_first_covers(d: Seq<u8>) requires client_first(d) is Some ensures client_first(d)->Some_0.gs2 + client_first(d)->Some_0.bare =~= d {
    lemma_cut(d, 44);
    let d1 = tail(d, 44)->Some_0;
    lemma_cut(d1, 44);
    assert(d =~= head(d, 44) + Seq::<u8>::empty().push(44u8) + d1);
    let bare = match tail(d1, 44) { None => Seq::<u8>::empty(), Some(b) => b };
    lemma_cut(bare, 44);
    assert(tail(d1, 44) is Some) by { if tail(d1, 44) is None { assert(cut(bare, 44) == 0); assert(head(bare, 44).len() == 0); } }
    assert(d1 =~= head(d1, 44) + Seq::<u8>::empty().push(44u8) + bare);
}
/// what a client following RFC 5802 sends (without channel binding, with or without an authorisation id) is understood
pub proof fn lemma_first_complete(flag: u8, authzid: Option<Seq<u8>>, authcid: Seq<u8>, nonce: Seq<u8>)
    requires flag == 110 || flag == 121, !nonce.contains(44u8), authzid != Some(Seq::<u8>::empty()) || true,
    ensures ({
        let az = match authzid { None => Seq::<u8>::empty(), Some(z) => seq![97u8, 61u8] + esc(z) };
        let gs2 = seq![flag] + seq![44u8] + az + seq![44u8];
        let bare = seq![110u8, 61u8] + esc(authcid) + seq![44u8, 114u8, 61u8] + nonce;
        client_first(gs2 + bare) == Some(ClientFirst { authcid, authzid, nonce, gs2, bare })
    })
{
    let az = match authzid { None => Seq::<u8>::empty(), Some(z) => seq![97u8, 61u8] + esc(z) };
    let gs2 = seq![flag] + seq![44u8] + az + seq![44u8];
    let bare = seq![110u8, 61u8] + esc(authcid) + seq![44u8, 114u8, 61u8] + nonce;
    let d = gs2 + bare;
    lemma_esc_roundtrip(authcid);
    if authzid is Some { lemma_esc_roundtrip(authzid->Some_0); }
    let d1 = az + seq![44u8] + bare;
    assert(!seq![flag].contains(44u8));
    assert(!az.contains(44u8)) by { if authzid is Some { lemma_ncat(seq![97u8, 61u8], esc(authzid->Some_0)); } }
    lemma_cut_app(seq![flag], d1);
    assert(d =~= seq![flag] + seq![44u8] + d1);
    lemma_cut_app(az, bare);
    assert(d1 =~= az + seq![44u8] + bare);
    if authzid is Some { assert(attr(az, 97) == Some(az.subrange(2, az.len() as int))); assert(az.subrange(2, az.len() as int) =~= esc(authzid->Some_0)); }
    let f1 = seq![110u8, 61u8] + esc(authcid);
    lemma_ncat(seq![110u8, 61u8], esc(authcid));
    let b1 = seq![114u8, 61u8] + nonce;
    lemma_cut_app(f1, b1);
    assert(bare =~= f1 + seq![44u8] + b1);
    assert(f1.subrange(2, f1.len() as int) =~= esc(authcid));
    lemma_ncat(seq![114u8, 61u8], nonce);
    lemma_cut_all(b1);
    assert(head(b1, 44) =~= b1);
    assert(b1.subrange(2, b1.len() as int) =~= nonce);
    assert(gs2 =~= head(d, 44) + seq![44u8] + head(d1, 44) + seq![44u8]);
}
pub proof fn lemma_ncat(a: Seq<u8>, b: Seq<u8>) requires a.len() == 2, a[0] != 44, a[1] != 44, !b.contains(44u8) ensures !(a + b).contains(44u8) {
    if (a + b).contains(44u8) { let i = choose|i: int| 0 <= i < (a + b).len() && (a + b)[i] == 44u8; if i >= 2 { assert(b[i - 2] == 44u8); } }
}
pub proof fn lemma_cut_at(s: Seq<u8>, n: int) requires 0 <= n <= s.len(), n < s.len() ==> s[n] == 44u8, forall|i: int| 0 <= i < n ==> s[i] != 44u8 ensures cut(s, 44) == n {
    lemma_cut(s, 44);
    if cut(s, 44) < n { assert(s[cut(s, 44)] != 44u8); }
}
pub proof fn lemma_cut_app(a: Seq<u8>, b: Seq<u8>) requires !a.contains(44u8) ensures cut(a + seq![44u8] + b, 44) == a.len(), head(a + seq![44u8] + b, 44) =~= a, tail(a + seq![44u8] + b, 44) is Some, tail(a + seq![44u8] + b, 44)->Some_0 =~= b {
    let s = a + seq![44u8] + b;
    assert forall|i: int| 0 <= i < a.len() implies s[i] != 44u8 by { assert(a.contains(a[i])); }
    lemma_cut_at(s, a.len() as int);
}
pub proof fn lemma_cut_all(a: Seq<u8>) requires !a.contains(44u8) ensures cut(a, 44) == a.len() {
    assert forall|i: int| 0 <= i < a.len() implies a[i] != 44u8 by { assert(a.contains(a[i])); }
    lemma_cut_at(a, a.len() as int);
}
/// c=..., r=..., p=... at the start of the client-final message
pub open spec fn client_final_parts(d: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>, Seq<u8>)> {
    match attr(head(d, 44), 99) { None => None, Some(c) => match tail(d, 44) { None => None, Some(d1) =>
        match attr(head(d1, 44), 114) { None => None, Some(r) => match tail(d1, 44) { None => None, Some(d2) =>
            match attr(head(d2, 44), 112) { None => None, Some(p) => Some((c, r, p)) } } } } }
}
/// RFC 5802: channel binding and nonce repeat the exchange, the proof is the one of the stored password over the messages
pub open spec fn final_valid(f: (Seq<u8>, Seq<u8>, Seq<u8>), salted: Seq<u8>, nonce: Seq<u8>, gs2: Seq<u8>, bare: Seq<u8>, server_first: Seq<u8>) -> bool {
    f.0 == b64(gs2) && f.1 == nonce && unb64(f.2) == Some(client_proof_of(salted, scram_auth(gs2, bare, server_first, nonce)))
}
pub open spec fn oview(o: Option<Str>) -> Option<Seq<u8>> { match o { Some(x) => Some(x@), None => None } }
pub open spec fn oref(o: Option<&Str>) -> Option<Seq<u8>> { match o { Some(x) => Some(x@), None => None } }
pub open spec fn cont(rest: Option<Seq<u8>>) -> Option<Seq<u8>> { match rest { None => Some(Seq::<u8>::empty()), Some(r) => unesc(seq![61u8] + r) } }
pub proof fn lemma_unesc_plain(p: Seq<u8>, t: Seq<u8>) requires forall|i: int| 0 <= i < p.len() ==> p[i] != 61 ensures unesc(p + t) == ocat(p, unesc(t)) decreases p.len() {
    if p.len() == 0 { assert(p + t =~= t); if unesc(t) is Some { assert(p + unesc(t)->Some_0 =~= unesc(t)->Some_0); } }
    else {
        let q = p.subrange(1, p.len() as int);
        lemma_unesc_plain(q, t);
        let s = p + t;
        assert(s.subrange(1, s.len() as int) =~= q + t);
        assert(s[0] == p[0]);
        if unesc(t) is Some { assert(seq![p[0]] + (q + unesc(t)->Some_0) =~= p + unesc(t)->Some_0); }
    }
}
pub broadcast proof fn lemma_add_empty(a: Seq<u8>) ensures #[trigger] ocat(a, Some(Seq::<u8>::empty())) == Some(a) { assert(a + Seq::<u8>::empty() =~= a); }
pub proof fn lemma_ocat(a: Seq<u8>, b: Seq<u8>, c: Option<Seq<u8>>) ensures ocat(a, ocat(b, c)) == ocat(a + b, c) { if c is Some { assert(a + (b + c->Some_0) =~= a + b + c->Some_0); } }
/// a string is its first part, then the separator and the rest
pub proof fn lemma_parts(s: Seq<u8>) ensures
    unesc(s) == ocat(head(s, 61), cont(tail(s, 61))),
{
    lemma_cut(s, 61);
    let h = head(s, 61);
    let t = match tail(s, 61) { None => Seq::<u8>::empty(), Some(r) => seq![61u8] + r };
    assert(s =~= h + t);
    assert forall|i: int| 0 <= i < h.len() implies h[i] != 61 by { assert(s[i] != 61); }
    lemma_unesc_plain(h, t);
}
/// after '=': the two characters that follow decide
pub proof fn lemma_code(r: Seq<u8>) ensures
    pre(seq![50u8, 67u8], head(r, 61)) ==> cont(Some(r)) == ocat(seq![44u8] + head(r, 61).subrange(2, head(r, 61).len() as int), cont(tail(r, 61))),
    pre(seq![51u8, 68u8], head(r, 61)) ==> cont(Some(r)) == ocat(seq![61u8] + head(r, 61).subrange(2, head(r, 61).len() as int), cont(tail(r, 61))),
    !pre(seq![50u8, 67u8], head(r, 61)) && !pre(seq![51u8, 68u8], head(r, 61)) ==> cont(Some(r)) is None,
{
    lemma_cut(r, 61);
    let s = seq![61u8] + r; let h = head(r, 61);
    assert(s[0] == 61);
    let two = h.len() >= 2;
    if r.len() >= 2 { assert(s[1] == r[0] && s[2] == r[1]); }
    assert forall|a: u8, b: u8| a != 61 && b != 61 && r.len() >= 2 && r[0] == a && r[1] == b implies #[trigger] pre(seq![a, b], h) by {
        assert(cut(r, 61) >= 2) by { if cut(r, 61) == 0 { assert(r[0] == 61); } if cut(r, 61) == 1 { assert(r[1] == 61); } }
        assert(h.subrange(0, 2) =~= seq![a, b]);
    }
    assert forall|a: u8, b: u8| #[trigger] pre(seq![a, b], h) implies r.len() >= 2 && r[0] == a && r[1] == b && h.len() >= 2 by {
        let q = h.subrange(0, 2); assert(q =~= seq![a, b]); assert(q[0] == a && q[1] == b);
    }
    if pre(seq![50u8, 67u8], h) || pre(seq![51u8, 68u8], h) {
        let u = s.subrange(3, s.len() as int);
        let h2 = h.subrange(2, h.len() as int);
        let t = match tail(r, 61) { None => Seq::<u8>::empty(), Some(q) => seq![61u8] + q };
        assert(u =~= h2 + t);
        assert forall|i: int| 0 <= i < h2.len() implies h2[i] != 61 by { assert(r[i + 2] != 61); }
        lemma_unesc_plain(h2, t);
        if unesc(t) is Some {
            let y = unesc(t)->Some_0;
            assert(seq![44u8] + (h2 + y) =~= seq![44u8] + h2 + y);
            assert(seq![61u8] + (h2 + y) =~= seq![61u8] + h2 + y);
        }
    }
}
""").replace("seq![flag]", "Seq::<u8>::empty().push(flag)").replace("seq![a, b]", "Seq::<u8>::empty().push(a).push(b)").replace("seq![p[0]]", "Seq::<u8>::empty().push(p[0])")
FIELD = dict(spec="""
            requires prefix@[1] < 128,
            ensures final(parts).sep() == old(parts).sep(), final(parts).limit() <= old(parts).limit() || old(parts).rest() is None,
                match old(parts).rest() {
                    None => r is Err && final(parts).rest() is None,
                    Some(s) => old(parts).limit() < 0 ==> final(parts).rest() == tail(s, old(parts).sep()) && final(parts).limit() < 0
                        && (if pre(prefix@, head(s, old(parts).sep())) { r is Ok && r->Ok_0@ == head(s, old(parts).sep()).subrange(2, head(s, old(parts).sep()).len() as int) } else { r is Err }),
                },
            """, ret="r", sig_subs=[("& mut impl Iterator < Item = impl AsRef < str >>", "&mut Parts<'_>"), ("& mut impl Iterator < Item = & 'a Str >", "&mut Parts<'a>")])

def unit():
    u = Unit("c02", uses="use vstd::std_specs::cmp::*;\n", subs=SUBS, literals=True)
    u.raw(PRELUDE + FLATTEN)
    u.fn(M, HASH); u.fn(M, FIND_PROOFS)
    u.raw(PARSE_SPEC)
    u.item(E, "Field"); u.item(E, "Kind"); u.item(E, "Error")
    u.item(S, "AuthenticationStatus"); u.item(S, "ScramServer"); u.item(M, "NONCE_LENGTH")
    u.raw(pushes(r"""
impl ScramServer {
    pub open spec fn who(&self) -> Option<Seq<u8>> { match *self { ScramServer::WaitingForPassword { authcid, .. } => Some(authcid@), ScramServer::WaitingForClientFinal { authcid, .. } => Some(authcid@), ScramServer::Authenticated { authcid, .. } => Some(authcid@), _ => None } }
    pub open spec fn for_whom(&self) -> Option<Seq<u8>> { match *self { ScramServer::WaitingForPassword { authzid, .. } => oview(authzid), ScramServer::WaitingForClientFinal { authzid, .. } => oview(authzid), ScramServer::Authenticated { authzid, .. } => oview(authzid), _ => None } }
    pub open spec fn first(&self) -> ClientFirst { match *self { ScramServer::WaitingForPassword { authcid, authzid, client_nonce, gs2header, client_first_bare } => ClientFirst { authcid: authcid@, authzid: oview(authzid), nonce: client_nonce@, gs2: gs2header@, bare: client_first_bare@ }, _ => arbitrary() } }
    pub open spec fn at_password(&self, f: ClientFirst) -> bool { *self is WaitingForPassword && self.first() == f }
    pub open spec fn f_password(&self) -> Seq<u8> { self->WaitingForClientFinal_hashed_password@ }
    pub open spec fn f_nonce(&self) -> Seq<u8> { self->WaitingForClientFinal_nonce@ }
    pub open spec fn f_gs2(&self) -> Seq<u8> { self->WaitingForClientFinal_gs2header@ }
    pub open spec fn f_bare(&self) -> Seq<u8> { self->WaitingForClientFinal_client_first_bare@ }
    pub open spec fn f_first(&self) -> Seq<u8> { self->WaitingForClientFinal_server_first@ }
    /// waiting for the proof of `password` over exactly the messages `f` and `text`, with a nonce that extends the client's
    pub open spec fn at_final(&self, f: ClientFirst, password: Seq<u8>, salt: Seq<u8>, iterations: int, text: Seq<u8>) -> bool {
        &&& *self is WaitingForClientFinal
        &&& self.who() == Some(f.authcid) && self.for_whom() == f.authzid
        &&& self.f_password() == password && self.f_gs2() == f.gs2 && self.f_bare() == f.bare && self.f_first() == text
        &&& text == server_first_text(self.f_nonce(), salt, iterations)
        &&& pre(f.nonce, self.f_nonce()) && self.f_nonce().len() == f.nonce.len() + 24
        &&& forall|i: int| f.nonce.len() <= i < self.f_nonce().len() ==> nonce_byte(#[trigger] self.f_nonce()[i])
    }
}
"""))
    u.fn(S, Fn("next_field", **FIELD))
    u.fn(S, Fn("parse_field", **FIELD))
    u.fn(S, Fn("parse_client_final", ret="r", spec="""
            ensures match client_final_parts(data@) { None => r is Err, Some(f) => r is Ok && r->Ok_0.0@ == f.0 && r->Ok_0.1@ == f.1 && r->Ok_0.2@ == f.2 },"""))
    u.fn(S, Fn("unescape", ret="r", spec="""
            ensures match unesc(name@) { None => r is Err, Some(s) => r is Ok && r->Ok_0@ == s },""",
        subs=[("for $p in parts { $B }", "while let Some($p) = parts.next() { $B }")],
        pre="broadcast use lemma_add_empty;",
        loops=[L("while", """
            invariant parts.sep() == 61, parts.limit() < 0, vx_r == parts.rest(), unesc(name@) == ocat(output@, cont(vx_r)),
            ensures unesc(name@) == Some(output@),
            decreases (match vx_r { None => 0int, Some(s) => s.len() as int + 1 }),
            """, before="let ghost mut vx_r = parts.rest(); proof { lemma_parts(name@); }",
            body_pre="proof { lemma_code(vx_r->Some_0); lemma_cut(vx_r->Some_0, 61); let h = head(vx_r->Some_0, 61); if h.len() >= 2 { let q = h.subrange(2, h.len() as int); lemma_ocat(output@, Seq::<u8>::empty().push(44u8) + q, cont(parts.rest())); lemma_ocat(output@, Seq::<u8>::empty().push(61u8) + q, cont(parts.rest())); assert(output@.push(44u8) + q =~= output@ + (Seq::<u8>::empty().push(44u8) + q)); assert(output@.push(61u8) + q =~= output@ + (Seq::<u8>::empty().push(61u8) + q)); } }", body_post="proof { vx_r = parts.rest(); }")]))
    u.impl(S, "ScramServer", [
        Fn("new", ret="r", spec="ensures r is New,"),
        Fn("decode_client_first", ret="r", spec="""
            ensures
                !(*old(self) is New) ==> r is Err && *final(self) == *old(self),
                *old(self) is New ==> match client_first(data@) {
                    None => r is Err && *final(self) is New,
                    Some(f) => r is Ok && final(self).at_password(f),
                },
            """),
        Fn("authcid", ret="r", spec="ensures oref(r) == self.who(),"),
        Fn("authzid", ret="r", spec="ensures r is Some == self.who() is Some, r is Some ==> oref(r->Some_0) == self.for_whom(),"),
        Fn("encode_server_first", ret="r", spec="""
            ensures
                !(*old(self) is WaitingForPassword) ==> r is Err && *final(self) == *old(self),
                *old(self) is WaitingForPassword ==> r is Ok && final(self).at_final(old(self).first(), hashed_password@, salt@, iterations as int, r->Ok_0@),
            """),
        Fn("decode_client_final", ret="r", spec="""
            ensures
                !(*old(self) is WaitingForClientFinal) ==> r is Err && *final(self) == *old(self),
                *old(self) is WaitingForClientFinal ==> {
                    let s = *old(self);
                    let ok = match client_final_parts(client_final@) { None => false, Some(f) => final_valid(f, s.f_password(), s.f_nonce(), s.f_gs2(), s.f_bare(), s.f_first()) };
                    let auth = scram_auth(s.f_gs2(), s.f_bare(), s.f_first(), s.f_nonce());
                    let allowed = s.for_whom() is None || s.for_whom() == s.who();
                    &&& (r is Ok && r->Ok_0.0 is Authenticated) == (ok && allowed)
                    &&& ok && allowed ==> r->Ok_0.1@ == seq![118u8, 61u8] + b64(server_signature_of(s.f_password(), auth))
                            && *final(self) is Authenticated && final(self).who() == s.who() && final(self).for_whom() == s.for_whom()
                    &&& !(ok && allowed) ==> *final(self) is Done
                },
            """),
    ], extra="\n")
    return u

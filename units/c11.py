"""C11: the hook points of hook.rs - the codes a verdict stands for, and what happens around a hook for each request."""
from vunit import Unit, Fn, L
import c05, sess_common as S, v3_out as O, conn5 as N
H = "akasa-core/src/hook.rs"
OL = "akasa-core/src/protocols/mqtt/online_loop.rs"
V3EXTRA = "".join(f"impl Clone for {p} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n" for p in ("Publish", "Subscribe", "Unsubscribe"))
def types():
    v5 = S.v5types() + """
impl Suback { #[verifier::external_body] pub fn new(pid: Pid, topics: Vec<SubscribeReasonCode>) -> (r: Suback) ensures r.pid == pid, r.topics == topics, dflt_SubackProperties(r.properties) { unimplemented!() } }
impl Unsuback { #[verifier::external_body] pub fn new(pid: Pid, topics: Vec<UnsubscribeReasonCode>) -> (r: Unsuback) ensures r.pid == pid, r.topics == topics, dflt_UnsubackProperties(r.properties) { unimplemented!() } }
#[verifier::external_body]
pub struct Connect { x: u8 }
"""
    v3 = O.TYPES + V3EXTRA + "#[verifier::external_body]\npub struct Connect { x: u8 }\n"
    return "pub mod v5 { use super::*;\n" + plain(v5) + "}\npub mod v3 { use super::*;\n" + plain(v3) + "}\n"
def plain(s):
    """the derive of Structural does not work inside a module; executable equality on these is not needed here"""
    s = s.replace("#[derive(Clone, Copy, PartialEq, Eq, Structural)]", "#[derive(Clone, Copy)]")
    return "".join(x + "\n" for x in s.splitlines() if not x.startswith("impl vstd::std_specs::cmp::PartialEqSpecImpl for") or "VarByteInt" in x)
SUBS = [
    ("LockedHookContext < SessionV5 >", "Ctx5"), ("LockedHookContext < SessionV3 >", "Ctx3"), ("Vec < MaybeUninit < u8 >>", "Body"), ("Vec < MaybeUninit < u8 > >", "Body"),
    ("io :: Result", "IoRes"), ("io :: ErrorKind :: InvalidData . into ( )", "vx_io()"), ("io :: Error", "IoError"),
    ("Option < Arc < str >>", "Option<Str>"), ("Option < Arc < str > >", "Option<Str>"),
    ("H : Hook + Send + Sync", "H: Hook"), ("global : Arc < GlobalState >", "global: &mut GlobalState"),
    ("let body : & [ u8 ] = unsafe { mem :: transmute ( & packet_body [ .. ] ) } ;", "let body: &[u8] = vx_body(&packet_body);"),
    ("( session , publish . clone ( ) , & global )", "(session, publish.clone(), global)"), ("( session , & $x , & global )", "(session, &$x, global)"),
    ("write_packets . push_back ( $x . into ( ) )", "write_packets.push_back(WritePacket::Packet($x))"),
    (". map_err ( | $e | Some ( $f . into ( ) ) )", ".vx_some()"), (". map_err ( Into :: into )", ".vx_into()"), ("Err ( err ) => Err ( Some ( err . into ( ) ) )", "Err(err) => Err(Some(err.vx_io()))"),
    ("context . get_mut ( )", "context.get_mut(vx_world)"), ("context . session_ref ( )", "context.session_ref(vx_world)"),
    ("for packet in packets { $B }", "let mut packets = packets; while packets.len() > 0 { let packet = vx_shift(&mut packets); $B }"),
    ("suback . topics . clone ( )", "vx_clone(&suback.topics)"), ("vec ! [ $x ; $n ]", "vx_vec($x, $n)"),
]
for v in ("v5", "v3"):
    for what in ("connect", "publish", "subscribe", "unsubscribe", "disconnect"):
        for w in ("before", "after"):
            SUBS.append((f". {v}_{w}_{what} (", f".{v}_{w}_{what}(global,"))
WORLD = r"""
#[verifier::external_body]
pub struct SessionV5 { x: u8 }
#[verifier::external_body]
pub struct SessionV3 { x: u8 }
#[verifier::external_body]
pub struct Ctx5 { x: u8 }
#[verifier::external_body]
pub struct Ctx3 { x: u8 }
#[verifier::external_body]
pub struct Body { x: u8 }
#[verifier::external_body]
pub fn vx_body(b: &Body) -> (r: &[u8]) ensures r@ == bytes_of(*b) { unimplemented!() }
pub uninterp spec fn bytes_of(b: Body) -> Seq<u8>;
#[verifier::external_body]
pub fn vx_vec<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }
#[verifier::external_body]
pub fn vx_clone<T: Copy>(x: &Vec<T>) -> (r: Vec<T>) ensures r@ == x@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_shift<T>(v: &mut Vec<T>) -> (r: T) requires old(v)@.len() > 0 ensures r == old(v)@[0], final(v)@ == old(v)@.skip(1) { unimplemented!() }
/// the session and its write queue the request points to: OnlineLoop::poll does not touch them while the request is worked on
pub struct World5 { pub s: SessionV5, pub out: Q<WritePacket<v5::Packet>> }
pub struct World3 { pub s: SessionV3, pub out: Q<WritePacket<v3::Packet>> }
pub struct World { pub w5: World5, pub w3: World3 }
impl Ctx5 {
    #[verifier::external_body]
    pub fn get_mut<'a>(&mut self, w: &'a mut World) -> (r: (&'a mut SessionV5, &'a mut Q<WritePacket<v5::Packet>>))
        ensures *r.0 == old(w).w5.s, *r.1 == old(w).w5.out, *final(w) == (World { w5: World5 { s: *final(r.0), out: *final(r.1) }, ..*old(w) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn session_ref<'a>(&self, w: &'a World) -> (r: &'a SessionV5) ensures *r == w.w5.s { unimplemented!() }
}
impl Ctx3 {
    #[verifier::external_body]
    pub fn get_mut<'a>(&mut self, w: &'a mut World) -> (r: (&'a mut SessionV3, &'a mut Q<WritePacket<v3::Packet>>))
        ensures *r.0 == old(w).w3.s, *r.1 == old(w).w3.out, *final(w) == (World { w3: World3 { s: *final(r.0), out: *final(r.1) }, ..*old(w) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn session_ref<'a>(&self, w: &'a World) -> (r: &'a SessionV3) ensures *r == w.w3.s { unimplemented!() }
}
impl HookError { #[verifier::external_body] pub fn vx_io(self) -> IoError { unimplemented!() } }
pub trait VxRes<T>: Sized {
    spec fn res(self) -> HookResult<T>;
    fn vx_some(self) -> (r: Result<T, Option<IoError>>) ensures match self.res() { Ok(x) => r == Ok::<T, Option<IoError>>(x), Err(_) => r matches Err(Some(_)) };
    fn vx_into(self) -> (r: IoRes<T>) ensures match self.res() { Ok(x) => r == Ok::<T, IoError>(x), Err(_) => r is Err };
}
impl<T> VxRes<T> for HookResult<T> {
    open spec fn res(self) -> HookResult<T> { self }
    #[verifier::external_body]
    fn vx_some(self) -> (r: Result<T, Option<IoError>>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_into(self) -> (r: IoRes<T>) { unimplemented!() }
}
/// what a hook sees of a packet besides the packet
pub struct Raw { pub len: usize, pub body: Seq<u8> }
/// consultations of the hook (B before, A after) and packets taken up (H), in order
pub enum Ev {
    BC5 { peer: SocketAddr, p: v5::Connect, code: HookResult<HookConnectCode> }, AC5 { s: SessionV5, present: bool, r: HookResult<Vec<HookAction>> }, AD5 { s: SessionV5, taken: bool, r: HookResult<()> },
    BC3 { peer: SocketAddr, p: v3::Connect, code: HookResult<HookConnectCode> }, AC3 { s: SessionV3, present: bool, r: HookResult<Vec<HookAction>> }, AD3 { s: SessionV3, taken: bool, r: HookResult<()> },
"""
# (version, packet, answer of the handler)
KINDS = [("5", "P", "Publish", "publish", "HookPublishCode", "Result<Option<v5::Packet>, v5::Packet>"), ("5", "S", "Subscribe", "subscribe", "HookSubscribeCode", "Result<Vec<v5::Packet>, v5::Packet>"), ("5", "U", "Unsubscribe", "unsubscribe", "HookUnsubscribeCode", "v5::Packet"),
         ("3", "P", "Publish", "publish", "HookPublishCode", "Result<Option<v3::Packet>, IoError>"), ("3", "S", "Subscribe", "subscribe", "HookSubscribeCode", "Result<Vec<v3::Packet>, IoError>"), ("3", "U", "Unsubscribe", "unsubscribe", "HookUnsubscribeCode", "v3::Packet")]
LOGGED = "*final(g) == (GlobalState { log: final(g).log, ..*old(g) }), "
def log(ev): return f"{LOGGED}final(g).log@ == old(g).log@.push({ev})"
def world():
    s = WORLD
    for v, k, T, t, C, R in KINDS:
        S5 = "SessionV" + v
        codes = f", codes: Option<Seq<v{v}::{'SubscribeReasonCode' if v == '5' else 'SubscribeReturnCode'}>>" if k == "S" else ""
        s += f"    B{k}{v} {{ s: {S5}, raw: Raw, given: v{v}::{T}, made: v{v}::{T}, changed: bool, code: HookResult<{C}> }}, H{k}{v} {{ s: {S5}, t: {S5}, p: v{v}::{T}, r: {R} }}, A{k}{v} {{ s: {S5}, raw: Raw, p: v{v}::{T}, changed: bool{codes}, r: HookResult<Vec<HookAction>> }},\n"
    s += "}\npub struct GlobalState { pub log: Ghost<Seq<Ev>>, pub x: u8 }\n"
    s += "pub trait Hook: Sized {\n"
    for v in ("5", "3"):
        S5 = "SessionV" + v
        s += f"    fn v{v}_before_connect(&self, g: &mut GlobalState, peer: SocketAddr, c: &v{v}::Connect) -> (r: HookResult<HookConnectCode>) ensures {log(f'Ev::BC{v} {{ peer, p: *c, code: r }}')};\n"
        s += f"    fn v{v}_after_connect(&self, g: &mut GlobalState, s: &{S5}, present: bool) -> (r: HookResult<Vec<HookAction>>) ensures {log(f'Ev::AC{v} {{ s: *s, present, r }}')};\n"
        s += f"    fn v{v}_after_disconnect(&self, g: &mut GlobalState, s: &{S5}, taken: bool) -> (r: HookResult<()>) ensures {log(f'Ev::AD{v} {{ s: *s, taken, r }}')};\n"
    for v, k, T, t, C, R in KINDS:
        S5 = "SessionV" + v; raw = "raw: Raw { len: n, body: body@ }"
        s += f"    fn v{v}_before_{t}(&self, g: &mut GlobalState, s: &{S5}, n: usize, body: &[u8], p: &mut v{v}::{T}, changed: &mut bool) -> (r: HookResult<{C}>) ensures {log(f'Ev::B{k}{v} {{ s: *s, {raw}, given: *old(p), made: *final(p), changed: *final(changed), code: r }}')};\n"
        cs = (f", codes: Option<Vec<v{v}::{'SubscribeReasonCode' if v == '5' else 'SubscribeReturnCode'}>>", ", codes: vx_view(codes)") if k == "S" else ("", "")
        s += f"    fn v{v}_after_{t}(&self, g: &mut GlobalState, s: &{S5}, n: usize, body: &[u8], p: &v{v}::{T}, changed: bool{cs[0]}) -> (r: HookResult<Vec<HookAction>>) ensures {log(f'Ev::A{k}{v} {{ s: *s, {raw}, p: *p, changed{cs[1]}, r }}')};\n"
    s += "}\npub open spec fn vx_view<T>(o: Option<Vec<T>>) -> Option<Seq<T>> { match o { None => None, Some(v) => Some(v@) } }\n"
    for v, k, T, t, C, R in KINDS:
        a, b = ("p: v%s::%s" % (v, T), "p") if k == "P" else ("p: &v%s::%s" % (v, T), "p: *p")
        s += f"/// C12-C14 say what it does\n#[verifier::external_body]\npub fn v{v}_handle_{t}(s: &mut SessionV{v}, {a}, g: &mut GlobalState) -> (r: {R}) ensures {log(f'Ev::H{k}{v} {{ s: *old(s), t: *final(s), {b}, r }}')} {{ unimplemented!() }}\n"
    return s
def req(v, k, T, t, C, R):
    n = "l0.len() as int"
    given = f"l.len() > l0.len() && (l[{n}] matches Ev::B{k}{v} {{ s, raw, given, made, changed, code }} && s == a.s && given == {t} && raw == (Raw {{ len: encode_len, body: bytes_of(packet_body) }}) && (match code {{\n"
    untouched = f"l.len() == l0.len() + 1 && b == a"
    err = f"                    Err(_) => {untouched} && x matches Err(Some(_)),\n"
    if k == "P":
        ok = f"""                    Ok({C}::Success) => l.len() >= l0.len() + 2 && (l[{n} + 1] matches Ev::HP{v} {{ s: s1, t: t1, p, r: q }} && s1 == a.s && p == made && b.s == t1 && (match q {{
                        Err(e) => l.len() == l0.len() + 2 && {"b.out@ == a.out@.push(WritePacket::Packet(e)) && (x matches Ok(v) && v@.len() == 0)" if v == "5" else "b.out@ == a.out@ && x == Err::<Vec<HookAction>, Option<IoError>>(Some(e))"},
                        Ok(o) => l.len() == l0.len() + 3 && b.out@ == (match o {{ None => a.out@, Some(e) => a.out@.push(WritePacket::Packet(e)) }}) && (l[{n} + 2] matches Ev::AP{v} {{ s: s2, raw: raw2, p: p2, changed: c2, r: q2 }} && s2 == t1 && raw2 == raw && p2 == made && c2 == changed && done(x, q2)),
                    }})),
"""
    elif k == "S":
        fail = f"""l.len() == l0.len() + 3 && b.out@ == {'a.out@.push(WritePacket::Packet(e))' if v == '5' else 'a.out@'} && (l[{n} + 2] matches Ev::AS{v} {{ s: s2, raw: raw2, p: p2, changed: c2, codes: k2, r: q2 }} && s2 == t1 && raw2 == raw && p2 == made && c2 == changed && k2 is None && {"done(x, q2)" if v == "5" else "x == Err::<Vec<HookAction>, Option<IoError>>(Some(e))"})"""
        ok = f"""                    Ok({C}::Success) => l.len() >= l0.len() + 2 && (l[{n} + 1] matches Ev::HS{v} {{ s: s1, t: t1, p, r: q }} && s1 == a.s && p == made && b.s == t1 && (match q {{
                        Err(e) => {fail},
                        Ok(ps) => l.len() == l0.len() + 3 && b.out@ == a.out@ + packets{v}(ps@) && (l[{n} + 2] matches Ev::AS{v} {{ s: s2, raw: raw2, p: p2, changed: c2, codes: k2, r: q2 }} && s2 == t1 && raw2 == raw && p2 == made && c2 == changed && k2 == Some(codes{v}(ps@)) && done(x, q2)),
                    }})),
"""
    else:
        ok = f"""                    Ok({C}::Success) => l.len() == l0.len() + 3 && (l[{n} + 1] matches Ev::HU{v} {{ s: s1, t: t1, p, r: q }} && s1 == a.s && p == made && b.s == t1 && b.out@ == a.out@.push(WritePacket::Packet(q)) && (l[{n} + 2] matches Ev::AU{v} {{ s: s2, raw: raw2, p: p2, changed: c2, r: q2 }} && s2 == t1 && raw2 == raw && p2 == made && c2 == changed && done(x, q2))),
"""
    if v == "3": no = f"                    Ok(_) => {untouched} && x matches Err(Some(_)),\n"
    elif k == "P": no = f"""                    Ok(code) => l.len() == l0.len() + 1 && b.s == a.s && (x matches Ok(v) && v@.len() == 0) && match made.qos_pid {{ QosPid::Level0 => b.out@ == a.out@,
                        QosPid::Level1(pid) => b.out@.len() == a.out@.len() + 1 && b.out@ == a.out@.push(b.out@.last()) && (b.out@.last() matches WritePacket::Packet(v5::Packet::Puback(k)) && k.pid == pid && k.reason_code == puback_of(code)),
                        QosPid::Level2(pid) => b.out@.len() == a.out@.len() + 1 && b.out@ == a.out@.push(b.out@.last()) && (b.out@.last() matches WritePacket::Packet(v5::Packet::Pubrec(k)) && k.pid == pid && k.reason_code == pubrec_of(code)) }},
"""
    else: no = f"""                    Ok(code) => l.len() == l0.len() + 1 && b.s == a.s && (x matches Ok(v) && v@.len() == 0) && b.out@.len() == a.out@.len() + 1 && b.out@ == a.out@.push(b.out@.last())
                        && (b.out@.last() matches WritePacket::Packet(v5::Packet::{'Suback' if k == 'S' else 'Unsuback'}(k)) && k.pid == made.pid && k.topics@ == Seq::new(made.topics@.len(), |i: int| {'suback_of' if k == 'S' else 'unsuback_of'}(code))),
"""
    o = "5" if v == "3" else "3"
    return f"""                HookRequest::V{v}{T} {{ context, encode_len, packet_body, {t} }} => {{ let a = old(vx_world).w{v}; let b = final(vx_world).w{v}; final(vx_world).w{o} == old(vx_world).w{o} && (r matches HookResponse::Normal(x) && {given}{ok}{no}{err}                }}))) }},
"""
def spec():
    s = """
        ensures ({ let l0 = old(global).log@; let l = final(global).log@; let n = l0.len() as int;
            &&& l.len() > l0.len() && l.take(n) == l0
            &&& match request {
"""
    for k in KINDS: s += req(*k)
    for v in ("5", "3"):
        s += f"""                HookRequest::V{v}BeforeConnect {{ peer, connect }} => *final(vx_world) == *old(vx_world) && l.len() == l0.len() + 1 && (l[n] matches Ev::BC{v} {{ peer: p1, p, code }} && p1 == peer && p == connect && (r matches HookResponse::BeforeConnect(x) && same(x, code))),
                HookRequest::V{v}AfterConnect {{ context, session_present }} => *final(vx_world) == *old(vx_world) && l.len() == l0.len() + 1 && (l[n] matches Ev::AC{v} {{ s, present, r: q }} && s == old(vx_world).w{v}.s && present == session_present && (r matches HookResponse::AfterConnect(x) && same(x, q))),
                HookRequest::V{v}AfterDisconnect {{ context, taken_over }} => *final(vx_world) == *old(vx_world) && l.len() == l0.len() + 1 && (l[n] matches Ev::AD{v} {{ s, taken, r: q }} && s == old(vx_world).w{v}.s && taken == taken_over && (r matches HookResponse::AfterDisconnect(x) && same(x, q))),
"""
    return s + "            } }),"
SPEC = r"""
/// what the online loop is told: the actions, or that the connection ends
pub open spec fn done(x: Result<Vec<HookAction>, Option<IoError>>, q: HookResult<Vec<HookAction>>) -> bool { match q { Ok(v) => x == Ok::<Vec<HookAction>, Option<IoError>>(v), Err(_) => x matches Err(Some(_)) } }
pub open spec fn same<T>(x: IoRes<T>, q: HookResult<T>) -> bool { match q { Ok(v) => x == Ok::<T, IoError>(v), Err(_) => x is Err } }
pub open spec fn packets5(s: Seq<v5::Packet>) -> Seq<WritePacket<v5::Packet>> { s.map_values(|p: v5::Packet| WritePacket::Packet(p)) }
pub open spec fn packets3(s: Seq<v3::Packet>) -> Seq<WritePacket<v3::Packet>> { s.map_values(|p: v3::Packet| WritePacket::Packet(p)) }
/// the codes of the SUBACK among the answers
pub open spec fn codes5(s: Seq<v5::Packet>) -> Seq<v5::SubscribeReasonCode> decreases s.len() { if s.len() == 0 { Seq::empty() } else { match s.last() { v5::Packet::Suback(k) => k.topics@, _ => codes5(s.drop_last()) } } }
pub open spec fn codes3(s: Seq<v3::Packet>) -> Seq<v3::SubscribeReturnCode> decreases s.len() { if s.len() == 0 { Seq::empty() } else { match s.last() { v3::Packet::Suback(k) => k.topics@, _ => codes3(s.drop_last()) } } }
pub open spec fn puback_of(c: HookPublishCode) -> v5::PubackReasonCode { match c { HookPublishCode::Success => v5::PubackReasonCode::Success, HookPublishCode::UnspecifiedError => v5::PubackReasonCode::UnspecifiedError, HookPublishCode::NotAuthorized => v5::PubackReasonCode::NotAuthorized, HookPublishCode::TopicNameInvalid => v5::PubackReasonCode::TopicNameInvalid, HookPublishCode::QuotaExceeded => v5::PubackReasonCode::QuotaExceeded } }
pub open spec fn pubrec_of(c: HookPublishCode) -> v5::PubrecReasonCode { match c { HookPublishCode::Success => v5::PubrecReasonCode::Success, HookPublishCode::UnspecifiedError => v5::PubrecReasonCode::UnspecifiedError, HookPublishCode::NotAuthorized => v5::PubrecReasonCode::NotAuthorized, HookPublishCode::TopicNameInvalid => v5::PubrecReasonCode::TopicNameInvalid, HookPublishCode::QuotaExceeded => v5::PubrecReasonCode::QuotaExceeded } }
pub open spec fn suback_of(c: HookSubscribeCode) -> v5::SubscribeReasonCode { match c { HookSubscribeCode::Success => v5::SubscribeReasonCode::GrantedQoS2, HookSubscribeCode::UnspecifiedError => v5::SubscribeReasonCode::UnspecifiedError, HookSubscribeCode::NotAuthorized => v5::SubscribeReasonCode::NotAuthorized, HookSubscribeCode::TopicFilterInvalid => v5::SubscribeReasonCode::TopicFilterInvalid, HookSubscribeCode::QuotaExceeded => v5::SubscribeReasonCode::QuotaExceeded } }
pub open spec fn unsuback_of(c: HookUnsubscribeCode) -> v5::UnsubscribeReasonCode { match c { HookUnsubscribeCode::Success => v5::UnsubscribeReasonCode::Success, HookUnsubscribeCode::UnspecifiedError => v5::UnsubscribeReasonCode::UnspecifiedError, HookUnsubscribeCode::NotAuthorized => v5::UnsubscribeReasonCode::NotAuthorized, HookUnsubscribeCode::TopicFilterInvalid => v5::UnsubscribeReasonCode::TopicFilterInvalid } }
pub open spec fn connack5_of(c: HookConnectCode) -> v5::ConnectReasonCode { match c { HookConnectCode::Success => v5::ConnectReasonCode::Success, HookConnectCode::UnspecifiedError => v5::ConnectReasonCode::UnspecifiedError, HookConnectCode::ClientIdentifierNotValid => v5::ConnectReasonCode::ClientIdentifierNotValid, HookConnectCode::BadUserNameOrPassword => v5::ConnectReasonCode::BadUserNameOrPassword, HookConnectCode::NotAuthorized => v5::ConnectReasonCode::NotAuthorized, HookConnectCode::ServerUnavailable => v5::ConnectReasonCode::ServerUnavailable, HookConnectCode::QuotaExceeded => v5::ConnectReasonCode::QuotaExceeded, HookConnectCode::ConnectionRateExceeded => v5::ConnectReasonCode::ConnectionRateExceeded } }
/// the nearest code v3 has
pub open spec fn connack3_of(c: HookConnectCode) -> v3::ConnectReturnCode { match c { HookConnectCode::Success => v3::ConnectReturnCode::Accepted, HookConnectCode::ClientIdentifierNotValid => v3::ConnectReturnCode::IdentifierRejected, HookConnectCode::BadUserNameOrPassword => v3::ConnectReturnCode::BadUserNameOrPassword, HookConnectCode::NotAuthorized => v3::ConnectReturnCode::NotAuthorized, _ => v3::ConnectReturnCode::ServerUnavailable } }
"""
def codes_spec(v):
    """the spec of the CONNACK code alone, for units without the modules"""
    name = f"connack{v}_of"; l = next(x for x in SPEC.splitlines() if f"fn {name}(" in x)
    return l.replace("v5::", "").replace("v3::", "") + "\n"
def loop(v):
    return L("while", f"""invariant vx_done + packets@ =~= vx_ps, write_packets@ =~= vx_w + packets{v}(vx_done), codes@ == codes{v}(vx_done), *global == vx_g decreases packets@.len()""",
        before=f"let ghost vx_ps = packets@; let ghost mut vx_done = Seq::<v{v}::Packet>::empty(); let ghost vx_w = write_packets@; let ghost vx_g = *global;",
        body_pre="let ghost vx_d0 = vx_done; let ghost vx_pk = vx_ps[vx_done.len() as int];",
        body_post="proof { vx_done = vx_d0.push(vx_pk); assert(vx_done.drop_last() =~= vx_d0); }", after="proof { assert(vx_done =~= vx_ps); }")
def items(u):
    for x in ("HookError", "HookResult", "HookConnectCode", "HookPublishCode", "HookSubscribeCode", "HookUnsubscribeCode", "HookAction", "PublishAction", "SubscribeAction", "UnsubscribeAction"): u.item(H, x)
def unit():
    u = Unit("c11", flags=S.FLAGS + ["--rlimit", "80"], uses="use std::collections::VecDeque;\nuse std::cmp;\nuse vstd::std_specs::cmp::*;\n", subs=SUBS)
    u.raw(c05.PRELUDE.replace("/// std::collections::VecDeque", "/// VecDeque"))
    u.raw("pub type TopicFilter = Str;\n" + S.STR + S.OPAQUE + S.PIDS + S.IO + types() + "impl Clone for SocketAddr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\nimpl Copy for SocketAddr {}\n#[verifier::external_body]\npub struct VarBytes { x: u8 }")
    items(u)
    u.item(OL, "WritePacket"); u.item(H, "HookResponse"); u.item(H, "HookRequest")
    u.raw(world() + SPEC)
    u.impl(H, "HookConnectCode", [Fn("to_v5_code", ret="r", spec="ensures r == connack5_of(self),"), Fn("to_v3_code", ret="r", spec="ensures r == connack3_of(self),")])
    u.impl(H, "HookPublishCode", [Fn("to_v5_puback_code", ret="r", spec="ensures r == puback_of(self),"), Fn("to_v5_pubrec_code", ret="r", spec="ensures r == pubrec_of(self),")])
    u.impl(H, "HookSubscribeCode", [Fn("to_v5_code", ret="r", spec="ensures r == suback_of(self),")])
    u.impl(H, "HookUnsubscribeCode", [Fn("to_v5_code", ret="r", spec="ensures r == unsuback_of(self),")])
    u.fn(H, Fn("handle_request", ret="r", spec=spec(), sig_subs=[("global : & mut GlobalState ,", "global: &mut GlobalState, vx_world: &mut World,"), ], loops=[loop("5"), loop("3")], attrs="#[verifier::loop_isolation(false)]"))
    return u

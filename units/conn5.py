"""The v5 CONNECT path (v5/packet/connect.rs): types and contracts shared by the units of C10, C16 and C17, which put
their own postconditions on the same functions."""
from vunit import Unit, Fn, L
from vstd_hm import HM
import c05, sess_common as S
CN = "akasa-core/src/protocols/mqtt/v5/packet/connect.rs"
C = "akasa-core/src/protocols/mqtt/v5/packet/common.rs"
CFG = "akasa-core/src/config.rs"
ST = "akasa-core/src/state.rs"
SUBS = [
    ("Config { ..", "Config { .."),
    ("HashSet < $k >", "HS<$k>"), ("PathBuf", "Opaque"), ("String ::", "Str ::"), ("String", "Str"),
    ("Arc :: new ( RwLock :: new ( Instant :: now ( ) ) )", "vx_time_cell()"), ("Arc :: from ( Str :: new ( ) )", "vx_no_str()"),
    ("Sender < $t >", "Sender<$t>"), ("mqtt :: v3 :: SessionState", "V3State"), ("mqtt :: v5 :: SessionState", "SessionState"),
    ("< T : AsyncWrite + Unpin >", ""), ("conn : & mut T", "conn: &mut Conn"),
    ("Arc :: from ( uuid :: Uuid :: new_v4 ( ) . to_string ( ) )", "vx_uuid()"), ("Arc :: clone ( $x )", "($x).clone()"),
    ("auth_method . parse :: < SaslMechanism > ( )", "vx_mechanism(&auth_method)"),
    ("Bytes :: from ( $x )", "vx_bytes($x)"),
    ("last_will . topic_name . starts_with ( '$' )", "last_will.topic_name.vx_starts1(36u8)"),
    ("will . qos > global . config . max_allowed_qos ( )", "will.qos.vx_gt(global.config.max_allowed_qos())"),
    ("global . config . max_allowed_qos ( ) < QoS :: Level2", "global.config.max_allowed_qos().vx_lt(QoS::Level2)"),
    ("for $f in old_state . subscribes . keys ( ) { $B }", "let vx_fs = old_state.subscribes.vx_keys(); let mut vx_i: usize = 0; while vx_i < vx_fs.len() { let $f = vx_fs[vx_i]; vx_i += 1; $B }"),
    ("Str :: from_utf8 ( data . as_ref ( ) . to_vec ( ) )", "vx_utf8(&data)"),
    ("session . scram_stage . machine . authcid ( ) . unwrap_or ( $d ) . to_owned ( )", "session.scram_stage.machine.vx_authcid()"),
    ("session . scram_stage . machine . authzid ( ) . and_then ( | az | az ) . map ( str :: to_owned )", "session.scram_stage.machine.vx_authzid()"),
    ("& mut rand :: rng ( )", "&mut vx_rng()"),
    ("scram_client_first ( $a ) . map ( | $x | ( $c , $y ) )", "(match scram_client_first($a) { Ok($x) => Ok(($c, $y)), Err(vx_e) => Err(vx_e) })"),
    ("value . min ( $m )", "vx_min32(value, $m)"),
    ("& 'a mut Session", "&mut Session"),
]
TYPES = r"""
#[verifier::external_body]
pub struct Opaque { x: u8 }
#[verifier::external_body]
pub struct Listener { x: u8 }
#[verifier::external_body]
pub struct TlsListener { x: u8 }
#[verifier::external_body]
pub struct Http { x: u8 }
#[verifier::external_body]
pub struct V3State { x: u8 }
/// one end of a flume channel
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Sender<T> { x: Vec<T> }
#[verifier::external_body]
pub struct BroadcastPackets { x: u8 }
#[verifier::external_body]
pub fn vx_time_cell() -> (r: TimeCell) { unimplemented!() }
#[verifier::external_body]
pub fn vx_no_str() -> (r: Str) ensures r@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn vx_uuid() -> (r: Str) ensures r@.len() == 36 { unimplemented!() }
pub uninterp spec fn raw_bytes(s: Seq<u8>) -> Bytes;
#[verifier::external_body]
pub fn vx_bytes(s: Str) -> (r: Bytes) ensures r == raw_bytes(s@) { unimplemented!() }
pub fn vx_min32(a: u32, b: u32) -> (r: u32) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
impl QoS { #[verifier::external_body] pub fn vx_lt(self, o: QoS) -> (r: bool) ensures r == (qn(self) < qn(o)) { unimplemented!() } }
impl ClientId { #[verifier::external_body] pub fn max_value() -> (r: ClientId) { unimplemented!() } }
/// std::collections::HashSet as a set
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HS<K> { m: std::collections::HashSet<K> }
impl<K> HS<K> {
    pub uninterp spec fn view(&self) -> Set<K>;
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_items(&self) -> (r: Vec<&K>) ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains(*(#[trigger] r@[i])), forall|k: K| self@.contains(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == k { unimplemented!() }
}
pub open spec fn keys_of<K, V>(m: Map<K, V>, r: Seq<&K>) -> bool { lists(m, r.map_values(|p: &K| *p)) }
impl<K: Eq + std::hash::Hash, V> HM<K, V> {
    #[verifier::external_body]
    pub fn vx_keys(&self) -> (r: Vec<&K>) ensures keys_of(self@, r@), lists(self@, r@.map_values(|p: &K| *p)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_values(&self) -> (r: Vec<&V>) ensures forall|i: int| 0 <= i < r@.len() ==> exists|k: K| self@.contains_key(k) && self@[k] == *(#[trigger] r@[i]), forall|k: K| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == self@[k] { unimplemented!() }
}
/// what has been written to the client
#[verifier::external_body]
pub struct Conn { x: u8 }
impl View for Conn { type V = Seq<Packet>; uninterp spec fn view(&self) -> Seq<Packet>; }
#[verifier::external_body]
pub fn write_packet(client_id: ClientId, conn: &mut Conn, packet: &Packet) -> (r: IoRes<()>) ensures final(conn)@ == old(conn)@.push(*packet) { unimplemented!() }
pub struct Connect { pub protocol: Protocol, pub clean_start: bool, pub keep_alive: u16, pub properties: ConnectProperties, pub client_id: Str, pub last_will: Option<LastWill>, pub username: Option<Str>, pub password: Option<Bytes> }
impl Clone for LastWill { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
"""
# the SCRAM machine through what C02 proves about it: the name it heard, the record it was given, whether a message verifies
SCRAM = r"""
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum AuthenticationStatus { Authenticated, NotAuthenticated, NotAuthorized }
impl vstd::std_specs::cmp::PartialEqSpecImpl for AuthenticationStatus { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
#[verifier::external_body]
pub struct ScramServer { x: u8 }
#[verifier::external_body]
pub struct ScramErr { x: u8 }
#[verifier::external_body]
pub struct Rng { x: u8 }
#[verifier::external_body]
pub fn vx_rng() -> Rng { unimplemented!() }
/// the user name of the first message (empty: none), the authorisation id, the record the proof is checked against
pub uninterp spec fn m_name(m: ScramServer) -> Seq<u8>;
pub uninterp spec fn m_zid(m: ScramServer) -> Option<Str>;
pub uninterp spec fn m_rec(m: ScramServer) -> Option<(Seq<u8>, Seq<u8>, u16)>;
/// the final message carries the proof for that record
pub uninterp spec fn proves(m: ScramServer, msg: Seq<u8>) -> bool;
/// the user name a well-formed first message names; the server's messages
pub uninterp spec fn heard(msg: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn server_first(m: ScramServer) -> Seq<u8>;
pub uninterp spec fn server_final(m: ScramServer, msg: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn no_reply(m: ScramServer) -> bool;
pub uninterp spec fn utf8(b: Bytes) -> Option<Seq<u8>>;
#[verifier::external_body]
pub fn vx_utf8(b: &Bytes) -> (r: Result<Str, ScramErr>) ensures match r { Ok(s) => utf8(*b) == Some(s@), Err(_) => utf8(*b) is None } { unimplemented!() }
impl ScramServer {
    #[verifier::external_body]
    pub fn decode_client_first(&mut self, msg: &Str) -> (r: Result<(), ScramErr>) ensures r is Ok <==> heard(msg@) is Some, r is Ok ==> heard(msg@) == Some(m_name(*final(self))), r is Err ==> m_rec(*final(self)) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn encode_server_first(&mut self, hashed: Vec<u8>, salt: &Vec<u8>, iterations: u16, rng: &mut Rng) -> (r: Result<Str, ScramErr>)
        ensures r is Err ==> no_reply(*final(self)), r is Ok ==> r->Ok_0@ == server_first(*final(self)) && m_name(*final(self)) == m_name(*old(self)) && m_zid(*final(self)) == m_zid(*old(self)) && m_rec(*final(self)) == Some((hashed@, salt@, iterations)) { unimplemented!() }
    #[verifier::external_body]
    pub fn decode_client_final(&mut self, msg: &Str) -> (r: Result<(AuthenticationStatus, Str), ScramErr>)
        ensures m_name(*final(self)) == m_name(*old(self)), m_zid(*final(self)) == m_zid(*old(self)), m_rec(*final(self)) == m_rec(*old(self)), proves(*old(self), msg@) ==> r is Ok,
            r matches Ok(p) ==> (p.0 is Authenticated <==> proves(*old(self), msg@)) && p.1@ == server_final(*old(self), msg@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_authcid(&self) -> (r: Str) ensures r@ == m_name(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_authzid(&self) -> (r: Option<Str>) ensures r == m_zid(*self) { unimplemented!() }
}
impl ScramStage { #[verifier::external_body] pub fn default() -> (r: ScramStage) ensures m_rec(r.machine) is None { unimplemented!() } }
pub uninterp spec fn mech(name: Seq<u8>) -> Option<SaslMechanism>;
#[verifier::external_body]
pub fn vx_mechanism(s: &Str) -> (r: Result<SaslMechanism, ()>) ensures match r { Ok(m) => mech(s@) == Some(m), Err(_) => mech(s@) is None } { unimplemented!() }
"""
WORLD = r"""
/// the client registry and what connecting does to it (C09)
#[verifier::external_body]
pub struct Registry { x: u8 }
#[verifier::external_body]
pub struct PwTable { x: u8 }
/// what is done to the rest of the broker, in order
pub enum Ev { Joined { id: ClientId }, Timer { id: ClientId, keep_alive: u16 }, Removed { id: ClientId }, Offline { id: ClientId }, Handed { id: ClientId },
    Published { qos: QoS, retain: bool, topic: TopicName, payload: Bytes, properties: PublishProperties }, Posted { after: u64, id: ClientId, msg: ControlMessage }, WillDone, Kept { session: Session } }
/// owes: the client this task has registered and not yet handed over, taken offline or removed; will_due: its will has not been dealt with since
pub struct GlobalState { pub config: Config, pub auth_passwords: PwTable, pub route_table: RouteTable, pub registry: Registry, pub log: Ghost<Seq<Ev>>, pub owes: Ghost<Option<ClientId>>, pub will_due: Ghost<bool> }
pub open spec fn receipt_id(x: AddClientReceipt) -> ClientId { match x { AddClientReceipt::PresentV3(o) => v3_id(o), AddClientReceipt::PresentV5(o) => o.client_id, AddClientReceipt::New { client_id, .. } => client_id } }
pub uninterp spec fn v3_id(s: V3State) -> ClientId;
pub uninterp spec fn receipt(g: Registry, ident: Seq<u8>, p: Protocol) -> Option<AddClientReceipt>;
pub uninterp spec fn pw_ok(t: PwTable, user: Seq<u8>, password: Seq<u8>) -> bool;
#[verifier::external_body]
pub fn check_password(t: &PwTable, user: &Str, password: &Bytes) -> (r: bool) ensures r == pw_ok(*t, user@, password@) { unimplemented!() }
pub open spec fn same_world(a: GlobalState, b: GlobalState) -> bool { b == a }
impl GlobalState {
    #[verifier::external_body]
    pub fn add_client(&mut self, ident: &Str, protocol: Protocol) -> (r: IoRes<AddClientReceipt>)
        ensures final(self).config == old(self).config, final(self).auth_passwords == old(self).auth_passwords, final(self).route_table == old(self).route_table,
            match r { Ok(x) => receipt(old(self).registry, ident@, protocol) == Some(x) && final(self).log@ == old(self).log@.push(Ev::Joined { id: receipt_id(x) }) && final(self).owes@ == Some(receipt_id(x)) && final(self).will_due@,
                Err(_) => receipt(old(self).registry, ident@, protocol) is None && final(self).log == old(self).log && final(self).owes == old(self).owes && final(self).will_due == old(self).will_due },
            r matches Ok(AddClientReceipt::PresentV3(_)) ==> !(protocol is V500), r matches Ok(AddClientReceipt::PresentV5(o)) ==> protocol is V500 && o.pending_packets.wf() { unimplemented!() }
}
#[verifier::external_body]
pub fn start_keep_alive_timer(keep_alive: u16, client_id: ClientId, last: &TimeCell, global: &mut GlobalState) -> (r: IoRes<()>)
    ensures *final(global) == (GlobalState { log: final(global).log, ..*old(global) }), final(global).log@ == old(global).log@.push(Ev::Timer { id: client_id, keep_alive }) { unimplemented!() }
pub open spec fn qos_of(n: u8) -> QoS { if n == 0 { QoS::Level0 } else if n == 1 { QoS::Level1 } else { QoS::Level2 } }
pub open spec fn opt<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub open spec fn umin(a: u32, b: u32) -> u32 { if a <= b { a } else { b } }
/// a will the configuration allows
pub open spec fn will_ok(w: Option<LastWill>, c: Config) -> bool { w matches Some(w) ==> !(w.retain && !c.retain_available) && qn(w.qos) <= qn(qos_of(c.max_allowed_qos)) }
pub open spec fn topic_ok(w: Option<LastWill>) -> bool { w matches Some(w) ==> w.topic_name@.len() > 0 && !first_is(w.topic_name@, 36u8) }
pub open spec fn password_ok(p: Connect, g: GlobalState) -> bool { g.config.auth.enable ==> p.username is Some && p.password is Some && pw_ok(g.auth_passwords, p.username->0@, p.password->0@) }
pub open spec fn sizes_ok(p: Connect, c: Config) -> bool { p.properties.receive_max != Some(0u16) && opt(p.properties.max_packet_size, c.max_packet_size_client) != 0 }
/// everything but the enhanced authentication
pub open spec fn acceptable(p: Connect, g: GlobalState) -> bool {
    password_ok(p, g) && sizes_ok(p, g.config) && !(p.properties.auth_data is Some && p.properties.auth_method is None) && topic_ok(p.last_will) }
/// the reason codes that may answer a CONNECT refused before authentication
pub open spec fn ground(p: Connect, g: GlobalState, r: ConnectReasonCode) -> bool {
    match r {
        ConnectReasonCode::BadUserNameOrPassword => !password_ok(p, g),
        ConnectReasonCode::ProtocolError => !sizes_ok(p, g.config) || (p.properties.auth_data is Some && p.properties.auth_method is None),
        ConnectReasonCode::TopicNameInvalid => !topic_ok(p.last_will),
        ConnectReasonCode::RetainNotSupported => p.last_will matches Some(w) && w.retain && !g.config.retain_available,
        ConnectReasonCode::QoSNotSupported => p.last_will matches Some(w) && qn(w.qos) > qn(qos_of(g.config.max_allowed_qos)),
        _ => false } }
pub open spec fn will_code(w: Option<LastWill>, c: Config, r: ConnectReasonCode) -> bool {
    match r { ConnectReasonCode::RetainNotSupported => w matches Some(w) && w.retain && !c.retain_available, ConnectReasonCode::QoSNotSupported => w matches Some(w) && qn(w.qos) > qn(qos_of(c.max_allowed_qos)), _ => false } }
pub open spec fn accepted(q: Packet) -> bool { q matches Packet::Connack(a) && a.reason_code is Success }
pub open spec fn connack_with(q: Packet, r: ConnectReasonCode) -> bool { q matches Packet::Connack(a) && a.reason_code == r && !a.session_present }
pub open spec fn keeps1(a: Map<(TopicFilter, ClientId), QoS>, b: Map<(TopicFilter, ClientId), QoS>, k: (TopicFilter, ClientId)) -> bool { (b.contains_key(k) <==> a.contains_key(k)) && (a.contains_key(k) ==> b[k] == a[k]) }
pub open spec fn gone1(a: Map<(TopicFilter, ClientId), QoS>, b: Map<(TopicFilter, ClientId), QoS>, id: ClientId, m: Map<TopicFilter, SubscriptionData>, k: (TopicFilter, ClientId)) -> bool {
    if k.1 == id && m.contains_key(k.0) { !b.contains_key(k) } else { keeps1(a, b, k) } }
/// the routes of the discarded session are gone, and nothing else changed
pub open spec fn routes_gone(a: Map<(TopicFilter, ClientId), QoS>, b: Map<(TopicFilter, ClientId), QoS>, id: ClientId, m: Map<TopicFilter, SubscriptionData>) -> bool { forall|k: (TopicFilter, ClientId)| #[trigger] gone1(a, b, id, m, k) }
pub open spec fn gone_upto(a: Map<(TopicFilter, ClientId), QoS>, b: Map<(TopicFilter, ClientId), QoS>, id: ClientId, ks: Seq<TopicFilter>, n: int, k: (TopicFilter, ClientId)) -> bool {
    if k.1 == id && ks.take(n).contains(k.0) { !b.contains_key(k) } else { keeps1(a, b, k) } }
pub proof fn lemma_gone_step(a: Map<(TopicFilter, ClientId), QoS>, b: Map<(TopicFilter, ClientId), QoS>, c: Map<(TopicFilter, ClientId), QoS>, id: ClientId, ks: Seq<TopicFilter>, n: int)
    requires 0 <= n < ks.len(), c == b.remove((ks[n], id)), forall|k: (TopicFilter, ClientId)| #[trigger] gone_upto(a, b, id, ks, n, k)
    ensures forall|k: (TopicFilter, ClientId)| #[trigger] gone_upto(a, c, id, ks, n + 1, k)
{ assert forall|k: (TopicFilter, ClientId)| #[trigger] gone_upto(a, c, id, ks, n + 1, k) by {
    assert(gone_upto(a, b, id, ks, n, k)); assert(ks.take(n + 1) =~= ks.take(n).push(ks[n])); assert(ks.take(n + 1)[n] == ks[n]);
    if ks.take(n).contains(k.0) { let i = choose|i: int| 0 <= i < n && ks.take(n)[i] == k.0; assert(ks.take(n + 1)[i] == k.0); }
    let t = ks.take(n + 1); if t.contains(k.0) { let i = choose|i: int| 0 <= i < t.len() && t[i] == k.0; if i < n { assert(ks.take(n)[i] == k.0); } } } }
"""

def config(u):
    for n in ("SaslMechanism", "ScramPasswordInfo", "AuthConfig", "SharedSubscriptionMode", "HookConfig", "Listeners", "Config"): u.item(CFG, n)
    u.raw("impl Clone for SaslMechanism { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\nimpl Copy for SaslMechanism {}\nimpl vstd::std_specs::cmp::PartialEqSpecImpl for SaslMechanism { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }\nimpl PartialEq for SaslMechanism { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }")
def max_allowed_qos(**k): return Fn("max_allowed_qos", ret="r", spec="requires self.max_allowed_qos <= 2 ensures r == qos_of(self.max_allowed_qos),", **k)

def base(name, subs=()):
    opaque = S.OPAQUE.replace("#[verifier::external_body]\npub struct ScramStage { x: u8 }\n", "")
    u = Unit(name, flags=S.FLAGS, uses="use std::collections::VecDeque;\nuse std::cmp;\nuse vstd::std_specs::cmp::*;\n", subs=list(subs) + S.IOSUBS + S.SUBS + SUBS)
    S.pending(u)
    u.raw("pub type TopicFilter = Str;\n" + S.CID + HM + S.HMX + S.STR + opaque + S.PIDS + S.v5types() + S.IO + TYPES)
    config(u)
    u.item(S.V5SESSION, "SubscriptionData"); u.item(S.V5SESSION, "PubPacket"); u.item(S.V5SESSION, "ScramStage"); u.item(S.V5SESSION, "SessionState"); u.item(S.V5SESSION, "Session"); u.item(ST, "AddClientReceipt"); u.item(ST, "ControlMessage"); u.item("akasa-core/src/protocols/mqtt/retain.rs", "RetainContent")
    u.raw(SCRAM + S.WORLD + WORLD + AUTHSPEC)
    u.impl(CFG, "Config", [max_allowed_qos(trusted=name != "c10")])
    u.frame(S.V5SESSION, "Session", "but_flags", ["client_disconnected", "server_disconnected"])
    return u

ERR = [("build_error_connack < 'a , R : Into < Cow < 'a , str >> >", "build_error_connack<'a, R>"), ("build_error_disconnect < 'a , R : Into < Cow < 'a , str >> >", "build_error_disconnect<'a, R>")]
def errors(**k):
    return [Fn("build_error_connack", ret="r", sig_subs=ERR, spec="ensures but_flags(*old(session), *final(session)), final(session).client_disconnected, final(session).server_disconnected, r matches Packet::Connack(a) && a.reason_code == reason_code && a.session_present == session_present,", **k),
            Fn("build_error_disconnect", ret="r", sig_subs=ERR, spec="ensures *final(session) == (Session { server_disconnected: true, ..*old(session) }), r matches Packet::Disconnect(d) && d.reason_code == reason_code,", **k)]

# what C17 proves about an AUTH packet
AUTHSPEC = r"""
/// the machine checks the proof against the record configured for the name it heard
pub open spec fn ready(s: Session, c: Config) -> bool { exists|k: Str| k@ == m_name(s.scram_stage.machine) && #[trigger] c.scram_users@.contains_key(k) && m_rec(s.scram_stage.machine) == Some((c.scram_users@[k].hashed_password@, c.scram_users@[k].salt@, c.scram_users@[k].iterations)) }
pub open spec fn said_utf8(d: Option<Bytes>) -> Option<Seq<u8>> { match d { Some(b) => utf8(b), None => None } }
pub open spec fn known(n: Option<Seq<u8>>, c: Config) -> bool { n matches Some(n) && exists|k: Str| k@ == n && #[trigger] c.scram_users@.contains_key(k) }
pub open spec fn bad_first(d: Option<Bytes>, c: Config, m: ScramServer) -> bool { match said_utf8(d) { None => true, Some(m1) => heard(m1) is None || !known(heard(m1), c) || no_reply(m) } }
pub open spec fn not_authorized(p: Packet) -> bool { match p { Packet::Connack(k) => k.reason_code is NotAuthorized && !k.session_present, Packet::Disconnect(k) => k.reason_code is NotAuthorized, _ => false } }
pub open spec fn auth_error(p: Packet) -> bool { match p { Packet::Connack(k) => k.reason_code is ProtocolError && !k.session_present, Packet::Disconnect(k) => k.reason_code is ProtocolError, _ => false } }
/// a final message for an exchange under way, carrying the proof
pub open spec fn finishes(s: Session, p: Auth) -> bool { s.auth_method is Some && s.auth_method == p.properties.auth_method && p.reason_code is ContinueAuthentication && s.authorizing && (said_utf8(p.properties.auth_data) matches Some(m) && proves(s.scram_stage.machine, m)) }
/// what the refusal is for
pub open spec fn refuses(s: Session, p: Auth, q: Packet) -> bool {
    if s.auth_method is None || s.auth_method != p.properties.auth_method || p.reason_code is Success || (p.reason_code is ContinueAuthentication && !s.authorizing) || (p.reason_code is ReAuthentication && s.authorizing) { auth_error(q) } else { not_authorized(q) } }
"""
AUTHFRAME = ["client_disconnected", "server_disconnected", "authorizing", "scram_stage", "scram_auth_result"]
AUTHED = """ensures *final(global) == *old(global), ({ let a = *old(session); let b = *final(session);
            &&& but_auth(a, b)
            &&& r matches Ok(p) ==> (p.0 is Success || p.0 is ContinueAuthentication)
            &&& (r matches Ok(p) && p.0 is Success) <==> finishes(a, packet)
            &&& r matches Ok(p) ==> (p.0 is Success ==> !b.authorizing && p.1@ == server_final(a.scram_stage.machine, said_utf8(packet.properties.auth_data)->0) && (b.scram_auth_result matches Some(w) && w.0@ == m_name(a.scram_stage.machine) && w.1 == m_zid(a.scram_stage.machine)))
            &&& r matches Ok(p) ==> (p.0 is ContinueAuthentication ==> packet.reason_code is ReAuthentication && !a.authorizing && b.authorizing && ready(b, old(global).config) && p.1@ == server_first(b.scram_stage.machine) && b.scram_auth_result == a.scram_auth_result)
            &&& r matches Err(p) ==> !accepted(p) && refuses(a, packet, p) && b.scram_auth_result == a.scram_auth_result && b.authorizing == a.authorizing }),"""
FIRST = """ensures *final(global) == *old(global), but_scram(*old(session), *final(session)),
        r matches Ok(m) ==> final(session).authorizing && ready(*final(session), old(global).config) && m@ == server_first(final(session).scram_stage.machine) && (said_utf8(auth_data) matches Some(t) && heard(t) == Some(m_name(final(session).scram_stage.machine))),
        r matches Err(p) ==> not_authorized(p) && bad_first(auth_data, old(global).config, final(session).scram_stage.machine) && final(session).authorizing == old(session).authorizing,"""

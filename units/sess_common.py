"""Shared by the session-level units (C10-C18): strings with identity semantics, maps, the v5 packet types of
mqtt_proto as stated stand-ins, and the in-flight queue through the contracts C05 discharges."""
from vunit import Fn, L
import c05

SUBS = [
    ("HashMap < TopicName , $v >", "HM<TopicName, $v>"), ("HashMap < $k , $v >", "HM<$k, $v>"), ("HashMap ::", "HM::"),
    ("Arc < str >>", "Str>"), ("Arc < RwLock < Instant >>", "TimeCell"), ("VecDeque", "Q"), ("Arc < str >", "Str"), ("Arc < RwLock < Instant > >", "TimeCell"),
    ("& Arc < GlobalState >", "&mut GlobalState"),
    ("impl < P : Debug >", "impl<P>"),
]

STR = r"""
// ---- strings: the abstract value of a string is its bytes --------------------------------------------------------
#[verifier::external_body]
pub struct Str { x: Vec<u8> }
impl View for Str { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub broadcast axiom fn axiom_str(a: Str, b: Str) requires #[trigger] a.view() == #[trigger] b.view() ensures a == b;
impl vstd::std_specs::cmp::PartialEqSpecImpl for Str { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Str) -> bool { *self == *o } }
impl PartialEq for Str { #[verifier::external_body] fn eq(&self, o: &Str) -> (r: bool) { unimplemented!() } }
impl Eq for Str {}
#[verifier::external]
impl std::hash::Hash for Str { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
pub type TopicName = Str;
pub open spec fn first_is(s: Seq<u8>, c: u8) -> bool { s.len() > 0 && s[0] == c }
impl Clone for Str { #[verifier::external_body] fn clone(&self) -> (r: Str) ensures r == *self { unimplemented!() } }
impl Str {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    pub fn deref(&self) -> (r: &Str) ensures *r == *self { self }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_starts1(&self, c: u8) -> (r: bool) requires c < 128 ensures r == first_is(self@, c) { unimplemented!() }
}
#[verifier::external_body]
pub struct Bytes { x: Vec<u8> }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Clone for Bytes { #[verifier::external_body] fn clone(&self) -> (r: Bytes) ensures r == *self { unimplemented!() } }
impl Bytes {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
"""
HMX = r"""
/// the entries of a map, each once
pub open spec fn lists<K, V>(m: Map<K, V>, ks: Seq<K>) -> bool { ks.no_duplicates() && (forall|i: int| 0 <= i < ks.len() ==> m.contains_key(#[trigger] ks[i])) && (forall|k: K| m.contains_key(k) ==> ks.contains(k)) }
impl<K: Eq + std::hash::Hash, V> HM<K, V> {
    #[verifier::external_body]
    pub fn vx_pairs(&self) -> (r: Vec<(&K, &V)>)
        ensures lists(self@, r@.map_values(|p: (&K, &V)| *p.0)), forall|i: int| 0 <= i < r@.len() ==> self@.contains_key(*(#[trigger] r@[i]).0) && self@[*r@[i].0] == *r@[i].1, r@.len() == self@.dom().len() { unimplemented!() }
}
"""
OPAQUE = r"""
#[verifier::external_body]
pub struct SocketAddr { x: u8 }
#[verifier::external_body]
pub struct Instant { x: u8 }
impl Clone for Instant { #[verifier::external_body] fn clone(&self) -> (r: Instant) ensures r == *self { unimplemented!() } }
impl Copy for Instant {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Instant { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Instant) -> bool { *self == *o } }
impl PartialEq for Instant { #[verifier::external_body] fn eq(&self, o: &Instant) -> (r: bool) { unimplemented!() } }
impl Instant { #[verifier::external_body] pub fn now() -> (r: Instant) { unimplemented!() } }
#[verifier::external_body]
pub struct TimeCell { x: u8 }
#[verifier::external_body]
pub struct ScramStage { x: u8 }
#[verifier::external_body]
pub struct ClientReceiver { x: u8 }
#[verifier::external_body]
pub struct SendSink { x: u8 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Protocol { V310, V311, V500 }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Protocol { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
"""
PIDS = r"""
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum QosPid { Level0, Level1(Pid), Level2(Pid) }
impl vstd::std_specs::cmp::PartialEqSpecImpl for QosPid { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
pub open spec fn qp(q: QoS, p: Pid) -> QosPid { match q { QoS::Level0 => QosPid::Level0, QoS::Level1 => QosPid::Level1(p), QoS::Level2 => QosPid::Level2(p) } }
impl QosPid {
    pub open spec fn q(self) -> QoS { match self { QosPid::Level0 => QoS::Level0, QosPid::Level1(_) => QoS::Level1, QosPid::Level2(_) => QoS::Level2 } }
    #[verifier::external_body]
    pub fn qos(self) -> (r: QoS) ensures r == self.q() { unimplemented!() }
}
#[verifier::external]
impl std::hash::Hash for PidW { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
pub open spec fn pid_next(p: Pid) -> Pid { PidW(if p.0 == 0xffff { 1u16 } else { (p.0 + 1) as u16 }) }
#[verifier::external_body]
pub fn vx_pid_next(p: Pid) -> (r: Pid) ensures r == pid_next(p) { unimplemented!() }
pub open spec fn qn(q: QoS) -> int { match q { QoS::Level0 => 0, QoS::Level1 => 1, QoS::Level2 => 2 } }
pub open spec fn qmin(a: QoS, b: QoS) -> QoS { if qn(a) <= qn(b) { a } else { b } }
pub open spec fn qmax(a: QoS, b: QoS) -> QoS { if qn(a) <= qn(b) { b } else { a } }
#[verifier::external_body]
pub fn vx_qmin(a: QoS, b: QoS) -> (r: QoS) ensures r == qmin(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn vx_qmax(a: QoS, b: QoS) -> (r: QoS) ensures r == qmax(a, b) { unimplemented!() }
impl QoS {
    #[verifier::external_body]
    pub fn vx_gt(self, o: QoS) -> (r: bool) ensures r == (qn(self) > qn(o)) { unimplemented!() }
}
"""
CID = r"""
#[derive(Clone, Copy, PartialEq, Eq, Structural, Hash)]
pub struct ClientId(pub u64);
impl vstd::std_specs::cmp::PartialEqSpecImpl for ClientId { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
"""

def codes(name, *vs):
    return f"#[derive(Clone, Copy, PartialEq, Eq, Structural)]\npub enum {name} {{ {', '.join(v.split('=')[0] for v in vs)} }}\nimpl vstd::std_specs::cmp::PartialEqSpecImpl for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }} }}\n"

def props(name, fields, lists=()):
    fs = [f.split(":") for f in fields.split()] if fields else []
    s = f"pub struct {name} {{ " + "".join(f"pub {a}: Option<{b}>, " for a, b in fs) + "".join(f"pub {a}: Vec<{b}>, " for a, b in lists) + "pub user_properties: Vec<UserProperty> }\n"
    dflt = " && ".join([f"p.{a} is None" for a, b in fs] + [f"p.{a}@.len() == 0" for a, b in lists] + ["p.user_properties@.len() == 0"])
    s += f"pub open spec fn dflt_{name}(p: {name}) -> bool {{ {dflt} }}\n"
    s += f"impl {name} {{ #[verifier::external_body] pub fn default() -> (r: Self) ensures dflt_{name}(r) {{ unimplemented!() }} }}\n"
    s += f"impl Clone for {name} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"
    return s

PKTS = ["Connack", "Publish", "Puback", "Pubrec", "Pubrel", "Pubcomp", "Subscribe", "Suback", "Unsubscribe", "Unsuback", "Disconnect", "Auth"]
def v5types():
    s = "#[derive(Clone, Copy)]\npub struct VarByteInt(pub u32);\nimpl VarByteInt { pub fn value(self) -> (r: u32) ensures r == self.0 { self.0 } }\n#[verifier::external_body]\npub struct UserProperty { x: u8 }\n"
    s += "impl vstd::std_specs::cmp::PartialEqSpecImpl for VarByteInt { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }\nimpl PartialEq for VarByteInt { fn eq(&self, o: &Self) -> (r: bool) { self.0 == o.0 } }\n"
    s += props("ConnectProperties", "session_expiry_interval:u32 receive_max:u16 max_packet_size:u32 topic_alias_max:u16 request_response_info:bool request_problem_info:bool auth_method:Str auth_data:Bytes")
    s += props("WillProperties", "delay_interval:u32 payload_is_utf8:bool message_expiry_interval:u32 content_type:Str response_topic:TopicName correlation_data:Bytes")
    s += props("ConnackProperties", "session_expiry_interval:u32 receive_max:u16 max_qos:QoS retain_available:bool max_packet_size:u32 assigned_client_id:Str topic_alias_max:u16 reason_string:Str wildcard_subscription_available:bool subscription_id_available:bool shared_subscription_available:bool server_keep_alive:u16 response_info:Str server_reference:Str auth_method:Str auth_data:Bytes")
    s += props("PublishProperties", "payload_is_utf8:bool message_expiry_interval:u32 topic_alias:u16 response_topic:TopicName correlation_data:Bytes content_type:Str", [("subscription_ids", "VarByteInt")])
    for n in ("Puback", "Pubrec", "Pubrel", "Pubcomp", "Suback", "Unsuback"): s += props(n + "Properties", "reason_string:Str")
    s += props("SubscribeProperties", "subscription_id:VarByteInt") + props("UnsubscribeProperties", "")
    s += props("DisconnectProperties", "session_expiry_interval:u32 reason_string:Str server_reference:Str")
    s += props("AuthProperties", "auth_method:Str auth_data:Bytes reason_string:Str")
    s += codes("ConnectReasonCode", *"Success UnspecifiedError MalformedPacket ProtocolError ImplementationSpecificError UnsupportedProtocolVersion ClientIdentifierNotValid BadUserNameOrPassword NotAuthorized ServerUnavailable ServerBusy Banned BadAuthMethod TopicNameInvalid PacketTooLarge QuotaExceeded PayloadFormatInvalid RetainNotSupported QoSNotSupported UseAnotherServer ServerMoved ConnectionRateExceeded".split())
    s += codes("DisconnectReasonCode", *"NormalDisconnect DisconnectWithWillMessage UnspecifiedError MalformedPacket ProtocolError ImplementationSpecificError NotAuthorized ServerBusy ServerShuttingDown KeepAliveTimeout SessionTakenOver TopicFilterInvalid TopicNameInvalid ReceiveMaximumExceeded TopicAliasInvalid PacketTooLarge MessageRateTooHigh QuotaExceeded AdministrativeAction PayloadFormatInvalid RetainNotSupported QoSNotSupported UserAnotherServer ServerMoved SharedSubscriptionNotSupported ConnectionRateExceeded MaximumConnectTime SubscriptionIdentifiersNotSupported WildcardSubscriptionsNotSupported".split())
    s += codes("AuthReasonCode", "Success", "ContinueAuthentication", "ReAuthentication")
    for n in ("PubackReasonCode", "PubrecReasonCode"): s += codes(n, *"Success NoMatchingSubscribers UnspecifiedError ImplementationSpecificError NotAuthorized TopicNameInvalid PacketIdentifierInUse QuotaExceeded PayloadFormatInvalid".split())
    for n in ("PubrelReasonCode", "PubcompReasonCode"): s += codes(n, "Success", "PacketIdentifierNotFound")
    s += codes("SubscribeReasonCode", *"GrantedQoS0 GrantedQoS1 GrantedQoS2 UnspecifiedError ImplementationSpecificError NotAuthorized TopicFilterInvalid PacketIdentifierInUse QuotaExceeded SharedSubscriptionNotSupported SubscriptionIdentifiersNotSupported WildcardSubscriptionsNotSupported".split())
    s += codes("UnsubscribeReasonCode", *"Success NoSubscriptionExisted UnspecifiedError ImplementationSpecificError NotAuthorized TopicFilterInvalid PacketIdentifierInUse".split())
    s += "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\npub enum RetainHandling { SendAtSubscribe, SendAtSubscribeIfNotExist, DoNotSend }\n#[derive(Clone, Copy)]\npub struct SubscriptionOptions { pub max_qos: QoS, pub no_local: bool, pub retain_as_published: bool, pub retain_handling: RetainHandling }\n"
    s += """
pub struct LastWill { pub qos: QoS, pub retain: bool, pub topic_name: TopicName, pub payload: Bytes, pub properties: WillProperties }
pub struct Connack { pub session_present: bool, pub reason_code: ConnectReasonCode, pub properties: ConnackProperties }
pub struct Publish { pub dup: bool, pub retain: bool, pub qos_pid: QosPid, pub topic_name: TopicName, pub payload: Bytes, pub properties: PublishProperties }
pub struct Puback { pub pid: Pid, pub reason_code: PubackReasonCode, pub properties: PubackProperties }
pub struct Pubrec { pub pid: Pid, pub reason_code: PubrecReasonCode, pub properties: PubrecProperties }
pub struct Pubrel { pub pid: Pid, pub reason_code: PubrelReasonCode, pub properties: PubrelProperties }
pub struct Pubcomp { pub pid: Pid, pub reason_code: PubcompReasonCode, pub properties: PubcompProperties }
pub struct Subscribe { pub pid: Pid, pub properties: SubscribeProperties, pub topics: Vec<(TopicFilter, SubscriptionOptions)> }
pub struct Suback { pub pid: Pid, pub properties: SubackProperties, pub topics: Vec<SubscribeReasonCode> }
pub struct Unsubscribe { pub pid: Pid, pub properties: UnsubscribeProperties, pub topics: Vec<TopicFilter> }
pub struct Unsuback { pub pid: Pid, pub properties: UnsubackProperties, pub topics: Vec<UnsubscribeReasonCode> }
pub struct Disconnect { pub reason_code: DisconnectReasonCode, pub properties: DisconnectProperties }
pub struct Auth { pub reason_code: AuthReasonCode, pub properties: AuthProperties }
pub enum Packet { """ + ", ".join(f"{p}({p})" for p in PKTS) + """, Pingreq, Pingresp }
"""
    for p in ("Publish",): s += f"impl Clone for {p} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"
    s += """
#[verifier::external_body]
pub struct ErrorV5 { x: u8 }
/// the encoded length of a packet; None: it cannot be encoded
pub uninterp spec fn plen(p: Packet) -> Option<nat>;
impl Packet {
    #[verifier::external_body]
    pub fn encode_len(&self) -> (r: Result<usize, ErrorV5>) ensures match r { Ok(n) => plen(*self) == Some(n as nat), Err(_) => plen(*self) is None } { unimplemented!() }
}
pub open spec fn fits(p: Packet, max: u32, extra: int) -> bool { plen(p) matches Some(n) && n + extra <= max }
impl PidW { #[verifier::external_body] pub fn default() -> (r: PidW) { unimplemented!() } }
"""
    for p in PKTS: s += f"impl {p} {{ pub fn into(self) -> (r: Packet) ensures r == Packet::{p}(self) {{ Packet::{p}(self) }} }}\n"
    return s

# the default case-split strategy of z3 is two orders of magnitude slower on the large session structs
FLAGS = ["--smt-option", "smt.case_split=1"]
WORLD = r"""
/// the broker as the session functions see it: configuration, routes (filter and client to granted QoS), retained messages
pub struct RouteTable { pub x: u8 }
impl RouteTable {
    pub uninterp spec fn view(&self) -> Map<(TopicFilter, ClientId), QoS>;
    #[verifier::external_body]
    pub fn subscribe(&mut self, f: &TopicFilter, id: ClientId, qos: QoS) ensures final(self)@ == old(self)@.insert((*f, id), qos) { unimplemented!() }
    #[verifier::external_body]
    pub fn unsubscribe(&mut self, f: &TopicFilter, id: ClientId) ensures final(self)@ == old(self)@.remove((*f, id)) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_extend<T>(v: &mut Vec<T>, w: Vec<T>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
pub uninterp spec fn is_shared(f: Seq<u8>) -> bool;
pub uninterp spec fn has_wildcard(f: Seq<u8>) -> bool;
pub uninterp spec fn expiry_left(c: RetainContent) -> Option<u32>;
impl Str {
    #[verifier::external_body]
    pub fn is_shared(&self) -> (r: bool) ensures r == is_shared(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_has_wildcard(&self) -> (r: bool) ensures r == has_wildcard(self@) { unimplemented!() }
}
impl RetainContent { #[verifier::external_body] pub fn remaining_expiry(&self) -> (r: Option<u32>) ensures r == expiry_left(*self) { unimplemented!() } }
"""
IO = """
#[verifier::external_body]
pub struct IoError { x: u8 }
pub type IoRes<T> = Result<T, IoError>;
#[verifier::external_body]
pub fn vx_io() -> IoError { unimplemented!() }
"""
IOSUBS = [("io :: Result", "IoRes"), ("io :: ErrorKind :: InvalidData . into ( )", "vx_io()"), ("io :: Error", "IoError")]
WORLDSUBS = [
    ("properties . subscription_id . map ( | id | id . value ( ) )", "vx_sid(properties.subscription_id)"),
    ("filter . contains ( [ MATCH_ONE_CHAR , MATCH_ALL_CHAR ] )", "filter.vx_has_wildcard()"), ("filter . contains ( [ MATCH_ALL_CHAR , MATCH_ONE_CHAR ] )", "filter.vx_has_wildcard()"),
    # Verus has no `continue` in for loops
    ("for msg in $e { $B }", "let vx_v = $e; let mut vx_i: usize = 0; while vx_i < vx_v.len() { let msg = &vx_v[vx_i]; vx_i += 1; $B }"),
    ("rv_packets . extend ( $x )", "vx_extend(&mut rv_packets, $x)"),
    ("reason_code as u8", "reason_code.vx_byte()"), ("vec ! [ $x ; $n ]", "vx_vec($x, $n)"),
    ("for & ( ref $a , mut $b ) in $e { $B }", "for vx_t in $e { let $a = &vx_t.0; let mut $b = vx_t.1; $B }"),
    ("if let Some ( $p ) = properties . as_mut ( ) { $B }", "if let Some(mut vx_p) = properties { { let $p = &mut vx_p; $B } properties = Some(vx_p); }"),
]
V5SESSION = "akasa-core/src/protocols/mqtt/v5/session.rs"
def pending(u):
    """the in-flight queue: types extracted, operations through the contracts C05 proves"""
    u.raw(c05.PRELUDE.replace("/// std::collections::VecDeque", "/// VecDeque"))
    u.item(c05.F, "PendingPacketStatus"); u.item(c05.F, "PendingPackets")
    u.raw(c05.SPECS)
    u.fn(c05.F, Fn("get_unix_ts", trusted=True, ret="r", spec="ensures clock_read(r),"))
    u.impl(c05.F, "PendingPackets", [Fn(f.name, spec=f.spec, ret=f.ret, trusted=True) for f in c05.fns()])

# recv_publish / handle_pendings: library calls on options, QoS order, struct update with defaults
V5SUBS = [
    ("msg . properties . cloned ( ) . unwrap_or_default ( )", "vx_props(msg.properties)"),
    ("subscription_id . into_iter ( ) . collect ( )", "vx_opt_vec(subscription_id)"),
    ("cmp :: min ( $a , $b )", "vx_qmin($a, $b)"), ("cmp :: max ( $a , $b )", "vx_qmax($a, $b)"),
    ("msg . qos > QoS :: Level0", "msg.qos.vx_gt(QoS::Level0)"),
    ("self . server_packet_id += 1", "self.server_packet_id = vx_pid_next(self.server_packet_id)"),
    ("let ( $a , $b , $c , $d ) = ( $p , $q , $r , $s , ) ;", "let $a = $p; let $b = $q; let $c = $r; let $d = $s;"),
    ("while let Some ( ( idx , packet_status ) ) = $e { $B }", "loop { match $e { None => { break; }, Some(vx_pair) => { let idx = vx_pair.0; let packet_status = vx_pair.1; $B } } }"),
]
V5FNS = r"""
#[verifier::external_body]
pub fn vx_props(p: Option<&PublishProperties>) -> (r: PublishProperties) ensures match p { None => dflt_PublishProperties(r), Some(x) => r == *x } { unimplemented!() }
#[verifier::external_body]
pub fn vx_opt_vec<T>(o: Option<T>) -> (r: Vec<T>) ensures r@ == (match o { None => Seq::<T>::empty(), Some(x) => Seq::<T>::empty().push(x) }) { unimplemented!() }
"""

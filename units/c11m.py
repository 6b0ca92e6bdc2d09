"""C11: where the session asks the hook and what it does with the answer (v5/message.rs)."""
from vunit import Unit, Fn, L
import sess_common as S, conn5 as N, c16m, c11
M = c16m.M
SUBS = [
    ("LockedHookContext :: new ( self , write_packets )", "Ctx5::new(self, write_packets)"), ("LockedHookContext :: new ( session , & mut Default :: default ( ) )", "Ctx5::of(session)"),
    ("handle_request ( hook_request , hook_handler . clone ( ) , global . clone ( ) )", "vx_ask(hook_request, global)"),
    ("write_packets . extend ( packets . into_iter ( ) . map ( WritePacket :: Packet ) )", "vx_extend_w(write_packets, packets)"),
    ("write_packets . extend ( retain_packets . into_iter ( ) . map ( WritePacket :: Packet ) )", "vx_extend_w(write_packets, retain_packets)"),
    ("write_packets . push_back ( $x . into ( ) )", "write_packets.push_back(WritePacket::Packet($x))"),
    ("topics . clone ( ) . into_iter ( ) . map ( | ( $a , $b ) | { $C } ) . collect ( )", "{ let mut vx_in = vx_clone_pairs(&topics); let mut vx_out: Vec<(TopicFilter, SubscriptionOptions)> = Vec::new(); while vx_in.len() > 0 { let ($a, $b) = vx_shift(&mut vx_in); let vx_x = { $C }; vx_out.push(vx_x); } vx_out }"),
    ("PublishProperties { $a , .. Default :: default ( ) }", "PublishProperties { $a, ..PublishProperties::default() }"),
    ("for action in actions { $B }", "let mut actions = actions; while actions.len() > 0 { let action = vx_shift(&mut actions); $B }"),
    ("for packet in $e { $B }", "let mut vx_ps = $e; while vx_ps.len() > 0 { let packet = vx_shift(&mut vx_ps); $B }"),
    ("Self :: Packet", "Packet"),
    ("for $c in & suback . topics { $B }", "let vx_cs = &suback.topics; let mut vx_i: usize = 0; while vx_i < vx_cs.len() { let $c = &vx_cs[vx_i]; vx_i += 1; $B }"),
    ("code != ConnectReasonCode :: Success", "!code.vx_is_success()"), ("code == ConnectReasonCode :: Success", "code.vx_is_success()"),
    ("code != ConnectReturnCode :: Accepted", "!code.vx_is_success()"), ("code == ConnectReturnCode :: Accepted", "code.vx_is_success()"),
]
EV = ", Asked { r: HookRequest, a: HookResponse }, Subscribed { p: Subscribe }, Unsubscribed { p: Unsubscribe } }"
TYPES = r"""
pub mod v5 { pub use super::{Publish, Subscribe, Unsubscribe, Connect, ConnectReasonCode, SubscribeReasonCode, UnsubscribeReasonCode}; }
#[verifier::external_body]
pub struct ErrorV5 { x: u8 }
pub mod v3 { use super::*; #[verifier::external_body] pub struct Publish { x: u8 } #[verifier::external_body] pub struct Subscribe { x: u8 } #[verifier::external_body] pub struct Unsubscribe { x: u8 } #[verifier::external_body] pub struct Connect { x: u8 } }
#[verifier::external_body]
pub struct Ctx3 { x: u8 }
#[verifier::external_body]
pub struct Ctx5 { x: u8 }
"""
ANY = r"""
#[verifier::external_body]
pub struct Body { x: u8 }
#[verifier::external_body]
pub struct VarBytes { x: u8 }
"""
ASK = r"""
#[verifier::external_body]
pub fn vx_shift<T>(v: &mut Vec<T>) -> (r: T) requires old(v)@.len() > 0 ensures r == old(v)@[0], final(v)@ == old(v)@.skip(1) { unimplemented!() }
#[verifier::external_body]
pub fn vx_clone_pairs<A, B>(v: &Vec<(A, B)>) -> (r: Vec<(A, B)>) ensures r@ == v@ { unimplemented!() }
pub open spec fn wrapped(s: Seq<Packet>) -> Seq<WritePacket<Packet>> { s.map_values(|p: Packet| WritePacket::Packet(p)) }
#[verifier::external_body]
pub fn vx_extend_q(w: &mut Q<WritePacket<Packet>>, v: Vec<Packet>) ensures final(w)@ == old(w)@ + wrapped(v@) { unimplemented!() }
pub fn vx_extend_w(w: &mut Q<WritePacket<Packet>>, v: Vec<Packet>) ensures final(w)@ == old(w)@ + wrapped(v@), appended(old(w)@, final(w)@) == v@
{ let ghost vx_v = v@; let ghost vx_w = w@; vx_extend_q(w, v); proof { assert(appended(vx_w, w@) =~= vx_v); } }
impl CTX {
    #[verifier::external_body]
    pub fn new(s: &mut Session, w: &mut Q<WritePacket<Packet>>) -> (r: CTX) ensures *final(s) == *old(s), *final(w) == *old(w) { unimplemented!() }
    #[verifier::external_body]
    pub fn of(s: &mut Session) -> (r: CTX) ensures *final(s) == *old(s) { unimplemented!() }
}
pub open spec fn told1(g: GlobalState, h: GlobalState, e: Ev) -> bool { h.config == g.config && h.log@ == g.log@.push(e) }
/// the answer to a request is of its kind (unit c11)
pub open spec fn fitting(r: HookRequest, a: HookResponse) -> bool {
    match r { HookRequest::V5BeforeConnect { .. } | HookRequest::V3BeforeConnect { .. } => a is BeforeConnect, HookRequest::V5AfterConnect { .. } | HookRequest::V3AfterConnect { .. } => a is AfterConnect, HookRequest::V5AfterDisconnect { .. } | HookRequest::V3AfterDisconnect { .. } => a is AfterDisconnect, _ => a is Normal } }
/// a request about a connection only asks (unit c11)
#[verifier::external_body]
pub fn vx_ask(r: HookRequest, g: &mut GlobalState) -> (a: HookResponse) ensures told1(*old(g), *final(g), Ev::Asked { r, a }), fitting(r, a), final(g).log@.take(old(g).log@.len() as int) == old(g).log@ { unimplemented!() }
"""
SPEC = r"""
impl ConnectReasonCode { pub fn vx_is_success(self) -> (r: bool) ensures r == (self is Success) { match self { ConnectReasonCode::Success => true, _ => false } } }
impl Connect { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Subscribe { #[verifier::external_body] pub fn new(pid: Pid, topics: Vec<(TopicFilter, SubscriptionOptions)>) -> (r: Self) ensures r.pid == pid, r.topics == topics, dflt_SubscribeProperties(r.properties) { unimplemented!() } }
impl Unsubscribe { #[verifier::external_body] pub fn new(pid: Pid, topics: Vec<TopicFilter>) -> (r: Self) ensures r.pid == pid, r.topics == topics { unimplemented!() } }
// what the handlers do is C12-C16; here: which one is called with what, and what becomes of its answer
pub uninterp spec fn did_publish(p: Publish, a: Session, b: Session, g: GlobalState, h: GlobalState, r: Result<Option<Packet>, Packet>) -> bool;
pub uninterp spec fn did_subscribe(p: Subscribe, a: Session, b: Session, g: GlobalState, h: GlobalState, r: Result<Seq<Packet>, Packet>) -> bool;
pub uninterp spec fn did_unsubscribe(p: Unsubscribe, a: Session, b: Session, g: GlobalState, h: GlobalState, r: Packet) -> bool;
pub uninterp spec fn did_disconnect(p: Disconnect, a: Session, b: Session, g: GlobalState, h: GlobalState, r: Option<Packet>) -> bool;
pub uninterp spec fn did_puback(p: Puback, a: Session, b: Session) -> bool;
pub uninterp spec fn did_pubrec(p: Pubrec, a: Session, b: Session, r: Packet) -> bool;
pub uninterp spec fn did_pubrel(p: Pubrel, a: Session, b: Session, r: Packet) -> bool;
pub uninterp spec fn did_pubcomp(p: Pubcomp, a: Session, b: Session) -> bool;
pub open spec fn one_more_w(a: Seq<WritePacket<Packet>>, b: Seq<WritePacket<Packet>>) -> bool { b.len() == a.len() + 1 && b == a.push(b.last()) }
pub open spec fn just(a: Session, b: Session, g: GlobalState, h: GlobalState) -> bool { b == a && h == g }
/// packets appended to the write queue
pub open spec fn appended(w: Seq<WritePacket<Packet>>, x: Seq<WritePacket<Packet>>) -> Seq<Packet> { x.skip(w.len() as int).map_values(|k: WritePacket<Packet>| match k { WritePacket::Packet(p) => p, _ => arbitrary() }) }
"""
HANDLE = """
        ensures ({ let a = *old(self); let b = *final(self); let g = *old(global); let h = *final(global); let w = old(write_packets)@; let x = final(write_packets)@; let c = g.config.hook; let quiet = r == Ok::<Option<HookRequest>, Option<IoError>>(None); let held = just(a, b, g, h) && x == w;
            if encode_len > g.config.max_packet_size_server { h == g && b == (Session { server_disconnected: true, ..a }) && one_more_w(w, x) && quiet && (x.last() matches WritePacket::Packet(Packet::Disconnect(d)) && d.reason_code is PacketTooLarge) }
            else { match packet {
                Packet::Publish(p) => if c.enable_publish { held && (r matches Ok(Some(HookRequest::V5Publish { context, encode_len: n, packet_body: body, publish })) && n == encode_len && body == packet_body && publish == p) }
                    else { quiet && (x == w && did_publish(p, a, b, g, h, Ok(None)) || one_more_w(w, x) && (x.last() matches WritePacket::Packet(k) && (did_publish(p, a, b, g, h, Ok(Some(k))) || did_publish(p, a, b, g, h, Err(k))))) },
                Packet::Subscribe(p) => if c.enable_subscribe { held && (r matches Ok(Some(HookRequest::V5Subscribe { context, encode_len: n, packet_body: body, subscribe })) && n == encode_len && body == packet_body && subscribe == p) }
                    else { quiet && (one_more_w(w, x) && (x.last() matches WritePacket::Packet(k) && did_subscribe(p, a, b, g, h, Err(k))) || x == w + wrapped(appended(w, x)) && did_subscribe(p, a, b, g, h, Ok(appended(w, x)))) },
                Packet::Unsubscribe(p) => if c.enable_unsubscribe { held && (r matches Ok(Some(HookRequest::V5Unsubscribe { context, encode_len: n, packet_body: body, unsubscribe })) && n == encode_len && body == packet_body && unsubscribe == p) }
                    else { quiet && one_more_w(w, x) && (x.last() matches WritePacket::Packet(k) && did_unsubscribe(p, a, b, g, h, k)) },
                Packet::Disconnect(p) => quiet && (x == w && did_disconnect(p, a, b, g, h, None) || one_more_w(w, x) && (x.last() matches WritePacket::Packet(k) && did_disconnect(p, a, b, g, h, Some(k)))),
                Packet::Puback(p) => quiet && h == g && x == w && did_puback(p, a, b),
                Packet::Pubcomp(p) => quiet && h == g && x == w && did_pubcomp(p, a, b),
                Packet::Pubrec(p) => quiet && h == g && one_more_w(w, x) && (x.last() matches WritePacket::Packet(k) && did_pubrec(p, a, b, k)),
                Packet::Pubrel(p) => quiet && h == g && one_more_w(w, x) && (x.last() matches WritePacket::Packet(k) && did_pubrel(p, a, b, k)),
                Packet::Pingreq => quiet && just(a, b, g, h) && x == w.push(WritePacket::Packet(Packet::Pingresp)),
                _ => held && (r matches Err(Some(_))),
            } } }),"""
ACT = r"""
/// the packet an action to publish would be cannot be encoded
pub open spec fn too_large(q: PublishAction) -> bool { exists|p: Publish| p.topic_name == q.topic_name && p.payload == q.payload && p.qos_pid.q() == q.qos && p.retain == q.retain && !p.dup && act_props(p.properties, q) && #[trigger] plen(Packet::Publish(p)) is None }
pub open spec fn act_props(p: PublishProperties, q: PublishAction) -> bool { p.payload_is_utf8 == q.payload_is_utf8 && p.message_expiry_interval == q.message_expiry_interval && p.content_type == q.content_type && p.topic_alias is None && p.response_topic is None && p.correlation_data is None && p.subscription_ids@.len() == 0 && p.user_properties@.len() == 0 }
/// the event is the action carried out
pub open spec fn enacts(e: Ev, q: HookAction) -> bool {
    match q {
        HookAction::Publish(q) => e matches Ev::Published { qos, retain, topic, payload, properties } && qos == q.qos && retain == q.retain && topic == q.topic_name && payload == q.payload && act_props(properties, q),
        HookAction::Subscribe(q) => e matches Ev::Subscribed { p } && p.properties.subscription_id is None && p.topics@.len() == q.0@.len() && (forall|i: int| 0 <= i < q.0@.len() ==> asks(#[trigger] p.topics@[i], q.0@[i])),
        HookAction::Unsubscribe(q) => e matches Ev::Unsubscribed { p } && p.topics == q.0 } }
pub open spec fn asks(t: (TopicFilter, SubscriptionOptions), q: (TopicFilter, QoS)) -> bool { t.0 == q.0 && t.1.max_qos == q.1 && !t.1.no_local && !t.1.retain_as_published && t.1.retain_handling is DoNotSend }
"""
ACTED = r"""
/// the actions up to the first that is too large are carried out, once each and in order
pub open spec fn all_acted(v: Seq<HookAction>, l: Seq<Ev>, n: int, ok: bool) -> bool {
    let k = l.len() - n;
    0 <= k <= v.len() && (forall|i: int| 0 <= i < k ==> enacts(#[trigger] l[n + i], v[i])) && (if ok { k == v.len() } else { k < v.len() && (v[k] matches HookAction::Publish(q) && too_large(q)) }) }
/// the hook has been asked once, in that state of the log, and its answer followed
pub open spec fn followed(g: GlobalState, h: GlobalState, present: bool, ok: bool) -> bool {
    let n = g.log@.len() as int; let l = h.log@;
    l.len() > n && l.take(n) == g.log@ && (l[n] matches Ev::Asked { r: HookRequest::VVAfterConnect { context, session_present }, a: HookResponse::AfterConnect(x) } && session_present == present && match x { Err(_) => !ok && l.len() == n + 1, Ok(v) => all_acted(v@, l, n + 1, ok) }) }
"""
APPLY = """
        ensures ({ let a = *old(self); let b = *final(self); let g = *old(global); let h = *final(global);
            match r { Ok(_) => h.log@.len() == g.log@.len() + 1 && told1(g, h, h.log@.last()) && enacts(h.log@.last(), action), Err(_) => just(a, b, g, h) && (action matches HookAction::Publish(q) && too_large(q)) } }),"""
def apply_action():
    codes = "invariant vx_i <= vx_cs@.len(), *self == vx_s1, *global == vx_g1 decreases vx_cs@.len() - vx_i"
    return Fn("apply_action", ret="r", spec=APPLY, attrs="#[verifier::loop_isolation(false)]", loops=[
        L("while", "invariant *self == *old(self), *global == *old(global), topics@ == vx_t0, vx_out@.len() + vx_in@.len() == vx_t0.len(), vx_in@ =~= vx_t0.skip(vx_out@.len() as int), forall|i: int| 0 <= i < vx_out@.len() ==> asks(#[trigger] vx_out@[i], vx_t0[i]) decreases vx_in@.len()", before="let ghost vx_t0 = topics@;"),
        L("while", codes, before="let ghost vx_s1 = *self; let ghost vx_g1 = *global;")])
ENC = r"""#[verifier::external_body]
pub fn vx_encode_len(p: &Packet) -> (r: IoRes<usize>) ensures match r { Ok(n) => plen(*p) == Some(n as nat), Err(_) => plen(*p) is None } { unimplemented!() }
#[verifier::external_body]
pub struct Hk { x: u8 }"""
def hooks(u, ctx, other):
    """the types of hook.rs and the world of message.rs around them"""
    for i, p in enumerate(u.parts):
        if p[0] == "raw" and "Kept { session: Session } }" in p[1]: u.parts[i] = ("raw", p[1].replace(" Kept { session: Session } }", " Kept { session: Session }" + EV)); at = i
    ps = u.parts; rest = ps[at:]; u.parts = ps[:at]
    u.raw(TYPES + ANY); c11.items(u)
    u.item(c11.OL, "WritePacket"); u.item(c11.H, "HookResponse"); u.item(c11.H, "HookRequest")
    u.parts += rest
def after(v):
    ask = f"Ev::Asked {{ r: HookRequest::{v}AfterDisconnect {{ context, taken_over: t }}, a: HookResponse::AfterDisconnect(x) }}"
    return [
        Fn("after_connect_hook", ret="r", attrs="#[verifier::loop_isolation(false)]", spec="ensures followed(*old(global), *final(global), session_present, r is Ok), final(global).config == old(global).config,", loops=[
            L("while", "invariant global.config == vx_g.config, vx_done.len() + actions@.len() == vx_as.len(), actions@ =~= vx_as.skip(vx_done.len() as int), global.log@.len() == vx_n + 1 + vx_done.len(), global.log@.take(vx_n + 1) =~= vx_g.log@.take(vx_n + 1), forall|i: int| 0 <= i < vx_done.len() ==> enacts(#[trigger] global.log@[vx_n + 1 + i], vx_as[i]) decreases actions@.len()",
              before="let ghost vx_as = actions@; let ghost vx_g = *global; let ghost vx_n = vx_g.log@.len() - 1; let ghost mut vx_done = Seq::<HookAction>::empty();",
              body_pre="proof { assert(vx_g.log@.take(vx_n) =~= global.log@.take(vx_n)) by { assert(vx_g.log@.take(vx_n) =~= vx_g.log@.take(vx_n + 1).take(vx_n)); assert(global.log@.take(vx_n) =~= global.log@.take(vx_n + 1).take(vx_n)); } assert(global.log@[vx_n] == global.log@.take(vx_n + 1)[vx_n]); assert(vx_g.log@[vx_n] == vx_g.log@.take(vx_n + 1)[vx_n]); } let ghost vx_l0 = global.log@;",
              body_post="proof { vx_done = vx_done.push(vx_as[vx_done.len() as int]); assert(global.log@.take(vx_n + 1) =~= vx_l0.take(vx_n + 1)); assert forall|i: int| 0 <= i < vx_done.len() implies enacts(#[trigger] global.log@[vx_n + 1 + i], vx_as[i]) by { if i < vx_done.len() - 1 { assert(global.log@[vx_n + 1 + i] == vx_l0[vx_n + 1 + i]); } } }",
              after="proof { assert(vx_g.log@.take(vx_n) =~= global.log@.take(vx_n)) by { assert(vx_g.log@.take(vx_n) =~= vx_g.log@.take(vx_n + 1).take(vx_n)); assert(global.log@.take(vx_n) =~= global.log@.take(vx_n + 1).take(vx_n)); } assert(global.log@[vx_n] == global.log@.take(vx_n + 1)[vx_n]); assert(vx_g.log@[vx_n] == vx_g.log@.take(vx_n + 1)[vx_n]); }")]),
        Fn("after_connect", ret="r", attrs="#[verifier::loop_isolation(false)]", spec="ensures final(global).config == old(global).config, if old(global).config.hook.enable_after_connect { followed(*old(global), *final(global), session_present, true) || (r is Err && final(conn)@ == old(conn)@ && followed(*old(global), *final(global), session_present, false)) } else { *final(global) == *old(global) },",
            loops=[L("while", "invariant *global == vx_g decreases vx_ps@.len()", before="let ghost vx_g = *global;")]),
        Fn("after_disconnect_hook", ret="r", spec=f"ensures final(global).config == old(global).config, *final(session) == *old(session), final(global).log@.len() == old(global).log@.len() + 1, told1(*old(global), *final(global), final(global).log@.last()), (final(global).log@.last() matches {ask} && t == taken_over && (r is Ok <==> x is Ok)),"),
    ]
HX = ["enable_publish"]
def unit():
    u = c16m.base("c11m"); u.subs = SUBS + c11.SUBS + u.subs
    hooks(u, "Ctx5", "Ctx3")
    u.frame(S.V5SESSION, "Session", "but_conn", c16m.c16.FRAME)
    u.frame(S.V5SESSION, "Session", "but_bcast", ["broadcast_packets", "broadcast_packets_cnt"])
    u.item(c16m.PB, "SendPublish"); u.item(N.ST, "NormalMessage")
    u.raw(c11.codes_spec(5) + ASK.replace("CTX", "Ctx5") + SPEC + ACT + ACTED.replace("VV", "V5"))
    u.raw(ENC)
    for f in N.errors(trusted=True): u.fn(N.C, f)
    P, F, C = c16m.PB, "akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs", N.C
    u.fn(P, Fn("send_publish", trusted=True, ret="r", spec="ensures told1(*old(global), *final(global), Ev::Published { qos: msg.qos, retain: msg.retain, topic: *msg.topic_name, payload: *msg.payload, properties: *msg.properties }),"))
    u.fn(P, Fn("handle_publish", trusted=True, ret="r", spec="ensures did_publish(packet, *old(session), *final(session), *old(global), *final(global), r),"))
    for n in ("puback", "pubcomp"): u.fn(P, Fn("handle_" + n, trusted=True, spec=f"ensures did_{n}(packet, *old(session), *final(session)),"))
    for n in ("pubrec", "pubrel"): u.fn(P, Fn("handle_" + n, trusted=True, ret="r", spec=f"ensures did_{n}(packet, *old(session), *final(session), r),"))
    u.fn(F, Fn("handle_subscribe", trusted=True, ret="r", spec="ensures told1(*old(global), *final(global), Ev::Subscribed { p: *packet }), r matches Ok(v) ==> v@.len() > 0, did_subscribe(*packet, *old(session), *final(session), *old(global), *final(global), match r { Ok(v) => Ok(v@), Err(k) => Err(k) }),"))
    u.fn(F, Fn("handle_unsubscribe", trusted=True, ret="r", spec="ensures told1(*old(global), *final(global), Ev::Unsubscribed { p: *packet }), did_unsubscribe(*packet, *old(session), *final(session), *old(global), *final(global), r),"))
    u.fn(N.CN, Fn("handle_disconnect", trusted=True, ret="r", spec="ensures did_disconnect(packet, *old(session), *final(session), *old(global), *final(global), match r { Ok(_) => None, Err(k) => Some(k) }),"))
    u.fn(C, Fn("after_handle_packet", trusted=True, ret="r"))
    u.impl(c11.H, "HookConnectCode", [Fn("to_v5_code", trusted=True, ret="r", spec="ensures r == connack5_of(self),")])
    u.impl(M, "<OnlineSession>Session", [Fn("handle_packet", ret="r", spec=HANDLE, post="proof { let w = old(write_packets)@; let x = write_packets@; assert(wrapped(appended(w, x)) =~= x.skip(w.len() as int)); }", ret_post=True), apply_action()], header="impl Session")
    u.fn(M, Fn("before_connect_hook", ret="r", spec="""
        ensures final(global).config == old(global).config, but_flags(*old(session), *final(session)), final(global).log@.len() == old(global).log@.len() + 1, told1(*old(global), *final(global), final(global).log@.last()),
            (final(global).log@.last() matches Ev::Asked { r: HookRequest::V5BeforeConnect { peer: p1, connect }, a: HookResponse::BeforeConnect(x) } && p1 == peer && connect == *packet && match x {
                Ok(HookConnectCode::Success) => r is Ok && final(conn)@ == old(conn)@,
                Ok(code) => r is Err && final(conn)@.len() == old(conn)@.len() + 1 && final(conn)@ == old(conn)@.push(final(conn)@.last()) && (final(conn)@.last() matches Packet::Connack(k) && k.reason_code == connack5_of(code) && !k.session_present),
                Err(_) => r is Err && final(conn)@ == old(conn)@ }),"""))
    for f in after("V5"): u.fn(M, f)
    return u

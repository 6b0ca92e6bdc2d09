"""C11: where the session asks the hook and what it does with the answer (v3/message.rs)."""
from vunit import Unit, Fn, L
import sess_common as S, conn5 as N, v3_out as O, c16v3, c16m, c11, c11m
M, P, F, C = O.M, O.P, "akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs", "akasa-core/src/protocols/mqtt/v3/packet/common.rs"
SUBS = [(a.replace("Ctx5", "Ctx3"), b.replace("Ctx5", "Ctx3")) for a, b in c11m.SUBS if "topics . clone" not in a] + [
    ("topics . clone ( )", "vx_clone_pairs(&topics)"),
    ("handle_publish ( self , pkt , global ) . map_err ( Some ) ?", "(match handle_publish(self, pkt, global) { Ok(vx_p) => vx_p, Err(vx_e) => return Err(Some(vx_e)) })"),
    ("handle_pubrel ( self , pid ) ?", "(match handle_pubrel(self, pid) { Ok(vx_p) => vx_p, Err(vx_e) => return Err(Some(vx_e)) })"),
    ("handle_subscribe ( self , & pkt , global ) ?", "(match handle_subscribe(self, &pkt, global) { Ok(vx_p) => vx_p, Err(vx_e) => return Err(Some(vx_e)) })"),
]
TYPES = c11m.TYPES.replace("pub mod v5 {", "pub mod v3 { pub use super::{Publish, Subscribe, Unsubscribe, Connect, ConnectReturnCode, SubscribeReturnCode}; }\n//").replace("pub mod v3 { use super::*; #[ver", "pub mod v5 { use super::*; #[ver").replace("#[verifier::external_body]\npub struct ErrorV5 { x: u8 }\n", "")
def ho(p): return p
SPEC = r"""
impl ConnectReturnCode { pub fn vx_is_success(self) -> (r: bool) ensures r == (self is Accepted) { match self { ConnectReturnCode::Accepted => true, _ => false } } }
impl Connect { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Subscribe { #[verifier::external_body] pub fn new(pid: Pid, topics: Vec<(TopicFilter, QoS)>) -> (r: Self) ensures r.pid == pid, r.topics == topics { unimplemented!() } }
impl Unsubscribe { #[verifier::external_body] pub fn new(pid: Pid, topics: Vec<TopicFilter>) -> (r: Self) ensures r.pid == pid, r.topics == topics { unimplemented!() } }
pub uninterp spec fn did_publish(p: Publish, a: Session, b: Session, g: GlobalState, h: GlobalState, r: IoRes<Option<Packet>>) -> bool;
pub uninterp spec fn did_subscribe(p: Subscribe, a: Session, b: Session, g: GlobalState, h: GlobalState, r: IoRes<Seq<Packet>>) -> bool;
pub uninterp spec fn did_unsubscribe(p: Unsubscribe, a: Session, b: Session, g: GlobalState, h: GlobalState, r: Packet) -> bool;
pub uninterp spec fn did_disconnect(a: Session, b: Session) -> bool;
pub uninterp spec fn did_puback(p: Pid, a: Session, b: Session) -> bool;
pub uninterp spec fn did_pubrec(p: Pid, a: Session, b: Session, r: Packet) -> bool;
pub uninterp spec fn did_pubrel(p: Pid, a: Session, b: Session, r: IoRes<Packet>) -> bool;
pub uninterp spec fn did_pubcomp(p: Pid, a: Session, b: Session) -> bool;
""" + c11m.SPEC[c11m.SPEC.index("pub open spec fn one_more_w"):]
HANDLE = """
        ensures ({ let a = *old(self); let b = *final(self); let g = *old(global); let h = *final(global); let w = old(write_packets)@; let x = final(write_packets)@; let c = g.config.hook; let quiet = r == Ok::<Option<HookRequest>, Option<IoError>>(None); let held = just(a, b, g, h) && x == w;
            if encode_len > g.config.max_packet_size_server { held && (r matches Err(Some(_))) }
            else { match packet {
                Packet::Publish(p) => if c.enable_publish { held && (r matches Ok(Some(HookRequest::V3Publish { context, encode_len: n, packet_body: body, publish })) && n == encode_len && body == packet_body && publish == p) }
                    else { x == w && quiet && did_publish(p, a, b, g, h, Ok(None)) || one_more_w(w, x) && quiet && (x.last() matches WritePacket::Packet(k) && did_publish(p, a, b, g, h, Ok(Some(k)))) || x == w && (r matches Err(Some(e)) && did_publish(p, a, b, g, h, Err(e))) },
                Packet::Subscribe(p) => if c.enable_subscribe { held && (r matches Ok(Some(HookRequest::V3Subscribe { context, encode_len: n, packet_body: body, subscribe })) && n == encode_len && body == packet_body && subscribe == p) }
                    else { x == w + wrapped(appended(w, x)) && quiet && did_subscribe(p, a, b, g, h, Ok(appended(w, x))) || x == w && (r matches Err(Some(e)) && did_subscribe(p, a, b, g, h, Err(e))) },
                Packet::Unsubscribe(p) => if c.enable_unsubscribe { held && (r matches Ok(Some(HookRequest::V3Unsubscribe { context, encode_len: n, packet_body: body, unsubscribe })) && n == encode_len && body == packet_body && unsubscribe == p) }
                    else { quiet && one_more_w(w, x) && (x.last() matches WritePacket::Packet(k) && did_unsubscribe(p, a, b, g, h, k)) },
                Packet::Disconnect => quiet && x == w && h == g && did_disconnect(a, b),
                Packet::Puback(p) => quiet && h == g && x == w && did_puback(p, a, b),
                Packet::Pubcomp(p) => quiet && h == g && x == w && did_pubcomp(p, a, b),
                Packet::Pubrec(p) => quiet && h == g && one_more_w(w, x) && (x.last() matches WritePacket::Packet(k) && did_pubrec(p, a, b, k)),
                Packet::Pubrel(p) => h == g && (quiet && one_more_w(w, x) && (x.last() matches WritePacket::Packet(k) && did_pubrel(p, a, b, Ok(k))) || x == w && (r matches Err(Some(e)) && did_pubrel(p, a, b, Err(e)))),
                Packet::Pingreq => quiet && just(a, b, g, h) && x == w.push(WritePacket::Packet(Packet::Pingresp)),
                _ => held && (r matches Err(Some(_))),
            } } }),"""
ACT = r"""
pub open spec fn too_large(q: PublishAction) -> bool { exists|p: Publish| p.topic_name == q.topic_name && p.payload == q.payload && p.qos_pid.q() == q.qos && p.retain == q.retain && !p.dup && #[trigger] plen(Packet::Publish(p)) is None }
pub open spec fn enacts(e: Ev, q: HookAction) -> bool {
    match q {
        HookAction::Publish(q) => e matches Ev::Published { qos, retain, topic, payload } && qos == q.qos && retain == q.retain && topic == q.topic_name && payload == q.payload,
        HookAction::Subscribe(q) => e matches Ev::Subscribed { p } && p.topics@ == q.0@,
        HookAction::Unsubscribe(q) => e matches Ev::Unsubscribed { p } && p.topics == q.0 } }
"""
def unit():
    u = c16v3.base("c11v3m"); u.subs = SUBS + c11.SUBS + u.subs
    for i, p in enumerate(u.parts):
        if p[0] == "raw" and "Kept { session: Session } }" in p[1]: u.parts[i] = ("raw", p[1].replace(" Kept { session: Session } }", " Kept { session: Session }" + c11m.EV)); at = i
    ps = u.parts; rest = ps[at:]; u.parts = ps[:at]
    u.raw(TYPES + c11m.ANY); c11.items(u)
    u.item(c11.OL, "WritePacket"); u.item(c11.H, "HookResponse"); u.item(c11.H, "HookRequest")
    u.parts += rest
    u.frame(O.SESSION, "Session", "but_bcast", ["broadcast_packets", "broadcast_packets_cnt"])
    u.item(O.P, "SendPublish"); u.item(N.ST, "NormalMessage")
    u.raw(c11.codes_spec(3) + c11m.ASK.replace("CTX", "Ctx3") + SPEC + ACT + c11m.ACTED.replace("VV", "V3") + c11m.ENC + "impl PidW { #[verifier::external_body] pub fn default() -> (r: PidW) { unimplemented!() } }\npub uninterp spec fn plen(p: Packet) -> Option<nat>;\n")
    u.fn(P, Fn("send_publish", trusted=True, ret="r", spec="ensures told1(*old(global), *final(global), Ev::Published { qos: msg.qos, retain: msg.retain, topic: *msg.topic_name, payload: *msg.payload }),"))
    u.fn(P, Fn("handle_publish", trusted=True, ret="r", spec="ensures did_publish(packet, *old(session), *final(session), *old(global), *final(global), r),"))
    for n in ("puback", "pubcomp"): u.fn(P, Fn("handle_" + n, trusted=True, spec=f"ensures did_{n}(pid, *old(session), *final(session)),"))
    for n in ("pubrec", "pubrel"): u.fn(P, Fn("handle_" + n, trusted=True, ret="r", spec=f"ensures did_{n}(pid, *old(session), *final(session), r),"))
    u.fn(F, Fn("handle_subscribe", trusted=True, ret="r", spec="ensures told1(*old(global), *final(global), Ev::Subscribed { p: *packet }), r matches Ok(v) ==> v@.len() > 0, did_subscribe(*packet, *old(session), *final(session), *old(global), *final(global), match r { Ok(v) => Ok(v@), Err(k) => Err(k) }),"))
    u.fn(F, Fn("handle_unsubscribe", trusted=True, ret="r", spec="ensures told1(*old(global), *final(global), Ev::Unsubscribed { p: *packet }), did_unsubscribe(*packet, *old(session), *final(session), *old(global), *final(global), r),"))
    u.fn(c16v3.F, Fn("handle_disconnect", trusted=True, spec="ensures did_disconnect(*old(session), *final(session)),"))
    u.fn(C, Fn("after_handle_packet", trusted=True, ret="r"))
    u.impl(c11.H, "HookConnectCode", [Fn("to_v3_code", trusted=True, ret="r", spec="ensures r == connack3_of(self),")])
    codes = c11m.apply_action(); codes.loops = [codes.loops[1]]
    u.impl(M, "<OnlineSession>Session", [Fn("handle_packet", ret="r", spec=HANDLE, post="proof { let w = old(write_packets)@; let x = write_packets@; assert(wrapped(appended(w, x)) =~= x.skip(w.len() as int)); }", ret_post=True), codes], header="impl Session")
    u.fn(M, Fn("before_connect_hook", ret="r", spec="""
        ensures final(global).config == old(global).config, final(global).log@.len() == old(global).log@.len() + 1, told1(*old(global), *final(global), final(global).log@.last()),
            (final(global).log@.last() matches Ev::Asked { r: HookRequest::V3BeforeConnect { peer: p1, connect }, a: HookResponse::BeforeConnect(x) } && p1 == peer && connect == *packet && match x {
                Ok(HookConnectCode::Success) => r is Ok && final(conn)@ == old(conn)@,
                Ok(code) => r is Err && final(conn)@.len() == old(conn)@.len() + 1 && final(conn)@ == old(conn)@.push(final(conn)@.last()) && (final(conn)@.last() matches Packet::Connack(k) && k.code == connack3_of(code) && !k.session_present),
                Err(_) => r is Err && final(conn)@ == old(conn)@ }),"""))
    for f in c11m.after("V3"): u.fn(M, f)
    return u

"""C16: the life of a v5 connection and its will (v5/message.rs, v5/packet/connect.rs handle_disconnect)."""
from vunit import Unit, Fn, L
import sess_common as S, conn5 as N, c16
M = "akasa-core/src/protocols/mqtt/v5/message.rs"
PB = "akasa-core/src/protocols/mqtt/v5/packet/publish.rs"
SUBS = [
    ("let global = Arc :: clone ( global ) ;", ""), ("let global_clone = Arc :: clone ( & global ) ;", ""), ("global_clone", "global"),
    ("tokio :: spawn ( async move { $B } ) ;", "{ let mut vx_after: u64 = 0; $B }"), ("tokio :: spawn ( handle_offline ( $A ) ) ;", "vx_offline_task($A);"),
    ("tokio :: time :: sleep ( $d ) ;", "vx_after = vx_sleep(&$d);"), ("sender . send_async ( msg )", "vx_post(global, &sender, msg, vx_after)"),
    ("sender . send_async ( old_state )", "vx_hand(global, &sender, old_state)"),
    ("Packet :: Publish ( publish ) . encode_len ( ) . map_err ( $f ) ?", "vx_encode_len(&Packet::Publish(publish))?"), ("Default :: default ( )", "PidW::default()"),
    ("$s . subscribes . keys ( )", "$s.subscribes.vx_keys()"),
    ("< T : AsyncRead + AsyncWrite + Unpin , H : Hook + Clone + Send + Sync + 'static , >", ""), ("mut conn : T", "mut conn: Conn"), ("conn : T", "conn: Conn"), ("hook_handler : & H", "hook_handler: &Hk"), ("hook_handler : H", "hook_handler: Hk"),
    ("< T : AsyncWrite + Unpin , H : Hook + Clone + Send + Sync >", ""), ("< H : Hook + Clone + Send + Sync >", ""),
    ("let timeout = async { $B } ;", ""), ("Connect :: decode_stream_with_protocol ( & mut conn , header , protocol ) . or ( timeout )", "vx_read_connect(&mut conn, header, protocol)"),
    ("async { $A } . or ( async { $B } ) ?", "(if vx_either() { $A } else { $B })?"), ("Packet :: decode_async ( & mut conn )", "vx_decode(&mut conn)"),
    ("IoError :: from ( io :: ErrorKind :: TimedOut )", "vx_io()"), ("let _ = timeout_receiver . recv_async ( ) ;", ""), ("io :: Error :: from ( io :: ErrorKind :: TimedOut )", "vx_io()"),
    ("receiver . expect ( $m )", "receiver.unwrap()"), ("$s . subscribes . keys ( )", "$s.subscribes.vx_keys()"), ("unreachable ! ( )", "vx_unreachable()"),
    ("if vx_either() { match vx_control", "if vx_either() { match vx_control"), ("HashMap :: new ( )", "HM::new()"),
    ("timeout_receiver : Receiver < ( ) >", "timeout_receiver: Timeout"), ("Session :: new ( & global . config , peer )", "Session::new(&global.config, peer)"),
    ("PendingPackets :: new ( 0 , 0 , 0 )", "PendingPackets::new(0, 0, 0)"), ("broadcast_packets ( & mut session ) ;", "vx_broadcast(&mut session);"),
    ("drop ( timeout_receiver ) ;", ""),
    ("connect_result . err ( ) . unwrap_or_else ( $f )", "vx_err(connect_result)"), ("let online_loop = OnlineLoop :: new ( $A ) ;", ""), ("io_error = online_loop ;", "io_error = vx_online(&mut session, &mut taken_over, global);"),
    ("io_error . get_or_insert ( err ) ;", "vx_or_insert(&mut io_error, err);"), ("io_error . map_or ( Ok ( None ) , Err )", "(match io_error { None => Ok(None), Some(vx_e) => Err(vx_e) })"),
    ("tokio :: select ! { result = receiver . control . recv_async ( ) => match result { $A } , result = receiver . normal . recv_async ( ) => match result { $B } }", "if vx_either() { match vx_control(&receiver) { $A } } else { match vx_normal(&receiver) { $B } }"),
    ("global : Arc < GlobalState >", "global: &mut GlobalState"),
    ("mem :: swap (", "vx_swap("), ("Self :: SessionState", "SessionState"),
]
WORLD = r"""
#[verifier::external_body]
pub struct Hk { x: u8 }
#[verifier::external_body]
pub struct Header { x: u8 }
#[verifier::external_body]
pub struct IoErrorKind { x: u8 }
pub enum Error { IoError(IoErrorKind), Other(u8) }
pub enum ErrorV5 { Common(Error), Other(u8) }
impl Error {
    #[verifier::external_body]
    pub fn into(self) -> IoError { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> Str { unimplemented!() }
}
impl ErrorV5 { #[verifier::external_body] pub fn to_string(&self) -> Str { unimplemented!() } }
pub struct Duration { pub secs: u64 }
impl Duration { pub fn from_secs(s: u64) -> (r: Duration) ensures r.secs == s { Duration { secs: s } } }
/// the task goes on after that time
pub fn vx_sleep(d: &Duration) -> (r: u64) ensures r == d.secs { d.secs }
pub uninterp spec fn to_client(s: Sender<ControlMessage>) -> ClientId;
pub open spec fn said(a: GlobalState, b: GlobalState, e: Ev) -> bool { b == (GlobalState { log: b.log, ..a }) && b.log@ == a.log@.push(e) }
#[verifier::external_body]
pub fn vx_post(g: &mut GlobalState, s: &Sender<ControlMessage>, msg: ControlMessage, after: u64) -> (r: IoRes<()>) ensures said(*old(g), *final(g), Ev::Posted { after, id: to_client(*s), msg }) { unimplemented!() }
#[verifier::external_body]
pub fn vx_encode_len(p: &Packet) -> (r: IoRes<usize>) ensures match r { Ok(n) => plen(*p) == Some(n as nat), Err(_) => plen(*p) is None } { unimplemented!() }
pub uninterp spec fn without(g: Registry, id: ClientId) -> Registry;
pub uninterp spec fn put_offline(g: Registry, id: ClientId) -> Registry;
pub open spec fn drop_debt(o: Option<ClientId>, id: ClientId) -> Option<ClientId> { if o == Some(id) { None } else { o } }
impl GlobalState {
    #[verifier::external_body]
    pub fn remove_client(&mut self, id: ClientId, fs: Vec<&TopicFilter>)
        ensures *final(self) == (GlobalState { log: final(self).log, owes: final(self).owes, registry: final(self).registry, route_table: final(self).route_table, ..*old(self) }), final(self).log@ == old(self).log@.push(Ev::Removed { id }),
            final(self).owes@ == drop_debt(old(self).owes@, id), final(self).registry == without(old(self).registry, id), forall|m: Map<TopicFilter, SubscriptionData>| #[trigger] keys_of(m, fs@) ==> routes_gone(old(self).route_table@, final(self).route_table@, id, m) { unimplemented!() }
    #[verifier::external_body]
    pub fn offline_client(&mut self, id: ClientId)
        ensures *final(self) == (GlobalState { log: final(self).log, owes: final(self).owes, registry: final(self).registry, ..*old(self) }), final(self).log@ == old(self).log@.push(Ev::Offline { id }), final(self).owes@ == drop_debt(old(self).owes@, id), final(self).registry == put_offline(old(self).registry, id) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_client_control_sender(&self, id: &ClientId) -> (r: Option<Sender<ControlMessage>>) ensures r is Some == has_control(self.registry, *id), r matches Some(s) ==> to_client(s) == *id { unimplemented!() }
}
pub uninterp spec fn has_control(g: Registry, id: ClientId) -> bool;
#[verifier::external_body]
pub struct Timeout { x: u8 }
#[verifier::external_body]
pub fn vx_either() -> bool { unimplemented!() }
#[verifier::external_body]
pub fn vx_control(r: &ClientReceiver) -> Result<ControlMessage, IoError> { unimplemented!() }
#[verifier::external_body]
pub fn vx_normal(r: &ClientReceiver) -> Result<(ClientId, NormalMessage), IoError> { unimplemented!() }
pub open spec fn over(e: Ev, s: SessionState) -> bool { e matches Ev::Handed { id } && id == s.client_id }
/// the client taking over gets the state
#[verifier::external_body]
pub fn vx_hand(g: &mut GlobalState, s: &Sender<SessionState>, x: SessionState) -> (r: Result<(), IoError>)
    ensures r is Err ==> *final(g) == *old(g), r is Ok ==> *final(g) == (GlobalState { log: final(g).log, owes: final(g).owes, ..*old(g) }) && final(g).log@ == old(g).log@.push(Ev::Handed { id: x.client_id }) && final(g).owes@ == drop_debt(old(g).owes@, x.client_id) { unimplemented!() }
#[verifier::external_body]
pub fn vx_decode(c: &mut Conn) -> (r: Result<Packet, ErrorV5>) ensures final(c)@ == old(c)@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_read_connect(c: &mut Conn, h: Header, p: Protocol) -> (r: Result<Connect, ErrorV5>) ensures final(c)@ == old(c)@, r matches Ok(k) ==> k.protocol == p { unimplemented!() }
#[verifier::external_body]
pub fn vx_err(r: IoRes<bool>) -> IoError { unimplemented!() }
#[verifier::external_body]
pub fn vx_or_insert(o: &mut Option<IoError>, e: IoError) ensures *final(o) is Some { unimplemented!() }
/// the connection with its loop: it goes on until the connection ends or the client is taken over
pub open spec fn same_client(a: Session, b: Session) -> bool { b.client_id == a.client_id && b.connected == a.connected && b.connected_time == a.connected_time }
pub open spec fn going_on(a: GlobalState, b: GlobalState) -> bool { b.config == a.config && b.owes@ == a.owes@ && b.will_due@ == a.will_due@ }
#[verifier::external_body]
pub fn vx_online(s: &mut Session, taken: &mut bool, g: &mut GlobalState) -> (r: Option<IoError>)
    requires old(s).connected, !*old(taken), old(g).owes@ == Some(old(s).client_id)
    ensures same_client(*old(s), *final(s)), final(g).config == old(g).config, final(g).will_due == old(g).will_due, final(g).owes@ == (if *final(taken) { None } else { old(g).owes@ }) { unimplemented!() }
#[verifier::external_body]
pub fn vx_broadcast(s: &mut Session) ensures but_bcast(*old(s), *final(s)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_unreachable() requires false { unimplemented!() }
/// its timer is running, so the session ends when its time is up
pub open spec fn timer_set(g: GlobalState, s: Session) -> bool { has_control(g.registry, s.client_id) ==> s.connected_time is Some && g.log@.last() == (Ev::Posted { after: s.session_expiry_interval as u64, id: s.client_id, msg: ControlMessage::SessionExpired { connected_time: s.connected_time->0 } }) }
#[verifier::external_body]
pub fn vx_offline_task(s: Session, r: ClientReceiver, g: &mut GlobalState) requires !s.connected, s.connected_time is Some, timer_set(*old(g), s), !(old(g).owes@ == Some(s.client_id)) ensures going_on(*old(g), *final(g)) { unimplemented!() }
pub fn vx_swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { std::mem::swap(a, b) }
"""
SPEC = r"""
pub open spec fn will_props(p: PublishProperties, w: WillProperties) -> bool {
    p.payload_is_utf8 == w.payload_is_utf8 && p.message_expiry_interval == w.message_expiry_interval && p.topic_alias is None && p.response_topic == w.response_topic && p.correlation_data == w.correlation_data && p.user_properties == w.user_properties && p.subscription_ids@.len() == 0 && p.content_type == w.content_type }
pub open spec fn is_will(e: Ev, w: LastWill) -> bool { e matches Ev::Published { qos, retain, topic, payload, properties } && qos == w.qos && retain == w.retain && topic == w.topic_name && payload == w.payload && will_props(properties, w.properties) }
/// published once, with everything it carries (or it is too large for any packet)
pub open spec fn will_sent(a: Session, b: Session, g: GlobalState, h: GlobalState) -> bool {
    match a.last_will {
        None => b == a && h == g,
        Some(w) => b.last_will is None && but_will(a, b) && (h == g && too_large(w) || h.log@.len() == g.log@.len() + 1 && said(g, h, h.log@.last()) && is_will(h.log@.last(), w)) } }
pub open spec fn too_large(w: LastWill) -> bool { exists|p: Publish| p.topic_name == w.topic_name && p.payload == w.payload && p.qos_pid.q() == w.qos && !p.retain && !p.dup && will_props(p.properties, w.properties) && #[trigger] plen(Packet::Publish(p)) is None }
pub open spec fn mine(s: Session, t: Instant) -> bool { !s.connected && s.connected_time == Some(t) }
pub open spec fn delay(w: LastWill) -> u32 { opt(w.properties.delay_interval, 0u32) }
pub open spec fn will_now(s: Session) -> bool { s.last_will matches Some(w) ==> delay(w) == 0 || s.session_expiry_interval == 0 }
/// the session has ended for good
pub open spec fn expired(a: Session, b: Session, g: GlobalState, h: GlobalState) -> bool { but_will(a, b) && (b.last_will is None) && h.config == g.config && h.will_due == g.will_due && h.owes@ == drop_debt(g.owes@, a.client_id) && h.registry == without(g.registry, a.client_id) && routes_gone(g.route_table@, h.route_table@, a.client_id, a.subscribes@)
    && (match a.last_will { None => h.log@ == g.log@.push(Ev::Removed { id: a.client_id }), Some(w) => h.log@ == g.log@.push(Ev::Removed { id: a.client_id }) && too_large(w) || h.log@ == g.log@.push(h.log@[g.log@.len() as int]).push(Ev::Removed { id: a.client_id }) && is_will(h.log@[g.log@.len() as int], w) }) }
"""
SPEC += r"""
pub open spec fn ended(e: Ev, id: ClientId) -> bool { e == (Ev::Removed { id }) || e == (Ev::Handed { id }) }
pub open spec fn fresh(s: Session, c: Config) -> bool {
    !s.connected && !s.authorizing && !s.client_disconnected && !s.server_disconnected && s.protocol is V500 && s.connected_time is None && s.pending_packets.wf() && s.pending_packets.packets@.len() == 0 && s.qos2_pids@ == Map::<Pid, u64>::empty()
        && s.subscribes@ == Map::<TopicFilter, SubscriptionData>::empty() && s.last_will is None && s.scram_auth_result is None && s.auth_method is None && s.broadcast_packets@ == Map::<ClientId, BroadcastPackets>::empty() && s.broadcast_packets_cnt == 0 && s.topic_aliases@ == Map::<u16, TopicName>::empty() }
/// everything that belongs to the session goes over
pub open spec fn handed(a: Session, b: Session, r: SessionState) -> bool {
    r.client_id == a.client_id && r.session_expiry_interval == a.session_expiry_interval && r.protocol == a.protocol && r.server_packet_id == a.server_packet_id && r.pending_packets == a.pending_packets && r.qos2_pids == a.qos2_pids && r.subscribes == a.subscribes && r.broadcast_packets == a.broadcast_packets && r.broadcast_packets_cnt == a.broadcast_packets_cnt && b.client_id == a.client_id }
"""
def fns_will(trusted=False):
    return [Fn("send_will", ret="r", trusted=trusted, spec="""
        ensures will_sent(*old(session), *final(session), *old(global), *final(global)), r is Err ==> (old(session).last_will matches Some(w) && too_large(w)) && *final(global) == *old(global),
            old(session).last_will is Some && r is Ok ==> *final(global) != *old(global),""", pre="let ghost vx_gl = global.log@;"),
        Fn("handle_will", ret="r", trusted=trusted, pre="global.will_due = Ghost(false);", spec="""
        requires old(session).connected_time is Some
        ensures !final(global).will_due@, final(session).client_id == old(session).client_id,
            ({ let a = *old(session); let b = *final(session); let g = GlobalState { will_due: final(global).will_due, ..*old(global) }; let h = *final(global);
            if will_now(a) { will_sent(a, b, g, h) }
            else { let d = delay(a.last_will->0); b == a && if d < a.session_expiry_interval && has_control(g.registry, a.client_id) { said(g, h, Ev::Posted { after: d as u64, id: a.client_id, msg: ControlMessage::WillDelayReached { connected_time: a.connected_time->0 } }) } else { h == g } } }),"""),
        ]
def base(name):
    u = N.base(name, subs=SUBS)
    for i, p in enumerate(u.parts):
        if p[0] == "raw" and "pub struct ErrorV5 { x: u8 }" in p[1]: u.parts[i] = ("raw", p[1].replace("#[verifier::external_body]\npub struct ErrorV5 { x: u8 }\n", ""))
    u.raw("impl Clone for SocketAddr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\nimpl Copy for SocketAddr {}")
    return u
def unit():
    u = base("c16m")
    u.frame(S.V5SESSION, "Session", "but_conn", c16.FRAME)
    u.frame(S.V5SESSION, "Session", "but_scram", ["client_disconnected", "server_disconnected", "authorizing", "scram_stage"])
    u.frame(S.V5SESSION, "Session", "but_auth", N.AUTHFRAME)
    u.frame(S.V5SESSION, "Session", "but_will", ["last_will", "broadcast_packets", "broadcast_packets_cnt"])
    u.frame(S.V5SESSION, "Session", "but_bcast", ["broadcast_packets", "broadcast_packets_cnt"])
    u.frame(S.V5SESSION, "Session", "but_bye", ["last_will", "session_expiry_interval", "client_disconnected"])
    u.item(PB, "SendPublish"); u.item(N.ST, "NormalMessage")
    u.raw(c16.SPEC + WORLD + SPEC)
    for f in N.errors(trusted=True): u.fn(N.C, f)
    u.fn(PB, Fn("send_publish", trusted=True, ret="r", spec="""ensures but_bcast(*old(session), *final(session)), said(*old(global), *final(global), Ev::Published { qos: msg.qos, retain: msg.retain, topic: *msg.topic_name, payload: *msg.payload, properties: *msg.properties }),"""))
    for f in fns_will(): u.fn(M, f)
    u.fn(M, Fn("handle_control", ret="r", spec="""
        ensures ({ let a = *old(session); let b = *final(session); let g = *old(global); let h = *final(global);
            match msg {
                ControlMessage::OnlineV3 { .. } => b == a && h == g && !r.0 && r.1 is None,
                ControlMessage::OnlineV5 { sender } => b == a && h == g && !r.0 && r.1 == Some(sender),
                ControlMessage::Kick { .. } => b == a && h == g && r.0 == !offline && r.1 is None,
                ControlMessage::WillDelayReached { connected_time } => !r.0 && r.1 is None && if mine(a, connected_time) { will_sent(a, b, g, h) } else { b == a && h == g },
                ControlMessage::SessionExpired { connected_time } => r.1 is None && if mine(a, connected_time) { r.0 && expired(a, b, g, h) } else { b == a && h == g && !r.0 },
            } }),""",
        subs=[]))
    u.fn(N.CN, Fn("handle_disconnect", ret="r", spec="""
        ensures ({ let a = *old(session); let b = *final(session); let v = packet.properties.session_expiry_interval;
            &&& *final(global) == *old(global)
            &&& r is Err <==> a.session_expiry_interval == 0 && (v matches Some(n) && n > 0)
            &&& r matches Err(p) ==> b == (Session { server_disconnected: true, ..a }) && (p matches Packet::Disconnect(d) && d.reason_code is ProtocolError)
            &&& r is Ok ==> but_bye(a, b) && b.client_disconnected && b.session_expiry_interval == (match v { Some(n) => umin(n, old(global).config.max_session_expiry_interval), None => a.session_expiry_interval })
                && b.last_will == (if packet.reason_code is NormalDisconnect { None } else { a.last_will }) }),"""))
    u.impl(S.V5SESSION, "Session", [Fn("new", ret="r", spec="ensures fresh(r, *config)")])
    u.impl(M, "<OnlineSession>Session", [Fn("build_state", ret="r", spec="ensures handed(*old(self), *final(self), r), r.receiver == receiver,")], header="impl Session")
    for f in online(): u.fn(*f)
    return u
def online():
    return [
        (M, Fn("handle_normal", trusted=True, ret="r", spec="ensures same_client(*old(session), *final(session)), final(session).last_will == old(session).last_will, *final(global) == *old(global),")),
        (M, Fn("handle_offline", spec="""
        requires !session.connected, old(global).owes@ != Some(session.client_id)
        ensures going_on(*old(global), *final(global)), final(global).log@.len() > 0, ended(final(global).log@.last(), session.client_id),""",
          subs=[("& global", "global"), ("& mut session", "&mut session")], attrs="#[verifier::exec_allows_no_decreases_clause]",
          loops=[L("loop", """invariant_except_break !taken_over, !session.connected invariant session.client_id == vx_id, going_on(vx_g, *global), vx_g.owes@ != Some(vx_id)
              ensures session.client_id == vx_id, going_on(vx_g, *global), vx_g.owes@ != Some(vx_id), taken_over ==> global.log@.len() > 0 && ended(global.log@.last(), vx_id)""")], pre="let ghost vx_id = session.client_id; let ghost vx_g = *global;")),
        (N.CN, Fn("handle_auth", trusted=True, ret="r", spec=N.AUTHED)),
        (M, Fn("before_connect_hook", trusted=True, ret="r", spec="ensures *final(global) == *old(global), but_flags(*old(session), *final(session)), r is Ok ==> final(conn)@ == old(conn)@, r is Err ==> no_success(old(conn)@, final(conn)@),")),
        (M, Fn("after_connect", trusted=True, ret="r", spec="ensures same_client(*old(session), *final(session)), final(session).last_will == old(session).last_will, going_on(*old(global), *final(global)),")),
        (M, Fn("after_disconnect_hook", trusted=True, ret="r", spec="ensures same_client(*old(session), *final(session)), final(session).last_will == old(session).last_will, going_on(*old(global), *final(global)),")),
    ] + [(N.CN, Fn(f.name, spec=f.spec, ret=f.ret, trusted=True)) for f in c16.fns()] + [
        (M, Fn("handle_online", ret="r", attrs="#[verifier::loop_isolation(false)]", spec="""
        requires protocol is V500, old(global).config.max_allowed_qos <= 2, old(global).owes@ is None, !old(global).will_due@
        ensures ({ let g = *old(global); let h = *final(global);
            &&& h.config == g.config && !h.will_due@ && h.owes@ is None
            &&& r matches Ok(Some(p)) ==> !p.0.connected && p.0.connected_time is Some && p.0.session_expiry_interval > 0 && h.log@.len() > 0 && h.log@.last() == (Ev::Offline { id: p.0.client_id }) }),""",
          loops=[L("while", """invariant session.protocol is V500, global.config == vx_g.config, !session.connected ==> silent(vx_g, *global) && !(connect_result == Ok::<bool, IoError>(true)), session.connected ==> !session.authorizing && session.connected_time is Some && receiver is Some && global.owes@ == Some(session.client_id),
                session.authorizing ==> *global == vx_g && session.pending_packets.wf()
                decreases round_quota""")], pre="let ghost vx_g = *global;")),
        (M, Fn("handle_connection", ret="r", subs=[("& global", "global"), ("connected_time . expect ( $m )", "connected_time.unwrap()"), ("handle_online ( $A ) {", "handle_online($A) {")], spec="""
        requires protocol is V500, old(global).config.max_allowed_qos <= 2, old(global).owes@ is None, !old(global).will_due@
        ensures final(global).config == old(global).config, final(global).owes@ is None, !final(global).will_due@,""")),
    ]

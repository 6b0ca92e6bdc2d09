"""C17: enhanced authentication on a v5 connection (v5/packet/connect.rs)."""
from vunit import Unit, Fn, L
import sess_common as S, conn5 as N, c16
SPEC = r"""
pub open spec fn one_more(a: Seq<Packet>, b: Seq<Packet>) -> bool { b.len() == a.len() + 1 && b == a.push(b.last()) }
/// the method exists and the server offers it
pub open spec fn offered(m: Str, c: Config) -> bool { mech(m@) matches Some(x) && c.sasl_mechanisms@.contains(x) }
/// the challenge
pub open spec fn challenge(q: Packet, m: Str, s: Session) -> bool { q matches Packet::Auth(k) && k.reason_code is ContinueAuthentication && k.properties.auth_method == Some(m) && k.properties.auth_data == Some(raw_bytes(server_first(s.scram_stage.machine))) && k.properties.user_properties@.len() == 0 }
pub open spec fn asks(p: Connect, a: Session, b: Session, c: Seq<Packet>, d: Seq<Packet>, g: GlobalState) -> bool {
    let m = p.properties.auth_method->0;
    one_more(c, d) && b.auth_method == Some(m) && if !offered(m, g.config) { !b.authorizing && connack_with(d.last(), ConnectReasonCode::BadAuthMethod) }
        else if b.authorizing { ready(b, g.config) && challenge(d.last(), m, b) && (said_utf8(p.properties.auth_data) matches Some(t) && heard(t) == Some(m_name(b.scram_stage.machine))) }
        else { not_authorized(d.last()) && bad_first(p.properties.auth_data, g.config, b.scram_stage.machine) } }
/// the CONNACK carries the end of the exchange
pub open spec fn carries(q: Packet, m: Option<Str>, x: Option<Str>) -> bool { q matches Packet::Connack(k) && (k.reason_code is Success ==> match x { Some(t) => k.properties.auth_method == m && k.properties.auth_data == Some(raw_bytes(t@)), None => k.properties.auth_method is None && k.properties.auth_data is None }) }
"""
def step(): return L("while", "invariant vx_i <= vx_fs@.len(), *global == (GlobalState { route_table: global.route_table, ..vx_g1 }) decreases vx_fs@.len() - vx_i", before="let ghost vx_g1 = *global;")
def fns():
    return [Fn("session_connect", ret="r", spec="""
        requires !old(session).connected, old(session).protocol is V500, old(session).pending_packets.wf(), old(global).config.max_allowed_qos <= 2
        ensures final(session).auth_method == old(session).auth_method, final(session).authorizing == old(session).authorizing, final(session).scram_auth_result == old(session).scram_auth_result, !final(session).connected ==> final(session).protocol == old(session).protocol && final(session).pending_packets == old(session).pending_packets,
            final(conn)@ == old(conn)@ || one_more(old(conn)@, final(conn)@) && carries(final(conn)@.last(), old(session).auth_method, auth_data), final(global).config == old(global).config, final(session).connected ==> *final(receiver) is Some,""", loops=[step()]),
        Fn("handle_connect", ret="r", spec="""
        requires !old(session).connected, !old(session).authorizing, old(session).last_will is None, packet.protocol is V500, old(session).pending_packets.wf(), old(global).config.max_allowed_qos <= 2
        ensures ({ let a = *old(session); let b = *final(session); let g = *old(global); let h = *final(global); let c = old(conn)@; let d = final(conn)@; let m = packet.properties.auth_method;
            &&& b.scram_auth_result == a.scram_auth_result && h.config == g.config && (b.connected || b.auth_method == a.auth_method || b.auth_method == m)
            &&& b.authorizing || m is Some ==> !b.connected && h == g && *final(receiver) == *old(receiver) && (r is Ok ==> !(r->Ok_0))
            &&& b.authorizing ==> m is Some && b.auth_method == m && ready(b, g.config) && b.protocol is V500 && b.pending_packets == a.pending_packets
            &&& b.connected ==> b.auth_method is None && *final(receiver) is Some
            &&& m is Some && r is Ok && acceptable(packet, g) ==> asks(packet, a, b, c, d, g)
            &&& m is None && d != c ==> one_more(c, d) && carries(d.last(), None, None) }),"""),
    ]
def frames(u):
    u.frame(S.V5SESSION, "Session", "but_scram", ["client_disconnected", "server_disconnected", "authorizing", "scram_stage"])
    u.frame(S.V5SESSION, "Session", "but_auth", N.AUTHFRAME)
def unit():
    u = N.base("c17")
    frames(u)
    u.raw(SPEC)
    for f in N.errors(trusted=True): u.fn(N.C, f)
    u.fn(N.CN, Fn("scram_client_first", ret="r", pre="broadcast use axiom_str;", spec=N.FIRST))
    u.fn(N.CN, Fn("handle_auth", ret="r", spec=N.AUTHED))
    for f in fns(): u.fn(N.CN, f)
    return u

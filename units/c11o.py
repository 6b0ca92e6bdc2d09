"""C11: when a connection comes to its hook points (handle_online of v5 and v3)."""
from vunit import Unit, Fn, L
import sess_common as S, conn5 as N, v3_out as O, c16, c16m, c16v3
FIELD = "pub will_due: Ghost<bool>, "
NEW = "pub hk: Ghost<Hooks>, "
HOOKS = r"""
/// the hook points a connection has passed
pub struct Hooks { pub admitted: Option<(SocketAddr, Connect)>, pub joined: bool, pub told: Option<bool>, pub after: bool, pub looped: bool, pub taken: bool, pub gone: bool, pub will: bool }
pub open spec fn nothing_yet() -> Hooks { Hooks { admitted: None, joined: false, told: None, after: false, looped: false, taken: false, gone: false, will: false } }
/// no CONNECT is taken up before the hook has let it in
pub open spec fn let_in(g: GlobalState, peer: SocketAddr, p: Connect) -> bool { g.config.hook.enable_before_connect ==> g.hk@.admitted == Some((peer, p)) }
pub open spec fn asked(g: GlobalState, peer: SocketAddr) -> bool { g.config.hook.enable_before_connect ==> (g.hk@.admitted matches Some(x) && x.0 == peer) }
/// registered; a success goes out with that session-present flag
pub open spec fn joins(h: Hooks, k: Hooks, s: Session, r: IoRes<bool>, x: Option<ClientReceiver>) -> bool { k == (Hooks { joined: s.connected, told: if s.connected { match r { Ok(v) => Some(v), Err(_) => None } } else { None }, ..h }) && (s.connected ==> !s.authorizing && x is Some) }
#[verifier::external_body]
pub fn vx_online(s: &mut Session, taken: &mut bool, g: &mut GlobalState) -> (r: Option<IoError>)
    requires old(g).hk@.told is Some, old(g).hk@.after, !old(g).hk@.looped, !old(g).hk@.gone, !*old(taken)
    ensures final(g).config == old(g).config, final(g).hk@ == (Hooks { looped: true, taken: *final(taken), ..old(g).hk@ }), same_client(*old(s), *final(s)) { unimplemented!() }
"""
HK = "final(global).config == old(global).config, final(global).hk@ == "
POST = """
        ensures ({ let g = *old(global); let h = final(global).hk@; let c = g.config.hook;
            &&& final(global).config == g.config
            &&& h.joined ==> (h.after <==> h.told is Some) && (h.looped ==> h.after) && (h.gone <==> c.enable_after_disconnect) && (c.enable_before_connect ==> (h.admitted matches Some(x) && x.0 == peer))
            &&& !h.joined ==> !h.after && !h.looped && !h.gone && h.told is None && !(r matches Ok(Some(_)))
            &&& !c.enable_before_connect ==> h.admitted is None }),"""
def callees(u, M, CN, v3):
    s = "& " if False else ""
    u.fn(M, Fn("before_connect_hook", trusted=True, ret="r", spec=f"""requires old(global).config.hook.enable_before_connect, old(global).hk@ == nothing_yet(), {'session' if v3 else 'old(session)'}.peer == peer
        ensures {'' if v3 else 'but_flags(*old(session), *final(session)), '}{HK}(Hooks {{ admitted: if r is Ok {{ Some((peer, *packet)) }} else {{ None }}, ..old(global).hk@ }}),"""))
    auth = "" if v3 else ", old(session).authorizing"
    u.fn(CN, Fn("handle_connect", trusted=True, ret="r", spec=f"requires let_in(*old(global), old(session).peer, packet), !old(session).connected, !old(global).hk@.joined ensures final(session).peer == old(session).peer, final(global).config == old(global).config, joins(old(global).hk@, final(global).hk@, *final(session), r, *final(receiver)),"))
    if not v3:
        u.fn(CN, Fn("session_connect", trusted=True, ret="r", spec="requires asked(*old(global), old(session).peer), !old(session).connected, !old(session).authorizing, !old(global).hk@.joined ensures final(session).peer == old(session).peer, final(session).authorizing == old(session).authorizing, final(global).config == old(global).config, joins(old(global).hk@, final(global).hk@, *final(session), r, *final(receiver)),"))
        u.fn(CN, Fn("handle_auth", trusted=True, ret="r", spec="ensures *final(global) == *old(global), but_auth(*old(session), *final(session)), r matches Ok(p) ==> (p.0 is Success || p.0 is ContinueAuthentication) && (p.0 is Success ==> !final(session).authorizing) && (p.0 is ContinueAuthentication ==> !old(session).authorizing),"))
    u.fn(M, Fn("after_connect", trusted=True, ret="r", spec=f"requires old(global).hk@.told == Some(session_present), !old(global).hk@.after ensures same_client(*old(session), *final(session)), {HK}(Hooks {{ after: true, ..old(global).hk@ }}),"))
    u.fn(M, Fn("after_disconnect_hook", trusted=True, ret="r", spec=f"requires old(global).config.hook.enable_after_disconnect, old(global).hk@.joined, !old(global).hk@.gone, old(global).hk@.taken == taken_over ensures same_client(*old(session), *final(session)), {HK}(Hooks {{ gone: true, ..old(global).hk@ }}),"))
    u.fn(M, Fn("handle_will", trusted=True, ret="r", spec=f"ensures final(session).connected == old(session).connected, {HK}old(global).hk@,"))
def patch(u):
    out = []
    for p in u.parts:
        if p[0] == "raw" and "pub struct GlobalState {" in p[1]:
            i = p[1].index("pub struct GlobalState {"); j = p[1].index("\n", i); p = ("raw", p[1][:j].replace("pub will_due: Ghost<bool> }", "pub will_due: Ghost<bool>, pub hk: Ghost<Hooks> }") + p[1][j:]); assert "pub hk" in p[1]
        out.append(p)
    u.parts = out
def world(W):
    """the part of C16's world used here, without its contracts of the loop"""
    i = W.index("#[verifier::external_body]\npub fn vx_online("); j = W.index("{ unimplemented!() }", i) + len("{ unimplemented!() }")
    return W[:i] + W[j:]
def v5():
    u = c16m.base("c11o")
    u.frame(S.V5SESSION, "Session", "but_conn", c16.FRAME)
    u.frame(S.V5SESSION, "Session", "but_scram", ["client_disconnected", "server_disconnected", "authorizing", "scram_stage"])
    u.frame(S.V5SESSION, "Session", "but_auth", N.AUTHFRAME)
    u.frame(S.V5SESSION, "Session", "but_bcast", ["broadcast_packets", "broadcast_packets_cnt"])
    u.frame(S.V5SESSION, "Session", "but_will", ["last_will", "broadcast_packets", "broadcast_packets_cnt"])
    u.item(N.ST, "NormalMessage")
    u.raw(c16.SPEC + world(c16m.WORLD) + c16m.SPEC + HOOKS); patch(u)
    for f in N.errors(trusted=True): u.fn(N.C, f)
    u.impl(S.V5SESSION, "Session", [Fn("new", trusted=True, ret="r", spec="ensures r.peer == peer, !r.connected, !r.authorizing,")])
    callees(u, c16m.M, N.CN, False)
    u.fn(c16m.M, Fn("handle_online", ret="r", attrs="#[verifier::loop_isolation(false)]", spec="requires old(global).hk@ == nothing_yet()" + POST, loops=[L("while", "invariant session.peer == peer, session.connected ==> receiver is Some, global.config == vx_g.config, session.connected ==> !session.authorizing, connected_inv(*global, session, connect_result, receiver), asked(*global, peer), !vx_g.config.hook.enable_before_connect ==> global.hk@.admitted is None decreases round_quota")], pre="let ghost vx_g = *global;"))
    u.raw("pub open spec fn connected_inv(g: GlobalState, s: Session, r: IoRes<bool>, x: Option<ClientReceiver>) -> bool { let h = g.hk@; h == (Hooks { admitted: h.admitted, joined: s.connected, told: if s.connected { match r { Ok(v) => Some(v), Err(_) => None } } else { None }, ..nothing_yet() }) && (s.connected ==> x is Some) }")
    return u
def v3():
    u = c16v3.base("c11ov3")
    u.raw("impl Clone for SocketAddr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\nimpl Copy for SocketAddr {}")
    u.frame(O.SESSION, "Session", "but_will", ["last_will", "broadcast_packets", "broadcast_packets_cnt"])
    u.frame(O.SESSION, "Session", "but_bcast", ["broadcast_packets", "broadcast_packets_cnt"])
    u.item(N.ST, "NormalMessage")
    u.raw(world(c16v3.W) + HOOKS); patch(u)
    u.raw("impl Session { pub open spec fn authorizing_(self) -> bool { false } }")
    u.parts = [(p[0], p[1].replace("!s.authorizing && x is Some", "x is Some")) if p[0] == "raw" else p for p in u.parts]
    u.impl(O.SESSION, "Session", [Fn("new", trusted=True, ret="r", spec="ensures r.peer == peer, !r.connected,")])
    callees(u, O.M, c16v3.F, True)
    u.fn(O.M, Fn("handle_online", ret="r", attrs="#[verifier::loop_isolation(false)]", spec="requires old(global).hk@ == nothing_yet()" + POST))
    return u
def unit(): return v5()

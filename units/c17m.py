"""C17: the connection task takes nothing but AUTH before the exchange is done (v5/message.rs handle_online)."""
from vunit import Unit, Fn, L
import sess_common as S, conn5 as N, c16, c16m, c17
M = c16m.M
GATE = "pub open spec fn gate(s: Session) -> bool { s.auth_method is Some ==> s.scram_auth_result is Some }\n"
def unit():
    u = c16m.base("c17m")
    c17.frames(u)
    for n, fs in (("but_bcast", ["broadcast_packets", "broadcast_packets_cnt"]), ("but_will", ["last_will", "broadcast_packets", "broadcast_packets_cnt"])): u.frame(S.V5SESSION, "Session", n, fs)
    u.item(N.ST, "NormalMessage")
    w = c16m.WORLD.replace("requires old(s).connected, !*old(taken), old(g).owes@ == Some(old(s).client_id)", "requires old(s).connected, !*old(taken), gate(*old(s))")
    assert "gate(" in w
    u.raw(c17.SPEC + w.replace("\npub uninterp spec fn without", "\n" + GATE + "pub uninterp spec fn without") + "pub open spec fn no_success(a: Seq<Packet>, b: Seq<Packet>) -> bool { b == a || (one_more(a, b) && !accepted(b.last())) }\npub open spec fn idle(a: GlobalState, b: GlobalState) -> bool { b == a }\n")
    for f in N.errors(trusted=True): u.fn(N.C, f)
    for f in c17.fns(): u.fn(N.CN, Fn(f.name, ret=f.ret, spec=f.spec, trusted=True))
    u.fn(N.CN, Fn("handle_auth", trusted=True, ret="r", spec=N.AUTHED))
    keep = "same_client(*old(session), *final(session)), final(session).auth_method == old(session).auth_method, final(session).scram_auth_result == old(session).scram_auth_result, final(global).config == old(global).config,"
    u.impl(S.V5SESSION, "Session", [Fn("new", trusted=True, ret="r", spec="ensures !r.connected, !r.authorizing, r.protocol is V500, r.pending_packets.wf(), r.last_will is None, r.scram_auth_result is None, r.auth_method is None,")])
    u.fn(M, Fn("before_connect_hook", trusted=True, ret="r", spec="ensures *final(global) == *old(global), but_flags(*old(session), *final(session)),"))
    u.fn(M, Fn("after_connect", trusted=True, ret="r", spec="requires old(session).connected, gate(*old(session)) ensures " + keep))
    u.fn(M, Fn("after_disconnect_hook", trusted=True, ret="r", spec="ensures " + keep))
    u.fn(M, Fn("handle_will", trusted=True, ret="r", spec="ensures final(global).config == old(global).config,"))
    u.fn(M, Fn("handle_online", ret="r", attrs="#[verifier::loop_isolation(false)]", spec="""
        requires protocol is V500, old(global).config.max_allowed_qos <= 2
        ensures final(global).config == old(global).config,""",
        loops=[L("while", """invariant global.config == vx_g.config,
              session.authorizing ==> !session.connected && session.protocol is V500 && *global == vx_g && session.pending_packets.wf() && session.scram_auth_result is None && ready(session, vx_g.config),
              session.connected ==> gate(session) && receiver is Some
              decreases round_quota""")], pre="let ghost vx_g = *global;"))
    return u

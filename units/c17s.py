"""C17: the names of the authentication methods (config.rs)."""
from vunit import Unit, Fn
import conn5 as N
def seq(s): return "seq![" + ", ".join(f"{b}u8" for b in s.encode()) + "]"
def unit():
    u = Unit("c17s", subs=[("& str", "&Str"), ("Result < Self , Self :: Err >", "Result<SaslMechanism, ()>"), ("Self ::", "SaslMechanism::")], literals=True)
    u.raw("""
#[verifier::external_body]
pub struct Str { x: Vec<u8> }
impl View for Str { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub fn vx_lit<const N: usize>(a: [u8; N], Ghost(g): Ghost<Seq<u8>>) -> (r: Str) requires a@ =~= g ensures r@ == g { unimplemented!() }
#[verifier::external_body]
pub fn vx_seq(a: &Str, b: &Str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
""")
    u.item(N.CFG, "SaslMechanism")
    u.raw("pub open spec fn name_of(m: SaslMechanism) -> Seq<u8> { match m { SaslMechanism::ScramSha256 => " + seq("SCRAM-SHA-256") + ", SaslMechanism::ScramSha256Plus => " + seq("SCRAM-SHA-256-PLUS") + " } }")
    a, b = seq("SCRAM-SHA-256"), seq("SCRAM-SHA-256-PLUS")
    u.impl(N.CFG, "<FromStr>SaslMechanism", [Fn("from_str", ret="r", spec=f"ensures match r {{ Ok(m) => value@ =~= name_of(m), Err(_) => !(value@ =~= {a}) && !(value@ =~= {b}) }},",
        pre=f"proof {{ assert({a} =~= " + N_ghost("SCRAM-SHA-256") + f"); assert({b} =~= " + N_ghost("SCRAM-SHA-256-PLUS") + "); }")], header="impl SaslMechanism")
    return u
def N_ghost(s): return "Seq::<u8>::empty()" + "".join(f".push({b}u8)" for b in s.encode())

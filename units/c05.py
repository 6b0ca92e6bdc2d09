"""C05: the in-flight queue (protocols/mqtt/pending.rs), whole module under contract."""
from vunit import Unit, Fn, L
F = "akasa-core/src/protocols/mqtt/pending.rs"

def unit():
    u = Unit("c05", uses="use std::collections::VecDeque;\nuse std::cmp;\nuse vstd::std_specs::cmp::*;\n", subs=[
        ("VecDeque", "Q"),
        ("cmp :: min ( $a , $b )", "vx_min($a, $b)"),
        ("impl < P : Debug >", "impl<P>"),
    ])
    u.raw(PRELUDE)
    u.item(F, "PendingPacketStatus")
    u.item(F, "PendingPackets")
    u.raw(SPECS)
    u.fn(F, Fn("get_unix_ts", trusted=True, ret="r", spec="ensures clock_read(r),"))
    u.impl(F, "PendingPackets", fns())
    return u

def fns():
    return [
        Fn("new", ret="r", spec="""
            ensures r.packets@ == Seq::<PendingPacketStatus<P>>::empty(), r.max_inflight == max_inflight, r.max_packets == max_packets, r.timeout == timeout,
                r.wf(),"""),
        Fn("push_back", ret="full", spec="""
            requires old(self).wf(),
            ensures
                final(self).wf(), final(self).same_conf(*old(self)),
                full == (old(self).packets@.len() >= old(self).max_packets),
                full ==> final(self).packets@ == old(self).packets@,
                !full ==> final(self).packets@.len() == old(self).packets@.len() + 1
                    && final(self).packets@.drop_last() == old(self).packets@
                    && is_fresh(final(self).packets@.last(), pid, packet),
            """),
        Fn("pubrec", ret="hit", spec="""
            requires old(self).wf(),
            ensures
                final(self).wf(), final(self).same_conf(*old(self)),
                final(self).packets@.len() == old(self).packets@.len(),
                hit == (exists|i: int| 0 <= i < old(self).window() && is_new(old(self).packets@[i], target_pid)),
                !hit ==> final(self).packets@ == old(self).packets@,
                forall|i: int| 0 <= i < final(self).packets@.len() ==> pubrec_step(old(self).packets@, old(self).window(), i, target_pid, #[trigger] final(self).packets@[i]),
            """, loops=[L("for", """
                invariant
                    self.wf(), self.same_conf(*old(self)), self.packets@ == old(self).packets@,
                    current_inflight == old(self).window(),
                    forall|j: int| 0 <= j < idx ==> !is_new(self.packets@[j], target_pid),
            """)]),
        Fn("complete", ret="hit", spec="""
            requires old(self).wf(),
            ensures
                final(self).wf(), final(self).same_conf(*old(self)),
                final(self).packets@.len() == old(self).packets@.len(),
                hit == (exists|i: int| 0 <= i < old(self).window() && completes(old(self).packets@[i], target_pid, qos)),
                !hit ==> final(self).packets@ == old(self).packets@,
                forall|i: int| 0 <= i < final(self).packets@.len() ==> complete_step(old(self).packets@, old(self).window(), i, target_pid, qos, #[trigger] final(self).packets@[i]),
            """, subs=[
                # verus does not take a guard on an arm that binds by mutable reference; the arms that follow are `_ => {}`
                ("PendingPacketStatus :: New { pid , .. } if $g => { $B } PendingPacketStatus :: Pubrec { pid , .. } if $h => { $C } _ => { }",
                 "PendingPacketStatus::New { pid, .. } => { if $g { $B } } PendingPacketStatus::Pubrec { pid, .. } => { if $h { $C } } _ => {}"),
            ], loops=[L("for", """
                invariant
                    self.wf(), self.same_conf(*old(self)), self.packets@ == old(self).packets@,
                    current_inflight == old(self).window(),
                    forall|j: int| 0 <= j < idx ==> !completes(self.packets@[j], target_pid, qos),
            """)]),
        Fn("clean_complete", spec="""
            requires old(self).wf(),
            ensures
                final(self).wf(), final(self).same_conf(*old(self)),
                exists|k: int| 0 <= k <= old(self).packets@.len()
                    && (forall|j: int| 0 <= j < k ==> old(self).packets@[j] is Complete)
                    && final(self).packets@ == old(self).packets@.skip(k),
                final(self).packets@.len() > 0 ==> !(final(self).packets@[0] is Complete),
            """, pre="let ghost mut vx_k: int = 0;", loops=[L("while", """
                invariant
                    self.wf(), self.same_conf(*old(self)),
                    0 <= vx_k <= old(self).packets@.len(),
                    forall|j: int| 0 <= j < vx_k ==> old(self).packets@[j] is Complete,
                    self.packets@ == old(self).packets@.skip(vx_k),
                ensures
                    self.packets@.len() > 0 ==> !(self.packets@[0] is Complete),
                decreases self.packets@.len(),
            """, body_pre="proof { assert(self.packets@[0] is Complete); assert(old(self).packets@[vx_k] == self.packets@[0]); vx_k = vx_k + 1; }")]),
        Fn("get_ready_packet", ret="r", spec="""
            requires old(self).wf(),
            ensures
                final(self).same_conf(*old(self)),
                final(self).packets@.len() == old(self).packets@.len(),
                exists|now: u64| #[trigger] clock_read(now) && match r {
                    None => final(self).packets@ == old(self).packets@
                        && forall|j: int| start_idx <= j < old(self).window() ==> !is_ready(old(self).packets@[j], old(self).timeout, now),
                    Some(p) => start_idx <= p.0 < old(self).window()
                        && is_ready(old(self).packets@[p.0 as int], old(self).timeout, now)
                        && (forall|j: int| start_idx <= j < p.0 ==> !is_ready(old(self).packets@[j], old(self).timeout, now))
                        && *p.1 == old(self).packets@[p.0 as int]
                        && final(self).packets@ == old(self).packets@.update(p.0 as int, *final(p.1)),
                },
            """, subs=[
                ("next_idx . map ( | idx | ( idx , self . packets . get_mut ( idx ) . expect ( $m ) ) )",
                 "match next_idx { Some(idx) => Some((idx, self.packets.get_mut(idx).expect($m))), None => None }"),
            ], loops=[L("for", """
                invariant_except_break
                    next_idx is None,
                    start_idx < current_inflight ==> forall|j: int| start_idx <= j < idx ==> !is_ready(old(self).packets@[j], old(self).timeout, now_ts),
                invariant
                    self.wf(), self.same_conf(*old(self)), self.packets@ == old(self).packets@,
                    current_inflight == old(self).window(),
                ensures
                    match next_idx {
                        None => forall|j: int| start_idx <= j < current_inflight ==> !is_ready(old(self).packets@[j], old(self).timeout, now_ts),
                        Some(i) => start_idx <= i < current_inflight && is_ready(old(self).packets@[i as int], old(self).timeout, now_ts)
                            && (forall|j: int| start_idx <= j < i ==> !is_ready(old(self).packets@[j], old(self).timeout, now_ts)),
                    },
            """, body_post="""proof { assert(!is_ready(old(self).packets@[idx as int], old(self).timeout, now_ts)); }""")]),
        Fn("len", ret="n", spec="ensures n == self.packets@.len(),"),
        Fn("is_empty", ret="b", spec="ensures b == (self.packets@.len() == 0),"),
        Fn("set_max_inflight", spec="""
            requires old(self).wf(),
            ensures final(self).packets@ == old(self).packets@, final(self).max_inflight == new_value,
                final(self).max_packets == old(self).max_packets, final(self).timeout == old(self).timeout, final(self).wf(),"""),
        Fn("reset_last_sent", spec="""
            requires old(self).wf(),
            ensures
                final(self).wf(), final(self).same_conf(*old(self)),
                final(self).packets@.len() == old(self).packets@.len(),
                forall|i: int| 0 <= i < old(self).packets@.len() ==> reset_of(old(self).packets@[i], #[trigger] final(self).packets@[i]),
            """, subs=[
                ("for status in & mut self . packets {", "for vx_i in 0..self.packets.len() { let status = self.packets.get_mut(vx_i).expect(\"x\");"),
                ("for status in self . packets . iter_mut ( ) {", "for vx_i in 0..self.packets.len() { let status = self.packets.get_mut(vx_i).expect(\"x\");"),
            ], loops=[L("for", """
                invariant
                    self.wf(), self.same_conf(*old(self)),
                    self.packets@.len() == old(self).packets@.len(),
                    forall|j: int| 0 <= j < vx_i ==> reset_of(old(self).packets@[j], #[trigger] self.packets@[j]),
                    forall|j: int| vx_i <= j < self.packets@.len() ==> self.packets@[j] == old(self).packets@[j],
            """)]),
    ]

PRELUDE = """
// --- stand-ins: only these signatures and contracts are assumed -----------------------------------
pub type Pid = PidW;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct PidW(pub u16);
#[verifier::external]
impl std::fmt::Debug for PidW { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for PidW {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum QoS { Level0, Level1, Level2 }
impl vstd::std_specs::cmp::PartialEqSpecImpl for QoS {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b }, { if a <= b { a } else { b } }

/// std::collections::VecDeque as a sequence
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Q<T> { q: VecDeque<T> }
impl<T> Q<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty(), { Q { q: VecDeque::new() } }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), { self.q.len() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0), { self.q.is_empty() }
    #[verifier::external_body]
    pub fn push_back(&mut self, t: T) ensures final(self)@ == old(self)@.push(t), { self.q.push_back(t) }
    #[verifier::external_body]
    pub fn push_front(&mut self, t: T) ensures final(self)@ == seq![t] + old(self)@, { self.q.push_front(t) }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1), { self.q.pop_front() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(), { self.q.pop_back() }
    #[verifier::external_body]
    pub fn front(&self) -> (r: Option<&T>) ensures match r { None => self@.len() == 0, Some(x) => self@.len() > 0 && *x == self@[0] }, { self.q.front() }
    #[verifier::external_body]
    pub fn back(&self) -> (r: Option<&T>) ensures match r { None => self@.len() == 0, Some(x) => self@.len() > 0 && *x == self@.last() }, { self.q.back() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&T>) ensures match r { None => i >= self@.len(), Some(x) => i < self@.len() && *x == self@[i as int] }, { self.q.get(i) }
    #[verifier::external_body]
    pub fn get_mut(&mut self, i: usize) -> (r: Option<&mut T>)
        ensures match r { None => i >= old(self)@.len() && final(self)@ == old(self)@,
            Some(x) => i < old(self)@.len() && *x == old(self)@[i as int] && final(self)@ == old(self)@.update(i as int, *final(x)) }, { self.q.get_mut(i) }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize) ensures r >= self@.len(), { self.q.capacity() }
    #[verifier::external_body]
    pub fn shrink_to(&mut self, n: usize) ensures final(self)@ == old(self)@, { self.q.shrink_to(n) }
    #[verifier::external_body]
    pub fn shrink_to_fit(&mut self) ensures final(self)@ == old(self)@, { self.q.shrink_to_fit() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty(), { self.q.clear() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures final(self)@ == if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }, { self.q.truncate(n) }
}
"""
SPECS = """
/// n is a value the system clock returned
pub uninterp spec fn clock_read(n: u64) -> bool;
impl<P> PendingPackets<P> {
    pub open spec fn wf(self) -> bool { self.packets@.len() <= self.max_packets }
    pub open spec fn window(self) -> int { if self.max_inflight <= self.packets@.len() { self.max_inflight as int } else { self.packets@.len() as int } }
    pub open spec fn same_conf(self, o: Self) -> bool { self.max_inflight == o.max_inflight && self.max_packets == o.max_packets && self.timeout == o.timeout }
}
pub open spec fn is_new<P>(s: PendingPacketStatus<P>, p: Pid) -> bool { match s { PendingPacketStatus::New { pid, .. } => pid == p, _ => false } }
pub open spec fn is_pubrec<P>(s: PendingPacketStatus<P>, p: Pid) -> bool { match s { PendingPacketStatus::Pubrec { pid, .. } => pid == p, _ => false } }
pub open spec fn is_fresh<P>(s: PendingPacketStatus<P>, p: Pid, k: P) -> bool {
    match s { PendingPacketStatus::New { pid, packet, last_sent, dup, added_at } => pid == p && packet == k && last_sent == 0 && !dup && clock_read(added_at), _ => false } }
/// the acknowledgement that finishes the handshake of this entry
pub open spec fn completes<P>(s: PendingPacketStatus<P>, p: Pid, qos: QoS) -> bool { match qos { QoS::Level1 => is_new(s, p), QoS::Level2 => is_pubrec(s, p), _ => false } }
/// the entry at i after PUBREC: the first matching entry of the window moves on, everything else stays
pub open spec fn pubrec_step<P>(s: Seq<PendingPacketStatus<P>>, n: int, i: int, p: Pid, after: PendingPacketStatus<P>) -> bool {
    if i < n && is_new(s[i], p) && (forall|j: int| 0 <= j < i ==> !is_new(#[trigger] s[j], p)) { is_pubrec(after, p) && clock_read(sent_at(after) as u64) } else { after == s[i] } }
pub open spec fn complete_step<P>(s: Seq<PendingPacketStatus<P>>, n: int, i: int, p: Pid, qos: QoS, after: PendingPacketStatus<P>) -> bool {
    if i < n && completes(s[i], p, qos) && (forall|j: int| 0 <= j < i ==> !completes(#[trigger] s[j], p, qos)) { after is Complete } else { after == s[i] } }
pub open spec fn sent_at<P>(s: PendingPacketStatus<P>) -> int { match s { PendingPacketStatus::New { last_sent, .. } => last_sent as int, PendingPacketStatus::Pubrec { last_sent, .. } => last_sent as int, _ => 0 } }
/// retransmission due: not complete and the timeout has passed since it was last sent (the sum saturates, it never wraps)
pub open spec fn is_ready<P>(s: PendingPacketStatus<P>, timeout: u64, now: u64) -> bool { !(s is Complete) && now as int >= (if timeout as int + sent_at(s) > u64::MAX { u64::MAX as int } else { timeout as int + sent_at(s) }) }
pub open spec fn reset_of<P>(a: PendingPacketStatus<P>, b: PendingPacketStatus<P>) -> bool {
    match a {
        PendingPacketStatus::New { added_at, pid, packet, dup, .. } => b == (PendingPacketStatus::New { added_at, last_sent: 0, pid, packet, dup }),
        PendingPacketStatus::Pubrec { pid, .. } => b == (PendingPacketStatus::<P>::Pubrec { last_sent: 0, pid }),
        PendingPacketStatus::Complete => b is Complete,
    } }
"""

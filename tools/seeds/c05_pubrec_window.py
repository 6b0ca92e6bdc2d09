property = "C05"
needs = "a QoS 2 message acknowledged with PUBREC at the front while an identical packet id sits behind the window after the packet id counter wrapped"
breaks = "PUBREC searches the whole queue instead of the in-flight window, so it can mark a message that was never sent as received"
edits = [("akasa-core/src/protocols/mqtt/pending.rs", """    pub fn pubrec(&mut self, target_pid: Pid) -> bool {
        let current_inflight = cmp::min(self.max_inflight as usize, self.packets.len());
        for idx in 0..current_inflight {""", """    pub fn pubrec(&mut self, target_pid: Pid) -> bool {
        let current_inflight = cmp::max(self.max_inflight as usize, self.packets.len()).min(self.packets.len());
        for idx in 0..current_inflight {""")]
demo = r'''
use crate::protocols::mqtt::{PendingPackets, PendingPacketStatus};
use mqtt_proto::{Pid, QoS};
pub fn main() {
    let mut q: PendingPackets<u32> = PendingPackets::new(2, 10, 15);
    for i in 1u16..=4 { q.push_back(Pid::try_from(i).unwrap(), i as u32); }
    assert!(q.pubrec(Pid::try_from(2).unwrap()));
    assert!(!q.pubrec(Pid::try_from(3).unwrap()), "a message outside the window was never sent");
    q.set_max_inflight(10);
    let (_, s) = q.get_ready_packet(2).expect("the third message was never sent");
    assert!(matches!(s, PendingPacketStatus::New { packet: 3, .. }));
}
'''

property = "C05"
needs = "more than 16 queued messages of which the first several are complete, so that the shrinking branch is taken"
breaks = "the clean-up drops one message too many when it decides to shrink the queue"
edits = [("akasa-core/src/protocols/mqtt/pending.rs", """                self.packets.shrink_to(self.packets.len() << 1);
            } else""", """                let keep = self.packets.len().max(1) - 1;
                self.packets.truncate(keep.max(4));
                self.packets.shrink_to(self.packets.len() << 1);
            } else""")]
demo = r'''
use crate::protocols::mqtt::PendingPackets;
use mqtt_proto::{Pid, QoS};
pub fn main() {
    let mut q: PendingPackets<u32> = PendingPackets::new(100, 100, 15);
    for i in 1u16..=40 { q.push_back(Pid::try_from(i).unwrap(), i as u32); }
    for i in 1u16..=34 { assert!(q.complete(Pid::try_from(i).unwrap(), QoS::Level1)); }
    q.clean_complete();
    assert_eq!(q.len(), 6, "a queued message disappeared");
}
'''

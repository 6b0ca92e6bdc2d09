//! which subscribers the routing table names for a topic (child module of route.rs)
use super::*;
/// (filter with its $share prefix, internal client id, granted QoS)
pub fn probe(g: &crate::state::GlobalState, topic: &str) -> Vec<(String, u64, u8)> {
    let idv = crate::state::vx_in_state::cidv;
    let mut out = vec![];
    for c in g.route_table.get_matches(&TopicName::try_from(topic).unwrap()) {
        let c = c.read();
        let f = c.topic_filter.as_ref().map(|f| f.to_string()).unwrap_or_default();
        for (id, q) in c.clients.iter() { out.push((f.clone(), idv(*id), *q as u8)); }
        for (name, gr) in c.groups.iter() {
            let m: std::collections::BTreeMap<u64, u8> = (0..64).map(|k| gr.get_by_number(k)).map(|(id, q)| (idv(id), q as u8)).collect();
            for (id, q) in m { out.push((format!("$share/{name}/{f}"), id, q)); }
        }
    }
    out
}

property = "C09"
needs = "two connections bringing up the same new identifier at the same time, one looking it up before the other has registered it"
breaks = "both get a new client for the one identifier; the first one's id stays registered without an identifier"
edits = [("akasa-core/src/state.rs", """            let mut next_client_id = self.next_client_id.lock();
            let client_id_opt: Option<ClientId> = self
                .client_identifier_map
                .get(client_identifier)
                .map(|pair| *pair.value());
""", """            let client_id_opt: Option<ClientId> = self
                .client_identifier_map
                .get(client_identifier)
                .map(|pair| *pair.value());
            let mut next_client_id = self.next_client_id.lock();
""")]
demo = r"""
use crate::state::*;
use std::sync::{Arc, Barrier, Mutex};
// four threads connect one identifier, a new one in every round; whoever is not first has to find it registered
pub fn main() {
    let g = Arc::new(GlobalState::new(crate::config::Config::new_allow_anonymous()));
    let bar = Arc::new(Barrier::new(4));
    let news = Arc::new(Mutex::new(vec![0usize; 4000]));
    let h: Vec<_> = (0..4).map(|_| { let (g, bar, news) = (g.clone(), bar.clone(), news.clone()); std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let mut keep = vec![];
        for k in 0..4000 {
            bar.wait();
            let name = format!("c{k}");
            let g2 = g.clone();
            // the others wait for an answer nobody gives: the look-up is all that matters here
            if let Ok(Ok(AddClientReceipt::New { client_id, receiver })) = rt.block_on(async { tokio::select! { biased; x = g2.add_client(&name, mqtt_proto::Protocol::V500) => Ok(x), _ = async {} => Err(()) } }) { news.lock().unwrap()[k] += 1; keep.push((client_id, receiver)); }
        }
        bar.wait();
    }) }).collect();
    for x in h { x.join().unwrap(); }
    let n = news.lock().unwrap();
    assert!(n.iter().all(|x| *x == 1), "identifiers with several clients: {}", n.iter().filter(|x| **x != 1).count());
}
"""

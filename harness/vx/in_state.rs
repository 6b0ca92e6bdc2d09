//! constructors for the tests' client ids (child module of state.rs)
use super::*;
pub fn cid(v: u64) -> ClientId { ClientId(v) }
pub fn cidv(c: ClientId) -> u64 { c.0 }
/// (internal id, identifier, online) of every client, or where the tables disagree
pub fn registry(g: &GlobalState) -> Result<Vec<(u64, String, bool)>, String> {
    let ids: std::collections::BTreeMap<u64, (String, bool)> = g.client_id_map.iter().map(|p| (p.key().0, p.value().clone())).collect();
    let names: std::collections::BTreeMap<String, u64> = g.client_identifier_map.iter().map(|p| (p.key().clone(), p.value().0)).collect();
    let cl: std::collections::BTreeSet<u64> = g.clients.iter().map(|p| p.key().0).collect();
    if ids.len() != names.len() || ids.iter().any(|(i, (n, _))| names.get(n) != Some(i)) { return Err(format!("ids {ids:?}, names {names:?}")); }
    if cl != ids.keys().copied().collect() { return Err(format!("ids {ids:?}, clients {cl:?}")); }
    let next = g.next_client_id.lock().0;
    if ids.keys().any(|i| *i >= next) { return Err(format!("next id {next}, ids {ids:?}")); }
    let on = ids.values().filter(|x| x.1).count() as u64;
    if on != g.online_clients_count() { return Err(format!("{on} clients marked online, count {}", g.online_clients_count())); }
    Ok(ids.into_iter().map(|(i, (n, o))| (i, n, o)).collect())
}

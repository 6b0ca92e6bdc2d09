//! C07, concrete search: shared-subscription groups (child module of route.rs).
use super::*;
use crate::vx::common::*;
use std::collections::BTreeMap;
use crate::state::vx_in_state::{cid, cidv};

pub fn run(c: &mut Ctx) {
    c.rule("all join/leave histories of length <= 6 over 3 clients and random ones of length <= 40 over 8 clients (with re-joins at other QoS), through the routing table with filters $share/g/t; after each step membership, selection by every number 0..11 and a hash are compared with a reference map");
    let q = [QoS::Level0, QoS::Level1, QoS::Level2];
    // exhaustive small histories: op = client (0..3) x join/leave
    for len in 1..=6u32 { for code in 0..6u32.pow(len) {
        if c.time_up() { return; }
        let mut ops = vec![]; let mut x = code;
        for i in 0..len { ops.push(((x % 6) as u64 % 3, (x % 6) >= 3, q[(i % 3) as usize])); x /= 6; }
        history(c, &ops);
    } }
    let mut g = c.rng(7);
    for _ in 0..c.n(6000, 150_000) {
        if c.time_up() { return; }
        let n = g.range(2, 40); let k = g.range(2, 24) as u64;
        let ops: Vec<_> = (0..n).map(|_| (g.next() % k, g.below(5) < 2, q[g.below(3)])).collect();
        history(c, &ops);
    }
}

fn history(c: &mut Ctx, ops: &[(u64, bool, QoS)]) {
    let text = ops.iter().map(|(i, leave, q)| if *leave { format!("leave({i})") } else { format!("join({i},{q:?})") }).collect::<Vec<_>>().join(" ");
    c.eval(&text);
    let r = c.guarded("panic", || text.clone(), || {
        let table = RouteTable::default();
        let filter = TopicFilter::try_from("$share/g/t").unwrap();
        let other = TopicFilter::try_from("t").unwrap();
        table.subscribe(&other, cid(777), QoS::Level1);
        let name = TopicName::try_from("t").unwrap();
        let mut m: BTreeMap<u64, QoS> = BTreeMap::new();
        for (step, (id, leave, q)) in ops.iter().enumerate() {
            if *leave { table.unsubscribe(&filter, cid(*id)); m.remove(id); } else { table.subscribe(&filter, cid(*id), *q); m.insert(*id, *q); }
            let at = |s: &str| Err::<(), String>(format!("after step {}: {s}", step + 1));
            let found = table.get_matches(&name);
            if found.len() != 1 { return at(&format!("{} matches instead of 1", found.len())); }
            let content = found[0].read();
            if content.clients.len() != 1 || content.clients.get(&cid(777)) != Some(&QoS::Level1) { return at("the plain subscription changed"); }
            let Some(s) = content.groups.get("g") else { if m.is_empty() { continue; } return at("the group is gone although it has members"); };
            if m.is_empty() { return at("the group is still there although all left"); }
            let mut seen = BTreeMap::new();
            for n in (0..64u64).chain([u64::MAX, u64::MAX - 1, u64::MAX / 2, 1 << 32, (1 << 32) + 1]) {
                let (i, q) = s.get_by_number(n);
                let k = cidv(i);
                if m.get(&k) != Some(&q) { return at(&format!("number {n} selects client {k} with {q:?}; members are {m:?}")); }
                if s.get_by_number(n) != (i, q) { return at("selection is not a function of the number"); }
                if n < 64 { *seen.entry(k).or_insert(0u32) += 1; }
            }
            if seen.len() != m.len() { return at(&format!("only {} of {} members can be selected", seen.len(), m.len())); }
            for d in [1u64, 2, 3, 99] {
                let a = s.get_by_hash(d);
                if m.get(&cidv(a.0)) != Some(&a.1) || s.get_by_hash(d) != a { return at("hash selection is not a stable current member"); }
            }
        }
        Ok(())
    });
    if let Some(Err(e)) = r { c.fail("membership", format!("{text} => {e}")); }
}

//! C06, concrete search: the routing table against a reference of subscriptions and a level-by-level matcher
//! (child module of route.rs).
use super::*;
use crate::vx::common::*;
use crate::state::vx_in_state::{cid, cidv};
use std::collections::BTreeMap;

fn matches(f: &str, t: &str) -> bool {
    let (f, t): (Vec<&str>, Vec<&str>) = (f.split('/').collect(), t.split('/').collect());
    if t[0].starts_with('$') && (f[0] == "#" || f[0] == "+") { return false; }
    fn go(f: &[&str], t: &[&str]) -> bool {
        match (f.first(), t.first()) {
            (None, None) => true,
            (Some(&"#"), _) if f.len() == 1 => true,
            (Some(&"+"), Some(_)) => go(&f[1..], &t[1..]),
            (Some(a), Some(b)) if a == b => go(&f[1..], &t[1..]),
            _ => false,
        }
    }
    go(&f, &t)
}
/// (leave, filter, client, qos)
type Op = (bool, String, u64, QoS);
type Members = BTreeMap<u64, QoS>;
const Q: [QoS; 3] = [QoS::Level0, QoS::Level1, QoS::Level2];

pub fn run(c: &mut Ctx) {
    c.rule("all subscribe/unsubscribe histories of length <= 3 over 9 filters (plain, wildcard, '$', shared) and 2 clients, and random ones of length <= 50 over filters of up to 5 levels from {a,b,'',$x,+,#} with shared groups and 5 clients; at chosen steps every topic of a pool is looked up and filters, clients, QoS and groups are compared with a reference; after everyone left the table is empty");
    let filters = ["a", "a/b", "#", "+", "a/#", "+/b", "$x/#", "$share/g/a", "$share/h/a/#"];
    let topics: Vec<String> = ["a", "a/b", "a/b/c", "a/", "/", "$x", "$x/a", "b", "/b"].iter().map(|s| s.to_string()).collect();
    let n = filters.len() * 4;
    for len in 1..=3usize { for code in 0..n.pow(len as u32) {
        if c.time_up() { return; }
        if len == 3 && !c.thorough && code % 5 != 0 { continue; }
        let mut x = code; let mut ops = vec![];
        for i in 0..len { let k = x % n; x /= n; ops.push((k >= n / 2, filters[k % filters.len()].to_string(), (k / filters.len() % 2) as u64, Q[i])); }
        history(c, &ops, &topics);
    } }
    let mut g = c.rng(6);
    let lv = ["a", "b", "", "$x", "x"];
    for _ in 0..c.n(4000, 120_000) {
        if c.time_up() { return; }
        let ts: Vec<String> = (0..g.range(2, 10)).map(|_| (0..g.range(1, 5)).map(|_| *g.pick(&lv)).collect::<Vec<_>>().join("/")).filter(|s| !s.is_empty()).collect();
        if ts.is_empty() { continue; }
        let fs: Vec<String> = (0..g.range(2, 9)).map(|_| {
            let mut v: Vec<&str> = g.pick(&ts).split('/').collect();
            for s in v.iter_mut() { if g.one_in(3) { *s = "+"; } }
            if g.one_in(3) { let k = g.below(v.len() + 1); v.truncate(k); v.push("#"); }
            let f = v.join("/");
            if f.is_empty() { "#".to_string() } else if g.one_in(4) { format!("$share/{}/{f}", g.pick(&["g", "h"])) } else { f }
        }).collect();
        let k = g.range(1, 5) as u64;
        let mut ops: Vec<Op> = (0..g.range(3, 50)).map(|_| (g.below(5) < 2, g.pick(&fs).clone(), g.next() % k, *g.pick(&Q))).collect();
        if g.one_in(3) { for f in &fs { for i in 0..k { ops.push((true, f.clone(), i, QoS::Level0)); } } }
        history(c, &ops, &ts);
    }
}

fn history(c: &mut Ctx, ops: &[Op], topics: &[String]) {
    let text = ops.iter().map(|(l, f, i, q)| if *l { format!("unsub({f:?},{i})") } else { format!("sub({f:?},{i},{q:?})") }).collect::<Vec<_>>().join(" ");
    c.eval(&text);
    let r = c.guarded("panic", || text.clone(), || {
        let table = RouteTable::default();
        // filter -> group (or none) -> members
        let mut m: BTreeMap<String, BTreeMap<Option<String>, Members>> = BTreeMap::new();
        for (step, (leave, f, id, q)) in ops.iter().enumerate() {
            let at = |s: String| Err::<(), String>(format!("after step {}: {s}", step + 1));
            let filter = TopicFilter::try_from(f.clone()).unwrap();
            let (grp, base) = match f.strip_prefix("$share/") { Some(r) => { let (a, b) = r.split_once('/').unwrap(); (Some(a.to_string()), b.to_string()) } None => (None, f.clone()) };
            if *leave {
                table.unsubscribe(&filter, cid(*id));
                if let Some(gs) = m.get_mut(&base) {
                    if let Some(x) = gs.get_mut(&grp) { x.remove(id); if x.is_empty() { gs.remove(&grp); } }
                    if gs.is_empty() { m.remove(&base); }
                }
            } else {
                table.subscribe(&filter, cid(*id), *q);
                m.entry(base).or_default().entry(grp).or_default().insert(*id, *q);
            }
            if m.is_empty() && !table.nodes.read().is_empty() { return at("nobody is subscribed but the table still holds nodes".into()); }
            if step + 1 != ops.len() && step % 5 != 4 { continue; }
            for t in topics {
                let mut got: Vec<(String, BTreeMap<Option<String>, Members>)> = vec![];
                for content in table.get_matches(&TopicName::try_from(t.clone()).unwrap()) {
                    let k = content.read();
                    let mut e: BTreeMap<Option<String>, Members> = BTreeMap::new();
                    if !k.clients.is_empty() { e.insert(None, k.clients.iter().map(|(a, b)| (cidv(*a), *b)).collect()); }
                    for (name, s) in &k.groups {
                        let mut x = Members::new();
                        for n in 0..32u64 { let (a, b) = s.get_by_number(n); x.insert(cidv(a), b); }
                        e.insert(Some(name.clone()), x);
                    }
                    got.push((k.topic_filter.as_ref().map(|f| f.to_string()).unwrap_or("(no filter)".into()), e));
                }
                got.sort();
                let want: Vec<_> = m.iter().filter(|(f, _)| matches(f, t)).map(|(f, e)| (f.clone(), e.clone())).collect();
                if got != want { return at(format!("topic {t:?} matches {got:?} instead of {want:?}")); }
            }
        }
        Ok(())
    });
    if let Some(Err(e)) = r { c.fail("routing", format!("{text} => {e}")); }
}

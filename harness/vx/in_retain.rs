//! C08, concrete search: the table of retained messages against a map and a level-by-level matcher
//! (child module of retain.rs).
use super::*;
use crate::vx::common::*;
use std::collections::BTreeMap;

pub fn matches(f: &str, t: &str) -> bool {
    let (f, t): (Vec<&str>, Vec<&str>) = (f.split('/').collect(), t.split('/').collect());
    if t[0].starts_with('$') && (f[0] == "#" || f[0] == "+") { return false; }
    fn go(f: &[&str], t: &[&str]) -> bool {
        match (f.first(), t.first()) {
            (None, None) => true,
            (Some(&"#"), _) if f.len() == 1 => true,
            (Some(&"+"), Some(_)) => go(&f[1..], &t[1..]),
            (Some(a), Some(b)) if a == b => go(&f[1..], &t[1..]),
            _ => false,
        }
    }
    go(&f, &t)
}
#[derive(Clone)]
enum Op { Put(String, u8), Del(String) }

pub fn run(c: &mut Ctx) {
    c.rule("all insert/remove histories of length <= 3 over 9 topics (shared prefixes, empty levels, '$' first levels) and random ones of length <= 60 over topics of up to 5 levels from {a,b,'',$x,x}; after each step every topic and a pool of filters with '+' and '#' are compared with a reference map; the tree keeps no empty node");
    let topics: Vec<String> = ["a", "a/b", "a/b/c", "a/", "/", "/a", "$x", "$x/a", "b"].iter().map(|s| s.to_string()).collect();
    let filters: Vec<String> = ["a", "a/b", "#", "+", "+/+", "a/#", "a/+", "a/b/#", "+/b", "+/#", "/+", "/#", "$x/#", "$x/+", "$x", "+/a", "a/+/c", "a/b/c", "a/b/c/#", "/", "a/", "+/", "+/+/+", "$x/a"].iter().map(|s| s.to_string()).collect();
    let n = topics.len() * 2;
    for len in 1..=3usize { for code in 0..n.pow(len as u32) {
        if c.time_up() { return; }
        let mut x = code; let mut ops = vec![];
        for i in 0..len { let k = x % n; x /= n; ops.push(if k < topics.len() { Op::Put(topics[k].clone(), (i * 3) as u8) } else { Op::Del(topics[k - topics.len()].clone()) }); }
        history(c, &ops, &filters);
    } }
    let mut g = c.rng(8);
    let lv = ["a", "b", "", "$x", "x", "ab"];
    for _ in 0..c.n(4000, 120_000) {
        if c.time_up() { return; }
        let pool: Vec<String> = (0..g.range(2, 14)).map(|_| (0..g.range(1, 5)).map(|_| *g.pick(&lv)).collect::<Vec<_>>().join("/")).filter(|s| !s.is_empty()).collect();
        if pool.is_empty() { continue; }
        let mut fs: Vec<String> = (0..12).map(|_| {
            let mut v: Vec<&str> = g.pick(&pool).split('/').collect();
            for s in v.iter_mut() { if g.one_in(3) { *s = "+"; } }
            if g.one_in(3) { let k = g.below(v.len() + 1); v.truncate(k); v.push("#"); }
            v.join("/")
        }).filter(|s| !s.is_empty()).collect();
        fs.push("#".into()); fs.push("+/#".into());
        let ops: Vec<Op> = (0..g.range(3, 60)).map(|_| if g.below(5) < 3 { Op::Put(g.pick(&pool).clone(), g.next() as u8) } else { Op::Del(g.pick(&pool).clone()) }).collect();
        history(c, &ops, &fs);
    }
}

fn history(c: &mut Ctx, ops: &[Op], filters: &[String]) {
    let text = ops.iter().map(|o| match o { Op::Put(t, v) => format!("put({t:?},{v})"), Op::Del(t) => format!("del({t:?})") }).collect::<Vec<_>>().join(" ");
    c.eval(&text);
    let r = c.guarded("panic", || text.clone(), || {
        let table = RetainTable::default();
        let mut m: BTreeMap<String, Arc<RetainContent>> = BTreeMap::new();
        for (step, op) in ops.iter().enumerate() {
            let at = |s: String| Err::<(), String>(format!("after step {}: {s}", step + 1));
            let show = |v: &Option<Arc<RetainContent>>| v.as_ref().map(|v| (v.topic_name.to_string(), v.payload.to_vec()));
            let (got, want) = match op {
                Op::Put(t, v) => {
                    let x = Arc::new(RetainContent::new("p".into(), [QoS::Level0, QoS::Level1, QoS::Level2][*v as usize / 3 % 3], TopicName::try_from(t.clone()).unwrap(), Bytes::from(vec![*v % 3]), None, step % 3));
                    (table.insert(Arc::clone(&x)), m.insert(t.clone(), x))
                }
                Op::Del(t) => (table.remove(t), m.remove(t)),
            };
            if got != want { return at(format!("the previous message reported is {:?} instead of {:?}", show(&got), show(&want))); }
            if step + 1 != ops.len() && step % 5 != 4 { continue; }
            for f in filters.iter().chain(m.keys()) {
                let mut g: Vec<_> = table.get_matches(f).iter().map(|x| (x.topic_name.to_string(), x.payload.to_vec(), x.qos, x.encode_len)).collect();
                g.sort();
                let w: Vec<_> = m.iter().filter(|(t, _)| matches(f, t)).map(|(t, x)| (t.clone(), x.payload.to_vec(), x.qos, x.encode_len)).collect();
                if g != w { return at(format!("filter {f:?} selects {g:?} instead of {w:?}")); }
            }
        }
        Ok(())
    });
    if let Some(Err(e)) = r { c.fail("retained", format!("{text} => {e}")); }
}

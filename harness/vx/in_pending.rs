//! C05, concrete search: the real queue against a reference queue (child module of pending.rs).
use super::*;
use crate::vx::common::*;

#[derive(Clone, Debug, PartialEq)]
enum R { New { pid: u16, pkt: u32, last: u64 }, Rec { pid: u16, last: u64 }, Done }

/// contents of the real queue, read through its own interface
fn view(q: &mut PendingPackets<u32>) -> Vec<R> {
    q.packets.iter().map(|s| match s {
        PendingPacketStatus::New { pid, packet, last_sent, .. } => R::New { pid: pid.value(), pkt: *packet, last: *last_sent },
        PendingPacketStatus::Pubrec { pid, last_sent, .. } => R::Rec { pid: pid.value(), last: *last_sent },
        PendingPacketStatus::Complete => R::Done,
    }).collect()
}
fn pid(n: u16) -> Pid { Pid::try_from(n).unwrap() }

pub fn run(c: &mut Ctx) {
    c.rule("random operation sequences (push, pubrec, complete, clean_complete, get_ready_packet, send, set_max_inflight, reset_last_sent) on queues with window 1..5 (and u16::MAX), capacity 0..8, and on long ones (window up to 250, capacity up to 200, bulk pushes and completions), timeouts 0, 1, 5, 10^6, u64::MAX-5..u64::MAX; each step compared with a reference queue; a case is one whole sequence");
    let total = c.n(20_000, 400_000);
    let mut g = c.rng(5);
    for case in 0..total {
        if c.time_up() { break; }
        let win = *g.pick(&[1u16, 1, 2, 2, 3, 4, 5, u16::MAX]);
        let cap = *g.pick(&[0usize, 1, 2, 3, 4, 6, 8, 20]);
        let timeout = *g.pick(&[0u64, 1, 5, 1_000_000, u64::MAX - 3, u64::MAX]);
        let mut q: PendingPackets<u32> = PendingPackets::new(win, cap, timeout);
        let mut m: Vec<R> = vec![];
        let mut win = win as usize;
        let mut log = format!("window={win} capacity={cap} timeout={timeout}:");
        let mut n = 0u32;
        let steps = g.range(1, if case % 16 == 0 { 80 } else { 24 });
        let mut bad: Option<(&str, String)> = None;
        // one case in four works on a long queue (so that the queue's memory is also shrunk)
        let big = case % 4 == 1;
        let (cap, steps) = if big { (*g.pick(&[17usize, 33, 64, 200]), g.range(2, 40)) } else { (cap, steps) };
        if big { win = g.range(1, 250); q = PendingPackets::new(win as u16, cap, timeout); log = format!("window={win} capacity={cap} timeout={timeout}:"); }
        let mut next = 1u16;
        let mut bulk: Vec<(usize, u16)> = vec![];
        let mut left = steps;
        while left > 0 {
            if bulk.is_empty() {
                left -= 1;
                if big && g.one_in(3) {
                    let k = g.range(1, 60);
                    if g.flip() { for _ in 0..k { bulk.push((0, next)); next = if next >= 300 { 1 } else { next + 1 }; } }
                    else {
                        let front: Vec<u16> = m.iter().take(k).filter_map(|x| match x { R::New { pid, .. } | R::Rec { pid, .. } => Some(*pid), R::Done => None }).collect();
                        for f in front { if g.one_in(12) { continue; } if g.one_in(5) { bulk.push((4, f)); } bulk.push((6, f)); }
                        if g.flip() { bulk.push((8, 1)); }
                    }
                    bulk.reverse();
                }
            }
            let (op, p) = bulk.pop().unwrap_or_else(|| (g.below(13), g.range(1, if big { 40 } else { 4 }) as u16));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let w = win.min(m.len());
                match op {
                    0..=3 => {
                        n += 1;
                        log += &format!(" push(pid {p}, #{n})");
                        let full = q.push_back(pid(p), n);
                        if full != (m.len() >= cap) { return Some(("push-full", format!("push_back returned {full} with {} of {cap} entries", m.len()))); }
                        if m.len() < cap { m.push(R::New { pid: p, pkt: n, last: 0 }); }
                    }
                    4 | 5 => {
                        log += &format!(" pubrec(pid {p})");
                        let want = m[..w].iter().position(|x| matches!(x, R::New { pid, .. } if *pid == p));
                        let got = q.pubrec(pid(p));
                        if got != want.is_some() { return Some(("pubrec-result", format!("pubrec returned {got}"))); }
                        if let Some(i) = want { m[i] = R::Rec { pid: p, last: u64::MAX } }
                    }
                    6 | 7 => {
                        let qos = *g.pick(&[QoS::Level1, QoS::Level2, QoS::Level2, QoS::Level0]);
                        log += &format!(" complete(pid {p}, {qos:?})");
                        let want = m[..w].iter().position(|x| match x { R::New { pid, .. } => *pid == p && qos == QoS::Level1, R::Rec { pid, .. } => *pid == p && qos == QoS::Level2, R::Done => false });
                        let got = q.complete(pid(p), qos);
                        if got != want.is_some() { return Some(("complete-result", format!("complete returned {got}"))); }
                        if let Some(i) = want { m[i] = R::Done }
                    }
                    8 => {
                        log += " clean_complete";
                        q.clean_complete();
                        while matches!(m.first(), Some(R::Done)) { m.remove(0); }
                    }
                    9 | 10 => {
                        let start = g.below(m.len() + 2);
                        let now = get_unix_ts();
                        let mark = g.flip();
                        log += &format!(" get_ready({start}){}", if mark { "+send" } else { "" });
                        let due = |t: u64, now: u64| now >= timeout.saturating_add(t);
                        let want = (start..w).find(|i| match &m[*i] { R::New { last, .. } | R::Rec { last, .. } => due(*last, now), R::Done => false });
                        let got = q.get_ready_packet(start).map(|(i, s)| {
                            if mark { match s { PendingPacketStatus::New { last_sent, dup, .. } => { *last_sent = now; *dup = true; } PendingPacketStatus::Pubrec { last_sent, .. } => *last_sent = now, _ => {} } }
                            i
                        });
                        if get_unix_ts() == now && got != want { return Some(("ready", format!("get_ready_packet({start}) returned {got:?} instead of {want:?}"))); }
                        if let (Some(i), true) = (got, mark) {
                            if i >= m.len() { return Some(("ready", format!("get_ready_packet({start}) returned {got:?} of {}", m.len()))); }
                            match &mut m[i] { R::New { last, .. } | R::Rec { last, .. } => *last = now, R::Done => {} }
                        }
                    }
                    11 => {
                        win = g.range(1, 6);
                        log += &format!(" set_max_inflight({win})");
                        q.set_max_inflight(win as u16);
                    }
                    _ => {
                        log += " reset_last_sent";
                        q.reset_last_sent();
                        for x in &mut m { match x { R::New { last, .. } | R::Rec { last, .. } => *last = 0, _ => {} } }
                    }
                }
                None
            }));
            match r { Ok(None) => {} Ok(Some(x)) => { bad = Some(x); break; } Err(_) => { bad = Some(("panic", "panicked".into())); break; } }
            let v = view(&mut q);
            // a pubrec stamps the clock: take the real value over once
            for (a, b) in m.iter_mut().zip(v.iter()) { if let (R::Rec { last, .. }, R::Rec { last: l2, .. }) = (a, b) { if *last == u64::MAX { let now = get_unix_ts(); if *l2 <= now && *l2 + 2 >= now { *last = *l2; } } } }
            if v != m || q.len() != m.len() || q.is_empty() != m.is_empty() { bad = Some(("contents", format!("queue is {v:?} (len {}), expected {m:?}", q.len()))); break; }
        }
        c.eval(&log);
        if let Some((k, d)) = bad { c.fail(k, format!("{log} => {d}")); }
    }
}

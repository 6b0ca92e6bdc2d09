//! Generators: which operations each property's search tries, and the loop that runs them.
use super::broker::*;
use super::common::{Ctx, Rng};
use crate::config::*;
use mqtt_proto::{Protocol, v5};
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct Prof {
    pub v5: usize, pub ncl: usize, pub filters: Vec<&'static str>, pub topics: Vec<&'static str>, pub shared: bool, pub wills: bool, pub cross: bool, pub retain: usize, pub clean: usize,
    pub hooks: u8, pub small: bool, pub limit: bool, pub expiry0: bool, pub props: bool, pub bad: usize, pub probe: bool, pub cfg: u8, pub w: [usize; 12], pub ops: usize, pub auth: bool, pub subids: bool, pub qmax: bool, pub sasl: bool, pub cids0: bool,
}
pub fn base() -> Prof {
    Prof { v5: 2, ncl: 3, filters: vec!["a/b", "a/+", "#", "a/#", "b", "+/b", "a/b/c", "+"], topics: vec!["a/b", "a/c", "b", "a/b/c", "a", "c/b"], shared: false, wills: false, cross: false, retain: 4, clean: 2,
        hooks: 0, small: false, limit: false, expiry0: false, props: true, bad: 0, probe: true, cfg: 0, ops: 30, auth: false, subids: true, qmax: false, sasl: false, cids0: false,
        //  pub sub unsub ack ping disc drop conn adv junk pubrel resend
        w: [10, 5, 2, 8, 1, 1, 1, 3, 0, 0, 3, 2] }
}
pub struct Sc { pub net: Net, pub w: World, pub prof: Prof, pub trace: Vec<String>, pub n: u64, pub sent2: Vec<(String, u16, M, Option<u16>)>, pub cids: Vec<String>, pub vers: BTreeMap<String, Protocol> }
pub type Res = Result<(), (String, String)>;

impl Sc {
    pub fn new(prof: &Prof, cfg: Config) -> Sc {
        let net = Net::new(cfg.clone());
        if cfg.auth.enable { net.global.auth_passwords.insert("u".into(), { let salt = b"0123456789abcdef".to_vec(); crate::AuthPassword { hash_algorithm: crate::HashAlgorithm::Sha256, hashed_password: crate::protocols::mqtt::hash_password(crate::HashAlgorithm::Sha256, &salt, b"pw"), salt } }); }
        Sc { net, w: World::new(cfg), prof: prof.clone(), trace: vec![], n: 0, sent2: vec![], cids: (0..prof.ncl).map(|i| format!("c{i}")).collect(), vers: BTreeMap::new() }
    }
    fn fail<T>(&self, k: &str, d: String) -> Result<T, (String, String)> { Err((k.to_string(), d)) }
    /// everything the clients have received by now, and which connections the server has ended
    async fn collect(&mut self) -> (Vec<Vec<P>>, Vec<bool>) {
        self.net.settle().await;
        let n = self.net.cl.len();
        let got = (0..n).map(|i| self.net.take(i)).collect();
        (got, self.net.cl.iter().map(|c| c.eof).collect())
    }
    async fn judge(&mut self, apply: &dyn Fn(&mut World)) -> Res {
        let (mut got, mut eof) = self.collect().await;
        // which connections end by this operation (no choice of the server changes that)
        let mut w0 = self.w.clone();
        w0.choice = vec![];
        apply(&mut w0);
        if w0.amb { self.w.amb = true; return Ok(()); }
        let ending: Vec<usize> = (0..w0.conns.len()).filter(|i| !w0.conns[*i].open && self.net.cl[*i].is_open()).collect();
        let left: Vec<usize> = ending.iter().copied().filter(|i| !eof[*i]).collect();
        if !left.is_empty() && self.w.sess.values().all(|s| s.gone_at.is_none() && s.will_due.is_none()) && w0.now == self.w.now {
            // the server may first wait a moment for the client to close
            tokio::time::advance(Duration::from_millis(1500)).await;
            let (g, e) = self.collect().await;
            for (a, b) in got.iter_mut().zip(g) { a.extend(b); }
            eof = e;
            for i in left { if !eof[i] { return Err(("a connection that has to end was not closed by the server".into(), format!("connection {i}"))); } }
        }
        if !ending.is_empty() {
            for i in ending { self.net.drop_client(i); eof[i] = true; }
            let (g, _) = self.collect().await;
            for (a, b) in got.iter_mut().zip(g) { a.extend(b); }
        }
        for (i, c) in self.net.cl.iter_mut().enumerate() {
            if c.panicked { return Err(("a connection task panicked".into(), format!("connection {i}"))); }
            if let Some((k, d)) = c.viol.pop() { return Err((k, format!("connection {i}: {d}"))); }
        }
        // the end of a connection is reported when its task ends, which other connections do not wait for
        let (log, mut ends): (Vec<String>, Vec<String>) = self.net.hook.take().into_iter().partition(|l| !l.starts_with("ad "));
        let mut choice: Vec<usize> = vec![];
        let mut first: Option<(String, String)> = None;
        let mut tries = 0;
        loop {
            tries += 1;
            let mut w = self.w.clone();
            w.choice = choice.clone();
            apply(&mut w);
            let r = w.compare(&got, &eof).and_then(|_| if w.log.iter().filter(|l| !l.starts_with("ad ")).eq(log.iter()) { Ok(()) } else { Err(("the hook was not consulted as configured".to_string(), format!("expected {:?}, was {:?}", w.log, log))) });
            match r {
                Ok(()) => {
                    let mut want: Vec<String> = w.log.iter().filter(|l| l.starts_with("ad ")).cloned().collect();
                    ends.sort(); want.sort();
                    if ends != want { return Err(("the hook was not told of the end of a connection exactly once".into(), format!("expected {want:?}, was {ends:?}"))); }
                    self.w = w; break;
                }
                Err(e) => {
                    if first.is_none() { first = Some(e); }
                    let nc = w.nchoice.clone();
                    choice.resize(nc.len(), 0);
                    let mut k = 0;
                    while k < nc.len() { choice[k] += 1; if choice[k] < nc[k] { break; } choice[k] = 0; k += 1; }
                    if k == nc.len() || tries > 256 { return Err(first.unwrap()); }
                }
            }
        }
        self.whitebox()
    }
    fn whitebox(&mut self) -> Res {
        let g = &self.net.global;
        if g.clients_count() != self.w.sess.len() { return self.fail("the number of registered clients is wrong", format!("{} instead of {}: {:?}", g.clients_count(), self.w.sess.len(), self.w.sess.keys())); }
        if g.online_clients_count() as usize != self.w.online() { return self.fail("the online count is wrong", format!("{} instead of {}", g.online_clients_count(), self.w.online())); }
        let ids = match crate::state::vx_in_state::registry(g) { Ok(v) => v, Err(e) => return self.fail("the registry tables disagree", e) };
        for (id, name, on) in &ids {
            let _ = id;
            if let Some(s) = self.w.sess.get(name) { if s.conn.is_some() != *on { return self.fail("a client is online in the registry but not connected, or the reverse", format!("{name}: {on}")); } }
        }
        if self.prof.probe {
            let names: BTreeMap<u64, String> = ids.iter().map(|(a, b, _)| (*a, b.clone())).collect();
            for t in self.prof.topics.iter() {
                let mut want: Vec<(String, String, u8)> = vec![];
                for (cid, s) in &self.w.sess { for (f, sub) in &s.subs {
                    let bare = split_share(f).map(|x| x.1).unwrap_or_else(|| f.clone());
                    if matches(&bare, t) { want.push((f.clone(), if cid.starts_with('\u{1}') { "?".into() } else { cid.clone() }, sub.qos)); }
                } }
                let mut have: Vec<(String, String, u8)> = crate::protocols::mqtt::route::vx_in_routep::probe(g, t).into_iter().map(|(f, id, qos)| { let n = names.get(&id).cloned().unwrap_or_else(|| format!("removed client #{id}")); (f, if n.len() == 36 { "?".into() } else { n }, qos) }).collect();
                want.sort(); have.sort();
                if want != have { return self.fail("the routing table and the sessions' subscriptions disagree", format!("topic {t}: table {have:?}, acknowledged {want:?}")); }
            }
        }
        Ok(())
    }
    pub async fn do_connect(&mut self, c: CSpec) -> Res {
        let v5c = c.proto == Protocol::V500;
        self.trace.push(format!("CONNECT({:?} cid={} clean={} ka={} will={:?} user={:?} {})", c.proto, c.cid, c.clean, c.ka, c.will.as_ref().map(|(m, d)| (&m.topic, m.qos, m.retain, d)), c.user, brief_pr(&c.pr)));
        let ci = self.net.open(v5c);
        self.net.cl[ci].alias_max = c.pr.topic_alias_max.unwrap_or(0);
        self.net.cl[ci].max_packet = c.pr.max_packet_size.unwrap_or(self.w.cfg.max_packet_size_client);
        let b = enc_connect(&c);
        self.net.write(ci, &b).await;
        let n = self.net.cl.len();
        self.judge(&|w: &mut World| w.connect(n, ci, &c)).await
    }
    pub async fn do_send(&mut self, ci: usize, sp: Sp) -> Res {
        let d = brief_sp(&sp);
        self.trace.push(format!("{ci}:{d}"));
        let b = enc(self.net.cl[ci].is_v5(), &sp);
        self.net.write(ci, &b).await;
        let n = self.net.cl.len();
        let len = b.len();
        self.judge(&|w: &mut World| w.packet(n, ci, &sp, len)).await
    }
    pub async fn do_drop(&mut self, ci: usize) -> Res {
        self.trace.push(format!("{ci}:connection lost"));
        self.net.drop_client(ci);
        let n = self.net.cl.len();
        self.judge(&|w: &mut World| w.lost(n, ci)).await
    }
    pub async fn do_advance(&mut self, secs: u64) -> Res {
        self.trace.push(format!("{secs} s pass"));
        for k in 0..secs {
            self.net.settle().await;
            tokio::time::advance(Duration::from_millis(1000)).await;
            let n = self.net.cl.len();
            let _ = k;
            self.judge(&|w: &mut World| w.advance(n, 1)).await?;
        }
        Ok(())
    }
    /// clients in the middle of an exchange
    pub fn pending(&self) -> Vec<usize> { (0..self.w.conns.len()).filter(|i| self.w.conns[*i].open && self.w.conns[*i].auth.is_some()).collect() }
    /// a client that would be handed its own will while its session moves is left out: MQTT does not settle that
    fn own_will(&self, cid: &str) -> bool { self.w.sess.get(cid).map_or(false, |s| match (s.conn, &s.will) { (Some(_), Some((m, _))) => s.subs.keys().any(|f| matches(&split_share(f).map_or(f.clone(), |x| x.1), &m.topic)), _ => false }) }
    async fn auth_step(&mut self, r: &mut Rng, ci: usize) -> Res {
        let a = self.w.conns[ci].auth.clone().unwrap();
        let me = Some(a.method.clone());
        let good = a.good(&a.salted).0;
        let mut k = r.below(20);
        if k < 10 && self.own_will(&a.spec.cid) { k = 10; }
        let sp = match k {
            0..=9 => Sp::Auth(0x18, me, Some(good.into_bytes())),
            10 => Sp::Auth(0x18, me, Some(a.good(&hi(b"wrong", &a.salt, a.iterations as u32)).0.into_bytes())),
            11 => { let mut b = good.into_bytes(); let n = b.len() - 1; let j = n - r.below(40); b[j] = if b[j] == b'A' { b'B' } else { b'A' }; Sp::Auth(0x18, me, Some(b)) }
            12 => Sp::Auth(0x18, me, Some(r.pick(&[vec![], b"x".to_vec(), vec![0xff, 0xfe], b"c=biws,r=,p=".to_vec(), good.as_bytes()[..good.len() / 2].to_vec()]).clone())),
            13 => Sp::Auth(0x18, me, None),
            14 => Sp::Auth(0x18, r.pick(&[None, Some("SCRAM-SHA-1".to_string()), Some("scram-sha-256".to_string()), Some("SCRAM-SHA-256-PLUS".to_string())]).clone(), Some(good.into_bytes())),
            15 => Sp::Auth(0x19, me, Some(r.pick(&[a.spec.pr.auth_data.clone().unwrap().to_vec(), good.into_bytes()]).clone())),
            16 => Sp::Auth(0, me, Some(good.into_bytes())),
            17 => { let m = self.message(r, true); Sp::Publish { m, pid: 1, dup: false, alias: None } }
            18 => Sp::Subscribe { pid: 1, id: None, fs: vec![FSub { f: "#".into(), qos: 2, nl: false, rap: false, rh: 0 }] },
            _ => match r.below(3) { 0 => Sp::Ping, 1 => Sp::Disconnect(0, None), _ => return self.do_drop(ci).await },
        };
        self.trace.push(format!("{ci}:(exchange) {}", if let Sp::Auth(c, m, Some(d)) = &sp { format!("AUTH({c:#x} {m:?} {})", String::from_utf8_lossy(d)) } else { brief_sp(&sp) }));
        let b = enc(true, &sp);
        self.net.write(ci, &b).await;
        let n = self.net.cl.len();
        self.judge(&|w: &mut World| w.auth_packet(n, ci, &sp)).await
    }
    pub fn live(&self) -> Vec<usize> { (0..self.w.conns.len()).filter(|i| self.w.conns[*i].open && self.w.conns[*i].cid.is_some()).collect() }
    fn props(&self, r: &mut Rng) -> PP {
        let mut p = PP::default();
        if !self.prof.props || r.one_in(3) { return p; }
        if r.one_in(3) { p.utf8 = Some(r.flip()); }
        if r.one_in(3) { p.expiry = Some(*r.pick(&[100u32, 1000, u32::MAX])); }
        if self.prof.expiry0 && r.one_in(4) { p.expiry = Some(0); }
        if r.one_in(4) { p.resp = Some(r.pick(&["r/x", "y"]).to_string()); }
        if r.one_in(4) { let n = r.below(4); p.corr = Some(r.bytes(n)); }
        if r.one_in(3) { for _ in 0..r.range(1, 3) { p.user.push((r.pick(&["k", "l"]).to_string(), r.pick(&["1", "2", ""]).to_string())); } }
        if r.one_in(4) { p.ctype = Some(r.pick(&["t/p", ""]).to_string()); }
        p
    }
    pub fn message(&mut self, r: &mut Rng, v5c: bool) -> M {
        self.n += 1;
        let topic = r.pick(&self.prof.topics).to_string();
        let mut payload = format!("m{}", self.n).into_bytes();
        if self.prof.limit { let n = r.below(120); payload.extend(vec![b'.'; n]); }
        let retain = self.prof.retain > 0 && r.one_in(self.prof.retain) && !self.prof.small;
        if retain && r.one_in(5) { payload.clear(); }
        let mut p = if v5c { self.props(r) } else { PP::default() };
        if p.utf8 == Some(true) && std::str::from_utf8(&payload).is_err() { p.utf8 = None; }
        M { topic, payload, qos: r.below(3) as u8, retain, p }
    }
    pub fn spec(&mut self, r: &mut Rng) -> CSpec {
        let mut cid = r.pick(&self.cids.clone()).clone();
        if self.prof.cids0 && r.one_in(3) { cid = String::new(); }
        let pv = self.prof.v5;
        let mut proto = *self.vers.entry(cid.clone()).or_insert_with(|| if r.below(4) < pv { Protocol::V500 } else if r.one_in(3) { Protocol::V310 } else { Protocol::V311 });
        if self.prof.cross && r.one_in(6) { proto = *r.pick(&[Protocol::V500, Protocol::V311, Protocol::V310]); if !self.w.sess.contains_key(&cid) { self.vers.insert(cid.clone(), proto); } }
        let mut pr = v5::ConnectProperties::default();
        if r.one_in(2) { pr.session_expiry_interval = Some(*r.pick(&[0u32, 5, 20, 1000, u32::MAX])); }
        if !self.prof.small || r.flip() { if r.one_in(2) { pr.receive_max = Some(*r.pick(&[1u16, 2, 3, 10, 65535])); } }
        if r.one_in(2) { pr.topic_alias_max = Some(*r.pick(&[0u16, 1, 2, 3, 10])); }
        if self.prof.limit && r.one_in(2) { pr.max_packet_size = Some(r.range(30, 160) as u32); }
        if r.one_in(4) { pr.request_problem_info = Some(r.flip()); }
        if self.prof.shared { pr.receive_max = None; pr.max_packet_size = None; }
        if self.prof.sasl && proto == Protocol::V500 && !r.one_in(4) {
            let m = if r.one_in(8) { *r.pick(&["SCRAM-SHA-256-PLUS", "SCRAM-SHA-1", "PLAIN", "", "scram-sha-256"]) } else { "SCRAM-SHA-256" };
            pr.auth_method = if r.one_in(12) { None } else { Some(Arc::from(m)) };
            let user = if r.one_in(8) { *r.pick(&["nobody", "U", "u ", ""]) } else { *r.pick(&["u", "v", "a=2Cb"]) };
            let cn: String = (0..r.range(1, 20)).map(|_| *r.pick(&['a', 'Z', '0', '+', '=', '/'])).collect();
            let gs2 = match r.below(6) { 0 | 1 => format!("n,a={user},"), 2 => r.pick(&["n,a=root,", "y,a=x=3Dy,"]).to_string(), _ => r.pick(&["n,,", "y,,"]).to_string() };
            let f = if r.one_in(8) { r.pick(&["", "n", "n,,", "n,,n=u", "p=tls-unique,,n=u,r=a", "n,,n=u=,r=a", "n,,r=a,n=u"]).to_string().into_bytes() } else if r.one_in(15) { vec![0xff, b'n', 0xc0] } else { format!("{gs2}n={user},r={cn}").into_bytes() };
            pr.auth_data = if r.one_in(12) { None } else { Some(bytes::Bytes::from(f)) };
        }
        let will = if self.prof.wills && r.one_in(2) {
            let mut m = self.message(r, proto == Protocol::V500);
            m.topic = r.pick(&["w", "w/x", "a/b"]).to_string(); m.qos = m.qos.min(self.w.cfg.max_allowed_qos);
            m.p.ids.clear();
            Some((m, if r.flip() { None } else { Some(*r.pick(&[0u32, 3, 10, 30])) }))
        } else { None };
        let (user, pass) = if self.prof.auth { match r.below(6) { 0 => (None, None), 1 => (Some("u".into()), Some(b"bad".to_vec())), 2 => (Some("x".into()), Some(b"pw".to_vec())), _ => (Some("u".into()), Some(b"pw".to_vec())) } } else { (None, None) };
        let clean = r.below(4) < self.prof.clean;
        CSpec { proto, clean, cid, ka: *r.pick(&[0u16, 10, 60, 65535]), will, user, pass, pr }
    }
    fn fsub(&self, r: &mut Rng, v5c: bool) -> FSub {
        let mut f = r.pick(&self.prof.filters).to_string();
        let mut nl = r.one_in(4);
        if self.prof.shared && v5c && r.one_in(2) { f = format!("$share/{}/{}", r.pick(&["g", "h"]), f); nl = false; }
        FSub { f, qos: r.below(3) as u8, nl, rap: r.flip(), rh: r.below(3) as u8 }
    }
    pub fn ack(&self, r: &mut Rng, ci: usize) -> Option<Sp> {
        let cid = self.w.conns[ci].cid.clone()?;
        let s = self.w.sess.get(&cid)?;
        if r.one_in(12) { return Some(Sp::Ack(*r.pick(&[4u8, 5, 7]), 50000 + r.below(10) as u16, 0)); }
        let c: Vec<&Slot> = s.queue.iter().filter(|x| x.pid.is_some() && x.st != St::Done && !x.pend).collect();
        if c.is_empty() { return None; }
        // mostly in order, sometimes not
        let x = if r.one_in(3) { *r.pick(&c) } else { c[0] };
        let code = if r.one_in(4) && s.v5 { 0x10 } else { 0 };
        Some(match (x.m.qos, x.st) { (1, _) => Sp::Ack(4, x.pid.unwrap(), code), (_, St::New) => Sp::Ack(5, x.pid.unwrap(), code), _ => if r.one_in(8) { Sp::Ack(5, x.pid.unwrap(), 0) } else { Sp::Ack(7, x.pid.unwrap(), 0) } })
    }
    pub async fn one(&mut self, r: &mut Rng) -> Res {
        let live = self.live();
        let pending = self.pending();
        if !pending.is_empty() && r.flip() { let ci = *r.pick(&pending); return self.auth_step(r, ci).await; }
        let mut k = { let t: usize = self.prof.w.iter().sum(); let mut x = r.below(t); let mut k = 0; while x >= self.prof.w[k] { x -= self.prof.w[k]; k += 1; } k };
        if live.is_empty() { k = 7; }
        if k == 7 {
            let c = self.spec(r);
            if self.own_will(&c.cid) { return Ok(()); }
            return self.do_connect(c).await;
        }
        if k == 8 { let s = r.range(1, 12) as u64; return self.do_advance(s).await; }
        let ci = *r.pick(&live);
        let v5c = self.w.conns[ci].v5;
        let cid = self.w.conns[ci].cid.clone().unwrap();
        let sp = match k {
            0 => {
                let mut m = self.message(r, v5c);
                let mut alias = None;
                let mut dup = false;
                let tam = self.w.cfg.topic_alias_max;
                if v5c && tam > 0 && tam < 100 && r.one_in(3) { let a = r.range(1, tam as usize) as u16; alias = Some(a); if self.w.sess[&cid].aliases.contains_key(&a) && r.flip() { m.topic.clear(); } }
                let mut pid = r.range(1, 6) as u16;
                if m.qos > self.w.cfg.max_allowed_qos && v5c && !(self.prof.bad > 0 && r.one_in(self.prof.bad)) { m.qos = self.w.cfg.max_allowed_qos; }
                if m.qos == 2 && self.w.sess[&cid].qos2_in.contains_key(&pid) && !(self.prof.bad > 0 && r.one_in(3)) { pid = (1..400).find(|p| !self.w.sess[&cid].qos2_in.contains_key(p)).unwrap(); }
                if m.qos == 2 && v5c && self.w.sess[&cid].qos2_in.len() >= self.w.cfg.max_inflight_server as usize && !(self.prof.bad > 0 && r.one_in(self.prof.bad)) { m.qos = 1; }
                if self.prof.bad > 0 && r.one_in(self.prof.bad) {
                    match r.below(8) {
                        0 => m.topic = "$x/y".into(), 1 => { dup = true; m.qos = 0; } 2 => alias = if v5c { Some(0) } else { None }, 3 => alias = if v5c && tam < u16::MAX { Some(tam + 1) } else { None },
                        4 => if v5c { m.topic.clear(); alias = None }, 5 => if v5c && tam > 0 { m.topic.clear(); alias = Some(r.range(1, tam as usize) as u16) }, 6 => if v5c { m.p.ids = vec![3]; }, _ => dup = true,
                    }
                }
                if !v5c && m.topic.is_empty() { m.topic = "a/b".into(); }
                if m.qos > 0 && r.one_in(8) { dup = true; }
                if m.qos == 2 { self.sent2.push((cid.clone(), pid, m.clone(), alias)); }
                Sp::Publish { m, pid, dup, alias }
            }
            1 => {
                let n = if self.prof.small { 1 } else { r.range(1, 3) };
                let mut fs: Vec<FSub> = (0..n).map(|_| self.fsub(r, v5c)).collect();
                if !v5c && self.prof.bad > 0 && r.one_in(self.prof.bad * 3) { fs[0].f = "$share/g/a".into(); }
                let id = if v5c && self.prof.subids && r.flip() { Some(if self.prof.bad > 0 && r.one_in(self.prof.bad * 3) { 0 } else { *r.pick(&[1u32, 2, 3, 268_435_455]) }) } else { None };
                Sp::Subscribe { pid: r.range(1, 60000) as u16, id, fs }
            }
            2 => { let n = r.range(1, 2);
                let have: Vec<String> = self.w.sess[&cid].subs.keys().cloned().collect();
                let fs = (0..n).map(|_| if !have.is_empty() && !r.one_in(3) { r.pick(&have).clone() } else { self.fsub(r, v5c).f }).collect(); Sp::Unsub { pid: r.range(1, 60000) as u16, fs } }
            3 => match self.ack(r, ci) { Some(a) => a, None => return Ok(()) },
            4 => Sp::Ping,
            5 => { let code = if v5c { *r.pick(&[0u8, 0, 4, 0x80]) } else { 0 }; let x = if v5c && r.one_in(3) { Some(*r.pick(&[0u32, 5, 50])) } else { None }; Sp::Disconnect(code, x) }
            6 => return self.do_drop(ci).await,
            9 => match r.below(3) { 0 => Sp::Junk(enc_connect(&CSpec { proto: if v5c { Protocol::V500 } else { Protocol::V311 }, clean: true, cid: "c0".into(), ka: 0, will: None, user: None, pass: None, pr: Default::default() })), 1 => Sp::Junk(vec![0xd0, 0]), _ => if v5c { Sp::Auth(*r.pick(&[0u8, 0x18, 0x19]), r.pick(&[None, Some("SCRAM-SHA-256".to_string())]).clone(), None) } else { Sp::Junk(vec![0x90, 3, 0, 1, 0]) } },
            10 => { let v: Vec<u16> = self.w.sess[&cid].qos2_in.keys().copied().collect(); if v.is_empty() { if v5c && r.one_in(4) { Sp::Ack(6, 50001, 0) } else { return Ok(()) } } else { Sp::Ack(6, *r.pick(&v), 0) } }
            _ => { let v: Vec<_> = self.sent2.iter().filter(|x| x.0 == cid && self.w.sess[&cid].qos2_in.contains_key(&x.1)).cloned().collect();
                let Some((_, pid, mut m, alias)) = v.last().cloned() else { return Ok(()) };
                // an alias set again by the re-sent packet is harmless; one re-sent without topic may mean another topic now
                if m.topic.is_empty() { return Ok(()); }
                let mut dup = true;
                if self.prof.bad > 0 && r.one_in(self.prof.bad) { if r.flip() { dup = false } else { m.payload.push(b'x') } }
                Sp::Publish { m, pid, dup, alias } }
        };
        self.do_send(ci, sp).await
    }
}
fn brief_pr(p: &v5::ConnectProperties) -> String { format!("exp={:?} rm={:?} mp={:?} tam={:?}", p.session_expiry_interval, p.receive_max, p.max_packet_size, p.topic_alias_max).replace("None", "-").replace("Some", "") + &match (&p.auth_method, &p.auth_data) { (None, None) => String::new(), (m, d) => format!(" method={m:?} data={d:?}") } }
fn brief_sp(sp: &Sp) -> String {
    match sp {
        Sp::Publish { m, pid, dup, alias } => format!("PUBLISH(pid={pid} dup={dup} alias={alias:?} {})", m.brief()),
        Sp::Subscribe { pid, id, fs } => format!("SUBSCRIBE(pid={pid} id={id:?} {})", fs.iter().map(|f| format!("{} q{} nl={} rap={} rh={}", f.f, f.qos, f.nl as u8, f.rap as u8, f.rh)).collect::<Vec<_>>().join(", ")),
        o => format!("{o:?}"),
    }
}

pub fn config(p: &Prof, r: &mut Rng) -> Config {
    let mut c = Config::new_allow_anonymous();
    c.min_keep_alive = 0;
    if p.auth { c.auth.enable = true; c.auth.password_file = Some("/x".into()); }
    c.hook = HookConfig { enable_before_connect: false, enable_after_connect: false, enable_after_disconnect: false, enable_publish: false, enable_subscribe: false, enable_unsubscribe: false };
    if p.hooks > 0 { c.hook = HookConfig { enable_before_connect: r.flip(), enable_after_connect: r.flip(), enable_after_disconnect: r.flip(), enable_publish: r.flip(), enable_subscribe: r.flip(), enable_unsubscribe: r.flip() }; }
    if p.sasl {
        c.scram_users.clear();
        for (u, pw) in [("u", "pw"), ("v", ""), ("a,b", "pencil")] { let n = r.below(17); let salt = r.bytes(n); let it = r.range(1, 5) as u16; c.scram_users.insert(u.into(), ScramPasswordInfo { hashed_password: hi(pw.as_bytes(), &salt, it as u32), iterations: it, salt }); }
        if r.one_in(8) { c.sasl_mechanisms.clear(); }
    }
    c.shared_subscription_mode = *r.pick(&[SharedSubscriptionMode::Random, SharedSubscriptionMode::HashClientId, SharedSubscriptionMode::HashTopicName]);
    if p.small { c.max_in_mem_pending_messages = r.range(1, 4); c.max_inflight_client = r.range(1, 5) as u16; }
    c.topic_alias_max = *r.pick(&[0u16, 1, 2, 3, 65535]);
    if p.qmax { c.max_inflight_server = r.range(1, 3) as u16; }
    if p.cfg > 0 && r.flip() { c.max_allowed_qos = r.below(3) as u8; }
    if p.cfg > 1 { c.retain_available = !r.one_in(3); c.shared_subscription_available = !r.one_in(3); c.subscription_id_available = !r.one_in(3); c.wildcard_subscription_available = !r.one_in(4); }
    if p.cfg == 4 {
        c.hook.enable_after_connect = true;
        c.max_inflight_client = *r.pick(&[1u16, 2, 10, 100, 65535]); c.max_inflight_server = *r.pick(&[1u16, 2, 10, 65534, 65535]); c.topic_alias_max = *r.pick(&[0u16, 1, 5, 65534, 65535]);
        c.max_packet_size_client = *r.pick(&[100u32, 1000, DEFAULT_MAX_PACKET_SIZE, u32::MAX]); c.max_packet_size_server = *r.pick(&[100u32, 200, DEFAULT_MAX_PACKET_SIZE, u32::MAX - 1, u32::MAX]);
        c.max_session_expiry_interval = *r.pick(&[0u32, 1, 7, 100, u32::MAX - 1, u32::MAX]);
        c.min_keep_alive = *r.pick(&[0u16, 1, 10, 60, 1000]); c.max_keep_alive = *r.pick(&[c.min_keep_alive, c.min_keep_alive + 1, 1000, 2000, 65535]);
    }
    if p.cfg == 3 && r.one_in(2) { c.max_session_expiry_interval = *r.pick(&[0u32, 7, 100]); }
    if p.cfg == 3 && r.one_in(3) { c.max_packet_size_server = r.range(60, 200) as u32; }
    c
}
pub fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap() }

/// runs scenarios of the given profiles until the time is up
pub fn campaign(c: &mut Ctx, stream: u64, profs: &[Prof], prep: fn(&mut Sc, &mut Rng)) {
    let mut r = c.rng(stream);
    let max = c.n(400_000, 10_000_000);
    for it in 0..max {
        if c.time_up() { break; }
        let p = profs[it % profs.len()].clone();
        let cfg = config(&p, &mut r);
        let seed = r.next();
        scenario(c, &p, cfg, seed, prep);
        if c.fails.len() > 12 { break; }
    }
}
pub fn scenario(c: &mut Ctx, p: &Prof, cfg: Config, seed: u64, prep: fn(&mut Sc, &mut Rng)) {
    let rt = rt();
    let mut r = Rng(seed);
    let head = cfg_brief(&cfg);
    let mut tr = String::new();
    let out = rt.block_on(async {
        let mut s = Sc::new(p, cfg);
        prep(&mut s, &mut r);
        s.w.script = s.net.hook.0.lock().unwrap().script.clone();
        let n = r.range(p.ops / 2, p.ops);
        let mut res = Ok(());
        for k in 0..n + p.ncl {
            res = if k < p.ncl { let sp = s.spec(&mut r); s.do_connect(sp).await } else { s.one(&mut r).await };
            if res.is_err() || s.w.amb || s.w.last { break; }
        }
        if std::env::var("VX_LATE").is_ok() { if let Err((_, d)) = &mut res { for k in 0..3 { tokio::time::advance(Duration::from_millis(1000)).await; let (g, e) = s.collect().await; d.push_str(&format!(" LATER{k}: {g:?} {e:?}")); } } }
        tr = s.trace.join(" ; ");
        res
    });
    drop(rt);
    c.eval(&tr);
    if let Err((k, d)) = out { c.fail(&k, format!("{d} -- after: [{head}] {tr}")); }
}
pub fn cfg_brief(c: &Config) -> String {
    format!("max_qos={} infl_c={} infl_s={} mem={} tam={} retain={} shared={} id={} wild={} exp={} pkt_s={} pkt_c={} ka={}..{} hook={:?} mode={:?} auth={}", c.max_allowed_qos, c.max_inflight_client, c.max_inflight_server, c.max_in_mem_pending_messages, c.topic_alias_max, c.retain_available, c.shared_subscription_available, c.subscription_id_available, c.wildcard_subscription_available, c.max_session_expiry_interval, c.max_packet_size_server, c.max_packet_size_client, c.min_keep_alive, c.max_keep_alive, c.hook, c.shared_subscription_mode, c.auth.enable)
}
fn nop(_: &mut Sc, _: &mut Rng) {}

/// real threads on one registry: every round all of them bring up the same identifier while each adds and removes clients of its own
pub fn registry_threads(c: &mut Ctx, rounds: usize) {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    use std::sync::{Barrier, Mutex};
    let g = crate::state::GlobalState::new(Config::new_allow_anonymous());
    let (bar, done, news, stop) = (Barrier::new(4), AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0));
    let bad: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
    let ids = Mutex::new(std::collections::BTreeMap::<u64, String>::new());
    let ran = AtomicUsize::new(0);
    let seed = c.seed;
    std::thread::scope(|s| for t in 0..4usize {
        let (g, bar, done, news, bad, ids, stop, ran) = (&g, &bar, &done, &news, &bad, &ids, &stop, &ran);
        s.spawn(move || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            let mut r = Rng(seed.wrapping_mul(77).wrapping_add(t as u64));
            let fail = |k: &str, d: String| { bad.lock().unwrap().push((k.to_string(), d)); stop.store(1, SeqCst); };
            let note = |id: crate::state::ClientId, name: &str| { if let Some(o) = ids.lock().unwrap().insert(crate::state::vx_in_state::cidv(id), name.to_string()) { fail("an internal client id was given out twice", format!("to {o} and to {name}")); } };
            let add = |name: &str, p: Protocol| rt.block_on(async { tokio::time::timeout(Duration::from_secs(20), g.add_client(name, p)).await });
            for k in 0..rounds {
                bar.wait();
                if stop.load(SeqCst) != 0 { break; }
                if t == 0 { done.store(0, SeqCst); news.store(0, SeqCst); ran.fetch_add(1, SeqCst); }
                bar.wait();
                let p = *r.pick(&[Protocol::V311, Protocol::V500]);
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mine = format!("t{t}");
                    for _ in 0..r.below(3) {
                        match add(&mine, p) {
                            Ok(Ok(crate::state::AddClientReceipt::New { client_id, .. })) => { note(client_id, &mine); if r.flip() { g.offline_client(client_id); } g.remove_client(client_id, &[]); }
                            _ => fail("an identifier of which nothing remained was not given a new client", format!("round {k}, thread {t}")),
                        }
                    }
                    match add("shared", p) {
                        Err(_) => { done.fetch_add(1, SeqCst); fail("a connecting client got no answer", format!("round {k}")) }
                        Ok(Ok(crate::state::AddClientReceipt::New { client_id, receiver })) => {
                            news.fetch_add(1, SeqCst);
                            note(client_id, "shared");
                            done.fetch_add(1, SeqCst);
                            // its session task: it turns the others down until all have asked
                            let end = std::time::Instant::now() + Duration::from_secs(25);
                            // every other round it leaves while they ask
                            if k % 2 == 1 { g.remove_client(client_id, &[]); }
                            while done.load(SeqCst) < 4 && std::time::Instant::now() < end { while receiver.control.try_recv().is_ok() {} std::hint::spin_loop(); }
                            if k % 2 == 0 { if r.flip() { g.offline_client(client_id); } g.remove_client(client_id, &[]); }
                        }
                        Ok(_) => { done.fetch_add(1, SeqCst); }
                    }
                }));
                if res.is_err() { done.fetch_add(1, SeqCst); fail("a registry operation panicked", format!("round {k}")); }
                bar.wait();
                if t == 0 {
                    if stop.load(SeqCst) == 0 && (news.load(SeqCst) == 0 || k % 2 == 0 && news.load(SeqCst) > 1) { fail("one identifier was given several clients at the same time (or none)", format!("{} of 4 threads connecting the same identifier got a new client, round {k}", news.load(SeqCst))); }
                    match crate::state::vx_in_state::registry(g) { Ok(v) if v.is_empty() => {} o => fail("the registry tables disagree", format!("{o:?} after every client was removed, round {k}")) }
                    if g.online_clients_count() != 0 || g.clients_count() != 0 { fail("the online count is wrong", format!("{} online, {} registered after every client was removed, round {k}", g.online_clients_count(), g.clients_count())); }
                }
            }
        });
    });
    c.eval(&format!("4 threads, {} rounds on one registry", ran.load(SeqCst)));
    for (k, d) in bad.into_inner().unwrap() { c.fail(&k, format!("{d} (threads: the schedule is the machine's)")); }
}
pub fn c09(c: &mut Ctx) {
    c.rule("random connects, take-overs, disconnects, lost connections and expiries of few identifiers over all versions; registry tables and counters after every step; before that, four threads adding and removing clients on one registry");
    registry_threads(c, c.n(20_000, 200_000));
    let a = Prof { ncl: 2, cross: true, wills: false, probe: false, w: [2, 2, 0, 1, 0, 4, 4, 10, 3, 1, 0, 0], cfg: 3, ops: 40, ..base() };
    let b = Prof { ncl: 3, v5: 4, clean: 1, ..a.clone() };
    let d = Prof { v5: 0, ncl: 2, clean: 1, ..a.clone() };
    campaign(c, 9, &[a, b, d], nop);
}
pub fn c12(c: &mut Ctx) {
    c.rule("random PUBLISH/PUBREL/re-sent PUBLISH sequences of v3 clients; every acknowledgement and every delivery compared with the reference");
    let a = Prof { v5: 0, bad: 12, clean: 1, w: [14, 4, 1, 8, 1, 1, 1, 3, 0, 1, 8, 8], ops: 50, ..base() };
    let b = Prof { v5: 1, ..a.clone() };
    let d = Prof { hooks: 1, ..b.clone() };
    campaign(c, 12, &[a, b, d], nop);
}
pub fn c13(c: &mut Ctx) {
    c.rule("random PUBLISH/PUBREL sequences of v5 clients with aliases, re-sent packets, forbidden values; every acknowledgement and every delivery compared with the reference");
    let a = Prof { v5: 4, bad: 12, clean: 1, cfg: 1, w: [14, 4, 1, 8, 1, 1, 1, 3, 0, 1, 8, 8], ops: 50, ..base() };
    let b = Prof { qmax: true, bad: 20, ..a.clone() };
    let d = Prof { hooks: 1, cfg: 3, v5: 3, ..a.clone() };
    campaign(c, 13, &[a, b, d], nop);
}
pub fn c14(c: &mut Ctx) {
    c.rule("random SUBSCRIBE/UNSUBSCRIBE histories over all options and configurations; codes, routing table, later deliveries and retained messages compared with the reference");
    let a = Prof { v5: 3, cfg: 2, shared: true, w: [6, 14, 8, 4, 0, 0, 0, 1, 0, 0, 1, 0], ops: 50, bad: 30, ..base() };
    let b = Prof { shared: false, v5: 2, w: [6, 14, 8, 4, 0, 1, 1, 3, 0, 0, 1, 0], ..a.clone() };
    let d = Prof { hooks: 1, ..b.clone() };
    campaign(c, 14, &[a, b, d], nop);
}
pub fn c15(c: &mut Ctx) {
    c.rule("random messages against random subscription options and client limits; every outgoing PUBLISH compared with the reference");
    let a = Prof { v5: 3, retain: 2, limit: true, w: [14, 6, 1, 8, 1, 0, 1, 3, 0, 0, 3, 0], ops: 40, expiry0: true, ..base() };
    let b = Prof { shared: true, limit: false, expiry0: false, w: [14, 8, 2, 8, 0, 0, 0, 1, 0, 0, 3, 0], ..a.clone() };
    let d = Prof { small: true, limit: false, filters: vec!["a/b", "b", "a/b/c"], topics: vec!["a/b", "b", "a/b/c"], retain: 0, clean: 1, w: [16, 5, 1, 10, 2, 1, 2, 4, 0, 0, 3, 0], ops: 60, ..base() };
    let e = Prof { cfg: 2, ..a.clone() };
    campaign(c, 15, &[a, b, d, e], nop);
}
pub fn c16(c: &mut Ctx) {
    c.rule("random connects, refusals, reconnects, take-overs, disconnects, lost connections, passing time, wills; CONNACK, queued messages, subscriptions, will delivery compared with the reference");
    let a = Prof { v5: 4, clean: 1, wills: true, w: [8, 5, 1, 5, 0, 2, 3, 6, 2, 1, 2, 1], ops: 45, ..base() };
    let b = Prof { v5: 0, ..a.clone() };
    let d = Prof { v5: 2, cross: true, auth: true, cfg: 3, clean: 2, ..a.clone() };
    let e = Prof { small: true, filters: vec!["a/b", "b", "a/b/c"], topics: vec!["a/b", "b", "a/b/c"], retain: 0, wills: false, ..a.clone() };
    campaign(c, 16, &[a, b, d, e], nop);
}
pub fn c18(c: &mut Ctx) {
    c.rule("many topics against few aliases; every alias the server uses resolved by an independent per-connection table");
    let a = Prof { v5: 4, ncl: 2, w: [20, 4, 1, 10, 0, 0, 2, 3, 0, 0, 6, 0], ops: 70, subids: false, ..base() };
    let b = Prof { limit: true, ..a.clone() };
    campaign(c, 18, &[a, b], nop);
}

/// the rules for a usable configuration, written down here a second time
fn usable(c: &Config) -> bool {
    let l = &c.listeners;
    (!c.auth.enable || c.auth.password_file.is_some()) && matches!(c.max_allowed_qos, 0 | 1 | 2) && c.max_inflight_client >= 1 && c.max_inflight_server >= 1 && c.min_keep_alive <= c.max_keep_alive
        && c.max_packet_size_client >= 1 && c.max_packet_size_server >= 1 && c.sasl_mechanisms.iter().all(|m| *m == SaslMechanism::ScramSha256) && c.scram_users.values().all(|u| u.iterations >= 4096)
        && [l.mqtt.is_some(), l.mqtts.is_some(), l.ws.is_some(), l.wss.is_some(), l.http.is_some()].contains(&true)
}
fn any_config(r: &mut Rng) -> Config {
    let mut c = if r.flip() { Config::default() } else { Config::new_allow_anonymous() };
    let few = r.range(0, 3);
    for _ in 0..few { match r.below(13) {
        0 => c.auth.enable = r.flip(), 1 => c.auth.password_file = if r.flip() { None } else { Some("x".into()) },
        2 => c.max_allowed_qos = *r.pick(&[0u8, 1, 2, 3, 4, 128, 255]), 3 => c.max_inflight_client = *r.pick(&[0u16, 1, 2, 65535]), 4 => c.max_inflight_server = *r.pick(&[0u16, 1, 2, 65535]),
        5 => { c.min_keep_alive = *r.pick(&[0u16, 1, 10, 11, 65535]); c.max_keep_alive = *r.pick(&[0u16, 1, 10, 11, 65535]); }
        6 => c.max_packet_size_client = *r.pick(&[0u32, 1, 2, u32::MAX]), 7 => c.max_packet_size_server = *r.pick(&[0u32, 1, 2, u32::MAX]),
        8 => { c.sasl_mechanisms = Default::default(); if r.flip() { c.sasl_mechanisms.insert(SaslMechanism::ScramSha256); } if r.flip() { c.sasl_mechanisms.insert(SaslMechanism::ScramSha256Plus); } }
        9 => { c.scram_users = Default::default(); for k in 0..r.below(4) { c.scram_users.insert(format!("u{k}"), ScramPasswordInfo { hashed_password: vec![1], iterations: *r.pick(&[0u16, 1, 4095, 4096, 4096, 4097, 5000, 5000, 65535]), salt: vec![] }); } }
        10 => { let l = &mut c.listeners; let t = TlsListener { addr: "127.0.0.1:1".parse().unwrap(), reuse_port: false, proxy: false, ca_file: None, key_file: "k".into(), cert_file: "c".into(), verify_peer: false, fail_if_no_peer_cert: false };
            let m = Listener { addr: "127.0.0.1:1".parse().unwrap(), reuse_port: false, proxy_mode: None };
            let o = |r: &mut Rng| r.one_in(3);
            l.mqtt = if o(r) { Some(m.clone()) } else { None }; l.ws = if o(r) { Some(m) } else { None }; l.mqtts = if o(r) { Some(t.clone()) } else { None }; l.wss = if o(r) { Some(t) } else { None }; l.http = if o(r) { Some(Http::default()) } else { None }; }
        11 => { c.topic_alias_max = r.next() as u16; c.max_session_expiry_interval = r.next() as u32; c.retain_available = r.flip(); c.shared_subscription_available = r.flip(); c.wildcard_subscription_available = r.flip(); c.subscription_id_available = r.flip(); }
        _ => { c.inflight_timeout = r.next(); c.max_in_mem_pending_messages = r.range(0, 300); c.check_v310_client_id_length = r.flip(); }
    } }
    c
}
pub fn c10(c: &mut Ctx) {
    c.rule("random configurations: is_valid against the rules written down a second time, max_allowed_qos; then random usable configurations x CONNECT packets: every field of CONNACK, the values the session works with (as the hook sees them) and later limits compared with the reference");
    let mut r = c.rng(10);
    for _ in 0..c.n(200_000, 4_000_000) {
        if c.time_up() { return; }
        let cfg = any_config(&mut r);
        let case = format!("{cfg:?}");
        c.eval(&case);
        let Some(v) = c.guarded("is_valid panicked", || case.clone(), || cfg.is_valid()) else { continue };
        if v != usable(&cfg) { c.fail(if v { "an unusable configuration is reported valid" } else { "a usable configuration is refused" }, case.clone()); }
        if cfg.max_allowed_qos <= 2 { if let Some(q) = c.guarded("max_allowed_qos panicked", || case.clone(), || cfg.max_allowed_qos() as u8) { if q != cfg.max_allowed_qos { c.fail("max_allowed_qos is not the configured one", case); } } }
        if c.evals % 1000 == 0 && c.fails.len() > 3 { return; }
    }
    let a = Prof { v5: 4, cfg: 4, ncl: 2, clean: 2, wills: true, w: [4, 3, 0, 3, 1, 1, 1, 12, 0, 0, 1, 0], ops: 20, bad: 10, ..base() };
    let b = Prof { v5: 3, ncl: 4, ..a.clone() };
    let d = Prof { cids0: true, ..a.clone() };
    campaign(c, 10, &[a, b, d], nop);
}
/// random verdicts for every key the scenario can use
fn scripted(s: &mut Sc, r: &mut Rng) {
    let mut sc: BTreeMap<(String, String), Verdict> = BTreeMap::new();
    let topics: Vec<&str> = s.prof.topics.clone();
    let filters: Vec<&str> = s.prof.filters.clone();
    let mut n = 0u32;
    let mut acts = |r: &mut Rng| -> Vec<Act> {
        if !r.one_in(3) { return vec![]; }
        (0..r.range(1, 3)).map(|_| match r.below(4) {
            0 | 1 => { n += 1; let mut p = PP::default(); if r.one_in(3) { p.utf8 = Some(true); } if r.one_in(3) { p.expiry = Some(1000); } if r.one_in(3) { p.ctype = Some("t".into()); }
                Act::Pub(M { topic: r.pick(&topics).to_string(), payload: format!("h{n}").into_bytes(), qos: r.below(3) as u8, retain: false, p }) }
            2 => Act::Sub((0..r.range(1, 2)).map(|_| (r.pick(&filters).to_string(), r.below(3) as u8)).collect()),
            _ => Act::Unsub((0..r.range(1, 2)).map(|_| r.pick(&filters).to_string()).collect()),
        }).collect()
    };
    let mut put = |k: &str, key: &str, v: Verdict| { sc.insert((k.to_string(), key.to_string()), v); };
    for cid in s.cids.iter() {
        put("bc", cid, Verdict { code: if r.one_in(4) { r.below(8) as u8 } else { 0 }, err: r.one_in(15), yields: r.below(3), ..Default::default() });
        put("ac", cid, Verdict { err: r.one_in(10), acts: acts(r), yields: r.below(3), ..Default::default() });
        put("ad", cid, Verdict { err: r.one_in(6), yields: r.below(3), ..Default::default() });
    }
    for t in topics.iter() {
        let to = if r.one_in(3) { Some(r.pick(&topics).to_string()) } else { None };
        let payload = if r.one_in(4) { Some(b"changed".to_vec()) } else { None };
        put("bp", t, Verdict { code: if r.one_in(3) { r.below(5) as u8 } else { 0 }, err: r.one_in(20), to, payload, yields: r.below(3), ..Default::default() });
        put("ap", t, Verdict { err: r.one_in(15), acts: acts(r), yields: r.below(3), ..Default::default() });
    }
    for f in filters.iter() {
        let (to1, to2) = (if r.one_in(3) { Some(r.pick(&filters).to_string()) } else { None }, if r.one_in(3) { Some(r.pick(&filters).to_string()) } else { None });
        put("bs", f, Verdict { code: if r.one_in(4) { r.below(5) as u8 } else { 0 }, err: r.one_in(20), to: to1, yields: r.below(3), ..Default::default() });
        put("as", f, Verdict { err: r.one_in(20), acts: acts(r), yields: r.below(3), ..Default::default() });
        put("bu", f, Verdict { code: if r.one_in(4) { r.below(4) as u8 } else { 0 }, err: r.one_in(20), to: to2, yields: r.below(3), ..Default::default() });
        put("au", f, Verdict { err: r.one_in(20), acts: acts(r), yields: r.below(3), ..Default::default() });
    }
    s.net.hook.0.lock().unwrap().script = sc;
}
pub fn c11(c: &mut Ctx) {
    c.rule("random verdicts, changes, errors and requested actions of a scripted hook at every hook point (also when the hook is not ready at once); which points were consulted, every answer, delivery and end of connection compared with the reference");
    let a = Prof { v5: 2, hooks: 1, retain: 0, clean: 1, subids: true, w: [12, 8, 4, 6, 1, 1, 1, 8, 0, 0, 3, 0], ops: 40, ..base() };
    let b = Prof { v5: 0, ..a.clone() };
    let d = Prof { v5: 4, ..a.clone() };
    campaign(c, 11, &[a, b, d], scripted);
}
pub fn c17(c: &mut Ctx) {
    c.rule("random exchanges of SCRAM clients (right and wrong names, passwords, messages, methods, reason codes, other packets in between) beside ordinary clients; answers, registry and effects on others compared with the reference");
    let a = Prof { v5: 4, sasl: true, hooks: 1, wills: true, clean: 1, w: [6, 4, 1, 4, 1, 1, 2, 12, 0, 2, 2, 0], ops: 45, ..base() };
    let b = Prof { v5: 3, auth: true, cfg: 3, hooks: 0, ..a.clone() };
    campaign(c, 17, &[a, b], nop);
}

use crate::config::*;
use crate::hook_broker::*;
use mqtt_proto::{Protocol, v5};
pub fn m(topic: &str, payload: &str, qos: u8) -> M { M { topic: topic.into(), payload: payload.into(), qos, retain: false, p: PP::default() } }
pub fn ret(mut x: M) -> M { x.retain = true; x }
pub fn fs(f: &str, qos: u8) -> FSub { FSub { f: f.into(), qos, nl: false, rap: false, rh: 0 } }
pub fn cs(cid: &str, proto: Protocol, clean: bool) -> CSpec { CSpec { proto, clean, cid: cid.into(), ka: 60, will: None, user: None, pass: None, pr: Default::default() } }
pub fn c5(cid: &str, clean: bool, expiry: u32) -> CSpec { let mut c = cs(cid, Protocol::V500, clean); c.pr.session_expiry_interval = Some(expiry); c }
pub fn c3(cid: &str, clean: bool) -> CSpec { cs(cid, Protocol::V311, clean) }
pub fn cfg() -> Config { let mut c = Config::new_allow_anonymous(); c.hook = HookConfig { enable_before_connect: false, enable_after_connect: false, enable_after_disconnect: false, enable_publish: false, enable_subscribe: false, enable_unsubscribe: false }; c }
pub struct T { pub n: Net }
impl T {
    pub fn new(c: Config) -> T { T { n: Net::new(c) } }
    pub async fn conn(&mut self, c: &CSpec) -> usize {
        let i = self.n.open(c.proto == Protocol::V500);
        self.n.cl[i].alias_max = c.pr.topic_alias_max.unwrap_or(0);
        let b = enc_connect(c); self.n.write(i, &b).await; self.n.settle().await; i
    }
    /// connects and forgets the CONNACK
    pub async fn up(&mut self, c: &CSpec) -> usize { let i = self.conn(c).await; let g = self.n.take(i); assert!(matches!(g.first(), Some(P::Connack(_, 0, _))), "CONNACK: {g:?}"); i }
    pub async fn send(&mut self, i: usize, sp: Sp) { let b = enc(self.n.cl[i].is_v5(), &sp); self.n.write(i, &b).await; self.n.settle().await; }
    /// sends and returns what this client has got since
    pub async fn ask(&mut self, i: usize, sp: Sp) -> Vec<P> { self.send(i, sp).await; self.n.take(i) }
    pub async fn sub(&mut self, i: usize, f: &str, qos: u8) { let g = self.ask(i, Sp::Subscribe { pid: 77, id: None, fs: vec![fs(f, qos)] }).await; assert!(matches!(g.first(), Some(P::Suback(77, _))), "{g:?}"); }
    pub async fn publish(&mut self, i: usize, x: M, pid: u16) -> Vec<P> { self.ask(i, Sp::Publish { m: x, pid, dup: false, alias: None }).await }
    pub async fn secs(&mut self, s: u64) { for _ in 0..s { self.n.settle().await; tokio::time::advance(std::time::Duration::from_secs(1)).await; } self.n.settle().await; }
    pub fn got(&mut self, i: usize) -> Vec<P> { self.n.take(i) }
    /// payloads of the messages this client got
    pub fn pays(&mut self, i: usize) -> Vec<String> { self.n.take(i).into_iter().filter_map(|p| if let P::Pub(o) = p { Some(String::from_utf8_lossy(&o.m.payload).to_string()) } else { None }).collect() }
}
pub fn pubs(v: &[P]) -> Vec<OPub> { v.iter().filter_map(|p| if let P::Pub(o) = p { Some(o.clone()) } else { None }).collect() }
pub fn go<F: std::future::Future>(f: F) -> F::Output { tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap().block_on(f) }

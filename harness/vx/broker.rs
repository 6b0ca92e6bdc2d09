//! Drives the real broker (`server::handle_accept` on in-memory connections) one operation at a time and
//! compares everything each client receives with an independent reference of MQTT 3.1/3.1.1/5.0.
use super::common::{Ctx, Rng};
use crate::config::*;
use crate::hook::*;
use crate::protocols::mqtt::{v3::Session as S3, v5::Session as S5};
use crate::state::GlobalState;
use bytes::Bytes;
use mqtt_proto::{Pid, Protocol, QoS, QosPid, TopicFilter, TopicName, v3, v5};
use std::collections::{BTreeMap, BTreeSet};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncWriteExt, DuplexStream, ReadBuf};

pub fn q(v: u8) -> QoS { match v { 0 => QoS::Level0, 1 => QoS::Level1, _ => QoS::Level2 } }

/// the properties of a PUBLISH which the broker has to keep, and its subscription identifiers (sorted)
#[derive(Clone, Debug, PartialEq, Default)]
pub struct PP { pub utf8: Option<bool>, pub expiry: Option<u32>, pub resp: Option<String>, pub corr: Option<Vec<u8>>, pub user: Vec<(String, String)>, pub ctype: Option<String>, pub ids: Vec<u32> }
impl PP {
    pub fn to(&self) -> v5::PublishProperties {
        let mut p = v5::PublishProperties::default();
        p.payload_is_utf8 = self.utf8; p.message_expiry_interval = self.expiry;
        p.response_topic = self.resp.as_ref().map(|s| TopicName::try_from(s.as_str()).unwrap());
        p.correlation_data = self.corr.clone().map(Bytes::from);
        p.user_properties = self.user.iter().map(|(a, b)| v5::UserProperty { name: Arc::from(a.as_str()), value: Arc::from(b.as_str()) }).collect();
        p.content_type = self.ctype.as_ref().map(|s| Arc::from(s.as_str()));
        p.subscription_ids = self.ids.iter().map(|i| v5::VarByteInt::try_from(*i).unwrap()).collect();
        p
    }
    pub fn of(p: &v5::PublishProperties) -> PP {
        let mut ids: Vec<u32> = p.subscription_ids.iter().map(|v| v.value()).collect();
        ids.sort();
        PP { utf8: p.payload_is_utf8, expiry: p.message_expiry_interval, resp: p.response_topic.as_ref().map(|t| t.to_string()), corr: p.correlation_data.as_ref().map(|b| b.to_vec()),
            user: p.user_properties.iter().map(|u| (u.name.to_string(), u.value.to_string())).collect(), ctype: p.content_type.as_ref().map(|s| s.to_string()), ids }
    }
    /// the expiry interval shrinks while the message waits (real time, well below two seconds here)
    fn same(&self, o: &PP) -> bool {
        let e = match (self.expiry, o.expiry) { (None, None) => true, (Some(a), Some(b)) => b <= a && a - b <= 2, _ => false };
        e && PP { expiry: None, ..self.clone() } == PP { expiry: None, ..o.clone() }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct M { pub topic: String, pub payload: Vec<u8>, pub qos: u8, pub retain: bool, pub p: PP }
impl M {
    fn same(&self, o: &M) -> bool { self.topic == o.topic && self.payload == o.payload && self.qos == o.qos && self.retain == o.retain && self.p.same(&o.p) }
    fn size5(&self) -> usize {
        let pid = Pid::try_from(1u16).unwrap();
        let qp = match self.qos { 0 => QosPid::Level0, 1 => QosPid::Level1(pid), _ => QosPid::Level2(pid) };
        v5::Packet::Publish(v5::Publish { dup: false, retain: self.retain, qos_pid: qp, topic_name: TopicName::try_from(self.topic.as_str()).unwrap(), payload: Bytes::from(self.payload.clone()), properties: self.p.to() }).encode_len().unwrap()
    }
    pub fn brief(&self) -> String {
        let p = format!("{:?}", self.p);
        let mut ps: String = String::new();
        if self.p != PP::default() { ps = p.replace("utf8: None, ", "").replace("expiry: None, ", "").replace("resp: None, ", "").replace("corr: None, ", "").replace("user: [], ", "").replace("ctype: None, ", ""); }
        format!("[{} {:?}{} q{} r{} {}]", self.topic, String::from_utf8_lossy(&self.payload[..self.payload.len().min(12)]), if self.payload.len() > 12 { format!("({})", self.payload.len()) } else { String::new() }, self.qos, self.retain as u8, ps)
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct OPub { pub m: M, pub dup: bool, pub pid: u16, pub alias: Option<u16>, pub named: bool, pub size: usize }
#[derive(Clone, Debug, PartialEq)]
pub enum P { Connack(bool, u8, String), Puback(u16, u8), Pubrec(u16, u8), Pubrel(u16, u8), Pubcomp(u16, u8), Suback(u16, Vec<u8>), Unsuback(u16, Vec<u8>), Pong, Disc(u8), Auth(u8, Option<String>, Option<Vec<u8>>), Pub(OPub), Bad(String) }

// ------------------------------------------------------------------ hook
#[derive(Clone, Debug, Default)]
pub struct Verdict { pub code: u8, pub err: bool, pub to: Option<String>, pub payload: Option<Vec<u8>>, pub acts: Vec<Act>, pub yields: usize }
#[derive(Clone, Debug)]
pub enum Act { Pub(M), Sub(Vec<(String, u8)>), Unsub(Vec<String>) }
impl Act {
    fn real(&self) -> HookAction {
        match self {
            Act::Pub(m) => HookAction::Publish(PublishAction { retain: m.retain, qos: q(m.qos), topic_name: TopicName::try_from(m.topic.as_str()).unwrap(), payload: Bytes::from(m.payload.clone()), payload_is_utf8: m.p.utf8, message_expiry_interval: m.p.expiry, content_type: m.p.ctype.as_ref().map(|s| Arc::from(s.as_str())) }),
            Act::Sub(v) => HookAction::Subscribe(SubscribeAction(v.iter().map(|(f, k)| (TopicFilter::try_from(f.as_str()).unwrap(), q(*k))).collect())),
            Act::Unsub(v) => HookAction::Unsubscribe(UnsubscribeAction(v.iter().map(|f| TopicFilter::try_from(f.as_str()).unwrap()).collect())),
        }
    }
}
#[derive(Default)]
pub struct HookIn { pub script: BTreeMap<(String, String), Verdict>, pub log: Vec<String> }
#[derive(Clone, Default)]
pub struct VHook(pub Arc<Mutex<HookIn>>);
pub struct Yields(usize);
impl std::future::Future for Yields {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<()> {
        if self.0 == 0 { return Poll::Ready(()); }
        self.0 -= 1; cx.waker().wake_by_ref(); Poll::Pending
    }
}
impl VHook {
    fn v(&self, kind: &str, key: &str, extra: String) -> Verdict {
        let mut g = self.0.lock().unwrap();
        g.log.push(format!("{kind} {key}{}{extra}", if extra.is_empty() { "" } else { " " }));
        g.script.get(&(kind.to_string(), key.to_string())).cloned().unwrap_or_default()
    }
    pub fn take(&self) -> Vec<String> { std::mem::take(&mut self.0.lock().unwrap().log) }
}
pub const CONN_CODES: [HookConnectCode; 8] = [HookConnectCode::Success, HookConnectCode::UnspecifiedError, HookConnectCode::ClientIdentifierNotValid, HookConnectCode::BadUserNameOrPassword, HookConnectCode::NotAuthorized, HookConnectCode::ServerUnavailable, HookConnectCode::QuotaExceeded, HookConnectCode::ConnectionRateExceeded];
pub const PUB_CODES: [HookPublishCode; 5] = [HookPublishCode::Success, HookPublishCode::UnspecifiedError, HookPublishCode::NotAuthorized, HookPublishCode::TopicNameInvalid, HookPublishCode::QuotaExceeded];
pub const SUB_CODES: [HookSubscribeCode; 5] = [HookSubscribeCode::Success, HookSubscribeCode::UnspecifiedError, HookSubscribeCode::NotAuthorized, HookSubscribeCode::TopicFilterInvalid, HookSubscribeCode::QuotaExceeded];
pub const UNSUB_CODES: [HookUnsubscribeCode; 4] = [HookUnsubscribeCode::Success, HookUnsubscribeCode::UnspecifiedError, HookUnsubscribeCode::NotAuthorized, HookUnsubscribeCode::TopicFilterInvalid];
// the numbers MQTT gives to these verdicts, written down here independently of the code
pub const CONN5: [u8; 8] = [0, 0x80, 0x85, 0x86, 0x87, 0x88, 0x97, 0x9F];
pub const CONN3: [u8; 8] = [0, 3, 2, 4, 5, 3, 3, 3];
pub const PUB5: [u8; 5] = [0, 0x80, 0x87, 0x90, 0x97];
pub const SUB5: [u8; 5] = [2, 0x80, 0x87, 0x8F, 0x97];
pub const UNSUB5: [u8; 4] = [0, 0x80, 0x87, 0x8F];
fn e<T>(v: &Verdict, t: T) -> HookResult<T> { if v.err { Err(HookError::Internal) } else { Ok(t) } }
fn acts(v: &Verdict) -> HookResult<Vec<HookAction>> { e(v, v.acts.iter().map(Act::real).collect()) }
macro_rules! hook_impl {
    ($m:ident, $s:ty, $bc:ident $ac:ident $bp:ident $ap:ident $bs:ident $as_:ident $bu:ident $au:ident $ad:ident, $ret:ty, $fs:expr, $setf:expr, $fu:expr, $setu:expr, $codes:expr, $sess:expr) => {
        async fn $bc(&self, _p: std::net::SocketAddr, c: &$m::Connect) -> HookResult<HookConnectCode> {
            let v = self.v("bc", &c.client_id, String::new()); Yields(v.yields).await; e(&v, CONN_CODES[v.code as usize])
        }
        async fn $ac(&self, s: &$s, sp: bool) -> HookResult<Vec<HookAction>> {
            let v = self.v("ac", if s.assigned_client_id { "" } else { &s.client_identifier }, format!("{} {}", sp, $sess(s))); Yields(v.yields).await; acts(&v)
        }
        async fn $bp(&self, _s: &$s, n: usize, body: &[u8], p: &mut $m::Publish, ch: &mut bool) -> HookResult<HookPublishCode> {
            let v = self.v("bp", &p.topic_name, String::new()); Yields(v.yields).await;
            if let Some(t) = &v.to { p.topic_name = TopicName::try_from(t.as_str()).unwrap(); *ch = true; }
            if let Some(t) = &v.payload { p.payload = Bytes::from(t.clone()); *ch = true; }
            e(&v, PUB_CODES[v.code as usize])
        }
        async fn $ap(&self, _s: &$s, _n: usize, _b: &[u8], p: &$m::Publish, ch: bool) -> HookResult<Vec<HookAction>> {
            let v = self.v("ap", &p.topic_name, format!("{ch}")); Yields(v.yields).await; acts(&v)
        }
        async fn $bs(&self, _s: &$s, _n: usize, _b: &[u8], p: &mut $m::Subscribe, ch: &mut bool) -> HookResult<HookSubscribeCode> {
            let k: String = $fs(p);
            let v = self.v("bs", &k, String::new()); Yields(v.yields).await;
            if let Some(t) = &v.to { $setf(p, TopicFilter::try_from(t.as_str()).unwrap()); *ch = true; }
            e(&v, SUB_CODES[v.code as usize])
        }
        async fn $as_(&self, _s: &$s, _n: usize, _b: &[u8], p: &$m::Subscribe, ch: bool, codes: Option<Vec<$ret>>) -> HookResult<Vec<HookAction>> {
            let k: String = $fs(p);
            let Some(codes) = codes else { return Ok(Vec::new()); };
            let v = self.v("as", &k, format!("{ch} {:?}", codes.iter().map($codes).collect::<Vec<u8>>())); Yields(v.yields).await; acts(&v)
        }
        async fn $bu(&self, _s: &$s, _n: usize, _b: &[u8], p: &mut $m::Unsubscribe, ch: &mut bool) -> HookResult<HookUnsubscribeCode> {
            let k: String = p.topics[0].to_string();
            let v = self.v("bu", &k, String::new()); Yields(v.yields).await;
            if let Some(t) = &v.to { p.topics[0] = TopicFilter::try_from(t.as_str()).unwrap(); *ch = true; }
            e(&v, UNSUB_CODES[v.code as usize])
        }
        async fn $au(&self, _s: &$s, _n: usize, _b: &[u8], p: &$m::Unsubscribe, ch: bool) -> HookResult<Vec<HookAction>> {
            let k: String = p.topics[0].to_string();
            let v = self.v("au", &k, format!("{ch}")); Yields(v.yields).await; acts(&v)
        }
        async fn $ad(&self, s: &$s, t: bool) -> HookResult<()> {
            let v = self.v("ad", if s.assigned_client_id { "" } else { &s.client_identifier }, format!("{t}")); Yields(v.yields).await; e(&v, ())
        }
    };
}
impl Hook for VHook {
    hook_impl!(v5, S5, v5_before_connect v5_after_connect v5_before_publish v5_after_publish v5_before_subscribe v5_after_subscribe v5_before_unsubscribe v5_after_unsubscribe v5_after_disconnect, v5::SubscribeReasonCode,
        |p: &v5::Subscribe| p.topics[0].0.to_string(), |p: &mut v5::Subscribe, f| p.topics[0].0 = f, 0, 0, |c: &v5::SubscribeReasonCode| *c as u8,
        |s: &S5| format!("ka={} exp={} rm={} mp={} tam={} scram={:?}", s.keep_alive, s.session_expiry_interval, s.receive_max, s.max_packet_size, s.topic_alias_max, s.scram_auth_result));
    hook_impl!(v3, S3, v3_before_connect v3_after_connect v3_before_publish v3_after_publish v3_before_subscribe v3_after_subscribe v3_before_unsubscribe v3_after_unsubscribe v3_after_disconnect, v3::SubscribeReturnCode,
        |p: &v3::Subscribe| p.topics[0].0.to_string(), |p: &mut v3::Subscribe, f| p.topics[0].0 = f, 0, 0, |c: &v3::SubscribeReturnCode| *c as u8,
        |s: &S3| format!("ka={}", s.keep_alive));
}

// ------------------------------------------------------------------ driver
pub struct Cl { io: Option<DuplexStream>, buf: Vec<u8>, v5: bool, pub eof: bool, alias: BTreeMap<u16, String>, pub alias_max: u16, pub max_packet: u32, jh: Option<tokio::task::JoinHandle<std::io::Result<()>>>, pub panicked: bool, got: Vec<P>, pub viol: Vec<(String, String)>, lost: bool }
pub struct Net { pub global: Arc<GlobalState>, pub hook: VHook, pub cl: Vec<Cl> }
impl Net {
    pub fn new(cfg: Config) -> Net { Net { global: Arc::new(GlobalState::new(cfg)), hook: VHook::default(), cl: vec![] } }
    pub fn open(&mut self, v5: bool) -> usize {
        let (c, s) = tokio::io::duplex(1 << 22);
        let args = crate::server::ConnectionArgs { addr: "127.0.0.1:1883".parse().unwrap(), reuse_port: false, proxy: false, proxy_tls_termination: false, websocket: false, tls_acceptor: None };
        let peer = format!("127.0.0.1:{}", 10000 + self.cl.len()).parse().unwrap();
        let (h, g) = (self.hook.clone(), self.global.clone());
        let jh = tokio::spawn(crate::server::handle_accept(s, args, peer, h, g));
        self.cl.push(Cl { io: Some(c), buf: vec![], v5, eof: false, alias: BTreeMap::new(), alias_max: 0, max_packet: u32::MAX, jh: Some(jh), panicked: false, got: vec![], viol: vec![], lost: false });
        self.cl.len() - 1
    }
    pub async fn write(&mut self, i: usize, b: &[u8]) { if let Some(io) = self.cl[i].io.as_mut() { let _ = io.write_all(b).await; } }
    pub fn drop_client(&mut self, i: usize) { self.cl[i].io = None; self.cl[i].lost = true; }
    async fn pull(&mut self) -> bool {
        let mut any = false;
        for c in self.cl.iter_mut() {
            let Some(io) = c.io.as_mut() else { continue };
            if c.eof { continue; }
            let mut tmp = [0u8; 4096];
            loop {
                let r = std::future::poll_fn(|cx| {
                    let mut rb = ReadBuf::new(&mut tmp);
                    match Pin::new(&mut *io).poll_read(cx, &mut rb) { Poll::Ready(Ok(())) => Poll::Ready(Some(rb.filled().len())), Poll::Ready(Err(_)) => Poll::Ready(Some(0)), Poll::Pending => Poll::Ready(None) }
                }).await;
                match r { None => break, Some(0) => { c.eof = true; any = true; break; } Some(n) => { c.buf.extend_from_slice(&tmp[..n]); any = true; } }
            }
            c.parse();
        }
        any
    }
    /// lets every task run until nothing more arrives anywhere
    pub async fn settle(&mut self) {
        let mut idle = 0;
        let mut rounds = 0;
        while idle < 14 && rounds < 20000 {
            rounds += 1;
            if self.pull().await { idle = 0 } else { idle += 1 }
            tokio::task::yield_now().await;
        }
        for c in self.cl.iter_mut() {
            if c.jh.as_ref().map_or(false, |j| j.is_finished()) { let j = c.jh.take().unwrap(); if let Err(er) = j.await { if er.is_panic() { c.panicked = true; } } }
        }
    }
    pub fn take(&mut self, i: usize) -> Vec<P> { std::mem::take(&mut self.cl[i].got) }
}
impl Cl {
    fn parse(&mut self) {
        loop {
            let n = match mqtt_proto::split_packet(&self.buf) { Ok(Some((_, _, n))) => n, Ok(None) => return, Err(_) => { self.got.push(P::Bad("the server sent bytes that are no packet".into())); self.buf.clear(); return; } };
            let raw: Vec<u8> = self.buf.drain(..n).collect();
            let p = if self.v5 { self.parse5(&raw) } else { self.parse3(&raw) };
            self.got.push(p);
        }
    }
    fn parse3(&mut self, raw: &[u8]) -> P {
        match v3::Packet::decode(raw) {
            Ok(Some(p)) => match p {
                v3::Packet::Connack(c) => P::Connack(c.session_present, c.code as u8, String::new()),
                v3::Packet::Puback(p) => P::Puback(p.value(), 0), v3::Packet::Pubrec(p) => P::Pubrec(p.value(), 0),
                v3::Packet::Pubrel(p) => P::Pubrel(p.value(), 0), v3::Packet::Pubcomp(p) => P::Pubcomp(p.value(), 0),
                v3::Packet::Suback(s) => P::Suback(s.pid.value(), s.topics.iter().map(|c| *c as u8).collect()),
                v3::Packet::Unsuback(p) => P::Unsuback(p.value(), vec![]),
                v3::Packet::Pingresp => P::Pong,
                v3::Packet::Publish(b) => { let (qos, pid) = (b.qos_pid.qos() as u8, b.qos_pid.pid().map_or(0, |p| p.value()));
                    P::Pub(OPub { m: M { topic: b.topic_name.to_string(), payload: b.payload.to_vec(), qos, retain: b.retain, p: PP::default() }, dup: b.dup, pid, alias: None, named: true, size: raw.len() }) }
                o => P::Bad(format!("{o:?}")),
            },
            o => P::Bad(format!("undecodable v3 packet {raw:?}: {o:?}")),
        }
    }
    fn parse5(&mut self, raw: &[u8]) -> P {
        if raw.len() > self.max_packet as usize && raw[0] >> 4 == 3 { self.viol.push(("a PUBLISH larger than the client's maximum packet size was sent".into(), format!("{} bytes, maximum {}", raw.len(), self.max_packet))); }
        match v5::Packet::decode(raw) {
            Ok(Some(p)) => match p {
                v5::Packet::Connack(c) => { let mut pr = c.properties.clone(); pr.reason_string = None; P::Connack(c.session_present, c.reason_code as u8, format!("{pr:?}")) }
                v5::Packet::Puback(p) => P::Puback(p.pid.value(), p.reason_code as u8), v5::Packet::Pubrec(p) => P::Pubrec(p.pid.value(), p.reason_code as u8),
                v5::Packet::Pubrel(p) => P::Pubrel(p.pid.value(), p.reason_code as u8), v5::Packet::Pubcomp(p) => P::Pubcomp(p.pid.value(), p.reason_code as u8),
                v5::Packet::Suback(s) => P::Suback(s.pid.value(), s.topics.iter().map(|c| *c as u8).collect()),
                v5::Packet::Unsuback(s) => P::Unsuback(s.pid.value(), s.topics.iter().map(|c| *c as u8).collect()),
                v5::Packet::Pingresp => P::Pong,
                v5::Packet::Disconnect(d) => P::Disc(d.reason_code as u8),
                v5::Packet::Auth(a) => P::Auth(a.reason_code as u8, a.properties.auth_method.as_ref().map(|s| s.to_string()), a.properties.auth_data.as_ref().map(|d| d.to_vec())),
                v5::Packet::Publish(b) => {
                    let named = !b.topic_name.is_empty();
                    let mut topic = b.topic_name.to_string();
                    if let Some(a) = b.properties.topic_alias {
                        if a == 0 || a > self.alias_max { self.viol.push(("a topic alias outside 1..=the client's maximum was used".into(), format!("alias {a}, maximum {}", self.alias_max))); }
                        if named { self.alias.insert(a, topic.clone()); }
                        else { match self.alias.get(&a) { Some(t) => topic = t.clone(), None => { self.viol.push(("an alias never announced on this connection was used".into(), format!("alias {a}"))); } } }
                    } else if !named { self.viol.push(("a PUBLISH with neither topic nor alias was sent".into(), String::new())); }
                    let (qos, pid) = (b.qos_pid.qos() as u8, b.qos_pid.pid().map_or(0, |p| p.value()));
                    P::Pub(OPub { m: M { topic, payload: b.payload.to_vec(), qos, retain: b.retain, p: PP::of(&b.properties) }, dup: b.dup, pid, alias: b.properties.topic_alias, named, size: raw.len() })
                }
                o => P::Bad(format!("{o:?}")),
            },
            o => P::Bad(format!("undecodable v5 packet {raw:?}: {o:?}")),
        }
    }
}

// ------------------------------------------------------------------ reference
#[derive(Clone, Debug)]
pub struct FSub { pub f: String, pub qos: u8, pub nl: bool, pub rap: bool, pub rh: u8 }
#[derive(Clone, Debug)]
pub enum Sp {
    Publish { m: M, pid: u16, dup: bool, alias: Option<u16> },
    Subscribe { pid: u16, id: Option<u32>, fs: Vec<FSub> },
    Unsub { pid: u16, fs: Vec<String> },
    Ack(u8, u16, u8),
    Ping,
    Disconnect(u8, Option<u32>),
    Auth(u8, Option<String>, Option<Vec<u8>>),
    /// bytes which are no packet a client may send now
    Junk(Vec<u8>),
}
#[derive(Clone, Debug, Default)]
pub struct WillS { pub m: Option<M>, pub delay: u32 }
#[derive(Clone, Debug)]
pub struct CSpec { pub proto: Protocol, pub clean: bool, pub cid: String, pub ka: u16, pub will: Option<(M, Option<u32>)>, pub user: Option<String>, pub pass: Option<Vec<u8>>, pub pr: v5::ConnectProperties }
#[derive(Clone, Debug)]
pub enum Op { Connect(CSpec), Send(usize, Sp), Drop(usize), Advance(u64) }

pub fn enc(c_v5: bool, sp: &Sp) -> Vec<u8> {
    let pid = |p: u16| Pid::try_from(p).unwrap();
    let tf = |s: &str| TopicFilter::try_from(s).unwrap();
    let qp = |qos: u8, p: u16| match qos { 0 => QosPid::Level0, 1 => QosPid::Level1(pid(p)), _ => QosPid::Level2(pid(p)) };
    if let Sp::Junk(b) = sp { return b.clone(); }
    if c_v5 {
        let p: v5::Packet = match sp {
            Sp::Publish { m, pid: p, dup, alias } => { let mut pr = m.p.to(); pr.topic_alias = *alias;
                v5::Publish { dup: *dup, retain: m.retain, qos_pid: qp(m.qos, *p), topic_name: TopicName::try_from(m.topic.as_str()).unwrap(), payload: Bytes::from(m.payload.clone()), properties: pr }.into() }
            Sp::Subscribe { pid: p, id, fs } => { let mut s = v5::Subscribe::new(pid(*p), fs.iter().map(|f| (tf(&f.f), v5::SubscriptionOptions { max_qos: q(f.qos), no_local: f.nl, retain_as_published: f.rap, retain_handling: [v5::RetainHandling::SendAtSubscribe, v5::RetainHandling::SendAtSubscribeIfNotExist, v5::RetainHandling::DoNotSend][f.rh as usize] })).collect());
                s.properties.subscription_id = id.map(|i| v5::VarByteInt::try_from(i).unwrap()); s.into() }
            Sp::Unsub { pid: p, fs } => v5::Unsubscribe::new(pid(*p), fs.iter().map(|f| tf(f)).collect()).into(),
            Sp::Ack(4, p, c) => v5::Puback::new(pid(*p), v5::PubackReasonCode::from_u8(*c).unwrap()).into(),
            Sp::Ack(5, p, c) => v5::Pubrec::new(pid(*p), v5::PubrecReasonCode::from_u8(*c).unwrap()).into(),
            Sp::Ack(6, p, c) => v5::Pubrel::new(pid(*p), v5::PubrelReasonCode::from_u8(*c).unwrap()).into(),
            Sp::Ack(_, p, c) => v5::Pubcomp::new(pid(*p), v5::PubcompReasonCode::from_u8(*c).unwrap()).into(),
            Sp::Ping => v5::Packet::Pingreq,
            Sp::Disconnect(c, x) => { let mut d = v5::Disconnect::new(v5::DisconnectReasonCode::from_u8(*c).unwrap()); d.properties.session_expiry_interval = *x; d.into() }
            Sp::Auth(c, m, d) => { let mut a = v5::Auth::new(v5::AuthReasonCode::from_u8(*c).unwrap()); a.properties.auth_method = m.as_ref().map(|s| Arc::from(s.as_str())); a.properties.auth_data = d.clone().map(Bytes::from); a.into() }
            Sp::Junk(_) => unreachable!(),
        };
        p.encode().unwrap().as_ref().to_vec()
    } else {
        let p: v3::Packet = match sp {
            Sp::Publish { m, pid: p, dup, .. } => v3::Publish { dup: *dup, retain: m.retain, qos_pid: qp(m.qos, *p), topic_name: TopicName::try_from(m.topic.as_str()).unwrap(), payload: Bytes::from(m.payload.clone()) }.into(),
            Sp::Subscribe { pid: p, fs, .. } => v3::Subscribe::new(pid(*p), fs.iter().map(|f| (tf(&f.f), q(f.qos))).collect()).into(),
            Sp::Unsub { pid: p, fs } => v3::Unsubscribe::new(pid(*p), fs.iter().map(|f| tf(f)).collect()).into(),
            Sp::Ack(4, p, _) => v3::Packet::Puback(pid(*p)), Sp::Ack(5, p, _) => v3::Packet::Pubrec(pid(*p)),
            Sp::Ack(6, p, _) => v3::Packet::Pubrel(pid(*p)), Sp::Ack(_, p, _) => v3::Packet::Pubcomp(pid(*p)),
            Sp::Ping => v3::Packet::Pingreq,
            Sp::Disconnect(..) => v3::Packet::Disconnect,
            _ => unreachable!(),
        };
        p.encode().unwrap().as_ref().to_vec()
    }
}
pub fn enc_connect(c: &CSpec) -> Vec<u8> {
    if c.proto == Protocol::V500 {
        let mut p = v5::Connect::new(Arc::from(c.cid.as_str()), c.ka);
        p.clean_start = c.clean; p.properties = c.pr.clone(); p.username = c.user.as_ref().map(|s| Arc::from(s.as_str())); p.password = c.pass.clone().map(Bytes::from);
        p.last_will = c.will.as_ref().map(|(m, d)| {
            let mut w = v5::LastWill::new(q(m.qos), TopicName::try_from(m.topic.as_str()).unwrap(), Bytes::from(m.payload.clone()));
            w.retain = m.retain; let a = m.p.to();
            w.properties.delay_interval = *d; w.properties.payload_is_utf8 = a.payload_is_utf8; w.properties.message_expiry_interval = a.message_expiry_interval; w.properties.content_type = a.content_type;
            w.properties.response_topic = a.response_topic; w.properties.correlation_data = a.correlation_data; w.properties.user_properties = a.user_properties; w
        });
        v5::Packet::Connect(p).encode().unwrap().as_ref().to_vec()
    } else {
        let mut p = v3::Connect::new(Arc::from(c.cid.as_str()), c.ka);
        p.protocol = c.proto; p.clean_session = c.clean; p.username = c.user.as_ref().map(|s| Arc::from(s.as_str())); p.password = c.pass.clone().map(Bytes::from);
        p.last_will = c.will.as_ref().map(|(m, _)| { let mut w = v3::LastWill::new(q(m.qos), TopicName::try_from(m.topic.as_str()).unwrap(), Bytes::from(m.payload.clone())); w.retain = m.retain; w });
        v3::Packet::Connect(p).encode().unwrap().as_ref().to_vec()
    }
}
pub fn split_share(f: &str) -> Option<(String, String)> { let r = f.strip_prefix("$share/")?; let (g, t) = r.split_once('/')?; Some((g.into(), t.into())) }
/// MQTT 4.7, level by level
pub fn matches(f: &str, t: &str) -> bool {
    if t.starts_with('$') && (f.starts_with('+') || f.starts_with('#')) { return false; }
    let (f, t): (Vec<&str>, Vec<&str>) = (f.split('/').collect(), t.split('/').collect());
    for (i, l) in f.iter().enumerate() {
        if *l == "#" { return true; }
        if i >= t.len() || (*l != "+" && *l != t[i]) { return false; }
    }
    f.len() == t.len()
}
#[derive(Clone, Debug, PartialEq)]
pub struct SubM { pub qos: u8, pub nl: bool, pub rap: bool, pub id: Option<u32> }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum St { New, Rec, Done }
#[derive(Clone, Debug)]
pub struct Slot { pub uid: u64, pub m: M, pub pid: Option<u16>, pub st: St, pub dup: bool, pub pend: bool, pub batch: u64 }
#[derive(Clone, Debug)]
pub struct Sess {
    pub v5: bool, pub proto: Protocol, pub conn: Option<usize>, pub clean: bool, pub subs: BTreeMap<String, SubM>, pub queue: Vec<Slot>, pub qos2_in: BTreeMap<u16, String>,
    pub window: usize, pub max_packet: u32, pub expiry: u32, pub will: Option<(M, u32)>, pub will_due: Option<u64>, pub gone_at: Option<u64>, pub aliases: BTreeMap<u16, String>, pub server_closed: bool,
    /// the sender dropped an expired or oversized message; what moved into the window may wait for its next pass
    pub stall: bool,
}
#[derive(Clone, Debug)]
pub struct CM { pub v5: bool, pub cid: Option<String>, pub open: bool, pub auth: Option<AuthS> }
#[derive(Clone, Debug)]
pub struct AuthS { pub spec: CSpec, pub method: String, pub user: String, pub authz: Option<String>, pub nonce: String, pub gs2: String, pub bare: String, pub salted: Vec<u8>, pub salt: Vec<u8>, pub iterations: u16, pub server_first: String, pub server_final: Option<Vec<u8>> }
fn hm(key: &[u8], data: &[u8]) -> Vec<u8> { ring::hmac::sign(&ring::hmac::Key::new(ring::hmac::HMAC_SHA256, key), data).as_ref().to_vec() }
pub fn b64e(d: &[u8]) -> String { use base64::Engine; base64::engine::general_purpose::STANDARD.encode(d) }
/// Hi() of RFC 5802: PBKDF2 written out
pub fn hi(password: &[u8], salt: &[u8], i: u32) -> Vec<u8> {
    let mut s = salt.to_vec(); s.extend([0, 0, 0, 1]);
    let mut u = hm(password, &s); let mut r = u.clone();
    for _ in 1..i { u = hm(password, &u); for (a, b) in r.iter_mut().zip(&u) { *a ^= b; } }
    r
}
impl AuthS {
    /// the client-final message of the holder of `salted`, and the server signature
    pub fn good(&self, salted: &[u8]) -> (String, String) {
        let nonce = self.server_first.split(',').next().unwrap_or("").strip_prefix("r=").unwrap_or("").to_string();
        let head = format!("c={},r={nonce}", b64e(self.gs2.as_bytes()));
        let auth = format!("{},{},{head}", self.bare, self.server_first);
        let ck = hm(salted, b"Client Key"); let sig = hm(ring::digest::digest(&ring::digest::SHA256, &ck).as_ref(), auth.as_bytes());
        let proof: Vec<u8> = ck.iter().zip(&sig).map(|(a, b)| a ^ b).collect();
        (format!("{head},p={}", b64e(&proof)), format!("v={}", b64e(&hm(&hm(salted, b"Server Key"), auth.as_bytes()))))
    }
}
fn unesc(s: &str) -> Option<String> {
    let mut o = String::new(); let mut r = s;
    while !r.is_empty() {
        if let Some(x) = r.strip_prefix("=2C") { o.push(','); r = x; } else if let Some(x) = r.strip_prefix("=3D") { o.push('='); r = x; }
        else { let c = r.chars().next().unwrap(); if c == '=' { return None; } o.push(c); r = &r[c.len_utf8()..]; }
    }
    Some(o)
}
/// what an RFC 5802 server reads in a client-first message: name, authorisation id, nonce, GS2 header, bare part
fn ref_first(d: &str) -> Option<(String, Option<String>, String, String, String)> {
    let (flag, d1) = d.split_once(',')?;
    if flag != "n" && flag != "y" { return None; }
    let (az, bare) = d1.split_once(',')?;
    let authzid = if az.is_empty() { None } else { Some(unesc(az.strip_prefix("a=")?)?) };
    let mut p = bare.split(',');
    let authcid = unesc(p.next()?.strip_prefix("n=")?)?;
    let nonce = p.next()?.strip_prefix("r=")?.to_string();
    Some((authcid, authzid, nonce, format!("{flag},{az},"), bare.to_string()))
}
#[derive(Clone, Debug)]
pub enum Ev { Pub(u64), Rel(u16) }
#[derive(Clone, Debug, Default)]
pub struct Exp { pub ctl: Vec<P>, pub q0: Vec<M>, pub ev: Vec<Ev>, pub closed: bool, pub opt_disc: bool, pub any_disc: bool, pub lenient: bool }
#[derive(Clone)]
pub struct World { pub cfg: Config, pub retained: BTreeMap<String, (String, M)>, pub sess: BTreeMap<String, Sess>, pub conns: Vec<CM>, pub now: u64, pub uid: u64, pub batch: u64, pub log: Vec<String>, pub script: BTreeMap<(String, String), Verdict>, pub choice: Vec<usize>, pub nchoice: Vec<usize>, pub exp: Vec<Exp>, pub passes: bool, pub auto: u64,
    /// what the operation leads to is not settled (order of simultaneous timers, unseen choice of the server): the scenario ends here
    pub amb: bool,
    /// within this operation the client has been handed a message of its own (its subscription is read again when it is sent)
    pub own: bool,
    /// the same, from the next operation on
    pub last: bool }
const SHARE: &str = "$share/";
impl World {
    pub fn new(cfg: Config) -> World { World { cfg, retained: BTreeMap::new(), sess: BTreeMap::new(), conns: vec![], now: 0, uid: 0, batch: 0, log: vec![], script: BTreeMap::new(), choice: vec![], nchoice: vec![], exp: vec![], passes: false, auto: 0, amb: false, own: false, last: false } }
    fn hk(&self, f: impl Fn(&HookConfig) -> bool) -> bool { f(&self.cfg.hook) }
    fn verdict(&mut self, kind: &str, key: &str, extra: String) -> Verdict {
        self.log.push(format!("{kind} {key}{}{extra}", if extra.is_empty() { "" } else { " " }));
        self.script.get(&(kind.to_string(), key.to_string())).cloned().unwrap_or_default()
    }
    fn key(&self, cid: &str) -> String { if cid.starts_with('\u{1}') { String::new() } else { cid.to_string() } }
    /// one pass of the sender: everything in the window not sent yet goes out
    fn pass(&mut self, cid: &str) {
        let Some(s) = self.sess.get_mut(cid) else { return };
        let Some(ci) = s.conn else { return };
        if s.server_closed { return; }
        while s.queue.first().map_or(false, |x| x.st == St::Done) { s.queue.remove(0); }
        let n = s.window.min(s.queue.len());
        let mut any = false;
        // messages of one batch (retained ones of a subscription) come in an order the server chooses: which of them lies in the window is open
        let unfit = |x: &Slot| s.v5 && x.pend && x.st == St::New && (x.m.p.expiry == Some(0) || x.m.size5() > s.max_packet as usize);
        if s.queue[..n].iter().any(|x| x.pend && x.st == St::New && s.queue.iter().any(|y| y.uid != x.uid && y.batch == x.batch && (unfit(x) || unfit(y)))) { self.amb = true; }
        for x in s.queue[..n].iter_mut() {
            if !x.pend { continue; }
            match x.st {
                St::Done => {}
                St::Rec => { x.pend = false; self.exp[ci].ev.push(Ev::Rel(x.pid.unwrap_or(0))); }
                St::New => {
                    if s.v5 && (x.m.p.expiry == Some(0) || x.m.size5() > s.max_packet as usize) { x.st = St::Done; any = true; continue; }
                    x.pend = false; self.exp[ci].ev.push(Ev::Pub(x.uid));
                }
            }
        }
        if any {
            while s.queue.first().map_or(false, |x| x.st == St::Done) { s.queue.remove(0); }
            if !s.queue.is_empty() { s.stall = true; self.last = true; }
        }
    }
    /// hands one message to one receiver
    fn deliver(&mut self, cid: &str, m: M, sub_qos: u8, batch: u64) {
        let cap = self.cfg.max_in_mem_pending_messages;
        let (uid, Some(s)) = (self.uid, self.sess.get_mut(cid)) else { return };
        self.uid += 1;
        let mut m = m;
        m.qos = m.qos.min(sub_qos);
        if !s.v5 { m.p = PP::default(); }
        if s.v5 && m.size5() > s.max_packet as usize { return; }
        if m.qos == 0 { if let (Some(ci), false) = (s.conn, s.server_closed) { self.exp[ci].q0.push(m); } return; }
        while s.queue.first().map_or(false, |x| x.st == St::Done) { s.queue.remove(0); }
        if s.queue.len() < cap { s.queue.push(Slot { uid, m, pid: None, st: St::New, dup: false, pend: true, batch }); }
    }
    /// a message published by `from`; the result tells if any filter matched
    pub fn route(&mut self, from: &str, from_v5: bool, m: M, own_subs: bool) -> bool {
        let mut m = m;
        m.p.ids.clear();
        if !from_v5 { m.p = PP::default(); }
        if m.retain { if m.payload.is_empty() { self.retained.remove(&m.topic); } else { self.retained.insert(m.topic.clone(), (from.to_string(), m.clone())); } }
        let mut any = false;
        // (receiver, filter, granted)
        let mut hits: Vec<(String, String, SubM)> = vec![];
        let mut groups: BTreeMap<String, Vec<(String, SubM)>> = BTreeMap::new();
        for (cid, s) in &self.sess {
            for (f, sub) in &s.subs {
                if let Some((_, t)) = split_share(f) { if matches(&t, &m.topic) { groups.entry(f.clone()).or_default().push((cid.clone(), sub.clone())); } }
                else if matches(f, &m.topic) { any = true; if from_v5 && cid == from && (sub.nl || !own_subs) { continue; } hits.push((cid.clone(), f.clone(), sub.clone())); }
            }
        }
        for (f, members) in groups {
            any = true;
            if members.len() > 1 && members.iter().any(|(c, _)| { let s = &self.sess[c]; s.conn.is_none() || s.queue.len() >= s.window || s.max_packet < 1000 }) { self.amb = true; }
            let k = self.nchoice.len();
            self.nchoice.push(members.len());
            let c = self.choice.get(k).copied().unwrap_or(0);
            let (cid, sub) = members[c.min(members.len() - 1)].clone();
            hits.push((cid, f, sub));
        }
        if hits.iter().any(|h| h.0 == from) { self.own = true; }
        self.batch += 1;
        let batch = self.batch;
        let ra = self.cfg.retain_available;
        let mut touched = BTreeSet::new();
        if from_v5 {
            let mut per: BTreeMap<String, Vec<SubM>> = BTreeMap::new();
            for (cid, _, s) in hits { per.entry(cid).or_default().push(s); }
            for (cid, subs) in per {
                let mut d = m.clone();
                let v5r = self.sess[&cid].v5;
                d.p.ids = subs.iter().filter_map(|s| s.id).collect::<BTreeSet<u32>>().into_iter().collect();
                d.retain = if v5r { m.retain && ra && subs.iter().any(|s| s.rap) } else { false };
                let g = subs.iter().map(|s| s.qos).max().unwrap();
                self.deliver(&cid, d, g, batch); touched.insert(cid);
            }
        } else {
            for (cid, _, s) in hits {
                let mut d = m.clone();
                d.retain = if self.sess[&cid].v5 { m.retain && ra && s.rap } else { false };
                d.p.ids = s.id.into_iter().collect();
                self.deliver(&cid, d, s.qos, batch); touched.insert(cid);
            }
        }
        for cid in touched { self.pass(&cid); }
        any
    }
    fn close_now(&mut self, ci: usize) { self.exp[ci].closed = true; self.conns[ci].open = false; }
    /// the connection ends; `normal`: will removed already by the caller when it must be
    fn end_conn(&mut self, ci: usize) {
        self.conns[ci].open = false;
        let Some(cid) = self.conns[ci].cid.clone() else { return };
        if let Some(s) = self.sess.get_mut(&cid) { s.server_closed = true; }
        if self.hk(|h| h.enable_after_disconnect) { let k = self.key(&cid); self.verdict("ad", &k, "false".into()); }
        self.will_on_end(&cid, true);
        let now = self.now;
        let Some(s) = self.sess.get_mut(&cid) else { return };
        let gone = if s.v5 { s.expiry == 0 } else { s.clean };
        s.conn = None;
        if gone { self.sess.remove(&cid); } else if s.v5 { s.gone_at = Some(now.saturating_add(s.expiry as u64)); }
    }
    fn will_on_end(&mut self, cid: &str, keep_delay: bool) {
        let now = self.now;
        let Some(s) = self.sess.get_mut(cid) else { return };
        let (v5, expiry) = (s.v5, s.expiry);
        let Some((m, delay)) = s.will.clone() else { return };
        if !v5 || delay == 0 || expiry == 0 { s.will = None; self.route(cid, v5, m, keep_delay); }
        else if !keep_delay { s.will = None; }
        else if delay < expiry { s.will_due = Some(now + delay as u64); }
    }
    pub fn advance(&mut self, n: usize, secs: u64) {
        self.begin(n);
        let end = self.now + secs;
        let due = self.sess.values().filter(|s| s.conn.is_none() && s.will.is_some() && (s.will_due.map_or(false, |t| t <= end) || s.gone_at.map_or(false, |t| t <= end))).count();
        if due > 1 { self.amb = true; }
        loop {
            let mut next: Option<(u64, u8, String)> = None;
            for (cid, s) in &self.sess {
                if s.conn.is_some() { continue; }
                if let Some(t) = s.will_due { if t <= end { let c = (t, 0, cid.clone()); if next.as_ref().map_or(true, |x| c < *x) { next = Some(c); } } }
                if let Some(t) = s.gone_at { if t <= end { let c = (t, 1, cid.clone()); if next.as_ref().map_or(true, |x| c < *x) { next = Some(c); } } }
            }
            let Some((t, k, cid)) = next else { break };
            self.now = t;
            let s = self.sess.get_mut(&cid).unwrap();
            let w = s.will.take(); s.will_due = None;
            if let Some((m, _)) = w { self.route(&cid, true, m, true); }
            if k == 1 { self.sess.remove(&cid); }
        }
        self.now = end;
    }
    pub fn begin(&mut self, n: usize) { self.exp = vec![Exp::default(); n]; self.nchoice.clear(); self.log.clear(); self.own = false; }

    // -------------------------------------------------------------- CONNECT
    pub fn connect(&mut self, n: usize, ci: usize, c: &CSpec) {
        self.begin(n);
        let v5c = c.proto == Protocol::V500;
        self.conns.push(CM { v5: v5c, cid: None, open: true, auth: None });
        assert_eq!(self.conns.len(), ci + 1);
        let refuse = |w: &mut World, code3: u8, code5: u8| { w.exp[ci].ctl.push(P::Connack(false, if v5c { code5 } else { code3 }, if v5c { format!("{:?}", v5::ConnackProperties::default()) } else { String::new() })); w.close_now(ci); };
        if self.hk(|h| h.enable_before_connect) {
            let v = self.verdict("bc", &c.cid, String::new());
            if v.err { self.close_now(ci); return; }
            if v.code != 0 { refuse(self, CONN3[v.code as usize], CONN5[v.code as usize]); return; }
        }
        if c.proto == Protocol::V310 && (c.cid.is_empty() || self.cfg.check_v310_client_id_length && c.cid.len() > 23) { refuse(self, 2, 0); return; }
        if c.proto == Protocol::V311 && c.cid.is_empty() && !c.clean { refuse(self, 2, 0); return; }
        if self.cfg.auth.enable && !(c.user.as_deref() == Some("u") && c.pass.as_deref() == Some(b"pw")) { refuse(self, 4, 0x86); return; }
        if v5c {
            if c.pr.receive_max == Some(0) || c.pr.max_packet_size == Some(0) { refuse(self, 0, 0x82); return; }
            if c.pr.auth_data.is_some() && c.pr.auth_method.is_none() { refuse(self, 0, 0x82); return; }
        }
        if let Some((m, _)) = &c.will { if m.topic.is_empty() || m.topic.starts_with('$') { self.exp[ci].lenient = true; self.close_now(ci); return; } }
        if v5c { if let Some(me) = &c.pr.auth_method {
            if &**me != "SCRAM-SHA-256" || !self.cfg.sasl_mechanisms.contains(&SaslMechanism::ScramSha256) { refuse(self, 0, 0x8C); return; }
            let first = c.pr.auth_data.as_ref().and_then(|d| std::str::from_utf8(d).ok()).and_then(ref_first);
            let info = first.as_ref().and_then(|f| self.cfg.scram_users.get(&f.0).cloned());
            let (Some((user, authz, nonce, gs2, bare)), Some(i)) = (first, info) else { refuse(self, 0, 0x87); return; };
            self.exp[ci].ctl.push(P::Auth(0x18, Some(me.to_string()), None));
            self.conns[ci].auth = Some(AuthS { spec: c.clone(), method: me.to_string(), user, authz, nonce, gs2, bare, salted: i.hashed_password, salt: i.salt, iterations: i.iterations, server_first: String::new(), server_final: None });
            return;
        } }
        self.establish(ci, c, None);
    }
    /// a packet of a client whose exchange is not finished
    pub fn auth_packet(&mut self, n: usize, ci: usize, sp: &Sp) {
        self.begin(n);
        let Some(mut a) = self.conns[ci].auth.take() else { return };
        let mut code = 0x82;
        if let Sp::Auth(0x18, m, d) = sp { if m.as_deref() == Some(a.method.as_str()) {
            code = 0x87;
            let (good, server) = a.good(&a.salted);
            // a user may act only for itself
            if d.as_deref() == Some(good.as_bytes()) && a.authz.as_ref().map_or(true, |z| *z == a.user) {
                a.server_final = Some(server.into_bytes());
                let spec = a.spec.clone();
                self.establish(ci, &spec, Some(&a));
                return;
            }
        } }
        self.exp[ci].ctl.push(P::Connack(false, code, format!("{:?}", v5::ConnackProperties::default())));
        self.close_now(ci);
    }
    /// CONNECT passed authentication
    pub fn establish(&mut self, ci: usize, c: &CSpec, auth: Option<&AuthS>) {
        let v5c = c.proto == Protocol::V500;
        self.conns[ci].auth = None;
        if v5c { if let Some((m, _)) = &c.will {
            let code = if m.retain && !self.cfg.retain_available { 0x9A } else if m.qos > self.cfg.max_allowed_qos { 0x9B } else { 0 };
            if code != 0 { self.exp[ci].ctl.push(P::Connack(false, code, format!("{:?}", v5::ConnackProperties::default()))); self.close_now(ci); return; }
        } }
        let assigned = c.cid.is_empty();
        let cid = if assigned { self.auto += 1; format!("\u{1}{}", self.auto) } else { c.cid.clone() };
        let mut sp = false;
        let mut keep: Option<Sess> = None;
        if let Some(old) = self.sess.get(&cid) {
            if old.v5 != v5c { self.close_now(ci); return; }
            let resume = !c.clean && old.proto == c.proto && if v5c { old.expiry > 0 } else { !old.clean };
            if let Some(oc) = old.conn {
                self.exp[oc].closed = true; self.exp[oc].opt_disc = true; self.conns[oc].open = false;
                if self.hk(|h| h.enable_after_disconnect) { let k = self.key(&cid); self.verdict("ad", &k, "true".into()); }
            }
            if resume { keep = self.sess.get(&cid).cloned(); sp = true; }
            let online = self.sess[&cid].conn.is_some();
            // subscriptions travel with the session: a will sent now does not come back to the same client
            let s = self.sess.get_mut(&cid).unwrap();
            let subs = std::mem::take(&mut s.subs); s.conn = None;
            if online { self.will_on_end(&cid, false); }
            let _ = subs;
            self.sess.remove(&cid);
        }
        let ka = if v5c { c.ka.clamp(self.cfg.min_keep_alive, self.cfg.max_keep_alive) } else { c.ka };
        let want = c.pr.session_expiry_interval.unwrap_or(0);
        let expiry = want.min(self.cfg.max_session_expiry_interval);
        let mut s = Sess { v5: v5c, proto: c.proto, conn: Some(ci), clean: c.clean, subs: BTreeMap::new(), queue: vec![], qos2_in: BTreeMap::new(),
            window: if v5c { c.pr.receive_max.unwrap_or(self.cfg.max_inflight_client) } else { self.cfg.max_inflight_client } as usize,
            max_packet: if v5c { c.pr.max_packet_size.unwrap_or(self.cfg.max_packet_size_client) } else { u32::MAX }, expiry: if v5c { expiry } else { 0 },
            will: c.will.clone().map(|(m, d)| (m, d.unwrap_or(0))), will_due: None, gone_at: None, aliases: BTreeMap::new(), server_closed: false, stall: false };
        if let Some(k) = keep { s.subs = k.subs; s.queue = k.queue; s.qos2_in = k.qos2_in; for x in s.queue.iter_mut() { if x.st != St::Done { if !x.pend { x.dup = true; } x.pend = true; } } }
        self.conns[ci].cid = Some(cid.clone());
        let pr = if v5c {
            let mut p = v5::ConnackProperties::default();
            let g = &self.cfg;
            if want > expiry { p.session_expiry_interval = Some(expiry); }
            if g.max_inflight_server != u16::MAX { p.receive_max = Some(g.max_inflight_server); }
            if g.max_allowed_qos < 2 { p.max_qos = Some(q(g.max_allowed_qos)); }
            if !g.retain_available { p.retain_available = Some(false); }
            if g.max_packet_size_server != u32::MAX { p.max_packet_size = Some(g.max_packet_size_server); }
            if assigned { p.assigned_client_id = Some(Arc::from("?")); }
            if g.topic_alias_max > 0 { p.topic_alias_max = Some(g.topic_alias_max); }
            if !g.wildcard_subscription_available { p.wildcard_subscription_available = Some(false); }
            if !g.subscription_id_available { p.subscription_id_available = Some(false); }
            if !g.shared_subscription_available { p.shared_subscription_available = Some(false); }
            if ka != c.ka { p.server_keep_alive = Some(ka); }
            if let Some(a) = auth { p.auth_method = Some(Arc::from(a.method.as_str())); p.auth_data = a.server_final.clone().map(Bytes::from); }
            format!("{p:?}")
        } else { String::new() };
        self.exp[ci].ctl.push(P::Connack(sp, 0, pr));
        let scram: Option<(String, Option<String>)> = auth.map(|a| (a.user.clone(), a.authz.clone()));
        let line = if v5c { format!("{} ka={} exp={} rm={} mp={} tam={} scram={:?}", sp, ka, expiry, s.window, s.max_packet, c.pr.topic_alias_max.unwrap_or(0), scram) } else { format!("{sp} ka={ka}") };
        self.sess.insert(cid.clone(), s);
        if self.hk(|h| h.enable_after_connect) {
            let k = self.key(&cid);
            let v = self.verdict("ac", &k, line);
            if v.err { self.close_now(ci); self.end_conn(ci); return; }
            for a in v.acts { self.act(&cid, &a); }
        }
        self.pass(&cid);
    }
    fn act(&mut self, cid: &str, a: &Act) {
        let v5c = self.sess[cid].v5;
        match a {
            Act::Pub(m) => { self.route(cid, v5c, m.clone(), true); }
            Act::Sub(_) | Act::Unsub(_) if self.own => self.amb = true,
            Act::Sub(v) => for (f, k) in v { let code = self.sub_code(f, *k, v5c, false); if code < 0x80 { self.sess.get_mut(cid).unwrap().subs.insert(f.clone(), SubM { qos: code, nl: false, rap: false, id: None }); } },
            Act::Unsub(v) => for f in v { self.sess.get_mut(cid).unwrap().subs.remove(f); },
        }
    }
    fn sub_code(&self, f: &str, qos: u8, v5c: bool, has_id: bool) -> u8 {
        if v5c {
            if has_id && !self.cfg.subscription_id_available { return 0xA1; }
            if f.starts_with(SHARE) && !self.cfg.shared_subscription_available { return 0x9E; }
            if f.contains(['+', '#']) && !self.cfg.wildcard_subscription_available { return 0xA2; }
        }
        qos.min(self.cfg.max_allowed_qos)
    }
    fn fatal(&mut self, ci: usize, code: u8) {
        if self.conns[ci].v5 && code != 0 { self.exp[ci].ctl.push(P::Disc(code)); }
        self.close_now(ci); self.end_conn(ci);
    }
    // -------------------------------------------------------------- packets of a connected client
    pub fn packet(&mut self, n: usize, ci: usize, sp: &Sp, size: usize) {
        self.begin(n);
        let v5c = self.conns[ci].v5;
        let Some(cid) = self.conns[ci].cid.clone() else { return };
        if let Sp::Junk(_) = sp { self.exp[ci].any_disc = true; self.close_now(ci); self.end_conn(ci); return; }
        if size > self.cfg.max_packet_size_server as usize { self.fatal(ci, 0x95); return; }
        match sp {
            Sp::Junk(_) => unreachable!(),
            Sp::Auth(..) => { self.exp[ci].any_disc = true; self.close_now(ci); self.end_conn(ci); return; }
            Sp::Ping => self.exp[ci].ctl.push(P::Pong),
            Sp::Disconnect(code, x) => {
                let max = self.cfg.max_session_expiry_interval;
                let s = self.sess.get_mut(&cid).unwrap();
                if let (true, Some(x)) = (v5c, x) { if s.expiry == 0 && *x > 0 { self.fatal(ci, 0x82); return; } s.expiry = (*x).min(max); }
                if !v5c || *code == 0 { s.will = None; }
                self.close_now(ci); self.end_conn(ci); return;
            }
            Sp::Ack(k, pid, _) => {
                let s = self.sess.get_mut(&cid).unwrap();
                let slot = s.queue.iter_mut().find(|x| x.pid == Some(*pid) && x.st != St::Done);
                match k {
                    4 => if let Some(x) = slot { if x.m.qos == 1 && x.st == St::New { x.st = St::Done; } },
                    5 => { // a repeated PUBREC may be answered either way
                        let code = if let Some(x) = slot { if x.m.qos == 2 { let again = x.st == St::Rec; x.st = St::Rec; x.pend = false; if again && v5c { 0xFF } else { 0 } } else { 0x92 } } else { 0x92 };
                        self.exp[ci].ctl.push(P::Pubrel(*pid, if v5c { code } else { 0 })); }
                    6 => { let hit = s.qos2_in.remove(pid).is_some();
                        if !hit && !v5c { self.fatal(ci, 0); return; }
                        self.exp[ci].ctl.push(P::Pubcomp(*pid, if v5c && !hit { 0x92 } else { 0 })); }
                    _ => if let Some(x) = slot { if x.st == St::Rec { x.st = St::Done; } },
                }
            }
            Sp::Publish { m, pid, dup, alias } => {
                let (mut m, dup) = (m.clone(), *dup);
                let mut v = Verdict::default();
                let hooked = self.hk(|h| h.enable_publish);
                if hooked {
                    v = self.verdict("bp", &m.topic, String::new());
                    if v.err { self.close_now(ci); self.end_conn(ci); return; }
                    if let Some(t) = &v.to { m.topic = t.clone(); }
                    if let Some(t) = &v.payload { m.payload = t.clone(); }
                    if v.code != 0 {
                        if !v5c { self.close_now(ci); self.end_conn(ci); return; }
                        match m.qos { 0 => {} 1 => self.exp[ci].ctl.push(P::Puback(*pid, PUB5[v.code as usize])), _ => self.exp[ci].ctl.push(P::Pubrec(*pid, PUB5[v.code as usize])) }
                        self.pass(&cid); return;
                    }
                }
                let changed = v.to.is_some() || v.payload.is_some();
                let wire_topic = m.topic.clone();
                let g = self.cfg.clone();
                let s = self.sess.get_mut(&cid).unwrap();
                let bad = if m.topic.starts_with('$') { 0x90 } else if m.qos == 0 && dup { 0x82 } else if v5c && m.qos > g.max_allowed_qos { 0x9B }
                    else if v5c && alias.map_or(false, |a| a == 0 || a > g.topic_alias_max) { 0x94 }
                    else if m.topic.is_empty() && (alias.is_none() || !s.aliases.contains_key(&alias.unwrap())) { 0x82 }
                    else if v5c && !m.p.ids.is_empty() { 0x82 } else { 0 };
                if bad != 0 { self.fatal(ci, bad); return; }
                if let Some(a) = alias { if m.topic.is_empty() { m.topic = s.aliases[a].clone(); } else { s.aliases.insert(*a, m.topic.clone()); } }
                let mut fresh = true;
                if m.qos == 2 {
                    let print = format!("{wire_topic} {m:?} {alias:?}");
                    if let Some(old) = s.qos2_in.get(pid) {
                        if *old != print { if v5c { self.exp[ci].ctl.push(P::Pubrec(*pid, 0x91)); self.after_pub(ci, &cid, hooked, &wire_topic, changed); return; } self.fatal(ci, 0); return; }
                        if !dup { self.fatal(ci, 0x82); return; }
                        fresh = false;
                    } else if v5c && s.qos2_in.len() >= g.max_inflight_server as usize { self.fatal(ci, 0x93); return; }
                    else { s.qos2_in.insert(*pid, print); }
                }
                let any = if fresh { let mut d = m.clone(); d.p.ids.clear(); self.route(&cid, v5c, d, true) } else { true };
                let code = if v5c && !any { 0x10 } else { 0 };
                match m.qos { 0 => {} 1 => self.exp[ci].ctl.push(P::Puback(*pid, code)), _ => self.exp[ci].ctl.push(P::Pubrec(*pid, code)) }
                self.after_pub(ci, &cid, hooked, &wire_topic, changed);
                return;
            }
            Sp::Subscribe { pid, id, fs } => {
                let mut fs = fs.clone();
                let hooked = self.hk(|h| h.enable_subscribe);
                let mut v = Verdict::default();
                if hooked {
                    v = self.verdict("bs", &fs[0].f, String::new());
                    if v.err { self.close_now(ci); self.end_conn(ci); return; }
                    if let Some(t) = &v.to { fs[0].f = t.clone(); }
                    if v.code != 0 {
                        if !v5c { self.close_now(ci); self.end_conn(ci); return; }
                        self.exp[ci].ctl.push(P::Suback(*pid, vec![SUB5[v.code as usize]; fs.len()])); self.pass(&cid); return;
                    }
                }
                if v5c && *id == Some(0) { self.fatal(ci, 0x82); return; }
                let mut codes = vec![];
                for f in &fs {
                    if !v5c && f.f.starts_with(SHARE) { self.fatal(ci, 0); return; }
                    let code = self.sub_code(&f.f, f.qos, v5c, id.is_some());
                    codes.push(code);
                    if code >= 0x80 { continue; }
                    let new = SubM { qos: code, nl: v5c && f.nl, rap: v5c && f.rap, id: if v5c { *id } else { None } };
                    let old = self.sess.get_mut(&cid).unwrap().subs.insert(f.f.clone(), new);
                    let send = if v5c { self.cfg.retain_available && !f.f.starts_with(SHARE) && match f.rh { 0 => true, 1 => old.is_none(), _ => false } } else { true };
                    if send {
                        self.batch += 1;
                        let batch = self.batch;
                        let ms: Vec<(String, M)> = self.retained.iter().filter(|(t, _)| matches(&f.f, t)).map(|(_, x)| x.clone()).collect();
                        for (publisher, m) in ms {
                            if v5c && f.nl && publisher == cid { continue; }
                            if m.p.expiry == Some(0) { continue; }
                            let mut d = m.clone();
                            d.retain = if v5c { f.rap } else { true };
                            d.p.ids = if v5c { id.iter().copied().collect() } else { vec![] };
                            self.deliver(&cid, d, code, batch);
                        }
                        self.pass(&cid);
                    }
                }
                self.exp[ci].ctl.push(P::Suback(*pid, codes.clone()));
                if hooked {
                    let v2 = self.verdict("as", &fs[0].f, format!("{} {:?}", v.to.is_some(), codes));
                    if v2.err { self.exp[ci].lenient = true; self.close_now(ci); self.end_conn(ci); return; }
                    for a in v2.acts { self.act(&cid, &a); }
                }
            }
            Sp::Unsub { pid, fs } => {
                let mut fs = fs.clone();
                let hooked = self.hk(|h| h.enable_unsubscribe);
                let mut v = Verdict::default();
                if hooked {
                    v = self.verdict("bu", &fs[0], String::new());
                    if v.err { self.close_now(ci); self.end_conn(ci); return; }
                    if let Some(t) = &v.to { fs[0] = t.clone(); }
                    if v.code != 0 {
                        if !v5c { self.close_now(ci); self.end_conn(ci); return; }
                        self.exp[ci].ctl.push(P::Unsuback(*pid, vec![UNSUB5[v.code as usize]; fs.len()])); self.pass(&cid); return;
                    }
                }
                let s = self.sess.get_mut(&cid).unwrap();
                let codes: Vec<u8> = fs.iter().map(|f| if s.subs.remove(f).is_some() { 0 } else { 0x11 }).collect();
                self.exp[ci].ctl.push(P::Unsuback(*pid, if v5c { codes } else { vec![] }));
                if hooked {
                    let v2 = self.verdict("au", &fs[0], format!("{}", v.to.is_some()));
                    if v2.err { self.exp[ci].lenient = true; self.close_now(ci); self.end_conn(ci); return; }
                    for a in v2.acts { self.act(&cid, &a); }
                }
            }
        }
        self.pass(&cid);
    }
    fn after_pub(&mut self, ci: usize, cid: &str, hooked: bool, topic: &str, changed: bool) {
        if hooked {
            let v2 = self.verdict("ap", topic, format!("{changed}"));
            if v2.err { self.exp[ci].lenient = true; self.close_now(ci); self.end_conn(ci); return; }
            for a in v2.acts { self.act(cid, &a); }
        }
        self.pass(cid);
    }
    pub fn lost(&mut self, n: usize, ci: usize) { self.begin(n); self.close_now(ci); self.end_conn(ci); self.exp[ci].lenient = true; }
    pub fn online(&self) -> usize { self.sess.values().filter(|s| s.conn.is_some()).count() }

    // -------------------------------------------------------------- comparison
    /// compares what every connection received with what it had to receive; learns packet ids
    pub fn compare(&mut self, got: &[Vec<P>], eof: &[bool]) -> Result<(), (String, String)> {
        for ci in 0..got.len() {
            let mut x = std::mem::take(&mut self.exp[ci]);
            let cid = self.conns[ci].cid.clone();
            let mut ctl: std::collections::VecDeque<P> = x.ctl.drain(..).collect();
            let mut ev: std::collections::VecDeque<Ev> = x.ev.drain(..).collect();
            let bad = |k: &str, d: String| -> Result<(), (String, String)> { Err((k.to_string(), format!("connection {ci}: {d}; received {:?}", got[ci].iter().map(pb).collect::<Vec<_>>()))) };
            if got[ci].is_empty() && ctl.is_empty() && ev.is_empty() && x.q0.is_empty() && !x.closed { if eof[ci] && self.conns[ci].open { return bad("a connection was closed without reason", String::new()); } continue; }
            for p in &got[ci] {
                match p {
                    P::Bad(s) => return bad("the server sent a malformed packet or one only clients send", s.clone()),
                    P::Pub(o) if o.m.qos == 0 => {
                        if o.dup { return bad("a QoS 0 PUBLISH has the DUP flag", o.m.brief()); }
                        match x.q0.iter().position(|m| m.same(&o.m)) {
                            Some(k) => { x.q0.remove(k); }
                            None => {
                                let near = x.q0.iter().find(|m| m.payload == o.m.payload && m.topic == o.m.topic).map(|m| m.brief());
                                return match near { Some(w) => bad("a QoS 0 message was delivered with the wrong attributes", format!("expected {w}, got {}", o.m.brief())), None => bad("a QoS 0 message was delivered that must not be delivered (or under a wrong topic, or with a wrong QoS)", format!("{}; expected {:?} {:?}", o.m.brief(), x.q0.iter().map(|m| m.brief()).collect::<Vec<_>>(), ev)) };
                            }
                        }
                    }
                    P::Pub(o) => {
                        if o.pid == 0 { return bad("packet id zero", o.m.brief()); }
                        if ev.is_empty() { self.more(&cid, &mut ev, ci); }
                        let Some(Ev::Pub(uid)) = ev.pop_front() else { return bad("a QoS 1/2 message was delivered that must not be delivered now (or with a wrong QoS)", format!("{}; expected q0 {:?}", o.m.brief(), x.q0.iter().map(|m| m.brief()).collect::<Vec<_>>())) };
                        let s = self.sess.get_mut(cid.as_ref().unwrap()).unwrap();
                        let Some(k) = s.queue.iter().position(|z| z.uid == uid) else { return bad("internal: slot", String::new()) };
                        if !s.queue[k].m.same(&o.m) {
                            let b = s.queue[k].batch;
                            let alt = (0..s.queue.len()).find(|j| s.queue[*j].batch == b && s.queue[*j].pid.is_none() && s.queue[*j].m.same(&o.m));
                            match (alt, s.queue[k].pid) {
                                (Some(j), None) => { let t = s.queue[j].m.clone(); s.queue[j].m = s.queue[k].m.clone(); s.queue[k].m = t; }
                                _ => return bad(if s.queue[k].m.payload == o.m.payload { "a QoS 1/2 message was delivered with the wrong attributes" } else { "QoS 1/2 messages were delivered out of order, lost or duplicated" }, format!("expected {}, got {}", s.queue[k].m.brief(), o.m.brief())),
                            }
                        }
                        if o.dup != s.queue[k].dup { return bad("wrong DUP flag", format!("expected dup={} on {}", s.queue[k].dup, o.m.brief())); }
                        match s.queue[k].pid {
                            Some(p) if p != o.pid => return bad("a message was re-sent under another packet id", format!("{} instead of {p}", o.pid)),
                            Some(_) => {}
                            None => { if s.queue.iter().any(|z| z.pid == Some(o.pid) && z.st != St::Done) { return bad("a packet id still in use was assigned again", format!("{}", o.pid)); } s.queue[k].pid = Some(o.pid); }
                        }
                    }
                    P::Pubrel(pid, 0) if !matches!(ctl.front(), Some(P::Pubrel(a, _)) if a == pid) => {
                        match ev.pop_front() { Some(Ev::Rel(e)) if e == *pid => {}, z => return bad("an unexpected PUBREL was sent", format!("{pid}, expected {z:?}")) }
                    }
                    P::Auth(c, m, Some(d)) if matches!(ctl.front(), Some(P::Auth(_, _, None))) => {
                        let Some(P::Auth(c2, m2, _)) = ctl.pop_front() else { unreachable!() };
                        let Some(a) = self.conns[ci].auth.as_mut() else { return bad("internal: auth", String::new()) };
                        let t = String::from_utf8_lossy(d).to_string();
                        let want = format!(",s={},i={}", b64e(&a.salt), a.iterations);
                        let ok = t.strip_prefix("r=").and_then(|t| t.strip_prefix(a.nonce.as_str())).and_then(|t| t.strip_suffix(want.as_str())).map_or(false, |t| t.len() >= 16 && !t.contains(','));
                        if *c != c2 || *m != m2 || !ok { return bad("wrong server-first message of the authentication", format!("AUTH({c:#x}, {m:?}, {t:?}), expected {c2:#x} {m2:?} r={}...{want}", a.nonce)); }
                        a.server_first = t;
                    }
                    P::Disc(c) if x.any_disc || (x.opt_disc && *c == 0x8E) => {}
                    c => {
                        let mut got1 = c.clone();
                        if let (P::Connack(_, 0, s), Some(P::Connack(_, _, w))) = (&mut got1, ctl.front()) { if w.contains("assigned_client_id: Some(\"?\")") { *s = norm_assigned(s); } }
                        match ctl.pop_front() { Some(w) if w == got1 => {}, Some(P::Pubrel(a, 0xFF)) if matches!(got1, P::Pubrel(b, 0 | 0x92) if a == b) => {}, w => return bad(&ctl_key(w.as_ref(), c), format!("expected {w:?}, got {got1:?}")) }
                    }
                }
            }
            // what was not sent before the connection ended has not been sent at all
            if let (true, Some(s)) = (x.lenient, cid.as_ref().and_then(|c| self.sess.get_mut(c))) { for z in &ev { if let Ev::Pub(u) = z { for y in s.queue.iter_mut() { if y.uid == *u { y.pend = true; } } } } }
            if !ctl.is_empty() && !x.lenient { return bad(&ctl_key(ctl.front(), &P::Pong).replace("wrong", "missing or wrong"), format!("missing {ctl:?}")); }
            if let Some(s) = cid.as_ref().and_then(|c| self.sess.get_mut(c)) { if s.stall {
                for z in ev.drain(..) { match z { Ev::Pub(u) => for y in s.queue.iter_mut() { if y.uid == u { y.pend = true; } }, Ev::Rel(p) => for y in s.queue.iter_mut() { if y.pid == Some(p) { y.pend = true; } } } }
            } }
            if !ev.is_empty() && !x.lenient { let d = format!("{:?}", ev.iter().map(|z| match z { Ev::Pub(u) => self.sess.get(cid.as_ref().unwrap()).and_then(|s| s.queue.iter().find(|y| y.uid == *u)).map(|y| y.m.brief()), Ev::Rel(p) => Some(format!("PUBREL {p}")) }).collect::<Vec<_>>()); return bad("a QoS 1/2 message or PUBREL that has to be sent was not sent", d); }
            if !x.q0.is_empty() && !x.lenient { return bad("a QoS 0 message that has to be delivered was not delivered", format!("{:?}", x.q0.iter().map(|m| m.brief()).collect::<Vec<_>>())); }
            if eof[ci] && self.conns[ci].open { return bad("a connection was closed without reason", String::new()); }
        }
        Ok(())
    }
    /// further passes of the sender are allowed at any time
    fn more(&mut self, cid: &Option<String>, ev: &mut std::collections::VecDeque<Ev>, ci: usize) {
        let Some(cid) = cid else { return };
        for _ in 0..6 {
            self.pass(cid);
            if !self.exp[ci].ev.is_empty() { ev.extend(self.exp[ci].ev.drain(..)); return; }
        }
    }
}
fn norm_assigned(s: &str) -> String {
    let Some(a) = s.find("assigned_client_id: Some(\"") else { return s.to_string() };
    let st = a + "assigned_client_id: Some(\"".len();
    let Some(l) = s[st..].find('"') else { return s.to_string() };
    if l == 0 { return s.to_string(); }
    format!("{}?{}", &s[..st], &s[st + l..])
}
fn ctl_key(w: Option<&P>, g: &P) -> String {
    let n = |p: &P| match p { P::Connack(..) => "CONNACK", P::Puback(..) => "PUBACK", P::Pubrec(..) => "PUBREC", P::Pubrel(..) => "PUBREL", P::Pubcomp(..) => "PUBCOMP", P::Suback(..) => "SUBACK", P::Unsuback(..) => "UNSUBACK", P::Pong => "PINGRESP", P::Disc(_) => "DISCONNECT", P::Auth(..) => "AUTH", _ => "?" };
    match w { Some(w) => format!("wrong answer: {} expected", n(w)), None => format!("wrong answer: unexpected {}", n(g)) }
}
pub fn pb(p: &P) -> String { match p { P::Pub(o) => format!("PUBLISH pid={} dup={} {}", o.pid, o.dup, o.m.brief()), o => format!("{o:?}") } }
impl Cl { pub fn is_v5(&self) -> bool { self.v5 } pub fn is_open(&self) -> bool { self.io.is_some() } }

use std::{hash::{Hash, Hasher}, sync::Arc};

use bytes::Bytes;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};

use crate::wire::*;
use crate::{Encodable, Error, GenericPollPacketState, Pid, PollHeader, Protocol, QoS, QosPid, TopicFilter, TopicName, VarBytes};

pub type PollPacketState = GenericPollPacketState<Header>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum PacketType {
    Connect = 1, Connack, Publish, Puback, Pubrec, Pubrel, Pubcomp, Subscribe, Suback, Unsubscribe,
    Unsuback, Pingreq, Pingresp, Disconnect,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Header {
    pub typ: PacketType,
    pub dup: bool,
    pub qos: QoS,
    pub retain: bool,
    pub remaining_len: u32,
    pub total_len: u32,
}
impl Header {
    pub fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> Result<Header, Error> {
        use PacketType::*;
        const TYPES: [PacketType; 14] = [
            Connect, Connack, Publish, Puback, Pubrec, Pubrel, Pubcomp, Subscribe, Suback, Unsubscribe,
            Unsuback, Pingreq, Pingresp, Disconnect,
        ];
        let t = (hd >> 4) as usize;
        if t == 0 || t > 14 {
            return Err(Error::InvalidHeader);
        }
        let typ = TYPES[t - 1];
        let flags = hd & 0x0F;
        let ok = match typ {
            Publish => true,
            Pubrel | Subscribe | Unsubscribe => flags == 2,
            _ => flags == 0,
        };
        if !ok {
            return Err(Error::InvalidHeader);
        }
        let (dup, qos, retain) = if typ == Publish {
            (flags & 8 != 0, QoS::from_u8((flags >> 1) & 3)?, flags & 1 != 0)
        } else {
            (false, QoS::Level0, false)
        };
        Ok(Header { typ, dup, qos, retain, remaining_len, total_len })
    }
}
impl PollHeader for Header {
    type Error = Error;
    type Packet = Packet;
    fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> Result<Self, Error> {
        Header::new_with(hd, remaining_len, total_len)
    }
    fn remaining_len(&self) -> usize {
        self.remaining_len as usize
    }
    fn block_decode(self, body: &[u8]) -> Result<Packet, Error> {
        Packet::decode_body(self, body)
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Packet {
    Connect(Connect),
    Connack(Connack),
    Publish(Publish),
    Puback(Pid),
    Pubrec(Pid),
    Pubrel(Pid),
    Pubcomp(Pid),
    Subscribe(Subscribe),
    Suback(Suback),
    Unsubscribe(Unsubscribe),
    Unsuback(Pid),
    Pingreq,
    Pingresp,
    Disconnect,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Connect {
    pub protocol: Protocol,
    pub clean_session: bool,
    pub keep_alive: u16,
    pub client_id: Arc<str>,
    pub last_will: Option<LastWill>,
    pub username: Option<Arc<str>>,
    pub password: Option<Bytes>,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct LastWill {
    pub qos: QoS,
    pub retain: bool,
    pub topic_name: TopicName,
    pub message: Bytes,
}
impl LastWill {
    pub fn new(qos: QoS, topic_name: TopicName, message: Bytes) -> Self {
        LastWill { qos, retain: false, topic_name, message }
    }
}
impl Connect {
    pub fn new(client_id: Arc<str>, keep_alive: u16) -> Self {
        Connect {
            protocol: Protocol::V311,
            clean_session: true,
            keep_alive,
            client_id,
            last_will: None,
            username: None,
            password: None,
        }
    }
    /// The fixed header and the protocol name and level are already consumed.
    pub async fn decode_stream_with_protocol<T: AsyncRead + Unpin>(r: &mut T, protocol: Protocol) -> Result<Self, Error> {
        if protocol > Protocol::V311 {
            return Err(Error::UnexpectedProtocol(protocol));
        }
        let flags = r.read_u8().await?;
        check_flags(flags)?;
        let keep_alive = r.read_u16().await?;
        let client_id = Arc::from(read_string_async(r).await?);
        let last_will = if flags & 4 != 0 {
            let topic_name = TopicName::try_from(read_string_async(r).await?)?;
            let message = Bytes::from(read_bytes_async(r).await?);
            Some(LastWill { qos: QoS::from_u8((flags >> 3) & 3)?, retain: flags & 0x20 != 0, topic_name, message })
        } else {
            None
        };
        let username = if flags & 0x80 != 0 { Some(Arc::from(read_string_async(r).await?)) } else { None };
        let password = if flags & 0x40 != 0 { Some(Bytes::from(read_bytes_async(r).await?)) } else { None };
        Ok(Connect { protocol, clean_session: flags & 2 != 0, keep_alive, client_id, last_will, username, password })
    }
    fn decode_body(rd: &mut Rd) -> Result<Self, Error> {
        let name = rd.bytes()?;
        let protocol = Protocol::new(name, rd.u8()?)?;
        if protocol > Protocol::V311 {
            return Err(Error::UnexpectedProtocol(protocol));
        }
        let flags = rd.u8()?;
        check_flags(flags)?;
        let keep_alive = rd.u16()?;
        let client_id = rd.string()?;
        let last_will = if flags & 4 != 0 {
            Some(LastWill {
                topic_name: rd.topic_name()?,
                message: rd.data()?,
                qos: QoS::from_u8((flags >> 3) & 3)?,
                retain: flags & 0x20 != 0,
            })
        } else {
            None
        };
        let username = if flags & 0x80 != 0 { Some(rd.string()?) } else { None };
        let password = if flags & 0x40 != 0 { Some(rd.data()?) } else { None };
        Ok(Connect { protocol, clean_session: flags & 2 != 0, keep_alive, client_id, last_will, username, password })
    }
}
fn check_flags(flags: u8) -> Result<(), Error> {
    if flags & 1 != 0 || (flags & 4 == 0 && flags & 0x38 != 0) || (flags >> 3) & 3 == 3 {
        return Err(Error::InvalidConnectFlags(flags));
    }
    Ok(())
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum ConnectReturnCode {
    Accepted = 0,
    UnacceptableProtocolVersion = 1,
    IdentifierRejected = 2,
    ServerUnavailable = 3,
    BadUserNameOrPassword = 4,
    NotAuthorized = 5,
}
impl ConnectReturnCode {
    pub fn from_u8(v: u8) -> Result<Self, Error> {
        use ConnectReturnCode::*;
        Ok(match v {
            0 => Accepted,
            1 => UnacceptableProtocolVersion,
            2 => IdentifierRejected,
            3 => ServerUnavailable,
            4 => BadUserNameOrPassword,
            5 => NotAuthorized,
            n => return Err(Error::InvalidConnectReturnCode(n)),
        })
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Connack {
    pub session_present: bool,
    pub code: ConnectReturnCode,
}
impl Connack {
    pub fn new(session_present: bool, code: ConnectReturnCode) -> Self {
        Connack { session_present, code }
    }
}

/// The digest used to recognise a retransmission does not cover the DUP flag.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Publish {
    pub dup: bool,
    pub retain: bool,
    pub qos_pid: QosPid,
    pub topic_name: TopicName,
    pub payload: Bytes,
}
impl Hash for Publish {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.retain.hash(h);
        self.qos_pid.hash(h);
        self.topic_name.hash(h);
        self.payload.hash(h);
    }
}
impl Publish {
    pub fn new(qos_pid: QosPid, topic_name: TopicName, payload: Bytes) -> Self {
        Publish { dup: false, retain: false, qos_pid, topic_name, payload }
    }
    fn body(&self) -> Vec<u8> {
        let mut o = Vec::new();
        wbytes(&mut o, self.topic_name.as_bytes());
        if let Some(pid) = self.qos_pid.pid() {
            w16(&mut o, pid.value());
        }
        o.extend_from_slice(&self.payload);
        o
    }
}
impl Encodable for Publish {
    fn encode<W: std::io::Write>(&self, w: &mut W) -> std::io::Result<()> {
        w.write_all(&self.body())
    }
    fn encode_len(&self) -> usize {
        2 + self.topic_name.len() + self.payload.len() + if self.qos_pid == QosPid::Level0 { 0 } else { 2 }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Subscribe {
    pub pid: Pid,
    pub topics: Vec<(TopicFilter, QoS)>,
}
impl Subscribe {
    pub fn new(pid: Pid, topics: Vec<(TopicFilter, QoS)>) -> Self {
        Subscribe { pid, topics }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum SubscribeReturnCode {
    MaxLevel0 = 0,
    MaxLevel1 = 1,
    MaxLevel2 = 2,
    Failure = 0x80,
}
impl SubscribeReturnCode {
    pub fn from_u8(v: u8) -> Result<Self, Error> {
        Ok(match v {
            0 => Self::MaxLevel0,
            1 => Self::MaxLevel1,
            2 => Self::MaxLevel2,
            0x80 => Self::Failure,
            n => return Err(Error::InvalidQos(n)),
        })
    }
}
impl From<QoS> for SubscribeReturnCode {
    fn from(q: QoS) -> Self {
        match q {
            QoS::Level0 => Self::MaxLevel0,
            QoS::Level1 => Self::MaxLevel1,
            QoS::Level2 => Self::MaxLevel2,
        }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Suback {
    pub pid: Pid,
    pub topics: Vec<SubscribeReturnCode>,
}
impl Suback {
    pub fn new(pid: Pid, topics: Vec<SubscribeReturnCode>) -> Self {
        Suback { pid, topics }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Unsubscribe {
    pub pid: Pid,
    pub topics: Vec<TopicFilter>,
}
impl Unsubscribe {
    pub fn new(pid: Pid, topics: Vec<TopicFilter>) -> Self {
        Unsubscribe { pid, topics }
    }
}

macro_rules! from_pkt { ($($t:ident),*) => { $(impl From<$t> for Packet { fn from(p: $t) -> Packet { Packet::$t(p) } })* } }
from_pkt!(Connect, Connack, Publish, Subscribe, Suback, Unsubscribe);

impl Packet {
    pub fn encode(&self) -> Result<VarBytes, Error> {
        let mut o = Vec::new();
        let typ = match self {
            Packet::Connect(c) => {
                let (level, name) = c.protocol.to_pair();
                wbytes(&mut o, name);
                o.push(level);
                let mut f = 0u8;
                if c.clean_session {
                    f |= 2;
                }
                if let Some(w) = &c.last_will {
                    f |= 4 | ((w.qos as u8) << 3) | if w.retain { 0x20 } else { 0 };
                }
                if c.username.is_some() {
                    f |= 0x80;
                }
                if c.password.is_some() {
                    f |= 0x40;
                }
                o.push(f);
                w16(&mut o, c.keep_alive);
                wbytes(&mut o, c.client_id.as_bytes());
                if let Some(w) = &c.last_will {
                    wbytes(&mut o, w.topic_name.as_bytes());
                    wbytes(&mut o, &w.message);
                }
                if let Some(u) = &c.username {
                    wbytes(&mut o, u.as_bytes());
                }
                if let Some(p) = &c.password {
                    wbytes(&mut o, p);
                }
                0x10
            }
            Packet::Connack(c) => {
                o.push(c.session_present as u8);
                o.push(c.code as u8);
                0x20
            }
            Packet::Publish(p) => {
                o = p.body();
                0x30 | if p.dup { 8 } else { 0 } | ((p.qos_pid.qos() as u8) << 1) | p.retain as u8
            }
            Packet::Puback(p) => { w16(&mut o, p.value()); 0x40 }
            Packet::Pubrec(p) => { w16(&mut o, p.value()); 0x50 }
            Packet::Pubrel(p) => { w16(&mut o, p.value()); 0x62 }
            Packet::Pubcomp(p) => { w16(&mut o, p.value()); 0x70 }
            Packet::Subscribe(s) => {
                w16(&mut o, s.pid.value());
                for (f, q) in &s.topics {
                    wbytes(&mut o, f.as_bytes());
                    o.push(*q as u8);
                }
                0x82
            }
            Packet::Suback(s) => {
                w16(&mut o, s.pid.value());
                o.extend(s.topics.iter().map(|c| *c as u8));
                0x90
            }
            Packet::Unsubscribe(s) => {
                w16(&mut o, s.pid.value());
                for f in &s.topics {
                    wbytes(&mut o, f.as_bytes());
                }
                0xA2
            }
            Packet::Unsuback(p) => { w16(&mut o, p.value()); 0xB0 }
            Packet::Pingreq => 0xC0,
            Packet::Pingresp => 0xD0,
            Packet::Disconnect => 0xE0,
        };
        finish(typ, o)
    }
    pub fn encode_len(&self) -> Result<usize, Error> {
        Ok(self.encode()?.as_ref().len())
    }
    pub async fn encode_async<T: AsyncWrite + Unpin>(&self, w: &mut T) -> Result<(), Error> {
        w.write_all(self.encode()?.as_ref()).await?;
        Ok(())
    }
    pub fn decode(d: &[u8]) -> Result<Option<Packet>, Error> {
        match split_packet(d)? {
            None => Ok(None),
            Some((hd, body, total)) => {
                let h = Header::new_with(hd, body.len() as u32, total as u32)?;
                Packet::decode_body(h, body).map(Some)
            }
        }
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(r: &mut T) -> Result<Packet, Error> {
        let (hd, remaining, total) = decode_raw_header_async(r).await?;
        let h = Header::new_with(hd, remaining, total as u32)?;
        let mut body = vec![0; remaining as usize];
        r.read_exact(&mut body).await?;
        Packet::decode_body(h, &body)
    }
    fn decode_body(h: Header, body: &[u8]) -> Result<Packet, Error> {
        let mut rd = Rd { d: body };
        let r = &mut rd;
        let pkt = match h.typ {
            PacketType::Connect => Packet::Connect(Connect::decode_body(r)?),
            PacketType::Connack => {
                let f = r.u8()?;
                if f > 1 {
                    return Err(Error::InvalidConnackFlags(f));
                }
                Packet::Connack(Connack { session_present: f == 1, code: ConnectReturnCode::from_u8(r.u8()?)? })
            }
            PacketType::Publish => {
                let topic_name = r.topic_name()?;
                let qos_pid = match h.qos {
                    QoS::Level0 => QosPid::Level0,
                    QoS::Level1 => QosPid::Level1(r.pid()?),
                    QoS::Level2 => QosPid::Level2(r.pid()?),
                };
                Packet::Publish(Publish { dup: h.dup, retain: h.retain, qos_pid, topic_name, payload: Bytes::copy_from_slice(r.rest()) })
            }
            PacketType::Puback => Packet::Puback(r.pid()?),
            PacketType::Pubrec => Packet::Pubrec(r.pid()?),
            PacketType::Pubrel => Packet::Pubrel(r.pid()?),
            PacketType::Pubcomp => Packet::Pubcomp(r.pid()?),
            PacketType::Subscribe => {
                let pid = r.pid()?;
                let mut topics = Vec::new();
                while !r.is_empty() {
                    let f = r.topic_filter()?;
                    topics.push((f, QoS::from_u8(r.u8()?)?));
                }
                if topics.is_empty() {
                    return Err(Error::EmptySubscription);
                }
                Packet::Subscribe(Subscribe { pid, topics })
            }
            PacketType::Suback => {
                let pid = r.pid()?;
                let topics = r.rest().iter().map(|b| SubscribeReturnCode::from_u8(*b)).collect::<Result<_, _>>()?;
                Packet::Suback(Suback { pid, topics })
            }
            PacketType::Unsubscribe => {
                let pid = r.pid()?;
                let mut topics = Vec::new();
                while !r.is_empty() {
                    topics.push(r.topic_filter()?);
                }
                if topics.is_empty() {
                    return Err(Error::EmptySubscription);
                }
                Packet::Unsubscribe(Unsubscribe { pid, topics })
            }
            PacketType::Unsuback => Packet::Unsuback(r.pid()?),
            PacketType::Pingreq => Packet::Pingreq,
            PacketType::Pingresp => Packet::Pingresp,
            PacketType::Disconnect => Packet::Disconnect,
        };
        if !rd.is_empty() {
            return Err(Error::InvalidRemainingLength);
        }
        Ok(pkt)
    }
}

use std::{hash::{Hash, Hasher}, sync::Arc};

use bytes::Bytes;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};

use crate::wire::*;
use crate::{Encodable, Error, GenericPollPacketState, Pid, PollHeader, Protocol, QoS, QosPid, TopicFilter, TopicName, VarBytes};

pub type PollPacketState = GenericPollPacketState<Header>;

#[derive(Debug, Clone, PartialEq, Eq, thiserror::Error)]
pub enum ErrorV5 {
    #[error("common error: {0}")]
    Common(Error),
    #[error("invalid property: {0}")]
    InvalidPropertyId(u8),
    #[error("duplicated property: {0}")]
    DuplicatedProperty(u8),
    #[error("invalid property value: {0}")]
    InvalidPropertyValue(u8),
    #[error("invalid property length")]
    InvalidPropertyLength(u32),
    #[error("invalid reason code: {0}")]
    InvalidReasonCode(u8),
    #[error("invalid subscription option: {0}")]
    InvalidSubscriptionOption(u8),
    #[error("invalid payload format, utf8 expected")]
    InvalidPayloadFormat,
}
impl From<Error> for ErrorV5 {
    fn from(e: Error) -> Self {
        ErrorV5::Common(e)
    }
}
impl From<std::io::Error> for ErrorV5 {
    fn from(e: std::io::Error) -> Self {
        ErrorV5::Common(e.into())
    }
}
impl From<ErrorV5> for std::io::Error {
    fn from(e: ErrorV5) -> Self {
        match e {
            ErrorV5::Common(e) => e.into(),
            _ => std::io::ErrorKind::InvalidData.into(),
        }
    }
}
type R<T> = Result<T, ErrorV5>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum PacketType {
    Connect = 1, Connack, Publish, Puback, Pubrec, Pubrel, Pubcomp, Subscribe, Suback, Unsubscribe,
    Unsuback, Pingreq, Pingresp, Disconnect, Auth,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Header {
    pub typ: PacketType,
    pub dup: bool,
    pub qos: QoS,
    pub retain: bool,
    pub remaining_len: u32,
    pub total_len: u32,
}
impl Header {
    pub fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> R<Header> {
        use PacketType::*;
        const TYPES: [PacketType; 15] = [
            Connect, Connack, Publish, Puback, Pubrec, Pubrel, Pubcomp, Subscribe, Suback, Unsubscribe,
            Unsuback, Pingreq, Pingresp, Disconnect, Auth,
        ];
        let t = (hd >> 4) as usize;
        if t == 0 {
            return Err(Error::InvalidHeader.into());
        }
        let typ = TYPES[t - 1];
        let flags = hd & 0x0F;
        let ok = match typ {
            Publish => true,
            Pubrel | Subscribe | Unsubscribe => flags == 2,
            _ => flags == 0,
        };
        if !ok {
            return Err(Error::InvalidHeader.into());
        }
        let (dup, qos, retain) = if typ == Publish {
            (flags & 8 != 0, QoS::from_u8((flags >> 1) & 3)?, flags & 1 != 0)
        } else {
            (false, QoS::Level0, false)
        };
        Ok(Header { typ, dup, qos, retain, remaining_len, total_len })
    }
}
impl PollHeader for Header {
    type Error = ErrorV5;
    type Packet = Packet;
    fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> R<Self> {
        Header::new_with(hd, remaining_len, total_len)
    }
    fn remaining_len(&self) -> usize {
        self.remaining_len as usize
    }
    fn block_decode(self, body: &[u8]) -> R<Packet> {
        Packet::decode_body(self, body)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct VarByteInt(u32);
impl VarByteInt {
    pub fn value(self) -> u32 {
        self.0
    }
}
impl TryFrom<u32> for VarByteInt {
    type Error = Error;
    fn try_from(v: u32) -> Result<Self, Error> {
        if v as usize > MAX_REMAINING_LEN { Err(Error::InvalidVarByteInt) } else { Ok(VarByteInt(v)) }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct UserProperty {
    pub name: Arc<str>,
    pub value: Arc<str>,
}

trait Prop: Sized {
    fn dec(r: &mut Rd, id: u8) -> R<Self>;
    fn enc(&self, o: &mut Vec<u8>);
}
impl Prop for bool {
    fn dec(r: &mut Rd, id: u8) -> R<Self> {
        match r.u8()? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(ErrorV5::InvalidPropertyValue(id)),
        }
    }
    fn enc(&self, o: &mut Vec<u8>) {
        o.push(*self as u8)
    }
}
impl Prop for QoS {
    fn dec(r: &mut Rd, id: u8) -> R<Self> {
        QoS::from_u8(r.u8()?).map_err(|_| ErrorV5::InvalidPropertyValue(id))
    }
    fn enc(&self, o: &mut Vec<u8>) {
        o.push(*self as u8)
    }
}
impl Prop for u16 {
    fn dec(r: &mut Rd, _: u8) -> R<Self> {
        Ok(r.u16()?)
    }
    fn enc(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.to_be_bytes())
    }
}
impl Prop for u32 {
    fn dec(r: &mut Rd, _: u8) -> R<Self> {
        Ok(r.u32()?)
    }
    fn enc(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.to_be_bytes())
    }
}
impl Prop for Arc<str> {
    fn dec(r: &mut Rd, _: u8) -> R<Self> {
        Ok(r.string()?)
    }
    fn enc(&self, o: &mut Vec<u8>) {
        wbytes(o, self.as_bytes())
    }
}
impl Prop for Bytes {
    fn dec(r: &mut Rd, _: u8) -> R<Self> {
        Ok(r.data()?)
    }
    fn enc(&self, o: &mut Vec<u8>) {
        wbytes(o, self)
    }
}
impl Prop for TopicName {
    fn dec(r: &mut Rd, _: u8) -> R<Self> {
        Ok(r.topic_name()?)
    }
    fn enc(&self, o: &mut Vec<u8>) {
        wbytes(o, self.as_bytes())
    }
}
impl Prop for VarByteInt {
    fn dec(r: &mut Rd, _: u8) -> R<Self> {
        Ok(VarByteInt(r.var_int()?))
    }
    fn enc(&self, o: &mut Vec<u8>) {
        write_var_int(o, self.0 as usize)
    }
}

macro_rules! props {
    ($name:ident { $($f:ident : $t:ty = $id:literal),* $(,)? } $(list $lf:ident : $lt:ty = $lid:literal)?) => {
        #[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
        pub struct $name {
            $(pub $f: Option<$t>,)*
            $(pub $lf: Vec<$lt>,)?
            pub user_properties: Vec<UserProperty>,
        }
        #[allow(unused_variables)]
        impl $name {
            fn enc_props(&self, o: &mut Vec<u8>) {
                let mut b = Vec::new();
                $(if let Some(v) = &self.$f { b.push($id); v.enc(&mut b); })*
                $(for v in &self.$lf { b.push($lid); v.enc(&mut b); })?
                for u in &self.user_properties {
                    b.push(0x26);
                    wbytes(&mut b, u.name.as_bytes());
                    wbytes(&mut b, u.value.as_bytes());
                }
                write_var_int(o, b.len());
                o.extend_from_slice(&b);
            }
            fn dec_props(r: &mut Rd) -> R<Self> {
                let n = r.var_int()? as usize;
                let mut p = Rd { d: r.take(n)? };
                let mut out = Self::default();
                while !p.is_empty() {
                    match p.u8()? {
                        $($id => {
                            let v = <$t as Prop>::dec(&mut p, $id)?;
                            if out.$f.replace(v).is_some() {
                                return Err(ErrorV5::DuplicatedProperty($id));
                            }
                        })*
                        $($lid => { let v = <$lt as Prop>::dec(&mut p, $lid)?; out.$lf.push(v); })?
                        0x26 => {
                            let name = p.string()?;
                            let value = p.string()?;
                            out.user_properties.push(UserProperty { name, value });
                        }
                        id => return Err(ErrorV5::InvalidPropertyId(id)),
                    }
                }
                Ok(out)
            }
            fn is_default(&self) -> bool {
                *self == Self::default()
            }
        }
    };
}

props!(ConnectProperties {
    session_expiry_interval: u32 = 0x11, receive_max: u16 = 0x21, max_packet_size: u32 = 0x27,
    topic_alias_max: u16 = 0x22, request_response_info: bool = 0x19, request_problem_info: bool = 0x17,
    auth_method: Arc<str> = 0x15, auth_data: Bytes = 0x16,
});
props!(WillProperties {
    delay_interval: u32 = 0x18, payload_is_utf8: bool = 0x01, message_expiry_interval: u32 = 0x02,
    content_type: Arc<str> = 0x03, response_topic: TopicName = 0x08, correlation_data: Bytes = 0x09,
});
props!(ConnackProperties {
    session_expiry_interval: u32 = 0x11, receive_max: u16 = 0x21, max_qos: QoS = 0x24, retain_available: bool = 0x25,
    max_packet_size: u32 = 0x27, assigned_client_id: Arc<str> = 0x12, topic_alias_max: u16 = 0x22,
    reason_string: Arc<str> = 0x1F, wildcard_subscription_available: bool = 0x28,
    subscription_id_available: bool = 0x29, shared_subscription_available: bool = 0x2A,
    server_keep_alive: u16 = 0x13, response_info: Arc<str> = 0x1A, server_reference: Arc<str> = 0x1C,
    auth_method: Arc<str> = 0x15, auth_data: Bytes = 0x16,
});
props!(PublishProperties {
    payload_is_utf8: bool = 0x01, message_expiry_interval: u32 = 0x02, topic_alias: u16 = 0x23,
    response_topic: TopicName = 0x08, correlation_data: Bytes = 0x09, content_type: Arc<str> = 0x03,
} list subscription_ids: VarByteInt = 0x0B);
props!(PubackProperties { reason_string: Arc<str> = 0x1F });
props!(PubrecProperties { reason_string: Arc<str> = 0x1F });
props!(PubrelProperties { reason_string: Arc<str> = 0x1F });
props!(PubcompProperties { reason_string: Arc<str> = 0x1F });
props!(SubscribeProperties { subscription_id: VarByteInt = 0x0B });
props!(SubackProperties { reason_string: Arc<str> = 0x1F });
props!(UnsubscribeProperties {});
props!(UnsubackProperties { reason_string: Arc<str> = 0x1F });
props!(DisconnectProperties { session_expiry_interval: u32 = 0x11, reason_string: Arc<str> = 0x1F, server_reference: Arc<str> = 0x1C });
props!(AuthProperties { auth_method: Arc<str> = 0x15, auth_data: Bytes = 0x16, reason_string: Arc<str> = 0x1F });

macro_rules! codes {
    ($name:ident { $($v:ident = $n:literal),* $(,)? }) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        #[repr(u8)]
        pub enum $name { $($v = $n),* }
        impl $name {
            pub fn from_u8(v: u8) -> Option<Self> {
                match v { $($n => Some(Self::$v),)* _ => None }
            }
            fn dec(r: &mut Rd) -> R<Self> {
                let v = r.u8()?;
                Self::from_u8(v).ok_or(ErrorV5::InvalidReasonCode(v))
            }
        }
    };
}
codes!(ConnectReasonCode {
    Success = 0x00, UnspecifiedError = 0x80, MalformedPacket = 0x81, ProtocolError = 0x82,
    ImplementationSpecificError = 0x83, UnsupportedProtocolVersion = 0x84, ClientIdentifierNotValid = 0x85,
    BadUserNameOrPassword = 0x86, NotAuthorized = 0x87, ServerUnavailable = 0x88, ServerBusy = 0x89, Banned = 0x8A,
    BadAuthMethod = 0x8C, TopicNameInvalid = 0x90, PacketTooLarge = 0x95, QuotaExceeded = 0x97,
    PayloadFormatInvalid = 0x99, RetainNotSupported = 0x9A, QoSNotSupported = 0x9B, UseAnotherServer = 0x9C,
    ServerMoved = 0x9D, ConnectionRateExceeded = 0x9F,
});
codes!(DisconnectReasonCode {
    NormalDisconnect = 0x00, DisconnectWithWillMessage = 0x04, UnspecifiedError = 0x80, MalformedPacket = 0x81,
    ProtocolError = 0x82, ImplementationSpecificError = 0x83, NotAuthorized = 0x87, ServerBusy = 0x89,
    ServerShuttingDown = 0x8B, KeepAliveTimeout = 0x8D, SessionTakenOver = 0x8E, TopicFilterInvalid = 0x8F,
    TopicNameInvalid = 0x90, ReceiveMaximumExceeded = 0x93, TopicAliasInvalid = 0x94, PacketTooLarge = 0x95,
    MessageRateTooHigh = 0x96, QuotaExceeded = 0x97, AdministrativeAction = 0x98, PayloadFormatInvalid = 0x99,
    RetainNotSupported = 0x9A, QoSNotSupported = 0x9B, UserAnotherServer = 0x9C, ServerMoved = 0x9D,
    SharedSubscriptionNotSupported = 0x9E, ConnectionRateExceeded = 0x9F, MaximumConnectTime = 0xA0,
    SubscriptionIdentifiersNotSupported = 0xA1, WildcardSubscriptionsNotSupported = 0xA2,
});
codes!(AuthReasonCode { Success = 0x00, ContinueAuthentication = 0x18, ReAuthentication = 0x19 });
codes!(PubackReasonCode {
    Success = 0x00, NoMatchingSubscribers = 0x10, UnspecifiedError = 0x80, ImplementationSpecificError = 0x83,
    NotAuthorized = 0x87, TopicNameInvalid = 0x90, PacketIdentifierInUse = 0x91, QuotaExceeded = 0x97,
    PayloadFormatInvalid = 0x99,
});
codes!(PubrecReasonCode {
    Success = 0x00, NoMatchingSubscribers = 0x10, UnspecifiedError = 0x80, ImplementationSpecificError = 0x83,
    NotAuthorized = 0x87, TopicNameInvalid = 0x90, PacketIdentifierInUse = 0x91, QuotaExceeded = 0x97,
    PayloadFormatInvalid = 0x99,
});
codes!(PubrelReasonCode { Success = 0x00, PacketIdentifierNotFound = 0x92 });
codes!(PubcompReasonCode { Success = 0x00, PacketIdentifierNotFound = 0x92 });
codes!(SubscribeReasonCode {
    GrantedQoS0 = 0x00, GrantedQoS1 = 0x01, GrantedQoS2 = 0x02, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicFilterInvalid = 0x8F,
    PacketIdentifierInUse = 0x91, QuotaExceeded = 0x97, SharedSubscriptionNotSupported = 0x9E,
    SubscriptionIdentifiersNotSupported = 0xA1, WildcardSubscriptionsNotSupported = 0xA2,
});
codes!(UnsubscribeReasonCode {
    Success = 0x00, NoSubscriptionExisted = 0x11, UnspecifiedError = 0x80, ImplementationSpecificError = 0x83,
    NotAuthorized = 0x87, TopicFilterInvalid = 0x8F, PacketIdentifierInUse = 0x91,
});

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Packet {
    Connect(Connect),
    Connack(Connack),
    Publish(Publish),
    Puback(Puback),
    Pubrec(Pubrec),
    Pubrel(Pubrel),
    Pubcomp(Pubcomp),
    Subscribe(Subscribe),
    Suback(Suback),
    Unsubscribe(Unsubscribe),
    Unsuback(Unsuback),
    Pingreq,
    Pingresp,
    Disconnect(Disconnect),
    Auth(Auth),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Connect {
    pub protocol: Protocol,
    pub clean_start: bool,
    pub keep_alive: u16,
    pub properties: ConnectProperties,
    pub client_id: Arc<str>,
    pub last_will: Option<LastWill>,
    pub username: Option<Arc<str>>,
    pub password: Option<Bytes>,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct LastWill {
    pub qos: QoS,
    pub retain: bool,
    pub topic_name: TopicName,
    pub payload: Bytes,
    pub properties: WillProperties,
}
impl LastWill {
    pub fn new(qos: QoS, topic_name: TopicName, payload: Bytes) -> Self {
        LastWill { qos, retain: false, topic_name, payload, properties: Default::default() }
    }
}
impl Connect {
    pub fn new(client_id: Arc<str>, keep_alive: u16) -> Self {
        Connect {
            protocol: Protocol::V500,
            clean_start: true,
            keep_alive,
            properties: Default::default(),
            client_id,
            last_will: None,
            username: None,
            password: None,
        }
    }
    /// The fixed header and the protocol name and level are already consumed.
    pub async fn decode_stream_with_protocol<T: AsyncRead + Unpin>(r: &mut T, header: Header, protocol: Protocol) -> R<Self> {
        if protocol != Protocol::V500 {
            return Err(Error::UnexpectedProtocol(protocol).into());
        }
        let used = 2 + protocol.to_pair().1.len() + 1;
        let rest = (header.remaining_len as usize).checked_sub(used).ok_or(Error::InvalidRemainingLength)?;
        let mut body = vec![0; rest];
        r.read_exact(&mut body).await?;
        let mut rd = Rd { d: &body };
        let c = Self::decode_rest(&mut rd, protocol)?;
        if !rd.is_empty() {
            return Err(Error::InvalidRemainingLength.into());
        }
        Ok(c)
    }
    fn decode_body(rd: &mut Rd) -> R<Self> {
        let name = rd.bytes()?;
        let protocol = Protocol::new(name, rd.u8()?)?;
        if protocol != Protocol::V500 {
            return Err(Error::UnexpectedProtocol(protocol).into());
        }
        Self::decode_rest(rd, protocol)
    }
    fn decode_rest(rd: &mut Rd, protocol: Protocol) -> R<Self> {
        let flags = rd.u8()?;
        if flags & 1 != 0 || (flags & 4 == 0 && flags & 0x38 != 0) || (flags >> 3) & 3 == 3 {
            return Err(Error::InvalidConnectFlags(flags).into());
        }
        let keep_alive = rd.u16()?;
        let properties = ConnectProperties::dec_props(rd)?;
        let client_id = rd.string()?;
        let last_will = if flags & 4 != 0 {
            let properties = WillProperties::dec_props(rd)?;
            let topic_name = rd.topic_name()?;
            let payload = rd.data()?;
            if properties.payload_is_utf8 == Some(true) && std::str::from_utf8(&payload).is_err() {
                return Err(ErrorV5::InvalidPayloadFormat);
            }
            Some(LastWill { qos: QoS::from_u8((flags >> 3) & 3)?, retain: flags & 0x20 != 0, topic_name, payload, properties })
        } else {
            None
        };
        let username = if flags & 0x80 != 0 { Some(rd.string()?) } else { None };
        let password = if flags & 0x40 != 0 { Some(rd.data()?) } else { None };
        Ok(Connect { protocol, clean_start: flags & 2 != 0, keep_alive, properties, client_id, last_will, username, password })
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Connack {
    pub session_present: bool,
    pub reason_code: ConnectReasonCode,
    pub properties: ConnackProperties,
}
impl Connack {
    pub fn new(session_present: bool, reason_code: ConnectReasonCode) -> Self {
        Connack { session_present, reason_code, properties: Default::default() }
    }
}

/// The digest used to recognise a retransmission does not cover the DUP flag.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Publish {
    pub dup: bool,
    pub retain: bool,
    pub qos_pid: QosPid,
    pub topic_name: TopicName,
    pub payload: Bytes,
    pub properties: PublishProperties,
}
impl Hash for Publish {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.retain.hash(h);
        self.qos_pid.hash(h);
        self.topic_name.hash(h);
        self.payload.hash(h);
        self.properties.hash(h);
    }
}
impl Publish {
    pub fn new(qos_pid: QosPid, topic_name: TopicName, payload: Bytes) -> Self {
        Publish { dup: false, retain: false, qos_pid, topic_name, payload, properties: Default::default() }
    }
    fn body(&self) -> Vec<u8> {
        let mut o = Vec::new();
        wbytes(&mut o, self.topic_name.as_bytes());
        if let Some(pid) = self.qos_pid.pid() {
            w16(&mut o, pid.value());
        }
        self.properties.enc_props(&mut o);
        o.extend_from_slice(&self.payload);
        o
    }
}
impl Encodable for Publish {
    fn encode<W: std::io::Write>(&self, w: &mut W) -> std::io::Result<()> {
        w.write_all(&self.body())
    }
    fn encode_len(&self) -> usize {
        self.body().len()
    }
}

macro_rules! ack {
    ($name:ident, $code:ident, $props:ident) => {
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub struct $name {
            pub pid: Pid,
            pub reason_code: $code,
            pub properties: $props,
        }
        impl $name {
            pub fn new(pid: Pid, reason_code: $code) -> Self {
                $name { pid, reason_code, properties: Default::default() }
            }
            pub fn new_success(pid: Pid) -> Self {
                Self::new(pid, $code::Success)
            }
            fn enc(&self, o: &mut Vec<u8>) {
                w16(o, self.pid.value());
                if !self.properties.is_default() {
                    o.push(self.reason_code as u8);
                    self.properties.enc_props(o);
                } else if self.reason_code != $code::Success {
                    o.push(self.reason_code as u8);
                }
            }
            fn dec(r: &mut Rd) -> R<Self> {
                let pid = r.pid()?;
                let reason_code = if r.is_empty() { $code::Success } else { $code::dec(r)? };
                let properties = if r.is_empty() { Default::default() } else { $props::dec_props(r)? };
                Ok($name { pid, reason_code, properties })
            }
        }
    };
}
ack!(Puback, PubackReasonCode, PubackProperties);
ack!(Pubrec, PubrecReasonCode, PubrecProperties);
ack!(Pubrel, PubrelReasonCode, PubrelProperties);
ack!(Pubcomp, PubcompReasonCode, PubcompProperties);

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum RetainHandling {
    SendAtSubscribe = 0,
    SendAtSubscribeIfNotExist = 1,
    DoNotSend = 2,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct SubscriptionOptions {
    pub max_qos: QoS,
    pub no_local: bool,
    pub retain_as_published: bool,
    pub retain_handling: RetainHandling,
}
impl SubscriptionOptions {
    pub fn new(max_qos: QoS) -> Self {
        SubscriptionOptions {
            max_qos,
            no_local: false,
            retain_as_published: true,
            retain_handling: RetainHandling::SendAtSubscribe,
        }
    }
    pub fn to_u8(&self) -> u8 {
        self.max_qos as u8
            | (self.no_local as u8) << 2
            | (self.retain_as_published as u8) << 3
            | (self.retain_handling as u8) << 4
    }
    pub fn from_u8(v: u8) -> R<Self> {
        let e = ErrorV5::InvalidSubscriptionOption(v);
        if v & 0xC0 != 0 {
            return Err(e);
        }
        Ok(SubscriptionOptions {
            max_qos: QoS::from_u8(v & 3).map_err(|_| e.clone())?,
            no_local: v & 4 != 0,
            retain_as_published: v & 8 != 0,
            retain_handling: match (v >> 4) & 3 {
                0 => RetainHandling::SendAtSubscribe,
                1 => RetainHandling::SendAtSubscribeIfNotExist,
                2 => RetainHandling::DoNotSend,
                _ => return Err(e),
            },
        })
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Subscribe {
    pub pid: Pid,
    pub properties: SubscribeProperties,
    pub topics: Vec<(TopicFilter, SubscriptionOptions)>,
}
impl Subscribe {
    pub fn new(pid: Pid, topics: Vec<(TopicFilter, SubscriptionOptions)>) -> Self {
        Subscribe { pid, properties: Default::default(), topics }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Suback {
    pub pid: Pid,
    pub properties: SubackProperties,
    pub topics: Vec<SubscribeReasonCode>,
}
impl Suback {
    pub fn new(pid: Pid, topics: Vec<SubscribeReasonCode>) -> Self {
        Suback { pid, properties: Default::default(), topics }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Unsubscribe {
    pub pid: Pid,
    pub properties: UnsubscribeProperties,
    pub topics: Vec<TopicFilter>,
}
impl Unsubscribe {
    pub fn new(pid: Pid, topics: Vec<TopicFilter>) -> Self {
        Unsubscribe { pid, properties: Default::default(), topics }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Unsuback {
    pub pid: Pid,
    pub properties: UnsubackProperties,
    pub topics: Vec<UnsubscribeReasonCode>,
}
impl Unsuback {
    pub fn new(pid: Pid, topics: Vec<UnsubscribeReasonCode>) -> Self {
        Unsuback { pid, properties: Default::default(), topics }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Disconnect {
    pub reason_code: DisconnectReasonCode,
    pub properties: DisconnectProperties,
}
impl Disconnect {
    pub fn new(reason_code: DisconnectReasonCode) -> Self {
        Disconnect { reason_code, properties: Default::default() }
    }
    pub fn new_normal() -> Self {
        Self::new(DisconnectReasonCode::NormalDisconnect)
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Auth {
    pub reason_code: AuthReasonCode,
    pub properties: AuthProperties,
}
impl Auth {
    pub fn new(reason_code: AuthReasonCode) -> Self {
        Auth { reason_code, properties: Default::default() }
    }
    pub fn new_success() -> Self {
        Self::new(AuthReasonCode::Success)
    }
}

macro_rules! from_pkt { ($($t:ident),*) => { $(impl From<$t> for Packet { fn from(p: $t) -> Packet { Packet::$t(p) } })* } }
from_pkt!(Connect, Connack, Publish, Puback, Pubrec, Pubrel, Pubcomp, Subscribe, Suback, Unsubscribe, Unsuback, Disconnect, Auth);

impl Packet {
    pub fn encode(&self) -> R<VarBytes> {
        let mut o = Vec::new();
        let typ = match self {
            Packet::Connect(c) => {
                let (level, name) = c.protocol.to_pair();
                wbytes(&mut o, name);
                o.push(level);
                let mut f = 0u8;
                if c.clean_start {
                    f |= 2;
                }
                if let Some(w) = &c.last_will {
                    f |= 4 | ((w.qos as u8) << 3) | if w.retain { 0x20 } else { 0 };
                }
                if c.username.is_some() {
                    f |= 0x80;
                }
                if c.password.is_some() {
                    f |= 0x40;
                }
                o.push(f);
                w16(&mut o, c.keep_alive);
                c.properties.enc_props(&mut o);
                wbytes(&mut o, c.client_id.as_bytes());
                if let Some(w) = &c.last_will {
                    w.properties.enc_props(&mut o);
                    wbytes(&mut o, w.topic_name.as_bytes());
                    wbytes(&mut o, &w.payload);
                }
                if let Some(u) = &c.username {
                    wbytes(&mut o, u.as_bytes());
                }
                if let Some(p) = &c.password {
                    wbytes(&mut o, p);
                }
                0x10
            }
            Packet::Connack(c) => {
                o.push(c.session_present as u8);
                o.push(c.reason_code as u8);
                c.properties.enc_props(&mut o);
                0x20
            }
            Packet::Publish(p) => {
                o = p.body();
                0x30 | if p.dup { 8 } else { 0 } | ((p.qos_pid.qos() as u8) << 1) | p.retain as u8
            }
            Packet::Puback(p) => { p.enc(&mut o); 0x40 }
            Packet::Pubrec(p) => { p.enc(&mut o); 0x50 }
            Packet::Pubrel(p) => { p.enc(&mut o); 0x62 }
            Packet::Pubcomp(p) => { p.enc(&mut o); 0x70 }
            Packet::Subscribe(s) => {
                w16(&mut o, s.pid.value());
                s.properties.enc_props(&mut o);
                for (f, q) in &s.topics {
                    wbytes(&mut o, f.as_bytes());
                    o.push(q.to_u8());
                }
                0x82
            }
            Packet::Suback(s) => {
                w16(&mut o, s.pid.value());
                s.properties.enc_props(&mut o);
                o.extend(s.topics.iter().map(|c| *c as u8));
                0x90
            }
            Packet::Unsubscribe(s) => {
                w16(&mut o, s.pid.value());
                s.properties.enc_props(&mut o);
                for f in &s.topics {
                    wbytes(&mut o, f.as_bytes());
                }
                0xA2
            }
            Packet::Unsuback(s) => {
                w16(&mut o, s.pid.value());
                s.properties.enc_props(&mut o);
                o.extend(s.topics.iter().map(|c| *c as u8));
                0xB0
            }
            Packet::Pingreq => 0xC0,
            Packet::Pingresp => 0xD0,
            Packet::Disconnect(d) => {
                if !d.properties.is_default() {
                    o.push(d.reason_code as u8);
                    d.properties.enc_props(&mut o);
                } else if d.reason_code != DisconnectReasonCode::NormalDisconnect {
                    o.push(d.reason_code as u8);
                }
                0xE0
            }
            Packet::Auth(a) => {
                if !a.properties.is_default() || a.reason_code != AuthReasonCode::Success {
                    o.push(a.reason_code as u8);
                    a.properties.enc_props(&mut o);
                }
                0xF0
            }
        };
        Ok(finish(typ, o)?)
    }
    pub fn encode_len(&self) -> R<usize> {
        Ok(self.encode()?.as_ref().len())
    }
    pub async fn encode_async<T: AsyncWrite + Unpin>(&self, w: &mut T) -> R<()> {
        w.write_all(self.encode()?.as_ref()).await?;
        Ok(())
    }
    pub fn decode(d: &[u8]) -> R<Option<Packet>> {
        match split_packet(d)? {
            None => Ok(None),
            Some((hd, body, total)) => {
                let h = Header::new_with(hd, body.len() as u32, total as u32)?;
                Packet::decode_body(h, body).map(Some)
            }
        }
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(r: &mut T) -> R<Packet> {
        let (hd, remaining, total) = decode_raw_header_async(r).await?;
        let h = Header::new_with(hd, remaining, total as u32)?;
        let mut body = vec![0; remaining as usize];
        r.read_exact(&mut body).await?;
        Packet::decode_body(h, &body)
    }
    fn decode_body(h: Header, body: &[u8]) -> R<Packet> {
        let mut rd = Rd { d: body };
        let r = &mut rd;
        let pkt = match h.typ {
            PacketType::Connect => Packet::Connect(Connect::decode_body(r)?),
            PacketType::Connack => {
                let f = r.u8()?;
                if f > 1 {
                    return Err(Error::InvalidConnackFlags(f).into());
                }
                Packet::Connack(Connack {
                    session_present: f == 1,
                    reason_code: ConnectReasonCode::dec(r)?,
                    properties: ConnackProperties::dec_props(r)?,
                })
            }
            PacketType::Publish => {
                let topic_name = r.topic_name()?;
                let qos_pid = match h.qos {
                    QoS::Level0 => QosPid::Level0,
                    QoS::Level1 => QosPid::Level1(r.pid()?),
                    QoS::Level2 => QosPid::Level2(r.pid()?),
                };
                let properties = PublishProperties::dec_props(r)?;
                let payload = Bytes::copy_from_slice(r.rest());
                if properties.payload_is_utf8 == Some(true) && std::str::from_utf8(&payload).is_err() {
                    return Err(ErrorV5::InvalidPayloadFormat);
                }
                Packet::Publish(Publish { dup: h.dup, retain: h.retain, qos_pid, topic_name, payload, properties })
            }
            PacketType::Puback => Packet::Puback(Puback::dec(r)?),
            PacketType::Pubrec => Packet::Pubrec(Pubrec::dec(r)?),
            PacketType::Pubrel => Packet::Pubrel(Pubrel::dec(r)?),
            PacketType::Pubcomp => Packet::Pubcomp(Pubcomp::dec(r)?),
            PacketType::Subscribe => {
                let pid = r.pid()?;
                let properties = SubscribeProperties::dec_props(r)?;
                let mut topics = Vec::new();
                while !r.is_empty() {
                    let f = r.topic_filter()?;
                    topics.push((f, SubscriptionOptions::from_u8(r.u8()?)?));
                }
                if topics.is_empty() {
                    return Err(Error::EmptySubscription.into());
                }
                Packet::Subscribe(Subscribe { pid, properties, topics })
            }
            PacketType::Suback => {
                let pid = r.pid()?;
                let properties = SubackProperties::dec_props(r)?;
                let mut topics = Vec::new();
                while !r.is_empty() {
                    topics.push(SubscribeReasonCode::dec(r)?);
                }
                Packet::Suback(Suback { pid, properties, topics })
            }
            PacketType::Unsubscribe => {
                let pid = r.pid()?;
                let properties = UnsubscribeProperties::dec_props(r)?;
                let mut topics = Vec::new();
                while !r.is_empty() {
                    topics.push(r.topic_filter()?);
                }
                if topics.is_empty() {
                    return Err(Error::EmptySubscription.into());
                }
                Packet::Unsubscribe(Unsubscribe { pid, properties, topics })
            }
            PacketType::Unsuback => {
                let pid = r.pid()?;
                let properties = UnsubackProperties::dec_props(r)?;
                let mut topics = Vec::new();
                while !r.is_empty() {
                    topics.push(UnsubscribeReasonCode::dec(r)?);
                }
                Packet::Unsuback(Unsuback { pid, properties, topics })
            }
            PacketType::Pingreq => Packet::Pingreq,
            PacketType::Pingresp => Packet::Pingresp,
            PacketType::Disconnect => {
                let reason_code = if r.is_empty() { DisconnectReasonCode::NormalDisconnect } else { DisconnectReasonCode::dec(r)? };
                let properties = if r.is_empty() { Default::default() } else { DisconnectProperties::dec_props(r)? };
                Packet::Disconnect(Disconnect { reason_code, properties })
            }
            PacketType::Auth => {
                if r.is_empty() {
                    Packet::Auth(Auth::new_success())
                } else {
                    let reason_code = AuthReasonCode::dec(r)?;
                    let properties = if r.is_empty() { Default::default() } else { AuthProperties::dec_props(r)? };
                    Packet::Auth(Auth { reason_code, properties })
                }
            }
        };
        if !rd.is_empty() {
            return Err(Error::InvalidRemainingLength.into());
        }
        Ok(pkt)
    }
}

use std::{fmt, io, ops::Deref, sync::Arc};

pub use std::io::ErrorKind as IoErrorKind;

pub const LEVEL_SEP: char = '/';
pub const MATCH_ALL_CHAR: char = '#';
pub const MATCH_ONE_CHAR: char = '+';
pub const MATCH_ALL_STR: &str = "#";
pub const MATCH_ONE_STR: &str = "+";
pub const MATCH_DOLLAR_STR: &str = "$";
pub const MATCH_DOLLAR_CHAR: char = '$';
pub const SHARED_PREFIX: &str = "$share/";
pub const SYS_PREFIX: &str = "$SYS/";

#[derive(Debug, Clone, PartialEq, Eq, thiserror::Error)]
pub enum Error {
    #[error("read zero")]
    ReadZero,
    #[error("invalid remaining length")]
    InvalidRemainingLength,
    #[error("invalid header")]
    InvalidHeader,
    #[error("invalid variable byte integer")]
    InvalidVarByteInt,
    #[error("invalid QoS: {0}")]
    InvalidQos(u8),
    #[error("invalid connect flags: {0}")]
    InvalidConnectFlags(u8),
    #[error("invalid connack flags: {0}")]
    InvalidConnackFlags(u8),
    #[error("invalid connect return code: {0}")]
    InvalidConnectReturnCode(u8),
    #[error("invalid protocol: {0}, {1}")]
    InvalidProtocol(String, u8),
    #[error("unexpected protocol: {0}")]
    UnexpectedProtocol(Protocol),
    #[error("invalid topic name: {0}")]
    InvalidTopicName(String),
    #[error("invalid topic filter: {0}")]
    InvalidTopicFilter(String),
    #[error("packet identifier is 0")]
    ZeroPid,
    #[error("empty subscription")]
    EmptySubscription,
    #[error("invalid string")]
    InvalidString,
    #[error("invalid property")]
    InvalidProperty,
    #[error("io error: {0:?}")]
    IoError(IoErrorKind),
}

impl Error {
    pub fn is_eof(&self) -> bool {
        matches!(self, Error::IoError(IoErrorKind::UnexpectedEof))
    }
}
impl From<io::Error> for Error {
    fn from(e: io::Error) -> Error {
        Error::IoError(e.kind())
    }
}
impl From<Error> for io::Error {
    fn from(e: Error) -> io::Error {
        match e {
            Error::IoError(kind) => kind.into(),
            _ => io::ErrorKind::InvalidData.into(),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum Protocol {
    V310 = 3,
    V311 = 4,
    V500 = 5,
}
impl fmt::Display for Protocol {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            Protocol::V310 => "v3.1",
            Protocol::V311 => "v3.1.1",
            Protocol::V500 => "v5.0",
        })
    }
}
impl Protocol {
    pub fn new(name: &[u8], level: u8) -> Result<Protocol, Error> {
        match (name, level) {
            (b"MQIsdp", 3) => Ok(Protocol::V310),
            (b"MQTT", 4) => Ok(Protocol::V311),
            (b"MQTT", 5) => Ok(Protocol::V500),
            _ => Err(Error::InvalidProtocol(String::from_utf8_lossy(name).into_owned(), level)),
        }
    }
    pub fn to_pair(self) -> (u8, &'static [u8]) {
        match self {
            Protocol::V310 => (3, b"MQIsdp"),
            Protocol::V311 => (4, b"MQTT"),
            Protocol::V500 => (5, b"MQTT"),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(u8)]
pub enum QoS {
    #[default]
    Level0 = 0,
    Level1 = 1,
    Level2 = 2,
}
impl QoS {
    pub fn from_u8(v: u8) -> Result<QoS, Error> {
        match v {
            0 => Ok(QoS::Level0),
            1 => Ok(QoS::Level1),
            2 => Ok(QoS::Level2),
            n => Err(Error::InvalidQos(n)),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum QosPid {
    Level0,
    Level1(Pid),
    Level2(Pid),
}
impl QosPid {
    pub fn pid(self) -> Option<Pid> {
        match self {
            QosPid::Level0 => None,
            QosPid::Level1(p) | QosPid::Level2(p) => Some(p),
        }
    }
    pub fn qos(self) -> QoS {
        match self {
            QosPid::Level0 => QoS::Level0,
            QosPid::Level1(_) => QoS::Level1,
            QosPid::Level2(_) => QoS::Level2,
        }
    }
}

/// Packet identifier, never 0; arithmetic wraps around 0.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Pid(u16);
impl Default for Pid {
    fn default() -> Pid {
        Pid(1)
    }
}
impl Pid {
    pub fn value(self) -> u16 {
        self.0
    }
}
impl TryFrom<u16> for Pid {
    type Error = Error;
    fn try_from(v: u16) -> Result<Pid, Error> {
        if v == 0 { Err(Error::ZeroPid) } else { Ok(Pid(v)) }
    }
}
impl std::ops::Add<u16> for Pid {
    type Output = Pid;
    fn add(self, u: u16) -> Pid {
        let n = match self.0.overflowing_add(u) {
            (n, false) => n,
            (n, true) => n + 1,
        };
        Pid(n)
    }
}
impl std::ops::AddAssign<u16> for Pid {
    fn add_assign(&mut self, u: u16) {
        *self = *self + u;
    }
}
impl std::ops::Sub<u16> for Pid {
    type Output = Pid;
    fn sub(self, u: u16) -> Pid {
        let n = match self.0 {
            0 => unreachable!(),
            n if n > u => n - u,
            n => u16::MAX - u + n,
        };
        Pid(n)
    }
}
impl std::ops::SubAssign<u16> for Pid {
    fn sub_assign(&mut self, u: u16) {
        *self = *self - u;
    }
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TopicName(Arc<str>);
impl TopicName {
    pub fn is_invalid(s: &str) -> bool {
        s.len() > u16::MAX as usize || s.contains(['+', '#', '\0'])
    }
    pub fn is_shared(&self) -> bool {
        self.0.starts_with(SHARED_PREFIX)
    }
    pub fn is_sys(&self) -> bool {
        self.0.starts_with(SYS_PREFIX)
    }
}
impl Deref for TopicName {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for TopicName {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl TryFrom<String> for TopicName {
    type Error = Error;
    fn try_from(s: String) -> Result<Self, Error> {
        if Self::is_invalid(&s) { Err(Error::InvalidTopicName(s)) } else { Ok(TopicName(s.into())) }
    }
}
impl TryFrom<Arc<str>> for TopicName {
    type Error = Error;
    fn try_from(s: Arc<str>) -> Result<Self, Error> {
        if Self::is_invalid(&s) { Err(Error::InvalidTopicName(s.to_string())) } else { Ok(TopicName(s)) }
    }
}
impl TryFrom<&str> for TopicName {
    type Error = Error;
    fn try_from(s: &str) -> Result<Self, Error> {
        TopicName::try_from(s.to_owned())
    }
}

#[derive(Debug, Clone)]
pub struct TopicFilter {
    inner: Arc<str>,
    shared_filter_sep: u16,
}
impl TopicFilter {
    /// Err(()) when invalid, else the byte index of the '/' that ends the share name (0: not shared).
    fn check(s: &str) -> Result<u16, ()> {
        if s.is_empty() || s.len() > u16::MAX as usize || s.contains('\0') {
            return Err(());
        }
        let mut sep = 0;
        let body = if let Some(rest) = s.strip_prefix(SHARED_PREFIX) {
            let (name, filter) = rest.split_once('/').ok_or(())?;
            if name.is_empty() || name.contains(['+', '#']) || filter.is_empty() {
                return Err(());
            }
            sep = SHARED_PREFIX.len() + name.len();
            filter
        } else if s == "$share" {
            return Err(());
        } else {
            s
        };
        let levels: Vec<&str> = body.split('/').collect();
        for (i, l) in levels.iter().enumerate() {
            if l.contains('#') && (*l != "#" || i + 1 != levels.len()) {
                return Err(());
            }
            if l.contains('+') && *l != "+" {
                return Err(());
            }
        }
        Ok(sep as u16)
    }
    pub fn is_invalid(s: &str) -> bool {
        Self::check(s).is_err()
    }
    pub fn is_shared(&self) -> bool {
        self.shared_filter_sep > 0
    }
    pub fn is_sys(&self) -> bool {
        self.inner.starts_with(SYS_PREFIX)
    }
    pub fn shared_group_name(&self) -> Option<&str> {
        self.shared_info().map(|i| i.0)
    }
    pub fn shared_filter(&self) -> Option<&str> {
        self.shared_info().map(|i| i.1)
    }
    pub fn shared_info(&self) -> Option<(&str, &str)> {
        if self.is_shared() {
            let sep = self.shared_filter_sep as usize;
            Some((&self.inner[SHARED_PREFIX.len()..sep], &self.inner[sep + 1..]))
        } else {
            None
        }
    }
}
impl PartialEq for TopicFilter {
    fn eq(&self, o: &Self) -> bool {
        self.inner == o.inner
    }
}
impl Eq for TopicFilter {}
impl PartialOrd for TopicFilter {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TopicFilter {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.inner.cmp(&o.inner)
    }
}
impl std::hash::Hash for TopicFilter {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.inner.hash(h)
    }
}
impl Deref for TopicFilter {
    type Target = str;
    fn deref(&self) -> &str {
        &self.inner
    }
}
impl fmt::Display for TopicFilter {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.inner)
    }
}
impl TryFrom<String> for TopicFilter {
    type Error = Error;
    fn try_from(s: String) -> Result<Self, Error> {
        match Self::check(&s) {
            Ok(sep) => Ok(TopicFilter { inner: s.into(), shared_filter_sep: sep }),
            Err(()) => Err(Error::InvalidTopicFilter(s)),
        }
    }
}
impl TryFrom<Arc<str>> for TopicFilter {
    type Error = Error;
    fn try_from(s: Arc<str>) -> Result<Self, Error> {
        TopicFilter::try_from(s.to_string())
    }
}
impl TryFrom<&str> for TopicFilter {
    type Error = Error;
    fn try_from(s: &str) -> Result<Self, Error> {
        TopicFilter::try_from(s.to_owned())
    }
}

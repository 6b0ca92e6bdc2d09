use std::sync::Arc;

use bytes::Bytes;
use tokio::io::{AsyncRead, AsyncReadExt};

use crate::{Error, Pid, Protocol, TopicFilter, TopicName};

pub const MAX_REMAINING_LEN: usize = 268_435_455;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum VarBytes {
    Dynamic(Vec<u8>),
    Fixed2([u8; 2]),
    Fixed4([u8; 4]),
}
impl AsRef<[u8]> for VarBytes {
    fn as_ref(&self) -> &[u8] {
        match self {
            VarBytes::Dynamic(v) => v,
            VarBytes::Fixed2(v) => v,
            VarBytes::Fixed4(v) => v,
        }
    }
}

pub trait Encodable {
    fn encode<W: std::io::Write>(&self, writer: &mut W) -> std::io::Result<()>;
    fn encode_len(&self) -> usize;
}

/// Total packet length from the remaining length.
pub fn total_len(remaining_len: usize) -> Result<usize, Error> {
    Ok(match remaining_len {
        0..=127 => 2 + remaining_len,
        128..=16383 => 3 + remaining_len,
        16384..=2097151 => 4 + remaining_len,
        2097152..=MAX_REMAINING_LEN => 5 + remaining_len,
        _ => return Err(Error::InvalidVarByteInt),
    })
}
pub fn var_int_len(v: usize) -> Result<usize, Error> {
    Ok(match v {
        0..=127 => 1,
        128..=16383 => 2,
        16384..=2097151 => 3,
        2097152..=MAX_REMAINING_LEN => 4,
        _ => return Err(Error::InvalidVarByteInt),
    })
}
pub fn write_var_int(out: &mut Vec<u8>, mut v: usize) {
    loop {
        let mut b = (v % 128) as u8;
        v /= 128;
        if v > 0 {
            b |= 128;
        }
        out.push(b);
        if v == 0 {
            break;
        }
    }
}

pub async fn decode_var_int_async<T: AsyncRead + Unpin>(r: &mut T) -> Result<(u32, usize), Error> {
    let mut v: u32 = 0;
    for i in 0..4 {
        let b = r.read_u8().await?;
        v |= ((b & 0x7F) as u32) << (7 * i);
        if b & 0x80 == 0 {
            return Ok((v, i + 1));
        }
    }
    Err(Error::InvalidVarByteInt)
}

/// (first byte, remaining length, total packet length)
pub async fn decode_raw_header_async<T: AsyncRead + Unpin>(r: &mut T) -> Result<(u8, u32, usize), Error> {
    let typ = r.read_u8().await?;
    let (remaining, n) = decode_var_int_async(r).await?;
    Ok((typ, remaining, 1 + n + remaining as usize))
}

pub async fn read_bytes_async<T: AsyncRead + Unpin>(r: &mut T) -> Result<Vec<u8>, Error> {
    let len = r.read_u16().await? as usize;
    let mut v = vec![0; len];
    r.read_exact(&mut v).await?;
    Ok(v)
}
pub async fn read_string_async<T: AsyncRead + Unpin>(r: &mut T) -> Result<String, Error> {
    String::from_utf8(read_bytes_async(r).await?).map_err(|_| Error::InvalidString)
}

impl Protocol {
    pub async fn decode_async<T: AsyncRead + Unpin>(r: &mut T) -> Result<Protocol, Error> {
        let name = read_bytes_async(r).await?;
        let level = r.read_u8().await?;
        Protocol::new(&name, level)
    }
}

/// Reader over a complete packet body.
pub struct Rd<'a> {
    pub d: &'a [u8],
}
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], Error> {
        if self.d.len() < n {
            return Err(Error::InvalidRemainingLength);
        }
        let (a, b) = self.d.split_at(n);
        self.d = b;
        Ok(a)
    }
    pub fn u8(&mut self) -> Result<u8, Error> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> Result<u16, Error> {
        let b = self.take(2)?;
        Ok(u16::from_be_bytes([b[0], b[1]]))
    }
    pub fn u32(&mut self) -> Result<u32, Error> {
        let b = self.take(4)?;
        Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    pub fn bytes(&mut self) -> Result<&'a [u8], Error> {
        let n = self.u16()? as usize;
        self.take(n)
    }
    pub fn data(&mut self) -> Result<Bytes, Error> {
        Ok(Bytes::copy_from_slice(self.bytes()?))
    }
    pub fn string(&mut self) -> Result<Arc<str>, Error> {
        std::str::from_utf8(self.bytes()?).map(Arc::from).map_err(|_| Error::InvalidString)
    }
    pub fn topic_name(&mut self) -> Result<TopicName, Error> {
        TopicName::try_from(self.string()?)
    }
    pub fn topic_filter(&mut self) -> Result<TopicFilter, Error> {
        TopicFilter::try_from(self.string()?)
    }
    pub fn pid(&mut self) -> Result<Pid, Error> {
        Pid::try_from(self.u16()?)
    }
    pub fn var_int(&mut self) -> Result<u32, Error> {
        let mut v: u32 = 0;
        for i in 0..4 {
            let b = self.u8()?;
            v |= ((b & 0x7F) as u32) << (7 * i);
            if b & 0x80 == 0 {
                return Ok(v);
            }
        }
        Err(Error::InvalidVarByteInt)
    }
    pub fn rest(&mut self) -> &'a [u8] {
        std::mem::take(&mut self.d)
    }
    pub fn is_empty(&self) -> bool {
        self.d.is_empty()
    }
}

pub fn w16(out: &mut Vec<u8>, v: u16) {
    out.extend_from_slice(&v.to_be_bytes());
}
pub fn wbytes(out: &mut Vec<u8>, v: &[u8]) {
    w16(out, v.len() as u16);
    out.extend_from_slice(v);
}

pub fn finish(typ: u8, body: Vec<u8>) -> Result<VarBytes, Error> {
    let total = total_len(body.len())?;
    if total == 2 {
        return Ok(VarBytes::Fixed2([typ, 0]));
    }
    let mut out = Vec::with_capacity(total);
    out.push(typ);
    write_var_int(&mut out, body.len());
    out.extend_from_slice(&body);
    if total == 4 {
        return Ok(VarBytes::Fixed4([out[0], out[1], out[2], out[3]]));
    }
    Ok(VarBytes::Dynamic(out))
}

/// Split a complete packet off the front: (first byte, body, total length).
pub fn split_packet(d: &[u8]) -> Result<Option<(u8, &[u8], usize)>, Error> {
    if d.is_empty() {
        return Ok(None);
    }
    let (mut v, mut i) = (0usize, 0);
    loop {
        let Some(b) = d.get(1 + i) else { return Ok(None) };
        v |= ((b & 0x7F) as usize) << (7 * i);
        i += 1;
        if b & 0x80 == 0 {
            break;
        }
        if i == 4 {
            return Err(Error::InvalidVarByteInt);
        }
    }
    if d.len() < 1 + i + v {
        return Ok(None);
    }
    Ok(Some((d[0], &d[1 + i..1 + i + v], 1 + i + v)))
}

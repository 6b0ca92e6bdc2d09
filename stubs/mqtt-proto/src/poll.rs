use std::{
    fmt::Debug,
    future::Future,
    mem::MaybeUninit,
    pin::Pin,
    task::{Context, Poll},
};

use tokio::io::{AsyncRead, ReadBuf};

use crate::Error;

pub trait PollHeader: Sized {
    type Error;
    type Packet;
    fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> Result<Self, Self::Error>;
    fn remaining_len(&self) -> usize;
    fn block_decode(self, body: &[u8]) -> Result<Self::Packet, Self::Error>;
}

#[derive(Debug, Clone)]
pub struct GenericPollPacketState<H> {
    head: [u8; 5],
    head_len: usize,
    header: Option<H>,
    body: Vec<u8>,
    body_len: usize,
}
impl<H> Default for GenericPollPacketState<H> {
    fn default() -> Self {
        GenericPollPacketState { head: [0; 5], head_len: 0, header: None, body: Vec::new(), body_len: 0 }
    }
}

pub struct GenericPollPacket<'a, T, H> {
    state: &'a mut GenericPollPacketState<H>,
    reader: &'a mut T,
}
impl<'a, T, H> GenericPollPacket<'a, T, H> {
    pub fn new(state: &'a mut GenericPollPacketState<H>, reader: &'a mut T) -> Self {
        GenericPollPacket { state, reader }
    }
}

impl<T, H> Future for GenericPollPacket<'_, T, H>
where
    T: AsyncRead + Unpin,
    H: PollHeader + Copy + Debug + Unpin,
    H::Error: From<std::io::Error> + From<Error> + Debug,
{
    type Output = Result<(usize, Vec<MaybeUninit<u8>>, H::Packet), H::Error>;

    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = self.get_mut();
        let st = &mut *this.state;
        loop {
            let mut tmp = [0u8; 1];
            if st.header.is_none() {
                let mut rb = ReadBuf::new(&mut tmp);
                match Pin::new(&mut *this.reader).poll_read(cx, &mut rb) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e.into())),
                    Poll::Ready(Ok(())) => {}
                }
                if rb.filled().is_empty() {
                    return Poll::Ready(Err(Error::IoError(std::io::ErrorKind::UnexpectedEof).into()));
                }
                st.head[st.head_len] = tmp[0];
                st.head_len += 1;
                if st.head_len >= 2 && tmp[0] & 0x80 == 0 {
                    let mut v = 0u32;
                    for i in 1..st.head_len {
                        v |= ((st.head[i] & 0x7F) as u32) << (7 * (i - 1));
                    }
                    let total = st.head_len as u32 + v;
                    st.header = Some(H::new_with(st.head[0], v, total)?);
                    st.body = vec![0; v as usize];
                    st.body_len = 0;
                } else if st.head_len == 5 {
                    return Poll::Ready(Err(Error::InvalidVarByteInt.into()));
                }
            } else if st.body_len < st.body.len() {
                let n = {
                    let mut rb = ReadBuf::new(&mut st.body[st.body_len..]);
                    match Pin::new(&mut *this.reader).poll_read(cx, &mut rb) {
                        Poll::Pending => return Poll::Pending,
                        Poll::Ready(Err(e)) => return Poll::Ready(Err(e.into())),
                        Poll::Ready(Ok(())) => rb.filled().len(),
                    }
                };
                if n == 0 {
                    return Poll::Ready(Err(Error::IoError(std::io::ErrorKind::UnexpectedEof).into()));
                }
                st.body_len += n;
            } else {
                let header = st.header.take().expect("header");
                let body = std::mem::take(&mut st.body);
                let total = st.head_len + body.len();
                *st = Default::default();
                return Poll::Ready(
                    header
                        .block_decode(&body)
                        .map(|p| (total, body.into_iter().map(MaybeUninit::new).collect(), p)),
                );
            }
        }
    }
}

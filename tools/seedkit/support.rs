//! In-memory transport and helpers for the demonstration beside this file.
#![allow(dead_code, unused_imports)]
pub use futures::io::{AsyncRead, AsyncWrite};
pub use futures::stream::Stream as FStream;
use futures::task::ArcWake;
use std::collections::VecDeque;
pub use std::io;
pub use std::pin::Pin;
pub use std::sync::atomic::{AtomicUsize, Ordering};
pub use std::sync::{Arc, Mutex};
pub use std::task::{Context, Poll, Waker};
pub use yamux::{Config, Connection, ConnectionError, Mode, Stream};

#[derive(Default)]
pub struct Wire {
    pub input: VecDeque<u8>,
    /// end of file after the input
    pub eof: bool,
    /// most bytes one read gives
    pub read_chunk: Option<usize>,
    pub read_error: bool,
    pub output: Vec<u8>,
    /// how many more bytes can be written before the transport is full
    pub budget: Option<usize>,
    pub write_error: bool,
    pub flush_error: bool,
    pub flush_pending: bool,
    pub flushed: usize,
    pub close_error: bool,
    pub close_pending: bool,
    pub closed: usize,
    pub read_waker: Option<Waker>,
    pub write_waker: Option<Waker>,
}

#[derive(Clone, Default)]
pub struct Sock(pub Arc<Mutex<Wire>>);

impl AsyncRead for Sock {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut w = self.0.lock().unwrap();
        if w.input.is_empty() {
            if w.read_error {
                return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
            }
            if w.eof {
                return Poll::Ready(Ok(0));
            }
            w.read_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = b.len().min(w.input.len()).min(w.read_chunk.unwrap_or(usize::MAX));
        for x in b[..n].iter_mut() {
            *x = w.input.pop_front().unwrap();
        }
        Poll::Ready(Ok(n))
    }
}

impl AsyncWrite for Sock {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let mut w = self.0.lock().unwrap();
        if w.write_error {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let n = match w.budget {
            Some(0) => {
                w.write_waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            Some(k) => {
                let n = k.min(b.len());
                w.budget = Some(k - n);
                n
            }
            None => b.len(),
        };
        w.output.extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut w = self.0.lock().unwrap();
        if w.flush_error {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if w.flush_pending {
            w.write_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        w.flushed = w.output.len();
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut w = self.0.lock().unwrap();
        if w.close_error {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if w.close_pending {
            w.write_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        w.closed += 1;
        Poll::Ready(Ok(()))
    }
}

pub const SYN: u16 = 1;
pub const ACK: u16 = 2;
pub const FIN: u16 = 4;
pub const RST: u16 = 8;
pub const DATA: u8 = 0;
pub const WINDOW: u8 = 1;
pub const PING: u8 = 2;
pub const GOAWAY: u8 = 3;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct F {
    pub tag: u8,
    pub flags: u16,
    pub id: u32,
    pub len: u32,
}

impl Sock {
    pub fn w(&self) -> std::sync::MutexGuard<'_, Wire> {
        self.0.lock().unwrap()
    }
    pub fn feed(&self, tag: u8, flags: u16, id: u32, len: u32, body: &[u8]) {
        let waker = {
            let mut w = self.w();
            w.input.extend([0u8, tag]);
            w.input.extend(flags.to_be_bytes());
            w.input.extend(id.to_be_bytes());
            w.input.extend(len.to_be_bytes());
            w.input.extend(body.iter().copied());
            w.read_waker.take()
        };
        if let Some(x) = waker {
            x.wake()
        }
    }
    /// a data frame
    pub fn data(&self, flags: u16, id: u32, body: &[u8]) {
        self.feed(DATA, flags, id, body.len() as u32, body)
    }
    /// every frame written so far, with its body
    pub fn full(&self) -> Vec<(F, Vec<u8>)> {
        let w = self.w();
        let o = &w.output;
        let mut i = 0;
        let mut out = vec![];
        while i + 12 <= o.len() {
            let f = F {
                tag: o[i + 1],
                flags: u16::from_be_bytes([o[i + 2], o[i + 3]]),
                id: u32::from_be_bytes([o[i + 4], o[i + 5], o[i + 6], o[i + 7]]),
                len: u32::from_be_bytes([o[i + 8], o[i + 9], o[i + 10], o[i + 11]]),
            };
            i += 12;
            let n = if f.tag == DATA { f.len as usize } else { 0 };
            out.push((f, o[i.min(o.len())..(i + n).min(o.len())].to_vec()));
            i += n;
        }
        out
    }
    pub fn frames(&self) -> Vec<F> {
        self.full().into_iter().map(|x| x.0).collect()
    }
    /// frames of one stream
    pub fn of(&self, id: u32) -> Vec<F> {
        self.frames().into_iter().filter(|f| f.id == id && f.tag < PING).collect()
    }
    /// codes of the go-away frames written
    pub fn goaways(&self) -> Vec<u32> {
        self.frames().into_iter().filter(|f| f.tag == GOAWAY).map(|f| f.len).collect()
    }
}

pub struct Count(pub AtomicUsize);
impl Count {
    pub fn n(&self) -> usize {
        self.0.load(Ordering::SeqCst)
    }
}
impl ArcWake for Count {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.fetch_add(1, Ordering::SeqCst);
    }
}
pub fn counter() -> (Arc<Count>, Waker) {
    let c = Arc::new(Count(AtomicUsize::new(0)));
    let w = futures::task::waker(c.clone());
    (c, w)
}
pub fn noop() -> Waker {
    futures::task::noop_waker()
}

pub fn conn(mode: Mode) -> (Sock, Connection<Sock>) {
    conn_with(mode, Config::default())
}
pub fn conn_with(mode: Mode, cfg: Config) -> (Sock, Connection<Sock>) {
    let s = Sock::default();
    (s.clone(), Connection::new(s, cfg, mode))
}

pub type Next = Poll<Option<Result<Stream, ConnectionError>>>;

pub fn open(c: &mut Connection<Sock>) -> Stream {
    match c.poll_new_outbound(&mut Context::from_waker(&noop())) {
        Poll::Ready(Ok(s)) => s,
        other => panic!("{other:?}"),
    }
}
pub fn drive(c: &mut Connection<Sock>) -> Next {
    c.poll_next_inbound(&mut Context::from_waker(&noop()))
}
/// the inbound stream the peer just opened
pub fn accept(c: &mut Connection<Sock>) -> Stream {
    match drive(c) {
        Poll::Ready(Some(Ok(s))) => s,
        other => panic!("{other:?}"),
    }
}
pub fn close(c: &mut Connection<Sock>) -> Poll<Result<(), ConnectionError>> {
    c.poll_close(&mut Context::from_waker(&noop()))
}
pub fn write(s: &mut Stream, b: &[u8]) -> Poll<io::Result<usize>> {
    Pin::new(s).poll_write(&mut Context::from_waker(&noop()), b)
}
pub fn read(s: &mut Stream, b: &mut [u8]) -> Poll<io::Result<usize>> {
    Pin::new(s).poll_read(&mut Context::from_waker(&noop()), b)
}
pub fn finish(s: &mut Stream) -> Poll<io::Result<()>> {
    Pin::new(s).poll_close(&mut Context::from_waker(&noop()))
}
pub fn next(s: &mut Stream) -> Poll<Option<io::Result<Vec<u8>>>> {
    Pin::new(s)
        .poll_next(&mut Context::from_waker(&noop()))
        .map(|x| x.map(|r| r.map(|p| p.as_ref().to_vec())))
}
/// read all that is there now
pub fn slurp(s: &mut Stream) -> Vec<u8> {
    let mut out = vec![];
    let mut b = vec![0; 1 << 16];
    while let Poll::Ready(Ok(n)) = read(s, &mut b) {
        if n == 0 {
            break;
        }
        out.extend_from_slice(&b[..n]);
    }
    out
}

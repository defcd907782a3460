//! Demonstrations of genuine defects found in rust-yamux (see ../../DESIGN.md).  Every test fails on
//! the pinned commit and passes with the corresponding `fix:` commit.
//! Run: `cargo test --offline` in this directory.

#![cfg(test)]
use futures::io::{AsyncRead, AsyncWrite};
use futures::task::ArcWake;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use yamux::{Config, Connection, ConnectionError, Mode, Stream};

#[derive(Default)]
struct Wire {
    input: VecDeque<u8>,
    output: Vec<u8>,
    budget: Option<usize>,
    write_error: bool,
}

#[derive(Clone, Default)]
struct Sock(Arc<Mutex<Wire>>);

impl AsyncRead for Sock {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut w = self.0.lock().unwrap();
        if w.input.is_empty() {
            return Poll::Pending;
        }
        let n = b.len().min(w.input.len());
        for x in b[..n].iter_mut() {
            *x = w.input.pop_front().unwrap();
        }
        Poll::Ready(Ok(n))
    }
}

impl AsyncWrite for Sock {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let mut w = self.0.lock().unwrap();
        if w.write_error {
            w.write_error = false;
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let n = match w.budget {
            Some(0) => return Poll::Pending,
            Some(k) => {
                let n = k.min(b.len());
                w.budget = Some(k - n);
                n
            }
            None => b.len(),
        };
        w.output.extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

impl Sock {
    fn feed(&self, tag: u8, flags: u16, id: u32, len: u32, body: &[u8]) {
        let mut w = self.0.lock().unwrap();
        w.input.extend([0u8, tag]);
        w.input.extend(flags.to_be_bytes());
        w.input.extend(id.to_be_bytes());
        w.input.extend(len.to_be_bytes());
        w.input.extend(body.iter().copied());
    }
    /// (tag, flags, id, len) of every frame written so far
    fn frames(&self) -> Vec<(u8, u16, u32, u32)> {
        let w = self.0.lock().unwrap();
        let o = &w.output;
        let mut i = 0;
        let mut out = vec![];
        while i + 12 <= o.len() {
            let f = u16::from_be_bytes([o[i + 2], o[i + 3]]);
            let id = u32::from_be_bytes([o[i + 4], o[i + 5], o[i + 6], o[i + 7]]);
            let len = u32::from_be_bytes([o[i + 8], o[i + 9], o[i + 10], o[i + 11]]);
            out.push((o[i + 1], f, id, len));
            i += 12 + if o[i + 1] == 0 { len as usize } else { 0 };
        }
        out
    }
}

struct Count(AtomicUsize);
impl ArcWake for Count {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.fetch_add(1, Ordering::SeqCst);
    }
}
fn counter() -> (Arc<Count>, Waker) {
    let c = Arc::new(Count(AtomicUsize::new(0)));
    let w = futures::task::waker(c.clone());
    (c, w)
}
fn noop() -> Waker {
    futures::task::noop_waker()
}

fn conn(mode: Mode) -> (Sock, Connection<Sock>) {
    let s = Sock::default();
    (s.clone(), Connection::new(s, Config::default(), mode))
}

fn open(c: &mut Connection<Sock>) -> Stream {
    match c.poll_new_outbound(&mut Context::from_waker(&noop())) {
        Poll::Ready(Ok(s)) => s,
        other => panic!("{other:?}"),
    }
}

fn drive(c: &mut Connection<Sock>) -> Poll<Option<Result<Stream, ConnectionError>>> {
    c.poll_next_inbound(&mut Context::from_waker(&noop()))
}

/// C32/C06: a transport write error seen while checking readiness is dropped and the half-written
/// frame is overwritten.
#[test]
fn readiness_error_is_not_swallowed() {
    let (sock, mut c) = conn(Mode::Client);
    let mut s = open(&mut c);
    let w = noop();
    let mut cx = Context::from_waker(&w);
    let _ = drive(&mut c); // ping goes out
    assert!(matches!(Pin::new(&mut s).poll_write(&mut cx, &[7; 100]), Poll::Ready(Ok(100))));
    sock.0.lock().unwrap().budget = Some(5);
    let _ = drive(&mut c); // 5 bytes of the data frame are out
    assert!(matches!(Pin::new(&mut s).poll_write(&mut cx, &[8; 100]), Poll::Ready(Ok(100))));
    let _ = drive(&mut c); // second frame is now held by the connection
    {
        let mut x = sock.0.lock().unwrap();
        x.write_error = true;
        x.budget = None;
    }
    match drive(&mut c) {
        Poll::Ready(Some(Err(ConnectionError::Io(_)))) => {}
        other => panic!("write error swallowed: {other:?}; wire: {:?}", sock.frames()),
    }
}

/// C27: closing the connection wakes a reader that is parked on one of its streams
#[test]
fn close_wakes_parked_readers() {
    let (_sock, mut c) = conn(Mode::Client);
    let mut s = open(&mut c);
    let (n, w) = counter();
    let mut buf = [0; 1];
    assert!(Pin::new(&mut s).poll_read(&mut Context::from_waker(&w), &mut buf).is_pending());
    while c.poll_close(&mut Context::from_waker(&noop())).is_pending() {}
    drop(c);
    assert!(n.0.load(Ordering::SeqCst) > 0, "reader was never woken");
    assert!(matches!(
        Pin::new(&mut s).poll_read(&mut Context::from_waker(&w), &mut buf),
        Poll::Ready(Ok(0))
    ));
}

/// C13: stream id 0 is the session, no stream can be opened under it
#[test]
fn stream_zero_is_refused() {
    for tag in [0, 1] {
        let (sock, mut c) = conn(Mode::Client);
        sock.feed(tag, 1, 0, 0, &[]);
        assert!(drive(&mut c).is_pending(), "a stream with id 0 was opened");
        assert!(sock.frames().iter().any(|f| f.0 == 3 && f.3 != 0), "no go-away sent");
    }
}

/// C20: closing a stream twice sends one FIN
#[test]
fn one_fin_only() {
    let (sock, mut c) = conn(Mode::Client);
    let mut s = open(&mut c);
    let w = noop();
    let mut cx = Context::from_waker(&w);
    assert!(matches!(Pin::new(&mut s).poll_write(&mut cx, &[7; 3]), Poll::Ready(Ok(3))));
    for _ in 0..2 {
        assert!(matches!(Pin::new(&mut s).poll_close(&mut cx), Poll::Ready(Ok(()))));
    }
    let _ = drive(&mut c);
    let fins = sock.frames().iter().filter(|f| f.0 == 0 && f.1 & 4 != 0).count();
    assert_eq!(fins, 1, "{:?}", sock.frames());
}

/// C17: an outbound stream that is closed before anything was written still announces itself
#[test]
fn first_frame_has_syn_even_if_fin() {
    let (sock, mut c) = conn(Mode::Client);
    let mut s = open(&mut c);
    let w = noop();
    let mut cx = Context::from_waker(&w);
    assert!(matches!(Pin::new(&mut s).poll_close(&mut cx), Poll::Ready(Ok(()))));
    let _ = drive(&mut c);
    let f = *sock.frames().iter().find(|f| f.2 == 1).unwrap();
    assert_eq!(f.1 & 1, 1, "first frame of the stream lacks SYN: {f:?}");
    // and a peer that implements the protocol gets the stream and its end
    let (peer, mut d) = conn(Mode::Server);
    peer.feed(f.0, f.1, f.2, f.3, &[]);
    let mut t = match drive(&mut d) {
        Poll::Ready(Some(Ok(t))) => t,
        other => panic!("{other:?}"),
    };
    let mut buf = [0; 1];
    assert!(matches!(Pin::new(&mut t).poll_read(&mut cx, &mut buf), Poll::Ready(Ok(0))));
}

/// C17: an acknowledgement carried by a window update counts as sent
#[test]
fn ack_on_window_update_is_recorded() {
    let (sock, mut c) = conn(Mode::Server);
    let body = vec![1u8; 200 * 1024];
    sock.feed(0, 1, 1, body.len() as u32, &body);
    let mut s = match drive(&mut c) {
        Poll::Ready(Some(Ok(s))) => s,
        other => panic!("{other:?}"),
    };
    let w = noop();
    let mut cx = Context::from_waker(&w);
    let mut buf = vec![0; body.len()];
    assert!(matches!(Pin::new(&mut s).poll_read(&mut cx, &mut buf), Poll::Ready(Ok(_))));
    let _ = Pin::new(&mut s).poll_read(&mut cx, &mut buf); // grants credit, carrying the ACK
    let _ = drive(&mut c);
    assert!(sock.frames().iter().any(|f| f.0 == 1 && f.1 & 2 != 0), "{:?}", sock.frames());
    assert!(!s.is_pending_ack(), "ACK was sent but the stream still counts as unacknowledged");
}

/// C16: the opener is woken when the backlog shrinks for a reason other than an ACK
#[test]
fn opener_is_woken_when_backlog_shrinks() {
    for how in 0..4 {
        let (sock, mut c) = conn(Mode::Client);
        let mut streams: Vec<_> = (0..256).map(|_| open(&mut c)).collect();
        let (n, w) = counter();
        assert!(c.poll_new_outbound(&mut Context::from_waker(&w)).is_pending());
        let _ = drive(&mut c);
        match how {
            0 => sock.feed(0, 8, 1, 0, &[]), // RST
            1 => sock.feed(0, 4, 1, 0, &[]), // FIN
            2 => sock.feed(1, 8, 1, 0, &[]), // RST on a window update
            _ => drop(streams.remove(0)),
        }
        let _ = drive(&mut c);
        assert!(n.0.load(Ordering::SeqCst) > 0, "opener not woken, case {how}");
        assert!(c.poll_new_outbound(&mut Context::from_waker(&w)).is_ready());
    }
    // ... and when the connection fails
    let (sock, mut c) = conn(Mode::Client);
    let _streams: Vec<_> = (0..256).map(|_| open(&mut c)).collect();
    let (n, w) = counter();
    assert!(c.poll_new_outbound(&mut Context::from_waker(&w)).is_pending());
    sock.feed(9, 0, 0, 0, &[]);
    let _ = drive(&mut c);
    assert!(n.0.load(Ordering::SeqCst) > 0, "opener not woken on failure");
}

/// C33 (run with --release): a product that wraps does not get past the check
#[test]
fn huge_stream_counts_are_rejected() {
    let r = std::panic::catch_unwind(|| {
        let mut c = yamux::Config::default(); // 1 GiB
        c.set_max_num_streams(1usize << 46);
    });
    assert!(r.is_err(), "2^46 streams of 256 KiB accepted within 1 GiB");
}

SEEDS = [
dict(id="c05-stall-on-zero-write", prop="C05",
 edits=[("frame/io.rs", """                        if n == 0 {
                            return Poll::Ready(Err(io::ErrorKind::WriteZero.into()));
                        }
                        *offset += n;

                        if *offset > buffer.len() {""", """                        if n == 0 {
                            if *offset == 0 {
                                return Poll::Ready(Err(io::ErrorKind::WriteZero.into()));
                            }
                            // momentarily full in the middle of a frame: try again when polled next
                            return Poll::Pending;
                        }
                        *offset += n;

                        if *offset > buffer.len() {""")],
 demo="""
/// accepts nothing more once the budget is used up, instead of being pending
struct Full(Sock);
impl AsyncRead for Full {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.0).poll_read(cx, b)
    }
}
impl AsyncWrite for Full {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        if self.0.w().budget == Some(0) {
            return Poll::Ready(Ok(0));
        }
        Pin::new(&mut self.0).poll_write(cx, b)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_close(cx)
    }
}

#[test]
fn zero_write_inside_a_payload_is_an_error() {
    let sock = Sock::default();
    let mut c = Connection::new(Full(sock.clone()), Config::default(), Mode::Client);
    let w = noop();
    let mut cx = Context::from_waker(&w);
    let Poll::Ready(Ok(mut s)) = c.poll_new_outbound(&mut cx) else { panic!("no stream") };
    assert!(write(&mut s, &[7; 100]).is_ready());
    // the ping, the header and half of the payload
    sock.w().budget = Some(12 + 12 + 50);
    for _ in 0..5 {
        match c.poll_next_inbound(&mut cx) {
            Poll::Ready(Some(Err(_))) => return,
            other => assert!(other.is_pending()),
        }
    }
    panic!("the transport takes nothing more, and nobody is told");
}
""",
 needs="the transport answers a write with zero bytes after it accepted part of a payload",
 breaks="a zero-length write in the middle of a payload is reported as pending, with no waker registered, instead of as an error"),

dict(id="c07-close-keeps-one-frame", prop="C07",
 edits=[("connection.rs", """            .pending_read_frame
            .into_iter()
            .chain(self.pending_write_frame)
            .collect""", """            .pending_read_frame
            .or(self.pending_write_frame)
            .into_iter()
            .collect""")],
 demo="""
#[test]
fn both_held_frames_survive_closing() {
    let (sock, mut c) = conn(Mode::Client);
    let mut s = open(&mut c);
    assert!(write(&mut s, b"hello").is_ready());
    sock.w().budget = Some(5);
    sock.feed(PING, SYN, 0, 77, &[]);
    assert!(drive(&mut c).is_pending());
    assert!(drive(&mut c).is_pending());
    sock.w().budget = None;
    assert!(matches!(close(&mut c), Poll::Ready(Ok(()))));
    assert!(sock.frames().iter().any(|f| f.tag == PING && f.flags == ACK && f.len == 77), "pong lost: {:?}", sock.frames());
    assert!(sock.full().iter().any(|(f, b)| f.tag == DATA && b == b"hello"), "data lost: {:?}", sock.frames());
}
""",
 needs="the connection is closed while the socket is full and it holds both a reply and a stream's frame",
 breaks="a data frame taken from a stream is dropped when the connection closes while a pong is held too"),

dict(id="c08-avoid-short-rest", prop="C08",
 edits=[("connection/stream.rs", """            let k = std::cmp::min(k, self.config.split_send_size);
""", """            // do not leave a tiny rest behind for another frame
            let split = self.config.split_send_size;
            let k = if k <= split.saturating_add(split / 8) { k } else { split };
""")],
 demo="""
#[test]
fn no_frame_is_longer_than_the_split_size() {
    let (_sock, mut c) = conn(Mode::Client);
    for n in [10, 16384, 16385, 17000, 18432, 18433, 40000] {
        let mut s = open(&mut c);
        match write(&mut s, &vec![1; n]) {
            Poll::Ready(Ok(k)) => assert!(k <= 16384 && k <= n, "{k} bytes of {n} in one frame"),
            other => panic!("{other:?}"),
        }
    }
}
""",
 needs="a write slightly longer than the configured split size",
 breaks="a data frame may be an eighth longer than the configured split size"),

dict(id="c14-number-reused", prop="C14",
 edits=[("connection.rs", """                State::Open { .. } => {
                    let mut header = Header::data(stream_id, 0);""", """                State::Open { acknowledged } => {
                    // the remote has not answered yet, so the number can be used again
                    if !acknowledged && stream_id.val().checked_add(2) == Some(self.next_id) {
                        self.next_id = stream_id.val();
                    }
                    let mut header = Header::data(stream_id, 0);""")],
 demo="""
#[test]
fn numbers_are_never_reused() {
    let (_sock, mut c) = conn(Mode::Client);
    let a = open(&mut c);
    let b = open(&mut c);
    assert_eq!((a.id().val(), b.id().val()), (1, 3));
    drop(b);
    let _ = drive(&mut c);
    assert_eq!(open(&mut c).id().val(), 5);
}
""",
 needs="the stream opened last is dropped before the remote acknowledged it, then another one is opened",
 breaks="the id of a dropped stream is handed out again, so late frames of the old stream reach the new one"),

dict(id="c15-first-waker-wins", prop="C15",
 edits=[("connection.rs", """            self.new_outbound_stream_waker = Some(cx.waker().clone());
            return Poll::Pending;""", """            self.new_outbound_stream_waker
                .get_or_insert_with(|| cx.waker().clone());
            return Poll::Pending;""")],
 demo="""
#[test]
fn the_task_that_asked_last_is_woken() {
    let (sock, mut c) = conn(Mode::Client);
    let streams: Vec<_> = (0..256).map(|_| open(&mut c)).collect();
    let (_, w1) = counter();
    let (n2, w2) = counter();
    assert!(c.poll_new_outbound(&mut Context::from_waker(&w1)).is_pending());
    assert!(c.poll_new_outbound(&mut Context::from_waker(&w2)).is_pending());
    sock.data(ACK, streams[0].id().val(), b"x");
    let _ = drive(&mut c);
    assert!(n2.n() > 0, "the waiting task is not woken");
}
""",
 needs="opening is polled from one task, then from another, both while the acknowledgement backlog is full",
 breaks="the waker of a task that no longer waits is kept, and the task that does wait is never woken"),

dict(id="c17-ack-until-data", prop="C17",
 edits=[("connection/stream.rs", """            Flag::Ack => {
                header.ack();
                self.flag = Flag::None
            }""", """            Flag::Ack => {
                header.ack();
                // a window update alone may be coalesced away: repeat the flag on the first data
                if header.tag() == Tag::Data {
                    self.flag = Flag::None
                }
            }"""),
  ("connection/stream.rs", "        header::{Data, Header, StreamId, WindowUpdate},", "        header::{Data, Header, StreamId, Tag, WindowUpdate},")],
 demo="""
#[test]
fn only_the_first_frame_carries_ack() {
    let (sock, mut c) = conn(Mode::Server);
    sock.data(SYN, 1, &[1; 200_000]);
    let mut s = accept(&mut c);
    assert_eq!(slurp(&mut s).len(), 200_000);
    let _ = slurp(&mut s);
    assert!(write(&mut s, b"x").is_ready());
    let _ = drive(&mut c);
    let f = sock.of(1);
    assert_eq!(f.len(), 2, "{f:?}");
    assert_eq!((f[0].tag, f[0].flags), (WINDOW, ACK));
    assert_eq!((f[1].tag, f[1].flags), (DATA, 0), "{f:?}");
}
""",
 needs="an inbound stream first sends a window update, because it was read before anything was written to it",
 breaks="the acknowledgement flag is sent twice"),

dict(id="c18-second-half-first", prop="C18",
 edits=[("connection/stream.rs", """            (RecvClosed, SendClosed) => self.state = Closed,
            (SendClosed, Closed)""", """            (RecvClosed, SendClosed) => self.state = next,
            (SendClosed, Closed)""")],
 demo="""
#[test]
fn closing_the_second_half_closes_the_stream() {
    let (sock, mut c) = conn(Mode::Client);
    let mut s = open(&mut c);
    assert!(write(&mut s, b"x").is_ready());
    sock.data(ACK | FIN, s.id().val(), b"");
    let _ = drive(&mut c);
    assert!(finish(&mut s).is_ready());
    assert!(s.is_closed());
    assert!(matches!(read(&mut s, &mut [0; 8]), Poll::Ready(Ok(0))), "reading waits for ever");
}
""",
 needs="the remote closes its half first, then we close ours, then the stream is read",
 breaks="a stream closed from both sides counts as still receiving; reading it waits for ever"),

dict(id="c19-fin-on-opening-update", prop="C19",
 edits=[("connection.rs", """            if is_finish {
                stream
                    .shared()
                    .update_state(self.id, stream_id, State::RecvClosed);
            }
            self.streams.insert""", """            // a stream opened with credit alone has not finished anything yet
            if is_finish && credit > DEFAULT_CREDIT {
                stream
                    .shared()
                    .update_state(self.id, stream_id, State::RecvClosed);
            }
            self.streams.insert""")],
 demo="""
#[test]
fn fin_on_the_opening_window_update_counts() {
    let (sock, mut c) = conn(Mode::Server);
    sock.feed(WINDOW, SYN | FIN, 1, 0, &[]);
    let mut s = accept(&mut c);
    assert!(matches!(read(&mut s, &mut [0; 8]), Poll::Ready(Ok(0))), "no end of stream");
}
""",
 needs="a stream opened by a window update without extra credit that also carries FIN",
 breaks="the FIN of a stream opened and half-closed by one window update is lost, its reader never sees the end"),

dict(id="c24-repeated-pong", prop="C24",
 edits=[("connection/rtt.rs", """            RttState::Waiting { .. } => {
                log::error!""", """            // the same pong once more: harmless
            RttState::Waiting { .. }
                if received_id.wrapping_add(1) == self.next_id.load(Ordering::Relaxed) =>
            {
                return Action::None;
            }
            RttState::Waiting { .. } => {
                log::error!""")],
 demo="""
#[test]
fn a_second_pong_is_an_error() {
    let (sock, mut c) = conn(Mode::Client);
    let _ = drive(&mut c);
    let ping = *sock.frames().iter().find(|f| f.tag == PING).unwrap();
    sock.feed(PING, ACK, 0, ping.len, &[]);
    let _ = drive(&mut c);
    assert!(sock.goaways().is_empty());
    sock.feed(PING, ACK, 0, ping.len, &[]);
    let _ = drive(&mut c);
    assert_eq!(sock.goaways(), [1]);
}
""",
 needs="the peer answers one ping twice",
 breaks="an unexpected pong is accepted silently instead of being answered with a protocol error"),

dict(id="c25-broken-pipe-is-the-end", prop="C25",
 edits=[("connection.rs", """                    Poll::Ready(ConnectionError::Closed) => {
                        self.inner = ConnectionState::Closed;
                        return Poll::Ready(None);
                    }""", """                    Poll::Ready(ConnectionError::Closed) => {
                        self.inner = ConnectionState::Closed;
                        return Poll::Ready(None);
                    }
                    // the remote has hung up
                    Poll::Ready(ConnectionError::Io(e))
                        if e.kind() == std::io::ErrorKind::BrokenPipe =>
                    {
                        self.inner = ConnectionState::Closed;
                        return Poll::Ready(None);
                    }""")],
 demo="""
#[test]
fn a_transport_failure_is_not_a_clean_end() {
    let (sock, mut c) = conn(Mode::Client);
    sock.w().write_error = true;
    assert!(matches!(drive(&mut c), Poll::Ready(Some(Err(ConnectionError::Io(_))))));
    assert!(matches!(drive(&mut c), Poll::Ready(None)));
}
""",
 needs="writing fails with a broken pipe while the inbound streams are polled",
 breaks="a connection that lost its transport is reported as cleanly closed"),

dict(id="c26-left-in-placeholder", prop="C26",
 edits=[("connection.rs", """                    Poll::Ready(e) => {
                        self.inner = ConnectionState::Closed;
                        return Poll::Ready(Err(e));
                    }
                    Poll::Pending => {
                        self.inner = ConnectionState::Cleanup(inner);""", """                    Poll::Ready(e) => {
                        if matches!(e, ConnectionError::Closed | ConnectionError::Io(_)) {
                            self.inner = ConnectionState::Closed;
                        }
                        return Poll::Ready(Err(e));
                    }
                    Poll::Pending => {
                        self.inner = ConnectionState::Cleanup(inner);""")],
 demo="""
#[test]
fn usable_after_too_many_streams() {
    let mut cfg = Config::default();
    cfg.set_max_num_streams(1);
    let (_sock, mut c) = conn_with(Mode::Client, cfg);
    let _s = open(&mut c);
    let w = noop();
    assert!(matches!(c.poll_new_outbound(&mut Context::from_waker(&w)), Poll::Ready(Err(ConnectionError::TooManyStreams))));
    assert!(matches!(drive(&mut c), Poll::Ready(None)));
}
""",
 needs="opening fails because of the stream limit, then the connection is polled again",
 breaks="the connection stays in its placeholder state and the next poll panics"),

dict(id="c27-half-closed-sleeps", prop="C27",
 edits=[("connection.rs", """            let mut shared = s.lock();
            shared.update_state(self.id, id, State::Closed);
            if let Some(w) = shared.reader.take() {
                w.wake()
            }
            if let Some(w) = shared.writer.take() {
                w.wake()
            }
        }
    }
}""", """            let mut shared = s.lock();
            if let State::SendClosed = shared.update_state(self.id, id, State::Closed) {
                // closed by us already, nobody is waiting to write
                continue;
            }
            if let Some(w) = shared.reader.take() {
                w.wake()
            }
            if let Some(w) = shared.writer.take() {
                w.wake()
            }
        }
    }
}""")],
 demo="""
#[test]
fn reader_of_a_half_closed_stream_is_woken() {
    let (sock, mut c) = conn(Mode::Client);
    let mut s = open(&mut c);
    assert!(finish(&mut s).is_ready());
    let _ = drive(&mut c);
    let (n, w) = counter();
    assert!(Pin::new(&mut s).poll_read(&mut Context::from_waker(&w), &mut [0; 8]).is_pending());
    sock.w().eof = true;
    let _ = drive(&mut c);
    assert!(n.n() > 0, "the reader sleeps for ever");
}
""",
 needs="we closed our half, a task waits for the rest of the remote's data, then the connection ends",
 breaks="the reader of a stream that was closed for writing is not woken when the connection goes away"),

dict(id="c28-close-error-ignored", prop="C28",
 edits=[("connection/closing.rs", """                    ready!(this.socket.poll_close_unpin(cx))?;

                    return Poll::Ready(Ok(()));""", """                    match ready!(this.socket.poll_close_unpin(cx)) {
                        // the remote was faster
                        Err(e) if e.kind() == std::io::ErrorKind::BrokenPipe => {}
                        other => other?,
                    }

                    return Poll::Ready(Ok(()));""")],
 demo="""
#[test]
fn a_failed_close_is_reported() {
    let (sock, mut c) = conn(Mode::Client);
    sock.w().close_error = true;
    assert!(matches!(close(&mut c), Poll::Ready(Err(_))));
}
""",
 needs="closing the transport fails with a broken pipe",
 breaks="closing reports success although the transport was not closed"),

dict(id="c31-unopened-is-an-error", prop="C31",
 edits=[("connection.rs", """                "{}/{}: window update for unknown stream, possibly dropped earlier: {:?}",
                self.id,
                stream_id,
                frame
            );
""", """                "{}/{}: window update for unknown stream, possibly dropped earlier: {:?}",
                self.id,
                stream_id,
                frame
            );
            // a stream of ours that is past the last one opened cannot have been dropped
            if stream_id.is_client() == matches!(self.mode, Mode::Client)
                && stream_id.val() >= self.next_id
            {
                return Action::Terminate(Frame::protocol_error());
            }
""")],
 demo="""
#[test]
fn credit_for_an_unknown_stream_is_ignored() {
    let (sock, mut c) = conn(Mode::Client);
    let s = open(&mut c);
    sock.feed(WINDOW, 0, 7, 100, &[]);
    assert!(drive(&mut c).is_pending());
    assert!(sock.goaways().is_empty());
    sock.data(ACK, s.id().val(), b"x");
    assert!(drive(&mut c).is_pending());
}
""",
 needs="a window update for an id of our own side that has not been opened",
 breaks="a frame for an unknown stream ends the connection"),

dict(id="c32-flush-failure-ignored", prop="C32",
 edits=[("connection.rs", """            match self.socket.poll_flush_unpin(cx)? {
                Poll::Ready(()) => {}
                Poll::Pending => {}
            }
""", """            match self.socket.poll_flush_unpin(cx) {
                Poll::Ready(Ok(())) => {}
                // there may still be frames to read; writing the next frame will fail
                Poll::Ready(Err(e)) if self.pending_write_frame.is_none() => {
                    log::debug!("{}: flush failed: {e}", self.id);
                }
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e.into())),
                Poll::Pending => {}
            }
""")],
 demo="""
#[test]
fn a_flush_failure_is_reported() {
    let (sock, mut c) = conn(Mode::Client);
    sock.w().flush_error = true;
    assert!(matches!(drive(&mut c), Poll::Ready(Some(Err(_)))));
}
""",
 needs="flushing the transport fails while no stream's frame is held back",
 breaks="a transport failure is swallowed and the poll reports pending with nothing left to wake it"),

dict(id="c33-limit-follows", prop="C33",
 edits=[("lib.rs", """        self.max_num_streams = n;
""", """        self.max_num_streams = n;
        // make room for the additional streams
        if let Some(max) = &mut self.max_connection_receive_window {
            *max = (*max).max(n.saturating_mul(DEFAULT_CREDIT as usize));
        }
""")],
 demo="""
#[test]
fn too_many_streams_for_the_limit_are_rejected() {
    let r = std::panic::catch_unwind(|| {
        let mut cfg = Config::default();
        cfg.set_max_num_streams(4097);
    });
    assert!(r.is_err(), "1 GiB is not enough for 4097 streams");
    let mut cfg = Config::default();
    cfg.set_max_num_streams(4096);
}
""",
 needs="more streams are configured than the limit allows at 256 KiB each",
 breaks="raising the number of streams silently raises the receive limit of the connection"),

dict(id="c37-reset-forgets-stream", prop="C37",
 edits=[("connection.rs", """    fn on_window_update(&mut self, frame: &Frame<WindowUpdate>) -> Action {
        let stream_id = frame.header().stream_id();

        if frame.header().flags().contains(header::RST) {
            // stream reset
            if let Some(s) = self.streams.get_mut(&stream_id) {""", """    fn on_window_update(&mut self, frame: &Frame<WindowUpdate>) -> Action {
        let stream_id = frame.header().stream_id();

        if frame.header().flags().contains(header::RST) {
            // stream reset
            if let Some(s) = self.streams.remove(&stream_id) {""")],
 demo="""
#[test]
fn dropping_a_reset_stream_is_fine() {
    let (sock, mut c) = conn(Mode::Client);
    let s = open(&mut c);
    sock.feed(WINDOW, RST, s.id().val(), 0, &[]);
    assert!(drive(&mut c).is_pending());
    drop(s);
    assert!(drive(&mut c).is_pending());
}
""",
 needs="a stream is reset by a window update and its handle dropped afterwards",
 breaks="dropping the handle of a reset stream makes the connection panic"),

dict(id="c39-spins-on-zero-write", prop="C39",
 edits=[("frame/io.rs", """                        if n == 0 {
                            return Poll::Ready(Err(io::ErrorKind::WriteZero.into()));
                        }
                        *offset += n;

                        if *offset > header.len() {""", """                        if n == 0 && *offset == 0 {
                            return Poll::Ready(Err(io::ErrorKind::WriteZero.into()));
                        }
                        *offset += n;

                        if *offset > header.len() {""")],
 demo="""
/// accepts nothing more once the budget is used up, instead of being pending
struct Full(Sock);
impl AsyncRead for Full {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.0).poll_read(cx, b)
    }
}
impl AsyncWrite for Full {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        if self.0.w().budget == Some(0) {
            self.0.w().closed += 1;
            assert!(self.0.w().closed < 1000, "the library spins");
            return Poll::Ready(Ok(0));
        }
        Pin::new(&mut self.0).poll_write(cx, b)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_close(cx)
    }
}

#[test]
fn zero_write_inside_a_header_does_not_spin() {
    let sock = Sock::default();
    let mut c = Connection::new(Full(sock.clone()), Config::default(), Mode::Client);
    sock.w().budget = Some(5);
    let w = noop();
    assert!(matches!(c.poll_next_inbound(&mut Context::from_waker(&w)), Poll::Ready(Some(Err(_)))));
}
""",
 needs="the transport answers a write with zero bytes after it accepted part of a header",
 breaks="the connection's poll loops for ever"),
]

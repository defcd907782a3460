SEEDS = [
dict(id="c16-credit-implies-ack", prop="C16",
 edits=[("connection.rs", """            if is_finish {
                shared.update_state(self.id, stream_id, State::RecvClosed);

                if let Some(w) = shared.reader.take() {
                    w.wake()
                }
            }
            if let Some(w) = shared.writer.take() {""", """            if is_finish {
                shared.update_state(self.id, stream_id, State::RecvClosed);

                if let Some(w) = shared.reader.take() {
                    w.wake()
                }
            } else if shared.is_pending_ack() {
                // whoever grants credit knows the stream
                shared.update_state(self.id, stream_id, State::Open { acknowledged: true });
            }
            if let Some(w) = shared.writer.take() {""")],
 demo="""
#[test]
fn nobody_sleeps_when_the_backlog_shrinks() {
    let (sock, mut c) = conn(Mode::Client);
    let streams: Vec<_> = (0..256).map(|_| open(&mut c)).collect();
    let (n, w) = counter();
    assert!(c.poll_new_outbound(&mut Context::from_waker(&w)).is_pending());
    sock.feed(WINDOW, 0, streams[0].id().val(), 5, &[]);
    let _ = drive(&mut c);
    assert!(streams[0].is_pending_ack() || n.n() > 0, "there is room, but the opener is not woken");
}
""",
 needs="a full acknowledgement backlog, a task waiting to open, and a window update without ACK for an unacknowledged stream",
 breaks="the backlog shrinks without the waiting opener being woken, and a stream counts as acknowledged that was not"),

dict(id="c30-closed-check-under-lock", prop="C30",
 edits=[("connection/stream.rs", """                vec = vec.split_off(off)
            }""", """                vec = vec.split_off(off);
                if self.is_closed() {
                    log::debug!("{}/{}: tail of a closed stream", self.conn, self.id);
                }
            }""")],
 demo="""
#[test]
fn a_packet_after_a_partial_read() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let (sock, mut c) = conn(Mode::Client);
        let mut s = open(&mut c);
        sock.data(ACK, s.id().val(), b"hello");
        let _ = drive(&mut c);
        assert!(matches!(read(&mut s, &mut [0; 2]), Poll::Ready(Ok(2))));
        match next(&mut s) {
            Poll::Ready(Some(Ok(p))) => tx.send(p).unwrap(),
            other => panic!("{other:?}"),
        }
    });
    let p = rx.recv_timeout(std::time::Duration::from_secs(20)).expect("the stream deadlocks on itself");
    assert_eq!(p, b"llo");
}
""",
 needs="a chunk is read partly through AsyncRead and the rest through Stream",
 breaks="the stream locks its state while it holds the lock; the task hangs for ever"),

dict(id="c34-type-table", prop="C34",
 edits=[("frame/header.rs", """        tag: match buf[1] {
            0 => Tag::Data,
            1 => Tag::WindowUpdate,
            2 => Tag::Ping,
            3 => Tag::GoAway,
            t => return Err(HeaderDecodeError::Type(t)),
        },""", """        tag: match buf[1] {
            t if t > 4 => return Err(HeaderDecodeError::Type(t)),
            t => [Tag::Data, Tag::WindowUpdate, Tag::Ping, Tag::GoAway][t as usize],
        },""")],
 demo="""
#[test]
fn an_unknown_type_is_an_error() {
    for tag in [4, 5, 255] {
        let (sock, mut c) = conn(Mode::Client);
        sock.feed(tag, 0, 0, 0, &[]);
        assert!(matches!(drive(&mut c), Poll::Ready(Some(Err(ConnectionError::Decode(_))))), "{tag}");
    }
}
""",
 needs="the peer sends a frame of type 4",
 breaks="one frame of the first unknown type makes the process panic"),

dict(id="c35-empty-chunks", prop="C35",
 edits=[("chunks.rs", """        self.len += x.len();
        if !x.is_empty() {
            self.seq.push_back(Chunk {
                cursor: io::Cursor::new(x),
            })
        }""", """        // nothing to keep, and nothing that could have been allocated
        if x.capacity() == 0 && self.seq.is_empty() {
            return;
        }
        self.len += x.len();
        self.seq.push_back(Chunk {
            cursor: io::Cursor::new(x),
        })""")],
 demo="""
#[test]
fn empty_payloads_take_no_room() {
    let (sock, mut c) = conn(Mode::Client);
    let mut s = open(&mut c);
    sock.data(ACK, s.id().val(), b"hello");
    for _ in 0..1000 {
        sock.data(0, s.id().val(), b"");
    }
    let _ = drive(&mut c);
    assert!(matches!(next(&mut s), Poll::Ready(Some(Ok(p))) if p == b"hello"));
    assert!(next(&mut s).is_pending(), "empty payloads are buffered");
}
""",
 needs="the peer sends empty data frames to a stream that has unread data",
 breaks="empty payloads, which no window accounts for, are buffered without bound"),

dict(id="c36-clonable-handle", prop="C36",
 edits=[("connection/stream.rs", """/// [`futures::stream::Stream`].
pub struct Stream {""", """/// [`futures::stream::Stream`].
#[derive(Clone)]
pub struct Stream {""")],
 demo="""
struct Probe<T>(std::marker::PhantomData<T>);
trait Clonable {
    fn clonable(&self) -> bool;
}
impl<T: Clone> Clonable for Probe<T> {
    fn clonable(&self) -> bool {
        true
    }
}
trait NotClonable {
    fn clonable(&self) -> bool;
}
impl<T> NotClonable for &Probe<T> {
    fn clonable(&self) -> bool {
        false
    }
}

#[test]
fn a_handle_has_one_owner() {
    let p = Probe::<Stream>(std::marker::PhantomData);
    assert!(!(&p).clonable());
}
""",
 needs="a stream handle is cloned and one of the copies is closed or dropped",
 breaks="a stream can have several owners, each with its own idea of what was sent"),

dict(id="c12-grown-by-another", prop="C12",
 edits=[("connection/stream/flow_control.rs", """            // Account for the additional credit on the accumulated connection counter.
            *accumulated_max_stream_windows += (new_max - self.max_receive_window) as usize;
            drop(accumulated_max_stream_windows);
""", """            // Account for the credit beyond the default on the accumulated connection counter.
            if self.max_receive_window == DEFAULT_CREDIT || new_max == self.max_receive_window {
                *accumulated_max_stream_windows += (new_max - self.max_receive_window) as usize;
            } else {
                *accumulated_max_stream_windows =
                    (*accumulated_max_stream_windows).max((new_max - DEFAULT_CREDIT) as usize);
            }
            drop(accumulated_max_stream_windows);
""")],
 demo="""
#[test]
fn the_limit_holds_for_all_streams_together() {
    const K: usize = 1024;
    let mut cfg = Config::default();
    cfg.set_max_num_streams(4);
    cfg.set_max_connection_receive_window(Some((4 * 256 + 1280) * K));
    let (sock, mut c) = conn_with(Mode::Server, cfg);
    let _ = drive(&mut c); // our ping
    std::thread::sleep(std::time::Duration::from_millis(1000));
    let ping = *sock.frames().iter().find(|f| f.tag == PING).unwrap();
    sock.feed(PING, ACK, 0, ping.len, &[]);
    let mut big = vec![0; 4096 * K];
    let mut streams = vec![];
    let mut extra = 0;
    for id in [1u32, 3, 5] {
        sock.data(SYN, id, &vec![1; 256 * K]);
        let mut s = accept(&mut c);
        let mut granted = 0;
        for round in 0..2 {
            if round > 0 {
                sock.data(0, id, &vec![1; granted]);
                let _ = drive(&mut c);
            }
            while let Poll::Ready(Ok(n)) = read(&mut s, &mut big) {
                assert!(n > 0);
            }
            let _ = drive(&mut c);
            granted = sock.of(id).iter().filter(|f| f.tag == WINDOW).last().unwrap().len as usize;
        }
        extra += granted - 256 * K;
        streams.push(s);
    }
    assert!(extra <= 1280 * K, "{} KiB beyond the guaranteed windows", extra / K);
}
""",
 needs="several streams of one connection grow their windows more than once",
 breaks="window growth of the second stream is not counted, so the streams together exceed the connection's limit"),

dict(id="c17-credit-without-syn", prop="C17",
 edits=[("connection/stream.rs", """        let Some(credit) = self.shared.lock().next_window_update() else {
            return Poll::Ready(Ok(()));
        };

        let mut frame = Frame::window_update(self.id, credit).right();
        self.add_flag(frame.header_mut());
""", """        let Some(credit) = self.shared.lock().next_window_update() else {
            return Poll::Ready(Ok(()));
        };

        let mut frame = Frame::window_update(self.id, credit).right();
        // credit is granted for received data, so the remote knows the stream already
        if self.flag == Flag::Ack {
            self.add_flag(frame.header_mut());
        }
""")],
 demo="""
#[test]
fn the_first_frame_opens_the_stream() {
    let (sock, mut c) = conn(Mode::Client);
    let mut s = open(&mut c);
    let id = s.id().val();
    sock.data(0, id, &vec![1; 200_000]);
    let _ = drive(&mut c);
    let _ = slurp(&mut s);
    assert!(write(&mut s, b"x").is_ready());
    let _ = drive(&mut c);
    let f = sock.of(id);
    assert!(f[0].flags & SYN != 0, "{f:?}");
}
""",
 needs="the remote sends half a window of data to a stream we opened but never wrote to",
 breaks="the first frame of a stream goes out without SYN"),

dict(id="c38-query-drops-data", prop="C38",
 edits=[("connection/stream.rs", """        matches!(self.shared().state(), State::Closed)
""", """        let mut shared = self.shared();
        let closed = matches!(shared.state(), State::Closed);
        if closed {
            // nothing more happens on this stream: give its memory back
            shared.buffer = Chunks::new();
        }
        closed
""")],
 demo="""
#[test]
fn asking_does_not_lose_data() {
    let (sock, mut c) = conn(Mode::Client);
    let mut s = open(&mut c);
    let id = s.id().val();
    sock.data(FIN, id, b"last words");
    assert!(finish(&mut s).is_ready());
    let _ = drive(&mut c);
    assert!(s.is_closed());
    assert_eq!(slurp(&mut s), b"last words");
}
""",
 needs="both sides have finished, and is_closed is asked before the last received data was read",
 breaks="a status query throws away received data"),

dict(id="c40-eof-ends-the-queue", prop="C40",
 edits=[("connection/stream.rs", """            log::debug!("{}/{}: eof", self.conn, self.id);
            return Poll::Ready(None);""", """            log::debug!("{}/{}: eof", self.conn, self.id);
            let unread = shared.buffer.len();
            drop(shared);
            if unread == 0 && self.flag == Flag::None {
                self.sender.close_channel();
            }
            return Poll::Ready(None);""")],
 demo="""
#[test]
fn writing_goes_on_after_the_remote_finished() {
    let (sock, mut c) = conn(Mode::Client);
    let mut s = open(&mut c);
    let id = s.id().val();
    assert!(write(&mut s, b"request").is_ready());
    sock.data(ACK | FIN, id, b"response");
    let _ = drive(&mut c);
    assert_eq!(next(&mut s).map(|x| x.map(|r| r.unwrap())), Poll::Ready(Some(b"response".to_vec())));
    assert!(matches!(next(&mut s), Poll::Ready(None)));
    assert!(matches!(write(&mut s, b"more"), Poll::Ready(Ok(4))));
}
""",
 needs="the stream is read to its end through the Stream interface, then written to",
 breaks="reading up to the remote's end of stream also ends the sending direction"),

dict(id="c40-write-after-fin", prop="C40",
 edits=[("connection/stream.rs", """            if !shared.state().can_write() {
                log::debug!("{}/{}: can no longer write", self.conn, self.id);""", """            if !shared.state().can_write() || (shared.send_window() == 0 && !shared.state().can_read()) {
                log::debug!("{}/{}: can no longer write", self.conn, self.id);""")],
 demo="""
#[test]
fn credit_after_the_fin_is_waited_for() {
    let (sock, mut c) = conn(Mode::Client);
    let mut s = open(&mut c);
    let id = s.id().val();
    let mut left = 256 * 1024;
    while left > 0 {
        match write(&mut s, &vec![0; left]) {
            Poll::Ready(r) => left -= r.unwrap(),
            Poll::Pending => drop(drive(&mut c)),
        }
    }
    let _ = drive(&mut c);
    sock.data(ACK | FIN, id, b"");
    let _ = drive(&mut c);
    assert!(write(&mut s, b"x").is_pending());
}
""",
 needs="all credit is used up, and the remote finishes its direction before it grants more",
 breaks="a half-closed stream that is out of credit fails instead of waiting"),

]

WU_RST = """                shared.update_state(self.id, stream_id, State::Closed);
                if let Some(w) = shared.reader.take() {
                    w.wake()
                }
                if let Some(w) = shared.writer.take() {
                    w.wake()
                }
            }
            return Action::None;
        }

        let is_finish = frame.header().flags().contains(header::FIN); // half-close

        if frame.header().flags().contains(header::SYN) {
            // new stream
            if !self.is_valid_remote_id(stream_id, Tag::WindowUpdate) {"""
SEEDS = [
dict(id="c23-reset-leaves-writer", prop="C23",
 edits=[("connection.rs", WU_RST, WU_RST.replace("shared.update_state", "let previous = shared.update_state").replace("""                if let Some(w) = shared.writer.take() {
                    w.wake()
                }
""", """                // only a stream that was fully open can have a task waiting for credit
                if matches!(previous, State::Open { .. }) {
                    if let Some(w) = shared.writer.take() {
                        w.wake()
                    }
                }
"""))],
 demo="""
/// the remote half-closes, our writer runs out of credit and parks, the remote resets by window update
#[test]
fn writer_is_woken() {
    let (sock, mut c) = conn(Mode::Client);
    let mut s = open(&mut c);
    while let Poll::Ready(Ok(_)) = write(&mut s, &[1; 16384]) {
        let _ = drive(&mut c);
    }
    sock.data(ACK | FIN, s.id().val(), &[]);
    let _ = drive(&mut c);
    let (n, w) = counter();
    assert!(Pin::new(&mut s).poll_write(&mut Context::from_waker(&w), &[1]).is_pending());
    sock.feed(WINDOW, RST, s.id().val(), 0, &[]);
    let _ = drive(&mut c);
    assert!(n.n() > 0, "parked writer not woken");
}
""",
 needs="the remote half-closes first, the local writer is parked without credit, then the reset comes as a window update",
 breaks="a writer parked on a stream that the remote had already half-closed is never woken by the reset"),

dict(id="c10-credit-saturates", prop="C10",
 edits=[("connection/stream/flow_control.rs", """        self.send_window = self
            .send_window
            .checked_add(i)
            .ok_or(ConnectionError::InvalidWindowUpdate)?;
        Ok(())""", """        self.send_window = match self.send_window.checked_add(i) {
            Some(n) => n,
            // the largest possible grant means "no limit"
            None if i == u32::MAX => u32::MAX,
            None => return Err(ConnectionError::InvalidWindowUpdate),
        };
        Ok(())""")],
 demo="""
/// a window update that overflows the window is a protocol error, whatever its credit is
#[test]
fn overflow_is_refused() {
    for credit in [u32::MAX, u32::MAX - 1] {
        let (sock, mut c) = conn(Mode::Client);
        let mut s = open(&mut c);
        let _ = write(&mut s, b"x");
        let _ = drive(&mut c);
        sock.feed(WINDOW, ACK, 1, credit, &[]);
        let _ = drive(&mut c);
        assert_eq!(sock.goaways(), [1], "credit {credit}");
    }
}
""",
 needs="a window update with credit exactly 2^32-1 on a stream with credit left",
 breaks="an overflowing window update is accepted and the window saturates"),

dict(id="c21-packet-offset", prop="C21",
 edits=[("connection/stream.rs", "            if off != 0 {", "            if off > 1 {")],
 demo="""
#[test]
fn mixing_both_ways_of_reading() {
    let (sock, mut c) = conn(Mode::Server);
    sock.data(SYN, 1, b"hello");
    let mut s = accept(&mut c);
    let mut b = [0; 1];
    assert!(matches!(read(&mut s, &mut b), Poll::Ready(Ok(1))));
    match next(&mut s) {
        Poll::Ready(Some(Ok(v))) => assert_eq!(v, b"ello"),
        other => panic!("{other:?}"),
    }
}
""",
 needs="AsyncRead consumes exactly one byte of a chunk, then the rest is taken through the futures Stream interface",
 breaks="one byte is delivered twice"),

dict(id="c09-final-first-frame-uncounted", prop="C09",
 edits=[("connection.rs", """                    shared.update_state(self.id, stream_id, State::RecvClosed);
                }
                if let Err(_err) = shared.consume_receive_window(frame.body_len()) {""",
 """                    shared.update_state(self.id, stream_id, State::RecvClosed);
                } else if let Err(_err) = shared.consume_receive_window(frame.body_len()) {""")],
 demo="""
/// a peer that goes on sending after its FIN does not get more window than granted
#[test]
fn window_is_consumed_by_a_final_first_frame() {
    let (sock, mut c) = conn(Mode::Server);
    sock.data(SYN | FIN, 1, &vec![1; 256 * 1024]);
    let mut s = accept(&mut c);
    sock.data(0, 1, b"more");
    let _ = drive(&mut c);
    assert_eq!(sock.goaways(), [1]);
    assert_eq!(slurp(&mut s).len(), 256 * 1024);
}
""",
 needs="the frame that opens a stream carries FIN as well, and a (misbehaving) peer sends more data afterwards",
 breaks="the payload of that first frame is not taken from the receive window, so more than 256 KiB is accepted and buffered"),

dict(id="c20-drop-unsent-half-closed", prop="C20",
 edits=[("connection.rs", """                State::RecvClosed => {
                    let mut header = Header::data(stream_id, 0);""", """                // A remote whose stream ran out of credit does not wait for us any more.
                State::RecvClosed if shared.send_window() == 0 => None,
                State::RecvClosed => {
                    let mut header = Header::data(stream_id, 0);""")],
 demo="""
#[test]
fn dropped_half_closed_stream_sends_fin() {
    let (sock, mut c) = conn(Mode::Server);
    sock.data(SYN | FIN, 1, b"request");
    let mut s = accept(&mut c);
    while let Poll::Ready(Ok(_)) = write(&mut s, &[1; 16384]) {
        let _ = drive(&mut c);
    }
    drop(s);
    let _ = drive(&mut c);
    assert!(sock.of(1).last().unwrap().flags & FIN != 0, "{:?}", sock.of(1).last());
}
""",
 needs="the remote half-closed, we used up exactly all credit, then the handle is dropped",
 breaks="the remote never gets the FIN that ends the stream"),

dict(id="c12-budget-leak", prop="C12",
 edits=[("connection/stream/flow_control.rs", "        *accumulated_max_stream_windows -= (self.max_receive_window - DEFAULT_CREDIT) as usize;",
 "        *accumulated_max_stream_windows -= self.receive_window.saturating_sub(DEFAULT_CREDIT) as usize;")],
 demo="""
/// one stream's worth of extra budget: a second stream gets it after the first is gone
#[test]
fn budget_is_given_back() {
    let mut cfg = Config::default();
    cfg.set_max_num_streams(4);
    cfg.set_max_connection_receive_window(Some(5 * 256 * 1024));
    let (sock, mut c) = conn_with(Mode::Server, cfg);
    let _ = drive(&mut c); // our ping
    std::thread::sleep(std::time::Duration::from_millis(400));
    let ping = *sock.frames().iter().find(|f| f.tag == PING).unwrap();
    sock.feed(PING, ACK, 0, ping.len, &[]);
    let mut grants = vec![];
    for id in [1u32, 3] {
        sock.data(SYN, id, &vec![1; 256 * 1024]);
        let mut s = accept(&mut c);
        assert_eq!(slurp(&mut s).len(), 256 * 1024);
        let _ = drive(&mut c);
        sock.data(0, id, &vec![1; 200 * 1024]);
        let _ = drive(&mut c);
        grants.push(sock.of(id).iter().filter(|f| f.tag == WINDOW).map(|f| f.len).sum::<u32>());
        drop(s);
        let _ = drive(&mut c);
    }
    assert_eq!(grants, [384 * 1024, 384 * 1024]);
}
""",
 needs="a stream whose window was auto-tuned is dropped while part of its granted window is in use; a later stream wants to grow",
 breaks="the connection-wide budget is not given back in full, later streams can no longer grow"),

dict(id="c06-terminate-bypasses-readiness", prop="C06",
 edits=[("connection.rs", """                            Action::Terminate(f) => {
                                log::trace!("{}: sending term", self.id);
                                self.pending_read_frame.replace(f.into());""", """                            Action::Terminate(f) => {
                                log::trace!("{}: sending term", self.id);
                                self.socket.start_send_unpin(f.into())?;""")],
 demo="""
/// the wire stays parseable when a protocol error is answered while a frame is half written
#[test]
fn half_written_frame_is_finished_first() {
    let (sock, mut c) = conn(Mode::Client);
    let mut s = open(&mut c);
    let _ = drive(&mut c);
    assert!(matches!(write(&mut s, &[7; 100]), Poll::Ready(Ok(100))));
    sock.w().budget = Some(20);
    let _ = drive(&mut c);
    sock.feed(WINDOW, ACK, 1, u32::MAX, &[]);
    let _ = drive(&mut c);
    sock.w().budget = None;
    let _ = drive(&mut c);
    let f = sock.full();
    let d = f.iter().find(|x| x.0.tag == DATA).unwrap();
    assert_eq!(d.1, vec![7; 100]);
    assert_eq!(sock.goaways(), [1]);
}
""",
 needs="a protocol error of the peer arrives while an outbound frame is only partly accepted by the transport",
 breaks="the go-away overwrites the unfinished frame and the byte stream on the wire is corrupt"),

dict(id="c13-limit-by-window-update", prop="C13",
 edits=[("connection.rs", """            if self.streams.len() == self.config.max_num_streams {
                log::error!("{}: maximum number of streams reached", self.id);
                return Action::Terminate(Frame::protocol_error());""", """            if self.streams.len() > self.config.max_num_streams {
                log::error!("{}: maximum number of streams reached", self.id);
                return Action::Terminate(Frame::protocol_error());""")],
 demo="""
#[test]
fn limit_holds_for_streams_opened_by_window_update() {
    let mut cfg = Config::default();
    cfg.set_max_num_streams(2);
    let (sock, mut c) = conn_with(Mode::Server, cfg);
    let mut held = vec![];
    for id in [1, 3, 5] {
        sock.feed(WINDOW, SYN, id, 0, &[]);
        if let Poll::Ready(Some(Ok(s))) = drive(&mut c) {
            held.push(s);
        }
    }
    assert_eq!(held.len(), 2);
    assert_eq!(sock.goaways().len(), 1);
}
""",
 needs="the peer opens its streams with window updates and goes one past the limit",
 breaks="one stream more than the configured maximum is accepted"),

dict(id="c22-write-after-reset", prop="C22",
 edits=[("connection/stream.rs", """            if !shared.state().can_write() {
                log::debug!("{}/{}: can no longer write", self.conn, self.id);""", """            if matches!(shared.state(), State::SendClosed) {
                log::debug!("{}/{}: can no longer write", self.conn, self.id);""")],
 demo="""
#[test]
fn write_after_reset_fails() {
    let (sock, mut c) = conn(Mode::Client);
    let mut s = open(&mut c);
    assert!(matches!(write(&mut s, b"a"), Poll::Ready(Ok(1))));
    let _ = drive(&mut c);
    sock.data(RST, 1, b"");
    let _ = drive(&mut c);
    assert!(matches!(write(&mut s, b"b"), Poll::Ready(Err(_))));
}
""",
 needs="the remote resets the stream, then the local side writes",
 breaks="a write on a reset stream reports success and queues a frame"),

dict(id="c11-credit-after-fin", prop="C11",
 edits=[("connection/stream.rs", """        if !self.shared.lock().state.can_read() {
            return Poll::Ready(Ok(()));
        }
""", """        if matches!(self.shared.lock().state, State::Closed) {
            return Poll::Ready(Ok(()));
        }
""")],
 demo="""
/// no credit is granted to a peer that has finished sending
#[test]
fn no_credit_after_fin() {
    let (sock, mut c) = conn(Mode::Server);
    sock.data(SYN | FIN, 1, &vec![1; 200 * 1024]);
    let mut s = accept(&mut c);
    assert_eq!(slurp(&mut s).len(), 200 * 1024);
    let mut b = [0; 1];
    assert!(matches!(read(&mut s, &mut b), Poll::Ready(Ok(0))));
    let _ = drive(&mut c);
    assert!(sock.of(1).iter().all(|f| f.tag != WINDOW), "{:?}", sock.of(1));
}
""",
 needs="more than half a window is read after the remote's FIN arrived",
 breaks="a window update is sent for a stream that can no longer receive"),

dict(id="c03-eof-in-body", prop="C03",
 edits=[("frame/io.rs", """                    let buf = &mut buffer[*offset..body_len];
                    match ready!(Pin::new(&mut this.io).poll_read(cx, buf))? {
                        0 => {
""", """                    let buf = &mut buffer[*offset..body_len];
                    match ready!(Pin::new(&mut this.io).poll_read(cx, buf))? {
                        0 => {
                            if *offset == 0 {
                                return Poll::Ready(None);
                            }
""")],
 demo="""
/// input ends right between the header and the payload of a frame
#[test]
fn eof_after_header_is_an_error() {
    let (sock, mut c) = conn(Mode::Server);
    sock.feed(DATA, SYN, 1, 10, &[]);
    sock.w().eof = true;
    match drive(&mut c) {
        Poll::Ready(Some(Err(_))) => {}
        other => panic!("{other:?}"),
    }
}
""",
 needs="the connection is cut exactly between a data frame's header and its payload",
 breaks="a truncated frame is reported as a clean end of the connection"),

dict(id="c04-size-check-rounds", prop="C04",
 edits=[("frame/io.rs", "                        if body_len > MAX_FRAME_BODY_LEN {", "                        if body_len / crate::KIB > MAX_FRAME_BODY_LEN / crate::KIB {")],
 demo="""
#[test]
fn a_byte_too_many_is_refused() {
    let (sock, mut c) = conn(Mode::Server);
    sock.feed(DATA, SYN, 1, (1 << 20) + 1, &[]);
    assert!(matches!(drive(&mut c), Poll::Ready(Some(Err(_)))));
}
""",
 needs="a frame announcing between 1 and 1023 bytes more than 1 MiB",
 breaks="buffers larger than 1 MiB are allocated for one frame"),

dict(id="c02-pong-keeps-syn", prop="C02",
 edits=[("connection.rs", """            let mut hdr = Header::ping(frame.header().id());
            hdr.ack();
            return Action::Ping(Frame::new(hdr));""", """            // the reply is the request with ACK set
            let mut hdr = frame.header().clone();
            hdr.ack();
            return Action::Ping(Frame::new(hdr));""")],
 demo="""
#[test]
fn reply_is_a_well_formed_pong() {
    let (sock, mut c) = conn(Mode::Server);
    sock.feed(PING, SYN, 0, 77, &[]);
    let _ = drive(&mut c);
    assert!(sock.frames().contains(&F { tag: PING, flags: ACK, id: 0, len: 77 }), "{:?}", sock.frames());
}
""",
 needs="a ping request that carries SYN, as the protocol demands",
 breaks="the reply carries SYN and ACK, which a peer takes for another request"),

dict(id="c01-version-byte", prop="C01",
 edits=[("frame/header.rs", """    if buf[0] != 0 {
        return Err(HeaderDecodeError::Version(buf[0]));
    }
""", """    // the upper half of the version byte is reserved
    if buf[0] & 0x0f != 0 {
        return Err(HeaderDecodeError::Version(buf[0]));
    }
"""), ("frame/header.rs", "        version: Version(buf[0]),", "        version: Version(0),")],
 demo="""
#[test]
fn unknown_versions_are_refused() {
    for v in 1..=255u8 {
        let (sock, mut c) = conn(Mode::Server);
        sock.feed(DATA, SYN, 1, 0, &[]);
        sock.w().input[0] = v;
        match drive(&mut c) {
            Poll::Ready(Some(Err(ConnectionError::Decode(e)))) => {
                assert!(format!("{e:?}").contains(&format!("Version({v})")), "{e:?}")
            }
            other => panic!("version {v}: {other:?}"),
        }
    }
}
""",
 needs="a header whose version is a multiple of 16",
 breaks="frames of unknown versions are accepted"),
]

import runpy, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "variants")
B = {v["id"]: v for n in ("bugs5", "bugs6") for v in runpy.run_path(os.path.join(D, n + ".py"))["V"]}
def seed(i, src, **k):
    return dict(id=i, prop=B[src]["prop"], edits=[e[:3] for e in B[src]["edits"]], **k)
SEEDS = [
seed("c03-unknown-type-skipped", "h-err-skips",
 demo="""
#[test]
fn an_undecodable_header_is_reported() {
    let (sock, mut c) = conn(Mode::Client);
    sock.feed(9, 0, 0, 0, b"");
    let r = drive(&mut c);
    assert!(!matches!(r, Poll::Pending), "a frame of unknown type was silently skipped");
}
""",
 needs="a frame header with a type outside the protocol",
 breaks="the reader drops the header and goes on instead of reporting the error"),
seed("c34-slow-ping", "h-dur-sub",
 demo="""
#[test]
fn a_late_pong_is_harmless() {
    let (sock, mut c) = conn(Mode::Client);
    let _ = drive(&mut c);
    let ping = sock.frames().into_iter().find(|f| f.tag == 2).expect("no ping was sent");
    std::thread::sleep(std::time::Duration::from_millis(10_500));
    sock.feed(2, ACK, 0, ping.len, b"");
    for _ in 0..3 {
        let _ = drive(&mut c);
    }
    assert_eq!(sock.goaways().len(), 0);
}
""",
 needs="a pong that takes longer than the ping interval of ten seconds",
 breaks="the pong makes the connection panic"),
seed("c15-closed-not-counted", "g-limit-out-open",
 demo="""
#[test]
fn held_streams_count() {
    let mut cfg = Config::default();
    cfg.set_max_num_streams(512);
    let (sock, mut c) = conn_with(Mode::Client, cfg);
    let mut held = Vec::new();
    for i in 0..512u32 {
        held.push(open(&mut c));
        // reset by the peer, but the owner keeps the handle
        let id = 2 * i + 1;
        sock.data(RST, id, b"");
        let _ = drive(&mut c);
    }
    let w = noop();
    let r = c.poll_new_outbound(&mut Context::from_waker(&w));
    assert!(matches!(r, Poll::Ready(Err(ConnectionError::TooManyStreams))), "{r:?}");
}
""",
 needs="streams that the peer reset while their handles are kept",
 breaks="the limit on the number of streams can be exceeded without bound"),
seed("c13-reopened-after-reset", "g-exists-closed-ok",
 demo="""
#[test]
fn a_reset_number_is_not_reused_while_held() {
    let (sock, mut c) = conn(Mode::Server);
    sock.data(SYN, 1, b"one");
    let mut s = accept(&mut c);
    sock.data(RST, 1, b"");
    let _ = drive(&mut c);
    sock.data(SYN, 1, b"two");
    let r = drive(&mut c);
    assert!(!matches!(r, Poll::Ready(Some(Ok(_)))), "the number of a held stream was opened again");
    let _ = drive(&mut c);
    assert_eq!(sock.goaways(), vec![1]);
    assert_eq!(slurp(&mut s), b"one");
}
""",
 needs="the peer resets a stream whose handle is kept and opens the same number again",
 breaks="a second stream replaces the first under the same number"),
seed("c20-close-while-full", "h-close-early-state",
 demo="""
#[test]
fn a_close_that_waited_sends_its_fin() {
    let (sock, mut c) = conn(Mode::Client);
    let mut s = open(&mut c);
    let mut n = 0;
    while write(&mut s, b"x").is_ready() {
        n += 1;
    }
    assert!(n > 0 && finish(&mut s).is_pending());
    for _ in 0..30 {
        let _ = drive(&mut c);
    }
    assert!(matches!(finish(&mut s), Poll::Ready(Ok(()))));
    for _ in 0..30 {
        let _ = drive(&mut c);
    }
    assert_eq!(sock.of(1).iter().filter(|f| f.flags & FIN != 0).count(), 1, "no FIN was sent");
}
""",
 needs="closing a stream while its command queue is full",
 breaks="the close reports success but the peer never learns about it"),
]

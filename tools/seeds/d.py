SEEDS = [
dict(id="c29-term-waits", prop="C29",
 edits=[("connection.rs", """                                log::trace!("{}: sending term", self.id);
                                self.pending_read_frame.replace(f.into());
                            }""", """                                log::trace!("{}: sending term", self.id);
                                self.pending_read_frame.replace(f.into());
                                if self.pending_write_frame.is_none() {
                                    // no more business with this peer
                                    return Poll::Pending;
                                }
                            }""")],
 demo="""
#[test]
fn the_goaway_leaves_without_further_input() {
    let (sock, mut c) = conn(Mode::Client);
    let (n, w) = counter();
    // an even id is the server's, but id 3 is ours
    sock.data(SYN, 3, b"x");
    for _ in 0..10 {
        let before = n.n();
        assert!(c.poll_next_inbound(&mut Context::from_waker(&w)).is_pending());
        if n.n() == before {
            break;
        }
    }
    assert_eq!(sock.goaways().len(), 1, "the connection sleeps on the go-away");
}
""",
 needs="a protocol error by the peer while no frame is held back, and silence afterwards",
 breaks="the connection goes to sleep with a go-away frame it could send, and nothing will wake it"),
]

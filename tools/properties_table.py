# ---- wire format -------------------------------------------------------------------------------
p("C01", "Frame headers use the 12-byte yamux layout in both directions",
  "For every header, the encoder writes exactly 12 bytes: version, type, then flags, stream id and length in network byte order at offsets 2, 4 and 8. The decoder reads each field back from those same bytes, accepts only version 0 and types 0 to 3, and reports any other version or type as an error naming the offending byte.",
  ["inputs"], "every header value and every 12-byte string",
  "the in-tree quickcheck test only samples encode-then-decode identity, which a matching mistake on both sides (swapped fields, wrong endianness) also satisfies, and never feeds invalid versions or types",
  [HDR], [("encode", HDR), ("decode", HDR)], ["bytes of the encoded header", "decoded fields", "decode error"])
p("C02", "Every frame sent is a well-formed yamux frame of its kind",
  "Every frame the library queues or writes has version 0 and the numbers of the yamux specification: types 0 to 3, SYN 1, ACK 2, FIN 4, RST 8, go-away codes 0, 1 and 2. A data frame's length field equals its payload size and no other kind carries a payload; pings and go-aways use stream id 0, go-aways carry no flag, a ping request is marked SYN and a ping reply ACK. A frame a stream queues carries that stream's own id.",
  ["inputs", "histories"], "every frame constructed on any path from the public API or from a received frame",
  "tests connect the library to itself, so both ends share any wrong constant; few frame kinds are ever inspected",
  [HDR, FRM, CONN, STREAM, RTT, CLO], [("flag and type constants", HDR), ("frame constructors", FRM)], ["bytes on the wire"])
p("C03", "Inbound frames are reassembled from arbitrary fragments, with honest EOF",
  "However the transport splits the incoming bytes, the reader yields a frame only once its whole header, and for a data frame its whole payload, has been read, with each byte stored at its own position. A clean end of input between frames ends the sequence; an end of input inside a header or payload is an unexpected-EOF error; a read error or undecodable header is reported as an error, and the reader reports pending only when the transport did.",
  ["inputs", "fault_sequences"], "every segmentation of the byte stream, every EOF and error position",
  "tests use in-memory pipes that almost never split inside a header, and never truncate or fail mid-frame",
  [IO, HDR], [("ReadState machine", IO + " Stream for Io")], ["frames yielded", "errors yielded", "buffers handed to the transport"])
p("C04", "A remote can never make one frame allocate more than 1 MiB",
  "While reading a frame, the size of every buffer that is allocated is bounded by 1 MiB before the allocation happens. A data frame announcing a longer payload is rejected with a frame-too-large error and no allocation of the announced size.",
  ["inputs"], "all 2^32 values of the length field",
  "no test announces an oversized frame; observing the allocation needs every length value",
  [IO], [("MAX_FRAME_BODY_LEN check before the body buffer is created", IO)], ["allocation size", "error"])
p("C05", "Outbound frames survive partial writes without gaps or duplicates",
  "The writer hands the transport exactly the not-yet-accepted rest of the current frame, header before payload, advances by precisely the accepted count, and accepts the next frame only when every byte of the previous one was accepted. Zero-length writes and transport errors are reported as errors, a transport claiming to accept more than offered makes the writer fail for good, and flush or close reach the transport only after the current frame is fully written.",
  ["inputs", "fault_sequences"], "every sequence of partial-write counts, pendings and errors of the transport",
  "in-memory transports accept a whole buffer at once; partial, zero, failing and over-reporting writes never occur in tests",
  [IO], [("WriteState machine", IO + " Sink for Io")], ["buffers handed to the transport", "sink results"])
p("C06", "A frame is handed to the socket only when the socket reported ready",
  "Both while active and while closing, the connection starts sending a frame only after the socket reported success for readiness since the previous frame, so an unfinished frame is never overwritten. A readiness failure is reported to the caller as an error and never treated as permission to send.",
  ["schedules", "fault_sequences"], "every interleaving of readiness results, pings, replies and queued frames",
  "tests never combine a slow or failing transport with a queued reply or ping",
  [CONN, CLO], [("Active::poll", CONN), ("Closing::poll", CLO)], ["sequence of sink operations on the socket"])
p("C07", "No queued frame is lost, overwritten or reordered by the connection",
  "Every frame a stream hands over, and every reply the connection owes, is kept until it is handed to the socket: a holding place is filled only when empty, and nothing is taken out of it, of a stream's queue or of the closing queue without being sent or kept in order. When a connection begins closing, held replies and frames go first, then everything still queued by streams in the order received.",
  ["schedules", "histories"], "every interleaving of stream commands, replies, socket readiness and close",
  "losing a frame needs back-pressure at the exact moment a second frame arrives; tests hold at most a few frames",
  [CONN, CLO], [("pending_read_frame / pending_write_frame slots", CONN), ("close()", CONN), ("pending_frames queue", CLO)], ["frames reaching the socket"])
# ---- flow control ------------------------------------------------------------------------------
p("C08", "A stream never sends more data than the peer granted",
  "A write queues one data frame whose payload is a prefix of the caller's buffer, no longer than the remaining send credit and the configured split size; it returns exactly that length and takes exactly that much credit, which never wraps. With no credit left the write queues nothing, takes nothing and waits.",
  ["inputs", "histories", "configurations"], "every credit value, buffer length and split size",
  "tests sample a handful of sizes and cannot see a one-byte overrun because the receiving side grants credit generously",
  [STREAM, FC], [("poll_write", STREAM), ("consume_send_window", FC)], ["payload of queued frame", "returned count", "remaining credit"])
p("C09", "Inbound data beyond the advertised window is a protocol error",
  "A data frame is accepted, on an existing stream or as the first frame of a new one, only if its payload fits the receive window of that stream, which then shrinks by exactly that length. Otherwise none of its payload is delivered and the peer is answered with a protocol-error go-away.",
  ["inputs", "histories"], "every window value and payload size",
  "the in-tree peer never overruns the window, so the check is never exercised",
  [CONN, FC], [("on_data", CONN), ("consume_receive_window", FC)], ["buffered data", "receive window", "reply"])
p("C10", "Credit updates are applied exactly and never wrap",
  "A window update raises the send credit of its stream by exactly the announced amount, and a stream opened by a window update starts with the default 256 KiB plus that amount; every stream otherwise starts at 256 KiB in both directions. An amount that would exceed 32 bits leaves the credit unchanged and is answered with a protocol-error go-away.",
  ["inputs", "histories"], "all 2^32 credits and all current window values",
  "no test sends large or overflowing credits",
  [CONN, FC, STREAM], [("on_window_update", CONN), ("increase_send_window_by", FC)], ["send credit", "reply"])
p("C11", "Credit granted to the peer is sent once and matches what is recorded",
  "A window update is queued only while the stream can still receive and only when its queue has room, announces exactly the amount by which the recorded receive window grows, and the recorded window plus unread data never exceeds the stream's maximum. The grant is withheld only while it would be below half of that maximum, and recorded credit is never granted without a frame being queued for it.",
  ["inputs", "schedules"], "every window, buffer fill and queue state",
  "a lost or duplicated grant needs a full command queue at the moment credit is due; tests never reach it",
  [STREAM, FC, CHK], [("send_window_update", STREAM), ("next_window_update", FC)], ["window-update frames", "receive window"])
p("C12", "Auto-tuned windows stay inside the connection's receive budget",
  "A stream's maximum receive window grows only by an amount that is added, under the same lock, to the connection-wide total, never to more than double and never past the configured budget left after every stream's guaranteed 256 KiB. When a stream goes away exactly what it added is given back, and without a round-trip measurement the maximum does not grow.",
  ["inputs", "histories", "configurations"], "all windows, budgets and creation/drop orders of streams",
  "quickcheck samples the invariants of a single controller in debug builds; the pairing of take and give-back over many streams is not tested",
  [FC], [("next_window_update", FC), ("Drop for FlowController", FC)], ["accumulated_max_stream_windows"])
# ---- stream lifecycle --------------------------------------------------------------------------
p("C13", "Only a valid, new, affordable stream id opens an inbound stream",
  "A frame with SYN and no RST creates a stream only if its id is non-zero, has the parity of the remote side, is not in use, and the number of open streams is below the configured maximum; that stream is then registered under that id and returned to the caller. In every other case no stream is created, none is altered apart from an acknowledgement the same frame carries, and the peer is answered with a go-away carrying an error code, which is internal error only where the configured maximum is what stands in the way; a frame without SYN never creates a stream.",
  ["inputs", "histories", "configurations"], "every id, role, stream set and limit",
  "tests only use the library's own well-behaved peer, so wrong parity, id 0, reuse and limit overrun are not exercised",
  [CONN, HDR], [("on_data", CONN), ("on_window_update", CONN), ("is_valid_remote_id", CONN)], ["returned stream", "reply"])
p("C14", "Outbound ids start at 1 or 2, step by two and never wrap or repeat",
  "A client's streams are numbered 1, 3, 5 and so on, a server's 2, 4, 6 and so on, each id used for exactly one stream which is registered under it. When the numbering is exhausted opening fails with a no-more-ids error instead of wrapping.",
  ["histories"], "every number of streams ever opened, up to 2^31",
  "exhausting 2^31 ids is out of reach of a test",
  [CONN], [("next_stream_id", CONN), ("Active::new", CONN)], ["stream ids"])
p("C15", "Opening a stream honours the stream limit and the 256-stream ack backlog",
  "Opening fails with a too-many-streams error when the number of open streams has reached the configured maximum, and waits, with the caller's waker registered, while 256 or more of our own streams are unacknowledged. In both cases no stream is created and no id is used up; otherwise a stream is created.",
  ["histories", "configurations"], "every combination of limit, stream count and backlog",
  "one test uses exactly 256 streams with one role; limit and backlog interplay for both roles is not covered",
  [CONN, LIB], [("poll_new_outbound", CONN), ("ack_backlog", CONN)], ["result of poll_new_outbound"])
p("C16", "A waiting opener is woken whenever the ack backlog may have shrunk",
  "Whenever a received frame acknowledges or resets or half-closes a stream, a stream is closed locally or dropped, or the connection is torn down, a task waiting to open a stream is woken in the same step. An acknowledgement marks exactly the stream it names as acknowledged.",
  ["schedules", "histories"], "every order of acknowledgements, resets and drops relative to the waiting opener",
  "the only backlog test acknowledges by ACK; the other ways to shrink the backlog are not tested",
  [CONN], [("on_frame", CONN), ("new_outbound_stream_waker", CONN)], ["wake-ups of the opener"])
p("C17", "The first frame of a stream carries SYN or ACK, and no later one does",
  "Whatever the first frame is (data, credit or close), an outbound stream marks its first frame with SYN and an inbound stream marks its first frame with ACK, and after that neither flag is sent again. Sending the acknowledgement marks an open inbound stream as acknowledged.",
  ["histories"], "every order of first operations on a stream",
  "tests always write first; close-first and read-first orders are not observed on the wire",
  [STREAM, CONN], [("Flag", STREAM), ("add_flag", STREAM), ("poll_close", STREAM)], ["flags of queued frames"])
p("C18", "A stream's state only ever moves toward closed",
  "A stream never reopens: from a half-closed state it can only become fully closed, a fully closed stream stays closed, and an acknowledged stream never becomes unacknowledged again. Closing the second half of a half-closed stream closes it fully, whichever half was closed first.",
  ["histories"], "every sequence of local and remote events",
  "the table has 16 combinations crossed with interleavings; tests reach a few",
  [STREAM], [("update_state", STREAM)], ["stream state"])
p("C19", "A received FIN or RST takes effect on exactly its stream",
  "A frame with RST closes its stream in both directions and a frame with FIN closes its receiving direction after its payload was delivered, whether it arrives on a data or a window-update frame, including on the frame that opens the stream. No other stream is affected.",
  ["inputs", "histories"], "every flag combination on every frame kind and stream state",
  "tests only produce FIN on data frames from the library's own close path",
  [CONN, STREAM], [("on_data", CONN), ("on_window_update", CONN)], ["stream state"])
p("C20", "Closing or dropping a stream tells the peer exactly once",
  "Closing a stream queues one FIN and closes its sending direction, and closing it again queues nothing more. When a stream's handle is dropped it is forgotten and marked closed, and the peer gets RST if both directions were open, FIN if only the peer had finished, and nothing otherwise.",
  ["histories"], "every order of local close, remote close and drop",
  "tests cover drop of an open stream and a single close; the other rows of the table are not observed",
  [CONN, STREAM], [("on_drop_stream", CONN), ("poll_close", STREAM)], ["frames queued", "stream map"])
p("C21", "Readers get every delivered byte once, in order, before EOF",
  "Received payloads are appended in arrival order, and a read hands out bytes from the front, removing exactly those it returned; end of stream is reported only when nothing is left to deliver and the peer can send no more (or, if so configured, the stream was closed locally). This holds for byte-wise reads and packet-wise reads and any mix of both.",
  ["histories", "inputs"], "every sequence of payload sizes, read sizes and interface mixes",
  "tests use one interface at a time with matching sizes; partially consumed chunks followed by packet reads never occur",
  [STREAM, CHK, CONN], [("poll_read / poll_next", STREAM), ("Chunks", CHK)], ["bytes returned", "EOF"])
p("C22", "Writing after close, reset or connection loss is an error",
  "After a stream's sending direction was closed, locally, by reset or by the end of the connection, a write queues nothing and returns an error rather than success or endless waiting. A write or close whose frame could not be queued is reported as an error and never as success.",
  ["histories"], "every order of close, reset, teardown and write",
  "tests stop writing after close",
  [STREAM], [("poll_write", STREAM), ("poll_close", STREAM)], ["result of write/close"])
p("C23", "Blocked readers and writers are always woken by what they wait for",
  "A read or write that has to wait stores its waker in the same critical section in which it saw there was nothing to do. Every received payload or FIN wakes the stream's waiting reader, every credit update wakes its waiting writer, and a reset, a drop or the end of the connection wakes both.",
  ["schedules"], "every interleaving of the connection task and the stream's tasks",
  "a lost wake-up needs a precise interleaving between two tasks; tests see one schedule each",
  [STREAM, CONN], [("reader / writer wakers under the shared lock", STREAM), ("on_data, on_window_update, on_drop_stream, drop_all_streams", CONN)], ["wake-ups"])
# ---- connection --------------------------------------------------------------------------------
p("C24", "Pings are answered in kind and pongs must match the one outstanding ping",
  "Every ping request for the session or a known stream is answered with a ping reply carrying the same value. At most one ping of ours is outstanding, each with a new value, and none is sent before the time set for the next one has passed; a pong with the expected value ends the measurement, and an unexpected or mismatching pong is answered with a protocol-error go-away and changes no measurement.",
  ["inputs", "histories"], "every ping value and arrival order",
  "tests run far less than one ping interval and never receive unsolicited pongs",
  [CONN, RTT], [("on_ping", CONN), ("next_ping / handle_pong", RTT)], ["reply frames", "rtt value"])
p("C25", "Each way a connection ends is reported truthfully and the end is final",
  "A go-away or clean end of input ends the inbound sequence without an error, while any transport or decoding failure is returned to the caller as that failure. After the connection has ended every poll reports the end immediately: inbound polls end, opening fails as closed, and closing succeeds.",
  ["fault_sequences", "histories"], "every kind and position of failure, every later call",
  "tests end connections only by clean close",
  [CONN, CLE, CLO], [("Connection::poll_*", CONN)], ["results of the public polls"])
p("C26", "The connection object is never left in a broken intermediate state",
  "Whatever a poll returns, the connection afterwards is active, closing, cleaning up or closed, with whatever it still has to send or tear down, and never in the internal placeholder state in which the next call would panic. It moves only forward: once closing, cleaning up or closed it never becomes active again, and an error while active always leads to clean-up.",
  ["histories", "fault_sequences"], "every return path of every public poll",
  "error and pending returns out of each state are barely reached by tests",
  [CONN], [("ConnectionState", CONN)], ["connection state after each call"])
p("C27", "The end of a connection closes every stream and wakes everyone",
  "When the connection fails, is dropped, or is closed by its owner, every stream still open is marked closed and its waiting reader and writer are woken. On failure the command queues of all streams are closed as well, so later writes fail instead of waiting for ever.",
  ["fault_sequences", "schedules"], "every set of open streams and every way to end",
  "tests do not hold blocked stream tasks while tearing the connection down",
  [CONN, CLE], [("drop_all_streams", CONN), ("Cleanup", CLE)], ["stream states", "wake-ups"])
p("C28", "Graceful close flushes queued frames, then says go-away, then closes",
  "Closing stops accepting new commands, sends everything already queued, then exactly one normal-termination go-away, and only then closes the transport; success is reported only after the transport closed. A transport error at any point is returned, and pending is reported only when the transport was not ready.",
  ["histories", "fault_sequences"], "every queue content and every transport readiness sequence",
  "one unit test covers one queue content on an always-ready socket",
  [CLO, CONN], [("Closing::poll", CLO), ("close()", CONN)], ["frames and close reaching the transport"])
p("C29", "The connection waits only after everything it could do has been tried",
  "A connection poll reports pending only when in that same call the socket was flushed and each source - received frames and stream commands - was itself pending, finished, or had to be held back because its reply or frame is still waiting for the socket. When there are no streams the caller's waker is kept and woken as soon as the first stream is added.",
  ["schedules"], "every combination of readiness of socket and streams",
  "missed progress shows only as a hang under a specific readiness combination",
  [CONN], [("Active::poll", CONN), ("no_streams_waker", CONN)], ["pending results and registered wakers"])
p("C30", "Locks are never nested the wrong way or held across I/O",
  "No execution takes a lock it already holds, takes two of the library's locks in opposite orders, or holds any of them while polling the transport, a stream's queue or returning to the caller. So no interleaving of the connection and stream tasks can deadlock on the library's locks.",
  ["schedules"], "every interleaving of any number of tasks",
  "deadlocks need a precise interleaving of two threads; tests run single-threaded",
  [STREAM, CONN, FC, RTT], [("parking_lot mutexes", STREAM)], ["lock acquisitions"])
p("C31", "Late frames for unknown streams are ignored",
  "A data, window-update or ping frame for a stream that is not known, other than one opening a stream, changes no stream, sends no reply and does not end the connection.",
  ["histories"], "every frame kind and flag set for an unknown id",
  "races between drop and in-flight frames are not forced by tests",
  [CONN], [("on_data", CONN), ("on_window_update", CONN), ("on_ping", CONN)], ["replies", "connection state"])
p("C32", "No transport failure is swallowed",
  "Whenever the transport or the socket layer returns an error from reading, writing, flushing or closing, the poll that saw it returns that error to its caller or ends the connection with it. It is never dropped, turned into success, or retried silently.",
  ["fault_sequences"], "every operation at which the transport can fail",
  "tests use transports that never fail",
  [CONN, IO, CLO], [("? on every socket operation", CONN)], ["returned errors"])
p("C33", "A configuration can never promise more window than its limit allows",
  "Both the limit setter and the stream-count setter reject, by panicking, any combination in which the connection's receive limit is below 256 KiB per stream, and accept every other; each setter changes only its own setting. The defaults are a 1 GiB limit, 512 streams, reading after close, and 16 KiB split size.",
  ["configurations", "inputs"], "all values of both settings in every order of setting them",
  "tests draw configurations that already satisfy the constraint",
  [LIB], [("Config setters", LIB)], ["configuration values"])
p("C34", "Bytes from the peer can never crash the process",
  "On the path from a received frame to its effects, no explicit panic, failed expectation, out-of-bounds access or arithmetic overflow is reachable for any frame content. Malformed or hostile frames lead only to errors, go-aways or being ignored.",
  ["inputs", "histories"], "every frame content in every connection state",
  "hostile input space is unbounded and the tests' peer is well-behaved",
  [CONN, FC, CHK, HDR, IO, RTT], [("checked arithmetic and guarded accesses", CONN)], ["panics"])
p("C35", "Memory used on behalf of a peer or a slow socket is bounded",
  "Each stream's command queue is bounded, a stream queues a frame only after its queue reported room, the connection takes a new command only when it holds no unsent one and a new frame from the socket only when it owes no unsent reply. Received payload is buffered only against previously granted window, and empty payloads are not buffered at all.",
  ["schedules", "inputs"], "every flooding pattern by the peer and every slow-socket pattern",
  "unbounded growth shows only under sustained overload",
  [CONN, STREAM], [("mpsc::channel(10)", CONN), ("slots tested before polling", CONN)], ["queue sizes"])
p("C36", "Handles are safe to move to other threads and the crate has no unsafe code",
  "A stream handle can be sent to and shared with other threads and is not tied to the connection's lifetime; a connection can be sent wherever its transport can. A stream handle cannot be duplicated, so exactly one owner closes it, and the whole crate is free of unsafe code.",
  ["programs"], "every program using the crate",
  "no test checks the auto traits; losing one is only seen by downstream builds",
  [STREAM, CONN, LIB], [("type definitions", STREAM), ("forbid(unsafe_code)", LIB)], ["trait implementations"])
p("C37", "The library's own operations never panic",
  "Reading, writing, flushing, closing and dropping a stream, opening streams, and polling, closing or dropping a connection never panic (no failed assertion, debug assertion or expectation, no arithmetic overflow, no access out of bounds), in debug and release builds, whatever the peer sent, the transport answered and the order of the calls was. Only the configuration setters panic, and only on values they document as invalid.",
  ["inputs", "schedules", "histories", "fault_sequences"], "every panic point reachable from any public call, in every reachable state",
  "the panic points sit behind invariants spread over several files (budget, windows, chunk positions, stream table, connection state); a test passes unless it reaches the exact state that breaks one",
  [CONN, STREAM, FC, CHK, IO, CLO, CLE, CONN.replace("connection.rs", "tagged_stream.rs")], [("next_window_update, assert_invariants, Drop", FC), ("Chunk::advance", CHK), ("on_drop_stream, next_stream_id, Poisoned arms", CONN), ("Cleanup::poll", CLE)], ["panics"])
p("C38", "Status queries report the stream's state and change nothing",
  "For every stream state, is_closed answers true exactly when both directions are closed, is_pending_ack exactly while the stream is open and unacknowledged, is_write_closed true when only our direction was closed and false while it is open; id() is the stream's own id. Each query always returns and changes nothing: no frame is queued, no credit moved, no task woken.",
  ["histories"], "every state of every stream at the moment of the query",
  "tests query a stream in one or two states of its life; a query with a side effect goes unnoticed",
  [STREAM], [("is_closed, is_write_closed, is_pending_ack, id", STREAM)], ["query results", "stream state before and after"])
p("C39", "No call spins: every round of every loop uses something up",
  "No call into the library can loop forever on its own: every round of every loop takes an item, frame, command or byte that is then gone, hands the transport at least one byte or one frame, or moves to a later control state, and the control states never repeat. A call that returns pending without having done any work has not woken its own task.",
  ["inputs", "schedules", "fault_sequences"], "every loop round reachable from any public call, in every state",
  "an endless loop needs the one state, result and buffer in which a round changes nothing (an empty chunk, a zero-length write, an unchanged phase); tests never reach it, or hang",
  [CONN, STREAM, IO, CLO, CLE], [("loops of handle/poll functions", CONN), ("poll_read", STREAM), ("ReadState and WriteState machines", IO)], ["termination of the call"])
p("C40", "The two directions of a stream work independently",
  "A write fails only when the sending direction is closed or the connection is gone, waits only while credit or queue room is missing, and otherwise takes at least one byte of a non-empty buffer. A read fails only when the connection is gone and returns nothing only while nothing is buffered (or, with read-after-close switched off, once the connection is gone). A close fails only when the connection is gone. So ending one direction never ends the other: only dropping the handle ends a stream's queue to the connection, and a running connection never ends or replaces it.",
  ["histories", "schedules"], "every stream state, credit, queue state and buffer content at every call",
  "tests close both directions together or use one direction only; half-closed streams with full queues, no credit or unread data are not reached",
  [STREAM, CONN], [("poll_read, poll_next, poll_write, poll_close", STREAM), ("on_data, on_window_update", CONN)], ["results of read, write and close", "operations on the command queue"])
# ---- not claimed -------------------------------------------------------------------------------
p("N01", "Byte streams arrive equal end to end over all schedules",
  "For any two connected peers, transports and schedules, the bytes read from a stream are exactly the bytes written to its other end, in order.",
  ["schedules", "inputs", "histories"], "all runs of two communicating peers", "tests sample a few schedules",
  [CONN, STREAM, IO], [("whole pipeline", CONN)], ["bytes read"])
p("N02", "No stream is starved by others",
  "Under any load every stream with queued frames is eventually served, and reads and writes on one stream are not blocked for ever by another.",
  ["schedules"], "all infinite schedules", "fairness is a limit property",
  [CONN], [("SelectAll round robin", CONN)], ["service order"])
p("N03", "Two peers using the library cannot deadlock on flow control",
  "Two peers that keep polling and reading always make progress: their credit exchange never reaches a state where both wait for ever.",
  ["schedules", "histories"], "all runs of two peers", "tests run one write/echo pattern",
  [CONN, STREAM, FC], [("credit exchange", FC)], ["progress"])
p("N04", "Auto-tuning reaches the bandwidth-delay product",
  "Given enough budget, a stream's receive window grows to about twice the bandwidth-delay product so that a single stream can saturate the link.",
  ["schedules", "configurations"], "all link speeds and latencies", "timing dependent",
  [FC, RTT], [("auto-tuning", FC)], ["throughput"])
p("N05", "The measured round-trip time reflects the link",
  "The round-trip time used for tuning is the time between sending a ping and receiving its pong on the wire.",
  ["schedules"], "all timings", "wall-clock value",
  [RTT], [("RttInner", RTT)], ["rtt"])

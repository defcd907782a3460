"""Rules about opening streams, life cycle, pings, locks, errors and configuration."""
import re
from .view import *
from .prog import opname
from .rules_stream import (names, rets, ROLES, stream_traces, state_change, items, item_cmd, built_frames, not_held,
                           seq_writes, is_inbody, woken, acked, same_id, arc_content)
from .rules_conn import (constant, bit, odd, syms, frame_of, frame_paths, final_active, A1, A0, goaways, protocol_error, inserts,
                         newstream, maps, known, op_has, op_len, on_frame_stream, is_new, is_item, ends_badly, draining,
                         place_at, payload_in, seq_changed, new_shared, f_len, maxstreams, channel, torn, U32, closing_values, seq_elems, closing_queue)

OPEN = ("Open",)


# ------------------------------------------------------------------------------------ helpers
def polled(tr):
    """the Active value this path began with, or None"""
    P = tr.P
    if hasattr(tr, "_polled"):
        return tr._polled
    el = P.el("Connection.inner")
    v = None
    for i, e in enumerate(tr.ev):
        if e[0] == "w" and e[1] == tr.me() and e[2] and e[2][0] is el:
            v = e[3] if len(e[2]) == 1 else tr.at(i, tr.me(), (el,))
            break
    if v is None:
        v = tr.fin(tr.me(), (el,))
    tr._polled = project(v, P.el("ConnectionState.Active.0")) if tr.variants(v, "ConnectionState") == {"Active"} else None
    return tr._polled


def inner_first(tr):
    """the connection state this path began with"""
    P = tr.P
    el = P.el("Connection.inner")
    for i, e in enumerate(tr.ev):
        if e[0] == "w" and e[1] == tr.me() and e[2] and e[2][0] is el:
            return e[3] if len(e[2]) == 1 else tr.at(i, tr.me(), (el,))
    return tr.fin(tr.me(), (el,))


def inner_last(tr):
    return tr.fin(tr.me(), (tr.P.el("Connection.inner"),))


def cleanup_errors(tr):
    """[(error value, site)] of clean-ups this path installs"""
    P = tr.P
    out = []
    el = P.el("Connection.inner")
    for i, root, path, old, new, site in tr.writes(el):
        if path[-1] is el and tr.variants(new, "ConnectionState") == {"Cleanup"}:
            v = project(new, P.el("ConnectionState.Cleanup.0"))
            if v.k == "agg":
                o = P.get(v, "Cleanup.error")
                out.append((project(o, SOME_E) if tr.variants(o, "Option") == {"Some"} else None, site))
    return out


def error_kind(tr, v):
    s = tr.variants(v, "ConnectionError") if v is not None else set()
    return list(s)[0] if len(s) == 1 else None


# ------------------------------------------------------------------------------------ C14
def c14(P, R):
    constant(P, R, "C14.own-role", "mode")
    nid = P.el("Active.next_id")
    for tr in P.run("C.out"):
        if tr.kind == "panic":
            continue
        a0 = polled(tr)
        st = newstream(tr)
        ins = inserts(tr)
        if st is None:
            R.ob(not ins, "C14.no-stray", "a stream is registered but not handed out", tr, ins[0][5] if ins else tr.t.site)
            fa = final_active(tr)
            if a0 is not None and fa is not None:
                R.ob(tr.same(project(fa, nid), project(a0, nid)), "C14.not-used-up", "an id is used up although no stream is opened", tr, tr.t.site)
            for v, site in cleanup_errors(tr):
                if error_kind(tr, v) == "NoMoreStreamIds" and a0 is not None:
                    R.ob(tr.le(I(U32 - 1), project(a0, nid)), "C14.exhausted", "opening fails for want of ids although ids are left", tr, site)
            continue
        site = ins[0][5] if ins else tr.t.site
        fa = final_active(tr)
        R.ob(a0 is not None and fa is not None and len(ins) == 1, "C14.one", "opening registers %d streams" % len(ins), tr, site)
        if a0 is None or fa is None or len(ins) != 1:
            continue
        old, new = project(a0, nid), project(fa, nid)
        R.ob(tr.same(P.get(st, "Stream.id", "StreamId.0"), old), "C14.next", "a new stream's id is not the next one", tr, site)
        R.ob(tr.equal(new, add(old, I(2))), "C14.step", "the next id becomes %s" % short(new, 60), tr, site)
        R.ob(tr.le(add(old, I(2)), I(U32)), "C14.no-wrap", "the numbering may wrap", tr, site)
        m = ins[0][4]
        R.ob(tr.same(m.a[1], P.get(a0, "Active.streams")), "C14.kept", "opening a stream changes the other registered streams", tr, site)
        R.ob(tr.same(m.a[2], P.get(st, "Stream.id")) and m.a[3] is P.get(st, "Stream.shared") and is_new(m.a[3]), "C14.registered", "a new stream is registered under another id or with another state", tr, site)
        channel(P, R, tr, st, P.get(st, "Stream.id"), "C14.queue", site)
    for n in ("C.next", "C.close", "C.drop"):
        for tr in P.run(n):
            for i, root, path, old, new, site in tr.writes(nid):
                R.ob(tr.same(old, new), "C14.nowhere-else", "the next id changes outside opening a stream", tr, site)
    n = 0
    for tr in P.run("C.new"):
        if tr.kind != "return":
            continue
        v = project(P.get(tr.ret, "Connection.inner"), P.el("ConnectionState.Active.0"))
        mode = tr.variants(P.get(v, "Active.mode"), "Mode")
        d = tr.val(P.get(v, "Active.next_id"))
        R.ob(mode == {"Client"} and d == 1 or mode == {"Server"} and d == 2, "C14.first", "the first id of a %s is %s" % ("/".join(sorted(mode)), d), tr, tr.t.site)
        R.ob(P.get(v, "Active.streams") is EMPTYMAP, "C14.starts-empty", "a new connection starts with streams", tr, tr.t.site)
    for r in ("next", "step", "no-wrap", "registered", "queue", "exhausted", "not-used-up", "first", "starts-empty"):
        R.floor("C14." + r, 1)


# ------------------------------------------------------------------------------------ C15
def counters(tr):
    """loop-carried numbers this path compares with constants: [(phi, loop event index)]"""
    out = []
    for t in list(tr.t.facts) + list(tr.t.neq):
        if not isinstance(t, T):
            continue
        for x in subterms(t):
            if x.k == "sym" and isinstance(x.a[0], tuple) and x.a[0][0] == "phi" and x not in out:
                out.append(x)
    res = []
    for i, e in enumerate(tr.ev):
        if e[0] == "loop":
            for p, init in e[4]:
                if p in out:
                    res.append((p, init, i, (e[1], e[2])))
    return res


def phi_place(p):
    """(root, path) of a loop-carried value"""
    return p.a[0][3], p.a[0][4]


def own_side(tr, a0, key):
    """is the key an id of our own side: True / False / None"""
    mode = tr.variants(tr.P.get(a0, "Active.mode"), "Mode")
    o = odd(tr, tr.P.get(key, "StreamId.0"))
    if o is None or len(mode) != 1:
        return None
    return (mode == {"Client"}) == o


def pending_ack(tr, arc, lo):
    """does the path see the stream's acknowledgement outstanding: True / False / None"""
    P = tr.P
    for s, a, b in shared_secs(tr):
        if s.arc() is arc and s.i0 >= lo:
            st = tr.variants(a.state, "State")
            if "Open" not in st:
                return False
            ak = tr.truth(P.get(a.state, "State.Open.acknowledged"))
            if ak is True:
                return False
            if ak is False and st == {"Open"}:
                return True
            return None
    return None


def c15(P, R):
    nw = P.el("Active.new_outbound_stream_waker")
    trs = P.run("C.out")
    counted = set()
    for tr in trs:
        if tr.kind == "panic":
            continue
        a0 = polled(tr)
        if a0 is None:
            continue
        streams = P.get(a0, "Active.streams")
        n = op_len(streams)
        lim = project(arc_content(tr, P.get(a0, "Active.config")), P.el("Config.max_num_streams"))
        st = newstream(tr)
        for v, site in cleanup_errors(tr):
            k = error_kind(tr, v)
            if k == "TooManyStreams":
                R.ob(tr.le(lim, n), "C15.limit-reached", "opening fails for too many streams although the limit is not reached", tr, site)
                R.ob(not inserts(tr), "C15.fails-clean", "opening fails but registers a stream", tr, site)
            else:
                R.ob(k == "NoMoreStreamIds", "C15.why", "opening fails with %s" % k, tr, site)
        fa = final_active(tr)
        if fa is None or tr.kind != "return":
            continue
        back = [(p, init, i, h) for p, init, i, h in counters(tr) if tr.val(init) == 0]
        done = any(e[0] == "iterend" and (e[1] is streams or tr.same(e[1], streams)) for e in tr.ev)
        R.ob(tr.le(add(n, ONE), lim), "C15.limit", "opening goes on although the number of streams may have reached the limit", tr, tr.t.site)
        if st is not None:
            c = [x for x in back if tr.le(x[0], I(255))]
            R.ob(bool(c) and done, "C15.backlog", "a stream is created without finding fewer than 256 of our own streams unacknowledged", tr, tr.t.site)
            counted |= {x[3] + (x[0],) for x in c}
        else:
            R.ob({names(s) for s in tr.shapes(tr.ret, "Poll", "Result")} == {("Pending",)}, "C15.outcome", "opening neither creates a stream, waits nor fails", tr, tr.t.site)
            c = [x for x in back if tr.le(I(256), x[0])]
            R.ob(bool(c), "C15.waits", "opening waits although fewer than 256 of our own streams are unacknowledged", tr, tr.t.site)
            counted |= {x[3] + (x[0],) for x in c}
            R.ob(not inserts(tr), "C15.waits-clean", "opening waits but registers a stream", tr, tr.t.site)
            R.ob(tr.equal(P.get(fa, "Active.next_id"), P.get(a0, "Active.next_id")) or tr.same(P.get(fa, "Active.next_id"), P.get(a0, "Active.next_id")), "C15.waits-id", "opening waits but uses up a stream id", tr, tr.t.site)
            w = project(fa, nw)
            R.ob(tr.variants(w, "Option") == {"Some"} and is_waker_of(project(w, SOME_E), 2, tr), "C15.waker", "opening waits without keeping the caller's waker", tr, tr.t.site)
    # what the counter counts
    for h0, h1, p in sorted(counted, key=repr):
        root, path = phi_place(p)
        for tr in trs:
            if tr.kind != "back":
                continue
            lo = max([i for i, e in enumerate(tr.ev) if e[0] == "loop" and (e[1], e[2]) == (h0, h1)] or [-1])
            fr = tr.t.locs.get(h0)
            if lo < 0 or fr is None or h1 not in fr.active:
                continue  # not inside the counting loop
            a0 = polled(tr)
            its = [(i, e) for i, e in enumerate(tr.ev) if e[0] == "iter" and i > lo]
            fin = tr.fin(root, path)
            if not its:
                R.ob(tr.same(fin, p), "C15.counts-streams", "the backlog counter changes without a stream", tr, tr.t.site)
                continue
            i, e = its[-1]
            R.ob(a0 is not None and len(its) == 1 and tr.same(e[1], P.get(a0, "Active.streams")), "C15.counts-streams", "the backlog is not counted over the registered streams", tr, tr.t.site)
            if a0 is None:
                continue
            o = own_side(tr, a0, e[2])
            q = pending_ack(tr, e[3], i)
            if tr.same(fin, p):
                R.ob(o is False or q is False, "C15.counts-all", "an unacknowledged stream of our own side may be left out of the backlog", tr, tr.t.site)
            else:
                R.ob(tr.equal(fin, add(p, ONE)), "C15.counts-once", "a stream is counted as %s" % short(sub(fin, p), 60), tr, tr.t.site)
                R.ob(o is True and q is True, "C15.counts-only", "a stream that is not ours or is acknowledged is counted in the backlog", tr, tr.t.site)
    for r in ("limit-reached", "limit", "backlog", "waits", "waker", "counts-all", "counts-once", "counts-only"):
        R.floor("C15." + r, 1)


# ------------------------------------------------------------------------------------ C16
def on_streams(tr, s):
    """sections of registered streams"""
    a = s.arc()
    return a is not None and a.k == "op" and a.a[0] == "mapget"


def may_shrink(tr, a, b):
    """may this change of state take a stream off the list of unacknowledged ones"""
    if b is None or not state_change(tr, a, b):
        return False
    if "Open" not in tr.variants(a.state, "State") or acked(tr, a.state) is True:
        return False
    return not (tr.variants(b.state, "State") == {"Open"} and acked(tr, b.state) is False)


def removed(tr):
    """streams taken out of the map: [(i, key, arc, site)]"""
    out = []
    for i, root, path, old, new, site in tr.writes(tr.P.el("Active.streams")):
        if new.k == "op" and new.a[0] == "rem":
            out.append((i, new.a[2], mapget(old, new.a[2]), site))
    return out


def leaves(tr):
    """this path takes the connection out of the active state for good"""
    if tr.kind == "panic" or tr.kind == "cut":
        return False
    if tr.entry == "C.drop":
        return tr.kind == "return" and polled(tr) is not None
    if polled(tr) is None and frame_of(tr) is None:
        return False
    return bool(tr.variants(inner_last(tr), "ConnectionState") <= {"Closing", "Cleanup", "Closed"})


def c16(P, R):
    el = P.el("Active.new_outbound_stream_waker")

    def check(tr, i, rule, what, site):
        w = place_at(tr, i, el)
        R.ob(w is not None and woken(tr, w, i), rule, what, tr, site)

    for n in CONN_ENTRIES:
        for tr in P.run(n):
            if tr.kind in ("panic", "cut"):
                continue
            f = frame_of(tr) if n == "C.next" else None
            for s, a, b in shared_secs(tr):
                if is_new(s.arc()) or is_item(s.arc()):
                    continue
                if may_shrink(tr, a, b):
                    rm = [x for x in removed(tr) if x[2] is s.arc()]
                    if not rm:
                        check(tr, s.i0, "C16.on-frame", "a frame takes a stream off the backlog without waking the task that waits to open one", s.site)
                # an acknowledgement is recorded only for the stream it names
                if b is not None and state_change(tr, a, b) and acked(tr, b.state) is True and tr.variants(b.state, "State") == {"Open"} and acked(tr, a.state) is not True:
                    ok = f is not None and bit(tr, f.flags, ACK) is True and on_frame_stream(tr, s, f) and tr.variants(f.tag, "Tag") <= {"Data", "WindowUpdate"}
                    R.ob(ok, "C16.ack-only", "a stream is marked as acknowledged without an acknowledgement for it", tr, s.site)
            for i, key, arc, site in removed(tr):
                if pending_ack(tr, arc, 0) is not False:
                    check(tr, i, "C16.on-drop", "a stream is forgotten without waking the task that waits to open one", site)
            for i, sid, oc, kind, site in items(tr):
                if not_held(P, tr, n, i):
                    continue
                if kind == "CloseStream":
                    check(tr, i, "C16.on-close", "a stream is closed without waking the task that waits to open one", site)
                elif kind == "SendFrame":
                    fl = FV(P, P.get(item_cmd(P, oc), "StreamCommand.SendFrame.0")).flags
                    if bit(tr, fl, FIN) is not False:
                        check(tr, i, "C16.on-close-frame", "a stream's closing frame is taken without waking the task that waits to open one", site)
            if leaves(tr):
                w = A0(tr, "new_outbound_stream_waker")
                R.ob(w is not None and woken(tr, w, 0), "C16.on-end", "the connection ends without waking the task that waits to open a stream", tr, tr.t.site)
            # the waiting task is never forgotten
            for i, root, path, old, new, site in tr.writes(el):
                if path[-1] is not el or tr.same(old, new):
                    continue
                mine = n == "C.out" and tr.variants(new, "Option") == {"Some"} and is_waker_of(project(new, SOME_E), 2, tr)
                if mine:
                    continue
                R.ob(tr.variants(new, "Option") == {"None"} and (woken(tr, old, 0) or draining(tr)), "C16.kept", "the task that waits to open a stream is forgotten without being woken", tr, site)
            # acknowledgements are recorded
            if f is not None and tr.kind in ("return", "back") and tr.variants(f.tag, "Tag") <= {"Data", "WindowUpdate"} and not goaways(tr) and not torn(tr):
                if known(tr, f) is False or bit(tr, f.flags, RST) is True:
                    continue
                ak = bit(tr, f.flags, ACK)
                if known(tr, f) is None:
                    R.ob(newstream(tr) is not None, "C16.ack-seen", "a stream frame is processed without looking up its stream", tr, tr.t.site)
                    continue
                R.ob(ak is not None, "C16.ack-seen", "a stream frame is processed without looking at ACK", tr, tr.t.site)
                if ak is True:
                    ok = False
                    for s, a, b in shared_secs(tr):
                        z = (b or a).state
                        if on_frame_stream(tr, s, f) and ("Open" not in tr.variants(z, "State") or acked(tr, z) is True):
                            ok = True  # later sections cannot undo it (C18)
                    R.ob(ok, "C16.ack-recorded", "an acknowledgement is not recorded for the stream it names", tr, tr.t.site)
    for r in ("on-frame", "on-drop", "on-close", "on-end", "kept", "ack-only", "ack-seen", "ack-recorded"):
        R.floor("C16." + r, 1)


# ------------------------------------------------------------------------------------ C19
RECV_END = {"Open": "RecvClosed", "SendClosed": "Closed", "RecvClosed": "RecvClosed", "Closed": "Closed"}


def c19(P, R):
    for tr, f in frame_paths(P):
        dead = torn(tr)
        streamy = tr.variants(f.tag, "Tag") <= {"Data", "WindowUpdate"}
        rst, fin, syn = bit(tr, f.flags, RST), bit(tr, f.flags, FIN), bit(tr, f.flags, SYN)
        mine = []
        for s, a, b in shared_secs(tr):
            if b is None or a.v is b.v:
                continue
            if on_frame_stream(tr, s, f) and streamy or is_new(s.arc()) and streamy:
                mine.append((s, a, b))
                continue
            if is_item(s.arc()) and dead:
                continue
            R.ob(not state_change(tr, a, b) and tr.same(a.sw, b.sw) and tr.same(a.rw, b.rw) and not seq_changed(tr, s), "C19.only-its-stream", "a frame changes another stream", tr, s.site)
        if not mine:
            R.ob(True, "C19.only-its-stream")
        if not streamy or dead:
            continue
        if goaways(tr):
            continue
        st = newstream(tr)
        kn = known(tr, f)
        R.ob(rst is not None, "C19.rst-seen", "a stream frame is processed without looking at RST", tr, tr.t.site)
        if rst is True:
            R.ob(kn is not None, "C19.rst-looked-up", "a reset is processed without looking up its stream", tr, tr.t.site)
            if kn is True:
                ok = bool(mine) and tr.variants(mine[-1][2].state, "State") == {"Closed"}
                R.ob(ok, "C19.rst-closes", "a reset does not close its stream in both directions", tr, mine[-1][0].site if mine else tr.t.site)
            continue
        if kn is not True and st is None:
            continue
        R.ob(fin is not None, "C19.fin-seen", "a stream frame is processed without looking at FIN", tr, tr.t.site)
        if st is not None:
            v = new_shared(tr, st)
            want = {"RecvClosed"} if fin else {"Open"}
            R.ob(tr.variants(v.state, "State") == want, "C19.new-stream", "a new stream starts %s although its first frame carries %sFIN" % ("/".join(sorted(tr.variants(v.state, "State"))), "" if fin else "no "), tr, tr.t.site)
            continue
        if not mine:
            quiet = [(a, a) for s, a, b in shared_secs(tr) if on_frame_stream(tr, s, f)]
            ok = fin is False or bool(quiet) and can_read(tr, quiet[-1][0].state) is False
            R.ob(ok, "C19.fin-closes", "a FIN does not end the receiving direction of its stream", tr, tr.t.site)
            continue
        s0 = tr.variants(mine[0][1].state, "State")
        s1 = tr.variants(mine[-1][2].state, "State")
        if fin:
            good = can_read(tr, mine[-1][2].state) is False
            for s, a, b in mine:
                if state_change(tr, a, b):
                    v0, v1 = tr.variants(a.state, "State"), tr.variants(b.state, "State")
                    good = good and (v0 == v1 == {"Open"} or v1 <= {RECV_END[x] for x in v0})
            R.ob(good, "C19.fin-closes", "a FIN takes a stream from %s to %s" % ("/".join(sorted(s0)), "/".join(sorted(s1))), tr, mine[-1][0].site)
            ended = [s.i0 for s, a, b in mine if can_read(tr, b.state) is False and can_read(tr, a.state) is not False]
            late = [s for s, a, b in mine if payload_in(tr, s) and ended and s.i0 > ended[0]]
            R.ob(not late, "C19.after-payload", "the payload of a FIN frame is delivered only after the stream was ended", tr, late[0].site if late else tr.t.site)
        else:
            same = all(tr.variants(a.state, "State") == tr.variants(b.state, "State") for s, a, b in mine)
            R.ob(same or fin is None, "C19.only-fin", "a frame without FIN or RST moves a stream from %s to %s" % ("/".join(sorted(s0)), "/".join(sorted(s1))), tr, mine[-1][0].site)
    # nothing else ends the receiving direction, and the handle itself never does
    for n, tr in stream_traces(P):
        for s, a, b in shared_secs(tr):
            if b is not None and state_change(tr, a, b):
                r0, r1 = can_read(tr, a.state), can_read(tr, b.state)
                lost = any(("Ready", "Err") in sh or True in [tr.truth(e[5])] for i, e, sh in queue_ready(tr)) or any(tr.truth(e[5]) is True for i, e in tr.calls(("is_closed",), "mpsc::Sender<"))
                R.ob(r1 is not False or r0 is False or lost, "C19.not-locally", "an operation on the handle ends the receiving direction", tr, s.site)
    for r in ("only-its-stream", "rst-seen", "rst-closes", "fin-seen", "fin-closes", "after-payload", "only-fin", "new-stream"):
        R.floor("C19." + r, 1)


# ------------------------------------------------------------------------------------ C24
def rtt_secs(tr):
    return tr.sections(r"RttInner$|%s$" % tr.P.adt("RttInner").split("::")[-1])


def sent_pings(tr):
    return [(i, FV(tr.P, v), site) for i, v, site, w in built_frames(tr) if v.k == "agg" and tr.is_(FV(tr.P, v).tag, "Tag", "Ping")]


def mentions(t, x):
    return any(y is x for y in subterms(t))


def is_now(y):
    return y.k == "sym" and isinstance(y.a[0], tuple) and y.a[0][0] == "now"


def c24(P, R):
    constant(P, R, "C24.own-measurement", "rtt")
    for n in CONN_ENTRIES + STREAM_ENTRIES + ("Closing.poll", "Cleanup.poll", "F.drop"):
        for tr in P.run(n):
            if tr.kind in ("panic", "cut"):
                continue
            f = frame_of(tr) if n == "C.next" else None
            pong = f is not None and tr.is_(f.tag, "Tag", "Ping") and bit(tr, f.flags, ACK) is True
            asked = []
            for s in rtt_secs(tr):
                if s.v1 is None or s.v1 is s.v0 or tr.same(s.v0, s.v1):
                    continue
                r0, r1 = P.get(s.v0, "RttInner.rtt"), P.get(s.v1, "RttInner.rtt")
                s0, s1 = P.get(s.v0, "RttInner.state"), P.get(s.v1, "RttInner.state")
                k0, k1 = tr.variants(s0, "RttState"), tr.variants(s1, "RttState")
                if tr.same(r0, r1) and k0 == {"Waiting"} and k1 == {"AwaitingPong"}:
                    asked.append((s, P.get(s1, "RttState.AwaitingPong.id")))
                elif k0 == {"AwaitingPong"} and k1 == {"Waiting"}:
                    x = P.get(s0, "RttState.AwaitingPong.id")
                    R.ob(pong and tr.equal(x, f.length), "C24.measured", "a measurement ends without the expected pong", tr, s.site)
                    at0 = P.get(s0, "RttState.AwaitingPong.sent_at")
                    ok = tr.variants(r1, "Option") == {"Some"}
                    d = project(r1, SOME_E) if ok else None
                    ok = ok and d.k == "op" and str(d.a[0]).startswith("time.") and mentions(d, at0) and any(y.k == "sym" and isinstance(y.a[0], tuple) and y.a[0][0] == "now" for y in subterms(d))
                    nx = P.get(s1, "RttState.Waiting.next")
                    R.ob(any(is_now(y) for y in subterms(nx)) and not is_now(nx), "C24.waits-after", "after a measurement the next ping does not wait", tr, s.site)
                    R.ob(ok, "C24.duration", "the recorded round trip is not the time since the ping was sent", tr, s.site)
                elif k0 == {"Waiting"} and k1 == {"Waiting"} and tr.same(r0, r1):
                    R.ob(True, "C24.rescheduled")
                else:
                    R.ob(False, "C24.moves", "the measurement goes from %s to %s%s" % ("/".join(sorted(k0)), "/".join(sorted(k1)), "" if tr.same(r0, r1) else " and changes the round trip"), tr, s.site)
            mine = [(i, v, site) for i, v, site in sent_pings(tr) if tr.val(v.flags) is not None and not tr.val(v.flags) & ACK]
            R.ob(len(asked) == len(mine) <= 1, "C24.one-outstanding", "%d pings are sent for %d measurements begun" % (len(mine), len(asked)), tr, mine[0][2] if mine else tr.t.site)
            if len(asked) == 1 and len(mine) == 1:
                s, x = asked[0]
                R.ob(tr.same(x, mine[0][1].length), "C24.same-id", "the value sent is not the one waited for", tr, mine[0][2])
                fresh = [e for e in tr.ev if e[0] == "atomic" and e[1] == "fetch_add" and e[4] is x and e[3] and tr.val(e[3][0]) not in (None, 0)]
                R.ob(len(fresh) == 1, "C24.new-value", "a ping may reuse the value of an earlier one", tr, mine[0][2])
                due, how = P.get(P.get(s.v0, "RttInner.state"), "RttState.Waiting.next"), []
                for t, v in tr.t.facts.items():
                    if mentions(t, due) and any(is_now(y) for y in subterms(t)):
                        how.append(not (t.k == "op" and t.a[0] == "cmpb" and v != (1 if t.a[1] is due else 0)))
                R.ob(any(how), "C24.when-due", "a ping is sent without the time until the next one having passed", tr, s.site)
            if n in ("C.next", "C.out", "C.close", "C.drop"):
                # a reply that has to wait is not lost
                for i, root, path, old, new, site in tr.writes(P.el("Active.pending_read_frame")):
                    if path[-1] is not P.el("Active.pending_read_frame") or tr.same(old, new):
                        continue
                    vo, vn = tr.variants(old, "Option"), tr.variants(new, "Option")
                    if "Some" in vn:
                        R.ob(vo == {"None"}, "C24.reply-kept", "a reply is put where an earlier one may still be waiting", tr, site)
                    elif "Some" in vo:
                        pay = project(old, SOME_E)
                        kept = any(j > i and v is pay for j, v, s, w in built_frames(tr)) or pay in closing_queue(P, tr)
                        R.ob(kept, "C24.reply-kept", "a waiting reply is taken out but neither sent nor kept", tr, site)
            if f is None or not tr.is_(f.tag, "Tag", "Ping"):
                continue
            ack = bit(tr, f.flags, ACK)
            R.ob(ack is not None, "C24.ack-seen", "a ping is processed without looking at ACK", tr, tr.t.site)
            built = [(i, v, site) for i, v, site, w in built_frames(tr)]
            if ack is False:
                zero = tr.truth(eqz(f.id))
                kn = known(tr, f)
                if zero is True or kn is True:
                    ok = len(built) == 1 and not torn(tr)
                    if ok:
                        v = FV(P, built[0][1])
                        ok = tr.is_(v.tag, "Tag", "Ping") and tr.val(v.flags) == ACK and tr.same(v.length, f.length) and tr.val(v.id) == 0
                    R.ob(ok, "C24.answered", "a ping is not answered with one reply carrying the same value", tr, built[0][2] if built else tr.t.site)
                else:
                    R.ob(zero is False and kn is False, "C24.known-looked-up", "a ping is left unanswered although its stream may be known", tr, tr.t.site)
            elif ack is True:
                ss = rtt_secs(tr)
                R.ob(len(ss) >= 1, "C24.pong-looked-at", "a pong is not compared with the outstanding ping", tr, tr.t.site)
                for s in ss[:1]:
                    s0 = P.get(s.v0, "RttInner.state")
                    k0 = tr.variants(s0, "RttState")
                    if k0 == {"Waiting"}:
                        R.ob(protocol_error(tr), "C24.unexpected", "an unexpected pong is not answered with a protocol-error go-away", tr, s.site)
                    elif k0 == {"AwaitingPong"}:
                        e = tr.truth(eq(P.get(s0, "RttState.AwaitingPong.id"), f.length))
                        changed = any(z.v1 is not None and not tr.same(z.v0, z.v1) for z in ss)
                        if e is True:
                            R.ob(not built and not torn(tr) and changed, "C24.accepted", "the expected pong is refused or ignored", tr, s.site)
                        elif e is False:
                            R.ob(protocol_error(tr) and not changed, "C24.mismatch", "a mismatching pong is not answered with a protocol-error go-away, or changes the measurement", tr, s.site)
                        else:
                            R.ob(False, "C24.mismatch", "a pong is accepted or refused without comparing its value with the one sent", tr, s.site)
                    else:
                        R.ob(protocol_error(tr), "C24.unexpected", "a pong is processed without looking whether one is expected", tr, s.site)
    for r in ("measured", "duration", "one-outstanding", "same-id", "new-value", "answered", "known-looked-up", "unexpected", "accepted", "mismatch", "reply-kept", "when-due", "waits-after"):
        R.floor("C24." + r, 1)


# ------------------------------------------------------------------------------------ C25 / C26
def futures(tr, role):
    """polls of the closing or clean-up future: [(i, event)]"""
    t = re.escape(tr.P.adt(role))
    return tr.calls(("poll",), r"(^|[^\w:])%s($|[^\w:])" % t)


def sock_results(tr, n):
    """results of the socket's operations: [(i, name, event, roles)]"""
    out = []
    for i, e in tr.socket(("poll_ready", "poll_flush", "poll_close")):
        out.append((i, e, ("Poll", "Result")))
    for i, e in tr.socket(("start_send",)):
        out.append((i, e, ("Result",)))
    for i, e in tr.socket(("poll_next",)):
        out.append((i, e, ("Poll", "Option", "Result")))
    out.sort(key=lambda x: x[0])
    return out


def err_payloads(tr, n):
    return [s[-1] for i, e, roles in sock_results(tr, n) for s in tr.shapes(e[5], *roles) if names(s)[-1] == "Err"]


def ended(tr):
    """the input is known to have ended on this path"""
    return any({names(s) for s in tr.shapes(e[5], "Poll", "Option", "Result")} == {("Ready", "None")} for i, e in tr.socket(("poll_next",)))


def err_is(tr, ret, roles, v):
    """the result is exactly the error v"""
    sh = tr.shapes(ret, *roles)
    return len(sh) == 1 and names(sh[0])[-1] == "Err" and tr.same(sh[0][-1], v)


def c25(P, R):
    OUT = {"C.next": ("Poll", "Option", "Result"), "C.out": ("Poll", "Result"), "C.close": ("Poll", "Result")}
    AFTER = {"C.next": ("Ready", "None"), "C.out": ("Ready", "Err"), "C.close": ("Ready", "Ok")}

    def final(tr, n):
        """the path reports the end"""
        sh = tr.shapes(tr.ret, *OUT[n])
        ok = {names(s) for s in sh} == {AFTER[n]}
        if n == "C.out":
            ok = ok and error_kind(tr, sh[0][-1]) == "Closed"
        return ok

    for n in ("C.next", "C.out", "C.close"):
        for tr in P.run(n):
            if tr.kind in ("panic", "cut"):
                continue
            last = tr.variants(inner_last(tr), "ConnectionState")
            # why the clean-up was started
            errs = err_payloads(tr, n)
            ces = cleanup_errors(tr)
            for v, site in ces:
                if n == "C.next":
                    f = frame_of(tr)
                    bye = f is not None and tr.is_(f.tag, "Tag", "GoAway") or ended(tr)
                    if v is not None and error_kind(tr, v) == "Closed" and not any(mentions(v, x) for x in errs):
                        R.ob(bye, "C25.end-means-end", "the connection is reported as closed although the peer neither said go-away nor ended the input", tr, site)
                    else:
                        R.ob(v is not None and any(mentions(v, x) for x in errs) and not bye, "C25.failure-kept", "the clean-up is given another error than the failure that was seen", tr, site)
                elif n == "C.close":
                    R.ob(False, "C25.failure-kept", "closing an active connection is turned into a failure", tr, site)
            if n == "C.next" and not draining(tr):
                f = frame_of(tr)
                if f is not None:
                    bye = tr.variants(f.tag, "Tag")
                    R.ob(bye == {"GoAway"} or "GoAway" not in bye, "C25.goaway-seen", "a frame is processed without looking whether it is a go-away", tr, tr.t.site)
                    if bye == {"GoAway"}:
                        R.ob(len(ces) == 1 and error_kind(tr, ces[0][0]) == "Closed", "C25.goaway-ends", "a go-away does not end the connection", tr, tr.t.site)
                elif ended(tr):
                    R.ob(len(ces) == 1, "C25.eof-ends", "the end of the input does not end the connection", tr, tr.t.site)
            cl, cu = futures(tr, "Closing"), futures(tr, "Cleanup")
            first = tr.variants(inner_first(tr), "ConnectionState")
            if cl or cu:
                R.ob(len(cl) + len(cu) == 1, "C25.once", "a round polls more than one of closing and clean-up", tr, tr.t.site)
                i, e = (cl or cu)[-1]
                roles = ("Poll", "Result") if cl else ("Poll",)
                for s in tr.shapes(e[5], *roles):
                    k = names(s)
                    if k == ("Pending",):
                        continue
                    if cl and k[-1] == "Ok":
                        R.ob(tr.kind == "back" and last == {"Closed"} or tr.kind == "return" and final(tr, n), "C25.closed", "after a clean close the poll reports something else than the end", tr, e[7])
                        continue
                    v = s[-1]
                    if not cl:
                        k = tr.variants(v, "ConnectionError")
                        if n == "C.close":
                            R.ob(tr.kind == "back" and last == {"Closed"} or tr.kind == "return" and final(tr, n), "C25.close-after-failure", "closing a failed connection does not succeed", tr, e[7])
                            continue
                        if n == "C.next" and k == {"Closed"}:
                            R.ob(tr.kind == "return" and final(tr, n), "C25.end-not-error", "a regular end is reported as an error", tr, e[7])
                            continue
                        R.ob(n != "C.next" or "Closed" not in k, "C25.told-apart", "a regular end and a failure are not told apart", tr, e[7])
                    R.ob(tr.kind == "return" and err_is(tr, tr.ret, OUT[n], v), "C25.truthful", "the failure that ended the connection is not what is returned", tr, e[7])
                continue
            if first == {"Closed"}:
                R.ob(tr.kind == "return" and final(tr, n) and last == {"Closed"}, "C25.final", "after the end the poll does not report the end", tr, tr.t.site)
            if tr.kind == "return" and n != "C.close" and (polled(tr) is not None or frame_of(tr) is not None):
                sh = {names(s) for s in tr.shapes(tr.ret, *OUT[n])}
                R.ob(sh <= {("Pending",), ("Ready", "Some", "Ok"), ("Ready", "Ok")}, "C25.active-result", "an active connection reports %s without going through clean-up" % sorted(sh), tr, tr.t.site)
    for tr in P.run("Cleanup.poll"):
        if tr.kind != "return":
            continue
        e0 = tr.at(0, tr.me(), (P.el("Cleanup.error"),))
        for s in tr.shapes(tr.ret, "Poll"):
            if names(s) != ("Pending",):
                R.ob(tr.same(s[-1], project(e0, SOME_E)), "C25.stored", "the clean-up yields another error than it was given", tr, tr.t.site)
    for r in ("closed", "close-after-failure", "end-not-error", "truthful", "final", "active-result", "end-means-end", "failure-kept", "goaway-ends", "eof-ends", "stored"):
        R.floor("C25." + r, 1)


FORWARD = {"Active": {"Active", "Closing", "Cleanup"}, "Closing": {"Closing", "Closed"}, "Cleanup": {"Cleanup", "Closed"}, "Closed": {"Closed"}}


def c26(P, R):
    inner = P.el("Connection.inner")
    fixed = ["id", "mode", "config", "rtt", "accumulated_max_stream_windows"]
    for n in ("C.next", "C.out", "C.close", "C.drop"):
        trs = P.run(n)
        heads = set()
        for tr in trs:
            if tr.kind == "panic" and tr.variants(inner_first(tr), "ConnectionState") == {"Poisoned"}:
                heads |= {(e[1], e[2]) for e in tr.ev if e[0] == "loop"}
        for tr in trs:
            if tr.kind in ("panic", "cut"):
                continue
            v0 = inner_first(tr)
            k0, k1 = tr.variants(v0, "ConnectionState"), tr.variants(inner_last(tr), "ConnectionState")
            at_end = tr.kind == "return" or tuple(tr.t.head) in heads
            if not at_end:
                continue
            was_active = polled(tr) is not None or frame_of(tr) is not None
            if n != "C.drop":
                R.ob("Poisoned" not in k1, "C26.never-poisoned", "the connection may be left in its placeholder state", tr, tr.t.site)
            else:
                R.ob(tr.same(v0, inner_last(tr)) or k0 == {"Active"} == k1, "C26.drop-in-place", "dropping changes the state of the connection", tr, tr.t.site)
                continue
            k0 = {"Active"} if was_active else k0 - {"Poisoned"}
            fut = [(r, i, e) for r in ("Closing", "Cleanup") for i, e in futures(tr, r)]
            ok = all(k1 <= FORWARD[k] for k in k0) or bool(fut) and k0 == {"Active"} and k1 <= {"Closing", "Cleanup", "Closed"}
            R.ob(ok, "C26.forward", "the connection goes from %s to %s" % ("/".join(sorted(k0)), "/".join(sorted(k1))), tr, tr.t.site)
            if n != "C.close":
                R.ob(k0 != {"Active"} or "Closing" not in k1, "C26.close-only", "the connection starts closing although its owner did not ask for it", tr, tr.t.site)
            if was_active and tr.kind == "return" and n in ("C.next", "C.out"):
                sh = {names(s) for s in tr.shapes(tr.ret, *(("Poll", "Option", "Result") if n == "C.next" else ("Poll", "Result")))}
                R.ob("Active" not in k1 or not any(x[-1] == "Err" for x in sh), "C26.error-cleans-up", "an error is reported but the connection stays active", tr, tr.t.site)
            if n == "C.close" and k0 == {"Active"}:
                R.ob("Active" not in k1, "C26.close-starts", "closing leaves the connection active", tr, tr.t.site)
            for r, i, e in fut:
                done = tr.variants(e[5], "Poll")
                R.ob(len(done) == 1 and (k1 == {"Closed"} if done == {"Ready"} else k1 == {r}), "C26.follows", "after its %s part %s the connection is %s" % (r.lower(), "finished" if done == {"Ready"} else "was not finished", "/".join(sorted(k1))), tr, e[7])
                if done == {"Pending"} and k1 == {r}:
                    x = P.get(inner_last(tr), "ConnectionState.%s.0" % r)
                    polledv = [h[3] for h in tr.ev[i:] if h[0] == "h"]
                    hv = x.k == "sym" and e[5].k == "sym" and isinstance(x.a[0], tuple) and x.a[0][0] == "hv" and x.a[0][1:3] == e[5].a[0][1:3]
                    R.ob(hv or any(x is y for y in polledv) or inner_last(tr) is v0, "C26.kept", "what was polled is not what is kept", tr, e[7])
            if k0 in ({"Closing"}, {"Cleanup"}) and k1 == {"Closed"}:
                R.ob(bool(fut), "C26.not-early", "the connection is called closed although it still had work to do", tr, tr.t.site)
            fa = final_active(tr)
            if was_active and fa is not None:
                for x in fixed:
                    el = P.el("Active." + x)
                    v = project(fa, el)
                    R.ob(v.k == "fld" and v.a[1] is el or v.k == "sym", "C26.content", "the %s of an active connection changes" % x, tr, tr.t.site)
        for tr in trs:
            for x in ("stream_receivers", "socket") + tuple(fixed):
                el = P.el("Active." + x)
                for i, root, path, old, new, site in tr.writes(el):
                    R.ob(path[-1] is not el or tr.same(old, new), "C26.content", "the %s of an active connection is replaced" % x, tr, site)
    for r in ("never-poisoned", "forward", "follows", "kept", "content", "close-starts", "drop-in-place", "error-cleans-up"):
        R.floor("C26." + r, 1)


# ------------------------------------------------------------------------------------ C27 / C28
def phases(P, entry, role, done):
    """reachable (control value, progress) pairs of a future driven by one control field.
    `done(tr, level, rep)` -> progress after the path"""
    init = set()
    el = P.el(role + ".state")
    for n in ("C.close", "C.next", "C.out"):
        for tr in P.run(n):
            for i, root, path, old, new, site in tr.writes(P.el("Connection.inner")):
                if path[-1] is P.el("Connection.inner") and tr.variants(new, "ConnectionState") == {role}:
                    v = P.get(new, "ConnectionState.%s.0" % role)
                    if v.k == "agg":
                        init.add(dnum(tr, project(v, el)))
    todo = [(d, 0) for d in init]
    seen = set()
    out = []
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        d0, l0 = x
        for tr in P.run(entry):
            if tr.kind in ("panic", "cut"):
                continue
            s0 = start_value(tr, el)
            n0 = dnum(tr, s0)
            if n0 is not None and d0 is not None and n0 != d0:
                continue
            if n0 is None and d0 is not None and d0 in tr.t.neq.get(tr.eng.discr(s0), ()):
                continue
            l1 = done(tr, l0, x)
            s1 = tr.fin(tr.me(), (el,))
            n1 = dnum(tr, s1)
            if n1 is None:
                n1 = d0 if tr.same(s0, s1) else None
            if (n1, l1) not in seen:
                todo.append((n1, l1))
    return seen


def start_value(tr, el):
    """the control field at the start of the path's own round"""
    lo = max([i for i, e in enumerate(tr.ev) if e[0] == "loop"] or [0])
    first = [i for i, e in enumerate(tr.ev) if e[0] == "loop"]
    return tr.at(first[0] + 1 if first else 0, tr.me(), (el,))


def dnum(tr, v):
    d = tr.eng.discr(v)
    return d.a[0] if d.k == "int" else tr.val(d)


def closing_loops(P, trs):
    """sites of loops that close the queue of every stream they visit"""
    good, bad = set(), set()
    for tr in trs:
        for i, e in enumerate(tr.ev):
            if e[0] == "iter":
                it = e[3]
                cl = [c for j, c in tr.calls(("close",), "mpsc::Receiver<", i)]
                key = loop_key(tr, i)
                if any(mentions(c[4][0], it) for c in cl):
                    good.add(key)
                else:
                    bad.add(key)
    return good - bad


def loop_key(tr, i):
    """the loop an iteration event belongs to"""
    e = tr.ev[i]
    hs = [(x[1], x[2]) for x in tr.ev[:i] if x[0] == "loop"]
    return hs[-1] if hs else (e[-1],)


def receivers_closed(P, tr, loops, el):
    return any(e[0] == "iterend" and loop_key(tr, i) in loops and mentions_place(tr, e[1], el) for i, e in enumerate(tr.ev))


def mentions_place(tr, v, el):
    """v is the place or value of the named field"""
    return el.name in repr(v) if el.name else True


def drained(tr):
    """index after which the streams' queues have nothing more to take, or None"""
    r = None
    for i, e in tr.calls(("poll_next",), "SelectAll"):
        sh = {names(s) for s in tr.shapes(e[5], "Poll", "Option")}
        if sh <= {("Pending",), ("Ready", "None")}:
            r = i
        else:
            r = None
    return r


def all_streams_closed(P, R, rule):
    """the loops over the streams while tearing down close the stream and wake both its tasks"""
    streams = P.el("Active.streams")
    effects = {}
    for n in CONN_ENTRIES:
        for tr in P.run(n):
            if tr.kind not in ("back", "return"):
                continue
            for i, e in enumerate(tr.ev):
                if e[0] != "iter":
                    continue
                k = (n, loop_key(tr, i))
                secs = [(s, a, b) for s, a, b in shared_secs(tr) if s.i0 > i and s.arc() is e[3] and b is not None]
                eff = set()
                if secs:
                    s, a, b = secs[-1]
                    if tr.variants(b.state, "State") == {"Closed"}:
                        eff.add("closed")
                    if any(woken(tr, a.reader, s.i0) for s, a, b in secs[:1]):
                        eff.add("reader")
                    if any(woken(tr, a.writer, s.i0) for s, a, b in secs[:1]):
                        eff.add("writer")
                effects[k] = effects.get(k, eff) & eff
    for n in CONN_ENTRIES:
        for tr in P.run(n):
            if not leaves(tr):
                continue
            m = A0(tr, "streams")
            got = set()
            for i, e in enumerate(tr.ev):
                if e[0] == "iterend" and m is not None and (e[1] is m or tr.same(e[1], m)):
                    got |= effects.get((n, loop_key(tr, i)), set())
            for x, what in (("closed", "marking every stream closed"), ("reader", "waking every waiting reader"), ("writer", "waking every waiting writer")):
                R.ob(x in got, rule, "the connection ends without %s" % what, tr, tr.t.site)


def c27(P, R):
    all_streams_closed(P, R, "C27.every-stream")
    trs = P.run("Cleanup.poll")
    loops = closing_loops(P, trs)
    el = P.el("Cleanup.stream_receivers")

    def step(tr, l, x):
        if l == 0 and receivers_closed(P, tr, loops, el):
            l = 1
        for i, e in tr.calls(("poll_next",), "SelectAll"):
            R.ob(l >= 1, "C27.closed-first", "commands are taken from a stream's queue before all queues are closed", tr, e[7])
        if l == 1 and drained(tr) is not None:
            l = 2
        if tr.kind == "return":
            sh = {names(s) for s in tr.shapes(tr.ret, "Poll")}
            if ("Pending",) in sh:
                R.ob(sh == {("Pending",)} and any(tr.variants(e[5], "Poll") == {"Pending"} for i, e in tr.calls(("poll_next",), "SelectAll")), "C27.no-stall", "the clean-up waits for nothing", tr, tr.t.site)
            else:
                R.ob(l >= 2, "C27.finished", "the clean-up ends before all queues are closed and emptied", tr, tr.t.site)
        return l
    phases(P, "Cleanup.poll", "Cleanup", step)
    # the clean-up works on the connection's own queues
    for n in ("C.next", "C.out"):
        for tr in P.run(n):
            for i, root, path, old, new, site in tr.writes(P.el("Connection.inner")):
                if path[-1] is P.el("Connection.inner") and tr.variants(new, "ConnectionState") == {"Cleanup"}:
                    v = P.get(new, "ConnectionState.Cleanup.0")
                    if v.k == "agg":
                        own(P, R, tr, P.get(v, "Cleanup.stream_receivers"), "stream_receivers", "C27.own-queues", site)
    for r in ("every-stream", "closed-first", "finished", "own-queues"):
        R.floor("C27." + r, 1)


def own(P, R, tr, v, field, rule, site):
    """v is the active connection's own field, possibly after operations on it"""
    el = P.el("Active." + field)
    r = tr.actroot()
    ok = v.k == "fld" and v.a[1] is el
    if not ok and r is not None:
        ok = v is tr.fin(r[0], r[1] + (el,)) or any(e[0] == "h" and e[3] is v and e[2] and e[2][-1] is el for e in tr.ev)
    if not ok and v.k == "sym" and isinstance(v.a[0], tuple):
        ok = v.a[0][0] in ("phi", "hv", "join", "havoc")
    R.ob(ok, rule, "the %s handed over are not the connection's own" % field, tr, site)


def c28(P, R):
    trs = P.run("Closing.poll")
    loops = closing_loops(P, trs)
    recv = P.el("Closing.stream_receivers")
    pf = P.el("Closing.pending_frames")

    def step(tr, l, x):
        evs = []
        for i, e in enumerate(tr.ev):
            if e[0] == "iterend" and loop_key(tr, i) in loops and mentions_place(tr, e[1], recv):
                evs.append((i, "closed", e))
            elif e[0] == "w" and e[2] and e[2][-1] is pf:
                evs.append((i, "queue", e))
        for i, e in tr.calls(("poll_next",), "SelectAll"):
            evs.append((i, "take", e))
        for i, e in tr.socket(("poll_ready", "start_send", "poll_close", "poll_flush")):
            evs.append((i, opname(e), e))
        evs.sort(key=lambda y: y[0])
        dry = False
        for i, k, e in evs:
            site = e[5] if e[0] == "w" else e[-1]
            if k == "closed" and l == 0:
                l = 1
            elif k == "take":
                R.ob(l >= 1, "C28.stop-first", "commands are taken before the queues are closed to new ones", tr, e[7])
                R.ob(l <= 1, "C28.goaway-last", "commands are taken after the go-away was queued", tr, e[7])
                sh = {names(s) for s in tr.shapes(e[5], "Poll", "Option")}
                dry = sh <= {("Pending",), ("Ready", "None")}
            elif k == "queue":
                new = e[4]
                if new.k == "op" and new.a[0] == "popf":
                    R.ob(l >= 2, "C28.after-goaway", "frames are sent before everything queued was collected", tr, e[5])
                    front = project(new.a[1], FRONT)
                    R.ob(any(j > i and y[4][1] is front for j, y in tr.socket(("start_send",))), "C28.sent", "a frame is taken off the closing queue but not sent", tr, e[5])
                elif new.k == "op" and new.a[0] in ("pushb", "pushf"):
                    v = FV(P, new.a[2])
                    if tr.is_(v.tag, "Tag", "GoAway"):
                        R.ob(l == 1 and dry and tr.val(v.length) == 0 and new.a[0] == "pushb", "C28.one-goaway", "the go-away is queued more than once, too early, in front, or with an error code", tr, e[5])
                        l = max(l, 2)
                    else:
                        R.ob(l <= 1, "C28.goaway-last", "a frame is queued after the go-away", tr, e[5])
                        R.ob(l == 1, "C28.stop-first", "a command is queued before the queues are closed", tr, e[5])
            elif k == "start_send":
                R.ob(l >= 2, "C28.after-goaway", "frames are sent before everything queued was collected", tr, e[7])
            elif k == "poll_close":
                empty = tr.truth(eqz(lenof(tr.at(i, tr.me(), (pf,))))) is True
                R.ob(l >= 3 or l == 2 and empty, "C28.all-sent", "the transport is closed although frames may still be queued", tr, e[7])
        if l == 2 and tr.truth(eqz(lenof(tr.fin(tr.me(), (pf,))))) is True:
            l = 3
        if tr.kind == "return":
            for s in tr.shapes(tr.ret, "Poll", "Result"):
                k = names(s)
                if k == ("Ready", "Ok"):
                    ok = any({names(z) for z in tr.shapes(e[5], "Poll", "Result")} == {("Ready", "Ok")} for i, e in tr.socket(("poll_close",)))
                    R.ob(ok, "C28.closed-means-closed", "success is reported although the transport was not closed", tr, tr.t.site)
                elif k == ("Pending",):
                    ok = any(tr.variants(e[5], "Poll") == {"Pending"} for i, e in tr.socket(("poll_ready", "poll_close", "poll_flush")))
                    R.ob(ok, "C28.no-stall", "closing waits although the transport was ready", tr, tr.t.site)
                else:
                    R.ob(any(mentions(s[-1], x) for x in err_payloads(tr, "Closing.poll")), "C28.error", "closing fails with an error the transport did not report", tr, tr.t.site)
        return l
    seen = phases(P, "Closing.poll", "Closing", step)
    R.ob(any(l == 3 for d, l in seen), "C28.gets-there", "closing never gets to closing the transport", None, None)
    for tr in P.run("C.close"):
        for v, site, i in closing_values(P, tr):
            own(P, R, tr, P.get(v, "Closing.stream_receivers"), "stream_receivers", "C28.own", site)
            own(P, R, tr, P.get(v, "Closing.socket"), "socket", "C28.own", site)
    # the transport itself is closed only after the last frame was written whole
    from .rules_io import c05
    from .rules_nopanic import Part
    c05(P, Part(R, {"C05.close-after-frame", "C05.close-result"}, "C28"))
    for r in ("close-after-frame", "stop-first", "one-goaway", "after-goaway", "all-sent", "closed-means-closed", "no-stall", "error", "own", "sent"):
        R.floor("C28." + r, 1)


# ------------------------------------------------------------------------------------ C31
def c31(P, R):
    for tr, f in frame_paths(P):
        tags = tr.variants(f.tag, "Tag")
        kn = known(tr, f)
        if tags <= {"Data", "WindowUpdate"}:
            if not (bit(tr, f.flags, RST) is True or bit(tr, f.flags, SYN) is False):
                continue
            what = "/".join(sorted(tags))
            if kn is None:
                R.ob(False, "C31.looked-up", "a %s frame is processed without looking up its stream" % what, tr, tr.t.site)
                continue
        elif tags == {"Ping"}:
            if bit(tr, f.flags, ACK) is not False or tr.truth(eqz(f.id)) is True:
                continue
            what = "Ping"
            if kn is None:
                R.ob(False, "C31.looked-up", "a ping is processed without looking up its stream", tr, tr.t.site)
                continue
        else:
            continue
        R.ob(True, "C31.looked-up")
        if kn is True:
            continue
        R.ob(not torn(tr), "C31.goes-on." + what, "a late %s frame ends the connection" % what, tr, tr.t.site)
        b = built_frames(tr)
        R.ob(not b, "C31.no-reply." + what, "a late %s frame is answered" % what, tr, b[0][2] if b else tr.t.site)
        ch = [s for s, a, z in shared_secs(tr) if z is not None and not tr.same(a.v, z.v)]
        R.ob(not ch and not inserts(tr) and not removed(tr), "C31.no-change." + what, "a late %s frame changes a stream" % what, tr, ch[0].site if ch else tr.t.site)
    for r in ("goes-on", "no-reply", "no-change"):
        for w in ("Data", "WindowUpdate", "Ping"):
            R.floor("C31.%s.%s" % (r, w), 1)


# ------------------------------------------------------------------------------------ C32
def c32(P, R):
    for n in ("C.next", "C.out", "C.close", "Closing.poll"):
        for tr in P.run(n):
            if tr.kind in ("panic", "cut"):
                continue
            for i, e, roles in sock_results(tr, n):
                check_error(P, R, tr, n, i, e, roles, "C32.socket")
    for n, res in (("Io.ready", ("Poll", "Result")), ("Io.send", ("Result",)), ("Io.flush", ("Poll", "Result")), ("Io.close", ("Poll", "Result")), ("Io.next", ("Poll", "Option", "Result"))):
        for tr in P.run(n):
            if tr.kind in ("panic", "cut"):
                continue
            for i, e in tr.calls(("poll_read", "poll_write", "poll_flush", "poll_close", "poll_ready", "poll_write_vectored", "poll_read_vectored")):
                check_error(P, R, tr, n, i, e, ("Poll", "Result"), "C32.transport", res)
    R.floor("C32.socket", 4)
    R.floor("C32.transport", 4)


def ret_errors(tr, n, res):
    last = res or {"C.next": ("Poll", "Option", "Result"), "C.out": ("Poll", "Result"), "C.close": ("Poll", "Result"), "Closing.poll": ("Poll", "Result")}[n]
    return [s[-1] for s in tr.shapes(tr.ret, *last) if names(s)[-1] == "Err"]


def check_error(P, R, tr, n, i, e, roles, rule, res=None):
    sh = tr.shapes(e[5], *roles)
    bad = [s[-1] for s in sh if names(s)[-1] == "Err"]
    if not bad:
        R.ob(True, rule)
        return
    op = opname(e)
    if len(bad) < len(sh):
        whole = tr.kind == "return" and mentions(tr.ret, e[5])
        R.ob(whole, rule, "the result of %s is not examined" % op, tr, e[7])
        return
    v = bad[0]
    if tr.kind == "return" and (mentions(tr.ret, v) or any(mentions(x, v) for x in ret_errors(tr, n, res))):
        last = res or {"C.next": ("Poll", "Option", "Result"), "C.out": ("Poll", "Result"), "C.close": ("Poll", "Result"), "Closing.poll": ("Poll", "Result")}[n]
        R.ob({names(s)[-1] for s in tr.shapes(tr.ret, *last)} == {"Err"}, rule, "the error of %s is not returned as an error" % op, tr, e[7])
        return
    if n in ("C.next", "C.out", "C.close"):
        ok = any(x is not None and mentions(x, v) for x, s in cleanup_errors(tr)) or tr.kind == "back" and draining(tr)
        R.ob(ok, rule, "an error of %s neither ends the connection nor is returned" % op, tr, e[7])
    else:
        R.ob(False, rule, "an error of %s is dropped" % op, tr, e[7])

"""Rules about waiting, locks, configuration, crashes and memory."""
import re
from .view import *
from .prog import opname
from .rules_stream import (names, rets, ROLES, stream_traces, state_change, items, item_cmd, built_frames, not_held,
                           seq_writes, is_inbody, woken, acked, same_id, arc_content)
from .rules_conn import (bit, odd, syms, frame_of, frame_paths, final_active, A1, A0, goaways, protocol_error, inserts,
                         newstream, maps, known, op_has, op_len, on_frame_stream, is_new, is_item, ends_badly, draining,
                         place_at, payload_in, seq_changed, new_shared, f_len, maxstreams, channel, torn, U32, closing_values, seq_elems)
from .rules_misc import (polled, inner_first, inner_last, cleanup_errors, error_kind, phi_place, own_side, removed, leaves,
                         mentions, futures, sock_results, err_payloads, drained, dnum)

OUTCOME = {"C.next": ("Poll", "Option", "Result"), "C.out": ("Poll", "Result"), "C.close": ("Poll", "Result")}


def only(tr, e, roles, *shape):
    """the result of the call can only have this shape"""
    return {names(s) for s in tr.shapes(e[5], *roles)} == {shape}


# ------------------------------------------------------------------------------------ C29
def c29(P, R):
    held = {"pending_read_frame": P.el("Active.pending_read_frame"), "pending_write_frame": P.el("Active.pending_write_frame")}
    nsw = P.el("Active.no_streams_waker")
    for tr in P.run("C.next"):
        if tr.kind != "return" or ("Pending",) not in {names(s) for s in tr.shapes(tr.ret, *OUTCOME["C.next"])}:
            continue
        if tr.variants(inner_last(tr), "ConnectionState") != {"Active"}:
            p = futures(tr, "Closing") + futures(tr, "Cleanup")
            R.ob(any(tr.variants(e[5], "Poll") == {"Pending"} for i, e in p), "C29.ending", "an ending connection waits although its closing or clean-up did not", tr, tr.t.site)
            continue
        fa = final_active(tr)
        if frame_of(tr) is not None or fa is None:
            R.ob(False, "C29.after-frame", "the connection waits right after a frame without asking for the next one", tr, tr.t.site)
            continue
        lo = max([i for i, e in enumerate(tr.ev) if e[0] == "loop"] or [0])
        sends = [i for i, e in tr.socket(("start_send",))]
        fl = [(i, e) for i, e in tr.socket(("poll_flush",), lo)]
        R.ob(bool(fl) and (not sends or fl[-1][0] > sends[-1]), "C29.flushed", "the connection waits although what it wrote was not flushed", tr, sends[-1:] and tr.ev[sends[-1]][7] or tr.t.site)
        for i, e in fl[-1:]:
            R.ob({names(s) for s in tr.shapes(e[5], "Poll", "Result")} <= {("Pending",), ("Ready", "Ok")}, "C29.flushed", "the connection waits after a failed flush", tr, e[7])
        last = {}
        for k, el in held.items():
            v = project(fa, el)
            vs = tr.variants(v, "Option")
            last[k] = vs
            if vs != {"None"}:
                w = [x[0] for x in tr.writes(el)]
                pr = [i for i, e in tr.socket(("poll_ready",), lo) if only(tr, e, ("Poll", "Result"), "Pending")]
                R.ob(bool(pr) and (not w or pr[-1] > w[-1]), "C29.held-back", "the connection waits holding an unsent frame although the socket may be ready for it", tr, tr.t.site)
        q = [(i, e) for i, e in tr.calls(("poll_next",), "SelectAll", lo)]
        if q:
            i, e = q[-1]
            sh = {names(s) for s in tr.shapes(e[5], "Poll", "Option")}
            R.ob(sh <= {("Pending",), ("Ready", "None")}, "C29.commands", "the connection waits although streams may have more commands", tr, e[7])
            if ("Ready", "None") in sh:
                w = project(fa, nsw)
                R.ob(tr.variants(w, "Option") == {"Some"} and is_waker_of(project(w, SOME_E), 2, tr), "C29.no-streams", "without streams, the connection waits without keeping the caller's waker", tr, e[7])
        else:
            R.ob(last["pending_write_frame"] == {"Some"}, "C29.commands", "the connection waits without asking the streams for commands", tr, tr.t.site)
        q = [(i, e) for i, e in tr.socket(("poll_next",), lo)]
        if q:
            i, e = q[-1]
            R.ob(only(tr, e, ("Poll", "Option", "Result"), "Pending"), "C29.frames", "the connection waits although more frames may be there", tr, e[7])
        else:
            R.ob(last["pending_read_frame"] == {"Some"}, "C29.frames", "the connection waits without asking for frames", tr, tr.t.site)
    # the waker of a connection without streams
    for n in CONN_ENTRIES:
        for tr in P.run(n):
            if tr.kind in ("panic", "cut"):
                continue
            for i, root, path, old, new, site in tr.writes(nsw):
                if path[-1] is not nsw or tr.same(old, new):
                    continue
                vs = tr.variants(new, "Option")
                if vs == {"Some"} and is_waker_of(project(new, SOME_E), 2, tr):
                    R.ob(True, "C29.kept")
                    continue
                R.ob(vs == {"None"} and (woken(tr, old, 0) or tr.variants(old, "Option") == {"None"}), "C29.kept", "the waker of the waiting connection is dropped without being woken", tr, site)
            if n in ("C.next", "C.out") and tr.kind == "return" and newstream(tr) is not None:
                m = inserts(tr)
                w = place_at(tr, m[0][0] if m else 0, nsw)
                w0 = A0(tr, "no_streams_waker")
                ok = any(x is not None and woken(tr, x, 0) for x in (w, w0))
                f1 = A1(tr, "no_streams_waker")
                R.ob(ok or f1 is not None and tr.variants(f1, "Option") == {"None"} and tr.variants(w0, "Option") == {"None"}, "C29.woken", "a first stream is added without waking the connection", tr, tr.t.site)
    for r in ("ending", "flushed", "held-back", "commands", "no-streams", "frames", "kept", "woken"):
        R.floor("C29." + r, 1)


# ------------------------------------------------------------------------------------ C30
ALL = ("C.new",) + CONN_ENTRIES + STREAM_ENTRIES + STREAM_QUERIES + ("F.drop", "Closing.poll", "Cleanup.poll", "Io.ready", "Io.send", "Io.flush", "Io.close", "Io.next", "TS.next")



def c30(P, R):
    for Q, what in ((P, ""), (P.debug(), " (debug build)")):
        locks(Q, R, what)
        if Q is not P:
            P.stats["paths"] += Q.stats["paths"]
            for k, v in Q.analysed.items():
                P.analysed[k + " (debug build)"] = v
    for r in ("again", "same-class", "order", "io", "return", "all-seen", "drop"):
        R.floor("C30." + r, 1)


def locks(P, R, suffix):
    edges = {}
    taken_by_drop = set()
    for tr in P.run("F.drop"):
        taken_by_drop |= {e[2] for e in tr.ev if e[0] in ("lock", "trylock")}
    for n in ALL:
        for tr in P.run(n):
            held = []
            heads = {}
            for i, e in enumerate(tr.ev):
                k = e[0]
                if k in ("lock", "trylock"):
                    R.ob(k == "trylock" or all(h[0] != e[1] for h in held), "C30.again", "a lock is taken again while it is held%s" % suffix, tr, e[3])
                    for loc, cls, site in held:
                        if loc == e[1]:
                            continue
                        R.ob(cls != e[2], "C30.same-class", "two locks of the same kind are held at once%s" % suffix, tr, e[3])
                        if k == "lock":
                            edges.setdefault((cls, e[2]), (tr, e[3]))
                    if not held:
                        R.ob(True, "C30.same-class")
                    held.append((e[1], e[2], e[3]))
                elif k == "unlock":
                    for x in range(len(held) - 1, -1, -1):
                        if held[x][0] == e[1]:
                            del held[x]
                            break
                elif k == "loop":
                    heads[(e[1], e[2])] = list(held)
                elif k == "drop":
                    inner = "connection::stream::flow_control::FlowController" in str(e[1]) or P.adt("FlowController") in e[1]
                    if not inner and "mem::drop" in e[1]:
                        inner = bool(re.search(r"(^|\W)(Stream|Shared|FlowController)\W", str(e[3]) + " ")) and "Guard<" not in str(e[3])
                    if not inner:
                        continue
                    R.ob(True, "C30.drop")
                    for loc, cls, site in held:
                        R.ob(cls not in taken_by_drop, "C30.again", "a stream's state is destroyed, which takes a lock, while that lock is held%s" % suffix, tr, e[4])
                        for c in taken_by_drop:
                            if c != cls:
                                edges.setdefault((cls, c), (tr, e[4]))
                elif k == "call":
                    op = opname(e)
                    io = op.startswith("poll") or op in ("start_send", "try_send", "try_next", "try_recv", "wait", "block_on", "recv", "send")
                    if io:
                        R.ob(not held, "C30.io", "%s is called while %s is locked%s" % (op, held and held[-1][1], suffix), tr, e[7])
            if tr.kind == "return":
                R.ob(not held, "C30.return", "a lock is still held on return%s" % suffix, tr, held[-1][2] if held else tr.t.site)
            elif tr.kind == "back" and heads:
                h = heads.get(tr.t.head) if isinstance(tr.t.head, tuple) else None
                if h is None:
                    h = list(heads.values())[-1]
                R.ob(len(held) <= len(h), "C30.return", "a lock is still held at the next round of a loop%s" % suffix, tr, held[-1][2] if held else tr.t.site)
    # the order of locks has no cycle
    succ = {}
    for (a, b) in edges:
        succ.setdefault(a, set()).add(b)

    def reach(a, b):
        seen, st = set(), [a]
        while st:
            x = st.pop()
            if x == b:
                return True
            if x in seen:
                continue
            seen.add(x)
            st += list(succ.get(x, ()))
        return False
    for (a, b), (tr, site) in sorted(edges.items(), key=lambda x: x[0]):
        R.ob(not reach(b, a), "C30.order", "%s is locked while %s is held, and the other way round elsewhere%s" % (b, a, suffix), tr, site)
    # no lock is taken outside what was analysed
    for key, site, name in lock_calls(P):
        R.ob(covered(P, key), "C30.all-seen", "%s takes a lock outside the analysed paths%s" % (key, suffix), None, (key, site))


def lock_calls(P):
    """[(function, site, callee)] of lock acquisitions in the crate's functions"""
    out = []
    for f in P.F.fns.values():
        if not f.local:
            continue
        for b in f.blocks:
            t = b and b["t"]
            if not t or t[0] != "call":
                continue
            c = t[1][2].get("c") if t[1][0] == "k" and isinstance(t[1][2], dict) else None
            if c and re.search(r"(Mutex|RwLock)::<.*>::(lock|try_lock|read|write|try_read|try_write)\w*$", c.get("orig", "")):
                out.append((f.key, t[-1], c["orig"]))
    return out


def covered(P, key):
    k = key.split("~")[0]
    if any(x.split("~")[0] == k for x in P.fncov):
        return True
    # the generic form of a function that is only used in analysed instances
    F = P.F
    me = F.fns.get(key) or F.fns.get(k)
    if me is None:
        return False
    vp = me.j.get("vpath")
    if not any(x in F.fns and F.fns[x].j.get("vpath") == vp for x in P.fncov):
        return False
    outer = re.sub(r"(::\{closure#\d+\})+$", "", k)
    if "called" not in P.opaque:
        called = set()
        for f in F.fns.values():
            for b in f.blocks:
                t = b and b["t"]
                if t and t[0] == "call":
                    c = t[1][2].get("c") if t[1][0] == "k" and isinstance(t[1][2], dict) else None
                    if c:
                        called.add(c.get("inst") or c.get("path"))
        P.opaque["called"] = called
    return outer not in P.opaque["called"]


# ------------------------------------------------------------------------------------ C33
def c33(P, R):
    fields = {"Cfg.recv": "max_connection_receive_window", "Cfg.streams": "max_num_streams", "Cfg.rac": "read_after_close", "Cfg.split": "split_send_size"}
    arg2 = mk("sym", ("arg", 2))

    def product(v):
        return scale(P.get(v, "Config.max_num_streams"), KIB256)

    for n, own in fields.items():
        for tr in P.run(n, oblig=True):
            me = tr.me()
            v0, v1 = tr.at(0, me), tr.fin(me)
            for e in tr.ev:
                if e[0] == "maypanic":
                    R.ob(False, "C33.wraps", "the check relies on arithmetic that wraps in builds without overflow checks", tr, e[3])
            lim = P.get(v1, "Config.max_connection_receive_window")
            if tr.kind == "return":
                for f in fields.values():
                    a, b = P.get(v0, "Config." + f), P.get(v1, "Config." + f)
                    if f == own:
                        R.ob(tr.same(b, arg2), "C33.sets", "%s is not set to the given value" % f, tr, tr.t.site)
                    else:
                        R.ob(tr.same(a, b), "C33.only-own", "%s also changes %s" % (P.key(n).split("::")[-1], f), tr, tr.t.site)
                if n in ("Cfg.recv", "Cfg.streams"):
                    vs = tr.variants(lim, "Option")
                    ok = vs == {"None"} or tr.le(product(v1), project(lim, SOME_E))
                    R.ob(ok, "C33.rejects", "a limit below 256 KiB per stream may be accepted", tr, tr.t.site)
            elif tr.kind == "panic":
                vs = tr.variants(lim, "Option")
                ok = n in ("Cfg.recv", "Cfg.streams") and (tr.le(I(1 << 64), product(v1)) or vs == {"Some"} and tr.le(add(project(lim, SOME_E), ONE), product(v1)))
                R.ob(ok, "C33.accepts", "an acceptable setting is rejected", tr, tr.t.site)
            else:
                R.ob(False, "C33.sets", "a setter loops", tr, tr.t.site)
    for tr in P.run("Cfg.default"):
        if tr.kind != "return":
            R.ob(False, "C33.default", "the default configuration panics", tr, tr.t.site)
            continue
        v = tr.ret
        lim = P.get(v, "Config.max_connection_receive_window")
        ok = tr.variants(lim, "Option") == {"Some"} and tr.val(project(lim, SOME_E)) == 1 << 30
        R.ob(ok, "C33.default", "the default limit is not 1 GiB", tr, tr.t.site)
        R.ob(tr.val(P.get(v, "Config.max_num_streams")) == 512, "C33.default", "the default number of streams is not 512", tr, tr.t.site)
        R.ob(tr.truth(P.get(v, "Config.read_after_close")) is True, "C33.default", "reading after close is not the default", tr, tr.t.site)
        R.ob(tr.val(P.get(v, "Config.split_send_size")) == 16 * 1024, "C33.default", "the default split size is not 16 KiB", tr, tr.t.site)
    # nothing else changes a configuration
    owner = P.adt("Config")
    for n in ALL:
        for tr in P.run(n):
            bad = [e for e in tr.ev if e[0] == "w" and any(x.kind == "f" and x.owner == owner for x in e[2]) and e[1][0] != "L" and not tr.same(e[3], e[4])]
            R.ob(not bad, "C33.nowhere-else", "a configuration changes while it is in use", tr, bad[0][5] if bad else tr.t.site)
    # no function that was not analysed builds or changes one
    for f in P.F.fns.values():
        if not f.local or covered(P, f.key) or "Clone>::clone" in f.key:
            continue
        for b in f.blocks:
            for s in (b or {}).get("s", ()):
                if s[0] != "=":
                    continue
                rv = s[2]
                built = rv[0] == "agg" and rv[1] == "adt" and P.F.ts(rv[2]) == owner
                put = any(isinstance(x, list) and len(x) == 5 and x[0] == "f" and x[4] == owner for x in s[1][1])
                R.ob(not built and not put, "C33.built", "a configuration is built or changed outside its constructor and setters", None, (f.key, s[-1]))
    R.ob(True, "C33.built")
    for r in ("sets", "only-own", "rejects", "accepts", "default", "nowhere-else"):
        R.floor("C33." + r, 1)


# ------------------------------------------------------------------------------------ C35
def held_at(tr, i, call, el):
    """value of another field of the active connection when a call on one of its fields is made"""
    own = tr.P.adt("Active")
    root, path = call[2]
    j = [x for x in range(len(path)) if path[x].kind == "f" and path[x].owner == own]
    if not j:
        return None
    want = path[:j[0]] + (el,)
    for x in range(i - 1, -1, -1):
        e = tr.ev[x]
        if e[0] in ("w", "h") and e[1] == root:
            v = e[4] if e[0] == "w" else e[3]
            p = e[2]
            if p[:len(want)] == want:
                return v if len(p) == len(want) else None
            if want[:len(p)] == p:
                for y in want[len(p):]:
                    v = project(v, y)
                return v
        elif e[0] == "loop":
            for phi, init in e[4]:
                r, p = phi_place(phi)
                if r == root and want[:len(p)] == tuple(p):
                    v = phi
                    for y in want[len(p):]:
                        v = project(v, y)
                    return v
        elif e[0] == "cut":
            break
    return place_at(tr, i, el)


def c35(P, R):
    prf, pwf = P.el("Active.pending_read_frame"), P.el("Active.pending_write_frame")
    for n in CONN_ENTRIES:
        for tr in P.run(n):
            if tr.kind == "panic":
                continue
            # a queue of fixed size per stream
            for i, e in enumerate(tr.ev):
                if e[0] == "call" and "mpsc" in e[1] and opname(e) in ("channel", "unbounded"):
                    c = tr.val(e[4][0]) if opname(e) == "channel" else None
                    R.ob(c is not None and c <= 1024, "C35.queue", "a stream's command queue is created without a small fixed bound", tr, e[7])
            st = newstream(tr) if n in ("C.next", "C.out") and tr.kind == "return" else None
            if st is not None:
                tx = P.get(st, "Stream.sender")
                R.ob(tx.k == "sym" and tx.a[0][0] == "tx", "C35.queue", "a new stream's queue is not one created for it", tr, tr.t.site)
            # commands and frames are taken only when there is room for what they lead to
            for i, e in tr.calls(("poll_next",), "SelectAll"):
                if e[2] is None or not any(x.kind == "f" and x.owner == P.adt("Active") for x in e[2][1]):
                    continue
                w = held_at(tr, i, e, pwf)
                R.ob(w is not None and tr.variants(w, "Option") == {"None"}, "C35.commands", "a command is taken from a stream while an earlier frame is still unsent", tr, e[7])
            for i, e in tr.socket(("poll_next",)):
                w = held_at(tr, i, e, prf)
                R.ob(w is not None and tr.variants(w, "Option") == {"None"}, "C35.frames", "a frame is received while an earlier reply is still unsent", tr, e[7])
            # payload is kept only against window
            f = frame_of(tr) if n == "C.next" else None
            for s, a, b in shared_secs(tr):
                if b is None:
                    continue
                for i, e in payload_in(tr, s):
                    if f is None:
                        R.ob(False, "C35.window", "payload is buffered that no frame carried", tr, s.site)
                        continue
                    k = lenof(f.body)
                    hy = [lt(k, I(1 << 32))]
                    R.ob(tr.le(add(b.rw, k), a.rw, hy), "C35.window", "payload is buffered that was not taken from the receive window", tr, s.site)
                    R.ob(tr.truth(eqz(k)) is False or tr.le(ONE, k), "C35.not-empty", "empty payloads are buffered, which costs memory but no window", tr, s.site)
                R.ob(len(payload_in(tr, s)) <= 1 and (payload_in(tr, s) or not seq_changed(tr, s)), "C35.once", "more than one payload's worth is buffered for a frame", tr, s.site)
    # streams put a command into the queue only when it reported room for it
    for n, tr in stream_traces(P):
        room = False
        for i, e in enumerate(tr.ev):
            if e[0] != "call" or "mpsc::Sender<" not in e[6]:
                continue
            op = opname(e)
            if op == "poll_ready":
                room = {names(x) for x in tr.shapes(e[5], "Poll", "Result")} == {("Ready", "Ok")}
            elif op == "start_send":
                R.ob(room, "C35.room", "a command is queued although the queue did not report room for it", tr, e[7])
                room = False
            elif op == "clone":
                R.ob(False, "C35.one-sender", "a stream's queue gets another sender, which raises its bound", tr, e[7])
    for r in ("queue", "commands", "frames", "window", "not-empty", "room"):
        R.floor("C35." + r, 1)


# ------------------------------------------------------------------------------------ C36
def c36(P, R):
    from . import build
    ws = build.witnesses(P.repo)
    for what, err in ws:
        R.ob(err is None, "C36.witness", "not so any more: %s (%s)" % (what, err), None, ("witness program", "witness/lib.rs"))
    us = build.unsafe_uses(P.repo)
    for msg, site in us:
        R.ob(False, "C36.unsafe", "unsafe code: %s" % msg, None, ("the crate", site))
    if not us:
        R.ob(True, "C36.unsafe")
    # handles are made only when a stream is opened, and only one is handed out
    owner = P.adt("Stream")
    for n in ("C.next", "C.out"):
        for tr in P.run(n):
            if tr.kind == "return":
                st = newstream(tr)
                R.ob(st is None or is_new(P.get(st, "Stream.shared")), "C36.fresh", "a stream is handed out that shares its state with an earlier handle", tr, tr.t.site)
    for f in P.F.fns.values():
        if not f.local:
            continue
        for b in f.blocks:
            for s in (b or {}).get("s", ()):
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and P.F.ts(s[2][2]) == owner:
                    R.ob(covered(P, f.key), "C36.made", "a stream handle is made outside opening a stream", None, (f.key, s[-1]))
    for r in ("witness", "unsafe", "fresh", "made"):
        R.floor("C36." + r, 1)
    R.floor("C36.witness", 20)
    R.extra = {"witness_programs": [w for w, e in ws]}


# ------------------------------------------------------------------------------------ C38
def c38(P, R):
    want = {"S.is_closed": lambda k, a: k == "Closed",
            "S.is_write_closed": lambda k, a: True if k == "SendClosed" else False if k in ("Open", "RecvClosed") else None,
            "S.is_pending_ack": lambda k, a: k == "Open" and a is False}
    what = {"S.is_closed": "whether both directions are closed", "S.is_write_closed": "whether the sending direction was closed", "S.is_pending_ack": "whether the stream is still unacknowledged"}
    for n, f in sorted(want.items()):
        seen = set()
        for tr in P.run(n):
            R.ob(tr.kind == "return", "C38.answers", "%s does not always return" % n, tr, tr.t.site)
            if tr.kind != "return":
                continue
            quiet(P, R, tr)
            secs = shared_secs(tr)
            R.ob(bool(secs) and all(s.arc() is own_arc(tr) for s, a, b in secs), "C38.own-state", "%s is answered without looking at the stream's own state" % n, tr, tr.t.site)
            if not secs:
                continue
            st = secs[-1][1].state
            for t in tr.cases(st, "State"):
                (k,) = t.variants(st, "State")
                subs = [(t, None)]
                if k == "Open":
                    ack = P.get(st, "State.Open.acknowledged")
                    subs = [(u, b) for b in (True, False) for u in t.assuming(ack, b)]
                for u, b in subs:
                    w = f(k, b)
                    seen.add((k, b))
                    R.ob(w is None or u.truth(tr.ret) is w, "C38." + n[2:].replace("_", "-"), "%s does not tell %s for a stream in state %s%s" % (n[2:], what[n], k, "" if b is None else " (acknowledged)" if b else " (unacknowledged)"), tr, tr.t.site)
        R.ob(len(seen) == 5, "C38.every-state", "%s is not answered in every state" % n)
    for tr in P.run("S.id"):
        R.ob(tr.kind == "return", "C38.answers", "the id query does not always return", tr, tr.t.site)
        if tr.kind == "return":
            quiet(P, R, tr)
            R.ob(tr.same(tr.ret, tr.fin(tr.me(), (P.el("Stream.id"),))), "C38.id", "the id query returns something else than the stream's id", tr, tr.t.site)
    for r in ("is-closed", "is-write-closed", "is-pending-ack", "id", "changes-nothing"):
        R.floor("C38." + r, 1)


def quiet(P, R, tr):
    ws = [e for i, e in enumerate(tr.ev) if e[0] == "w" and e[1][0] != "L" and not tr.same(e[3], e[4])]
    R.ob(not ws and not tr.sends() and not tr.wakes(), "C38.changes-nothing", "a query changes the stream", tr, ws[0][5] if ws else tr.t.site)


# ------------------------------------------------------------------------------------ C39
CONTROL = (("Connection.inner", "ConnectionState"), ("Closing.state", None), ("Cleanup.state", None), ("Io.read_state", "ReadState"), ("Io.write_state", "WriteState"))


def control(tr, v, role):
    """the control states a value may stand for"""
    if role:
        return tr.variants(v, role)
    d = dnum(tr, v)
    return set() if d is None else {"#%s" % d}


def consumed(tr, lo, hi=None):
    """does something finite get used up between the events: an item, input, room of the transport, a queued command"""
    for i in range(lo, len(tr.ev) if hi is None else hi):
        e = tr.ev[i]
        if e[0] == "iter" or e[0] == "cut":
            return True
        if e[0] == "w" and e[4].k == "op" and e[4].a[0] == "popf" and e[4].a[1] is base(e[3]) and tr.truth(eqz(lenof(e[4].a[1]))) is False:
            return True
        if e[0] != "call":
            continue
        nm = opname(e)
        if nm in ("poll_read", "poll_write"):
            sh = tr.shapes(e[5], "Poll", "Result")
            if sh and all(names(s) == ("Ready", "Ok") and tr.le(I(1), s[-1]) for s in sh):
                return True
        elif nm in ("poll_next", "poll_next_unpin", "try_next", "try_poll_next"):
            sh = {names(s)[:2] for s in tr.shapes(e[5], "Poll", "Option")}
            if sh and sh <= {("Ready", "Some")}:
                return True
        elif nm == "start_send":
            if {names(s) for s in tr.shapes(e[5], "Result")} == {("Ok",)}:
                return True
    return False


def base(v):
    """a queue without changes to its front element"""
    return v.a[0] if v.k == "upd" and all(e is FRONT for e, _ in v.a[1]) else v


def grows(tr, lo):
    """a loop-carried number that provably gets closer to a bound: it grows below a length, or shrinks"""
    for p, init in tr.ev[lo][4]:
        root, path = phi_place(p)
        v = tr.fin(root, path)
        if v is p or v.k in ("agg",):
            continue
        try:
            if tr.le(add(v, I(1)), p) or tr.le(add(p, I(1)), v) and any(tr.le(v, n) for n in lengths(tr, v)):
                return True
        except Exception:
            continue
    return False


def lengths(tr, v):
    out = []
    for f in list(tr.t.facts) + list(tr.t.neq) + [v]:
        for t in subterms(f):
            if t.k == "op" and t.a[0] == "len" and t not in out:
                out.append(t)
    return out


def c39(P, R):
    for n in ALL:
        edges = {}
        for tr in P.run(n):
            if tr.kind == "return":
                own = [w for w in tr.wakes() if is_waker_of(w[1], 2, tr)]
                R.ob(not own or consumed(tr, 0) or "Pending" not in tr.variants(tr.ret, "Poll"), "C39.no-self-wake", "the call waits but wakes its own task although nothing was used up: the task never rests", tr, own[0][2] if own else tr.t.site)
            if tr.kind != "back":
                continue
            h = tuple(tr.t.head)
            ls = [i for i, e in enumerate(tr.ev) if e[0] == "loop" and (e[1], e[2]) == h]
            if not ls:
                # the round began with taking a frame from the transport
                R.ob(any(e[0] == "cut" for e in tr.ev), "C39.progress", "a round of a loop cannot be followed", tr, tr.t.site)
                continue
            lo = ls[-1]
            if consumed(tr, lo + 1) or grows(tr, lo):
                R.ob(True, "C39.progress")
                continue
            ch = []
            for f, role in CONTROL:
                el = P.el(f)
                for i, root, path, old, new, site in tr.writes(el):
                    if i > lo and path[-1] is el:
                        a, b = control(tr, tr.at(lo, root, path), role), control(tr, tr.fin(root, path), role)
                        if a and b and not a & b:
                            ch.append((f, a, b, tr))
            R.ob(bool(ch), "C39.progress", "a round of a loop changes nothing it depends on: the call may never return", tr, tr.t.site)
            for f, a, b, t in ch[:1]:
                edges.setdefault((h, f), []).append((a, b, t))
        for (h, f), es in sorted(edges.items(), key=repr):
            g = {}
            for a, b, t in es:
                for x in a:
                    g.setdefault(x, set()).update(b)
            for a, b, t in es:
                # can the round's result lead back to where it began without using anything up?
                seen, todo = set(), list(b)
                while todo:
                    x = todo.pop()
                    if x not in seen:
                        seen.add(x)
                        todo += g.get(x, ())
                R.ob(not seen & a, "C39.no-cycle", "the control states %s of a loop can repeat without anything being used up" % ", ".join(sorted(seen & a)), t, t.t.site)
    for r in ("progress", "no-cycle", "no-self-wake"):
        R.floor("C39." + r, 1)

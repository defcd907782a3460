"""Rules about the connection: frames sent and received, opening and accepting streams."""
from .view import *
from .rules_stream import (tagged, names, rets, ROLES, stream_traces, state_change, items, item_cmd, built_frames, not_held,
                           seq_writes, is_inbody, chunk_bytes, chunk_pos, woken, acked, same_id, base_sym)

U32 = (1 << 32) - 1


# ------------------------------------------------------------------------------------ helpers
def bit(tr, flags, b):
    """is the flag bit set: True / False / None"""
    t = band(flags, I(b))
    if t.k == "int":
        return t.a[0] != 0
    if tr.proves(eqz(t)):
        return False
    if tr.refutes(eqz(t)):
        return True
    return None


def odd(tr, x):
    return bit(tr, x, 1)


def syms(tr, kind):
    """symbols of one kind among the facts, the result and the events of a path"""
    out = []
    seen = set()

    def look(t):
        if isinstance(t, T) and t not in seen:
            seen.add(t)
            for x in subterms(t):
                if x.k == "sym" and isinstance(x.a[0], tuple) and x.a[0][0] == kind and x not in out:
                    out.append(x)
    for f in list(tr.t.facts) + list(tr.t.neq):
        look(f)
    if tr.ret is not None:
        look(tr.ret)
    for e in tr.ev:
        if e[0] == "w":
            look(e[4])
        elif e[0] == "call":
            for a in e[4]:
                look(a)
    return out


def frame_of(tr):
    """the frame this path processes, or None"""
    if not hasattr(tr, "_fr"):
        tr._fr = None
        if tr.kind != "cut" and tr.ev and any(e[0] == "cut" for e in tr.ev):
            s = syms(tr, "inframe")
            tr._fr = FV(tr.P, s[0]) if len(s) == 1 else None
    return tr._fr


def frame_paths(P, kinds=("return", "back")):
    """paths of the connection that process one received frame"""
    for tr in P.run("C.next"):
        if tr.kind in kinds:
            f = frame_of(tr)
            if f is not None:
                yield tr, f


def final_active(tr):
    P = tr.P
    v = tr.fin(tr.me(), (P.el("Connection.inner"),))
    if tr.variants(v, "ConnectionState") == {"Active"}:
        return project(v, P.el("ConnectionState.Active.0"))
    return None


def A1(tr, field):
    a = final_active(tr)
    if a is not None:
        return project(a, tr.P.el("Active." + field))
    return tr.act(field)


def A0(tr, field):
    return tr.act0(field)


def goaways(tr, lo=0):
    """[(code or None, site, i)] of go-away frames this path queues or sends"""
    out = []
    for i, f, site, w in built_frames(tr):
        if i < lo:
            continue
        v = FV(tr.P, f)
        if tr.is_(v.tag, "Tag", "GoAway"):
            out.append((tr.val(v.length), site, i))
    return out


def protocol_error(tr):
    g = goaways(tr)
    return len(g) == 1 and g[0][0] == 1


def constant(P, R, rule, *fields):
    """fields of an active connection that are never given another value"""
    for n in ("C.next", "C.out", "C.close", "C.drop"):
        for tr in P.run(n):
            if tr.kind == "panic":
                continue
            for x in fields:
                el = P.el("Active." + x)
                for i, root, path, old, new, site in tr.writes(el):
                    if el in path[:-1]:
                        continue
                    R.ob(tr.same(old, new), rule, "the %s of an active connection is replaced" % x, tr, site)
    R.ob(True, rule)


def inserts(tr):
    return [e for e in tr.writes(tr.P.el("Active.streams")) if e[4].k == "op" and e[4].a[0] == "ins"]


def newstream(tr):
    """the stream a connection poll returns, or None"""
    if tr.kind != "return":
        return None
    roles = {"C.next": ("Poll", "Option", "Result"), "C.out": ("Poll", "Result")}.get(tr.entry)
    for s in tr.shapes(tr.ret, *roles):
        if names(s)[-1] == "Ok":
            return s[-1]
    return None


def maps(tr):
    """stream maps this path looks into"""
    out = []
    for t in list(tr.t.facts) + list(tr.t.neq):
        if isinstance(t, T) and t.k == "op" and t.a[0] == "has" and t.a[1] not in out:
            out.append(t.a[1])
    return out


def known(tr, f):
    """is the frame's stream registered: True / False / None"""
    r = None
    for m in maps(tr):
        for k in (f.sid, f.id):
            d = tr.truth(op_has(m, k))
            if d is not None:
                r = d
    return r


def op_has(m, k):
    from .models import has
    return has(m, k)


def on_frame_stream(tr, s, f):
    """does the section belong to the stream the frame names"""
    a = s.arc()
    return a is not None and a.k == "op" and a.a[0] == "mapget" and (a.a[2] is f.sid or tr.same(a.a[2], f.sid))


def is_new(arc):
    return arc is not None and arc.k == "sym" and isinstance(arc.a[0], tuple) and arc.a[0][0] == "newarc"


def is_item(arc):
    return arc is not None and arc.k == "sym" and isinstance(arc.a[0], tuple) and arc.a[0][0] in ("itemv", "item")


def new_shared(tr, st):
    """final shared state of a newly created stream"""
    P = tr.P
    arc = P.get(st, "Stream.shared")
    v = tr.fin(("A", arc))
    for e in v_inner(v):
        return SV(P, e)
    return None


def v_inner(v):
    """the value inside a lock aggregate"""
    if v.k == "agg" and str(v.a[0]).startswith("yx::") or v.k == "agg" and len(v.a[2]) == 1:
        yield v.a[2][0]
    else:
        yield project(v, MUT_E)


# ------------------------------------------------------------------------------------ C02
def held_sym(P, v):
    """the frame already held in a place of the connection when the path began"""
    places = [P.el("Active.pending_read_frame"), P.el("Active.pending_write_frame"), P.el("Closing.pending_frames")]
    t = v
    while True:
        if t.k == "fld":
            if t.a[1] in places:
                return True
            t = t.a[0]
        elif t.k == "op" and t.a[0] in ("popf", "pushb"):
            t = t.a[1]
        else:
            break
    return t.k == "sym" and isinstance(t.a[0], tuple) and t.a[0][0] in ("phi", "join", "hv", "havoc") and any(p in places for x in t.a[0] if isinstance(x, tuple) for p in x)


def well_formed(P, R, tr, v, site, own=None):
    f = FV(P, v)
    R.ob(tr.val(f.version) == 0, "C02.version", "a frame is sent with version %s" % short(f.version, 40), tr, site)
    tags = tr.variants(f.tag, "Tag")
    R.ob(len(tags) == 1, "C02.type", "the type of a frame is undecided", tr, site)
    if len(tags) != 1:
        return
    tag = list(tags)[0]
    fl = tr.val(f.flags)
    if tag == "Data":
        R.ob(tr.equal(f.length, lenof(f.body)), "C02.data-length", "a data frame announces %s for a payload of %s" % (short(f.length, 60), short(lenof(f.body), 60)), tr, site)
    else:
        R.ob(tr.proves(eqz(lenof(f.body))) or tr.val(lenof(f.body)) == 0, "C02.no-payload", "a %s frame carries a payload" % tag, tr, site)
    if tag in ("Ping", "GoAway"):
        R.ob(tr.val(f.id) == 0, "C02.session-id", "a %s frame is sent on stream id %s" % (tag, short(f.id, 40)), tr, site)
    if tag == "GoAway":
        R.ob(fl == 0, "C02.goaway-flags", "a go-away carries flags", tr, site)
        R.ob(tr.val(f.length) in (0, 1, 2), "C02.goaway-code", "a go-away carries code %s" % short(f.length, 40), tr, site)
    elif tag == "Ping":
        inlen = is_inlength(tr, f.length)
        R.ob(fl == (ACK if inlen else SYN), "C02.ping-flags", "a ping %s carries flags %s" % ("reply" if inlen else "request", fl), tr, site)
    else:
        R.ob(fl is not None and 0 <= fl <= 15 and (not fl & RST or fl == RST), "C02.stream-flags", "a %s frame carries flags %s" % (tag, fl), tr, site)
        if own is not None:
            R.ob(own(f), "C02.own-id", "a stream's frame names another stream", tr, site)


def is_inlength(tr, v):
    t = v
    while t.k == "fld":
        t = t.a[0]
    return t.k == "sym" and isinstance(t.a[0], tuple) and t.a[0][0] == "inframe"


def c02(P, R):
    want = {"Data": 0, "WindowUpdate": 1, "Ping": 2, "GoAway": 3}
    for v, d in want.items():
        R.ob(P.vdiscr("Tag", v) == d, "C02.type-number", "type %s has number %d" % (v, P.vdiscr("Tag", v)))
    for n, tr in stream_traces(P):
        if tr.kind == "panic":
            continue
        for c in cmds(tr):
            R.ob(c.kind is not None, "C02.known", "a queued command is undecided", tr, c.site)
            if c.kind == "SendFrame":
                R.ob(tr.variants(c.frame.tag, "Tag") <= {"Data", "WindowUpdate"}, "C02.stream-kinds", "a stream sends a session frame", tr, c.site)
                well_formed(P, R, tr, c.frame.f, c.site, lambda f: same_id(tr, f))
                b = c.flagbits()
                if b is not None:
                    R.ob(b & 3 != 3, "C02.not-both", "a frame carries SYN and ACK", tr, c.site)
    for n in ("C.next", "Closing.poll"):
        for tr in P.run(n):
            if tr.kind == "panic":
                continue
            its = items(tr)
            for i, v, site, where in built_frames(tr):
                if v.k != "agg":
                    ok = held_sym(P, v) or any(k == "SendFrame" and v is P.get(item_cmd(P, oc), "StreamCommand.SendFrame.0") for j, sid, oc, k, s in its)
                    R.ob(ok, "C02.origin", "the connection sends %s, which neither a stream queued nor the connection built" % short(v, 80), tr, site)
                    continue
                well_formed(P, R, tr, v, site)
    for tr in P.run("C.close"):
        if tr.kind == "panic":
            continue
        for v in closing_queue(P, tr):
            R.ob(v is None or v.k != "agg" and held_sym(P, v), "C02.origin", "a closing connection starts with a frame nobody queued", tr, tr.t.site)
    for r in ("version", "data-length", "no-payload", "session-id", "goaway-flags", "goaway-code", "ping-flags", "stream-flags", "own-id", "origin"):
        R.floor("C02." + r, 1)


def seq_elems(q):
    """elements of a queue built on this path, front first; None when it starts from something else"""
    out, head = [], []
    while q.k == "op" and q.a[0] in ("pushb", "pushf"):
        (out if q.a[0] == "pushb" else head).append(q.a[2])
        q = q.a[1]
    out = head + out[::-1]
    if q.k == "op" and q.a[0] == "emptyseq":
        return out
    return None


def closing_values(P, tr):
    """Closing values this path installs: [(value, site)]"""
    out = []
    el = P.el("Connection.inner")
    for i, root, path, old, new, site in tr.writes(el):
        if path[-1] is el and new.k == "agg" and tr.variants(new, "ConnectionState") == {"Closing"}:
            v = project(new, P.el("ConnectionState.Closing.0"))
            if v.k == "agg":
                out.append((v, site, i))
    return out


def closing_queue(P, tr):
    out = []
    for v, site, i in closing_values(P, tr):
        q = seq_elems(P.get(v, "Closing.pending_frames"))
        if q is None:
            out.append(mk("sym", ("unknown",)))
        else:
            out += q
    return out


# ------------------------------------------------------------------------------------ C06
def c06(P, R):
    for n in ("C.next", "Closing.poll"):
        trs = P.run(n)
        sending = set()
        for tr in trs:
            if tr.kind == "back":
                lo = max([i for i, e in enumerate(tr.ev) if e[0] == "loop" and (e[1], e[2]) == tuple(tr.t.head)] or [-1])
                if lo >= 0 and tr.socket(("start_send",), lo):
                    sending.add(tuple(tr.t.head))
        for tr in trs:
            if tr.kind == "panic":
                continue
            evs = []
            for i, e in tr.socket(("poll_ready",)):
                evs.append((i, "r", e))
            for i, e in tr.socket(("start_send",)):
                evs.append((i, "s", e))
            for i, e in enumerate(tr.ev):
                if e[0] == "loop" and (e[1], e[2]) in sending:
                    evs.append((i, "l", e))
                elif e[0] == "cut":
                    evs.append((i, "l", e))
            evs.sort(key=lambda x: x[0])
            good = None
            failed = None
            for i, k, e in evs:
                if k == "l":
                    good = None
                elif k == "r":
                    sh = {names(s) for s in tr.shapes(e[5], "Poll", "Result")}
                    good = sh == {("Ready", "Ok")}
                    if ("Ready", "Err") in sh:
                        failed = e
                else:
                    R.ob(good is True, "C06.ready-first", "a frame is handed to the socket although readiness was not reported since the last one", tr, e[7])
                    good = None
                    R.ob(failed is None, "C06.failed", "a frame is handed to the socket after readiness failed", tr, e[7])
            if failed is not None:
                R.ob(ends_badly(tr, n), "C06.reported", "a readiness failure is not reported", tr, failed[7])
    for r in ("ready-first", "reported"):
        R.floor("C06." + r, 2)


def ends_badly(tr, n):
    """the path returns an error or is tearing the connection down"""
    P = tr.P
    if n == "Closing.poll":
        return tr.kind == "return" and {names(s) for s in tr.shapes(tr.ret, "Poll", "Result")} == {("Ready", "Err")}
    inner = tr.fin(tr.me(), (P.el("Connection.inner"),))
    st = tr.variants(inner, "ConnectionState")
    if tr.kind == "return":
        sh = {names(s) for s in tr.shapes(tr.ret, "Poll", "Option", "Result")}
        return sh == {("Ready", "Some", "Err")} or st <= {"Cleanup", "Closed"}
    # unwinding towards clean-up: inside the draining of the streams, or already in the next round
    return st <= {"Cleanup", "Closed"} or draining(tr)


def draining(tr):
    """this path iterates over the streams while tearing down"""
    return any(e[0] == "iter" for e in tr.ev) and any(is_item(s.arc()) and b is not None and tr.variants(b.state, "State") == {"Closed"} for s, a, b in shared_secs(tr))


# ------------------------------------------------------------------------------------ C07
def c07(P, R):
    tagged(P, R, "C07.queue")
    places = {"Active.pending_read_frame": P.el("Active.pending_read_frame"), "Active.pending_write_frame": P.el("Active.pending_write_frame")}
    wr = places["Active.pending_write_frame"]
    for n in ("C.next", "C.out", "C.drop", "C.close"):
        for tr in P.run(n):
            if tr.kind == "panic":
                continue
            built = built_frames(tr)
            for nm, el in places.items():
                for i, root, path, old, new, site in tr.writes(el):
                    if path[-1] is not el:
                        R.ob(False, "C07.in-place", "a held frame is modified in place", tr, site)
                        continue
                    vo, vn = tr.variants(old, "Option"), tr.variants(new, "Option")
                    if tr.same(old, new):
                        continue
                    if "Some" in vn:
                        R.ob(vo == {"None"}, "C07.fill-empty", "a frame is put where another may still be waiting", tr, site)
                    elif "Some" in vo:
                        pay = project(old, SOME_E)
                        used = any(j > i and v is pay for j, v, s, w in built) or any(pay in closing_queue(P, tr) for _ in (0,))
                        R.ob(used, "C07.not-dropped", "a held frame is taken out but neither sent nor kept", tr, site)
            for i, sid, oc, kind, site in items(tr):
                if not_held(P, tr, n, i):
                    continue
                later = [x for x in built if x[0] > i]
                if kind == "SendFrame":
                    pay = P.get(item_cmd(P, oc), "StreamCommand.SendFrame.0")
                    R.ob(any(v is pay for j, v, s, w in later), "C07.taken-kept", "a stream's frame is taken from its queue but neither sent nor kept", tr, site)
                elif kind == "CloseStream":
                    R.ob(bool(later), "C07.taken-kept", "a stream's close command is taken from its queue but not turned into a frame", tr, site)
                elif isinstance(kind, set):
                    R.ob(False, "C07.taken-known", "a command is taken without looking at what it is", tr, site)
                    continue
                else:
                    continue
                w = place_at(tr, i, wr)
                direct = later and later[0][3] is not wr
                R.ob(w is not None and tr.variants(w, "Option") == {"None"} or not direct and w is None, "C07.in-order", "a command is taken while an earlier frame is still held", tr, site)
    # beginning to close keeps what was held
    n = 0
    for tr in P.run("C.close"):
        if tr.kind == "panic":
            continue
        for v, site, i in closing_values(P, tr):
            act = None
            q = seq_elems(P.get(v, "Closing.pending_frames"))
            old = None
            for j, root, path, o, new, s in tr.writes(P.el("Connection.inner")):
                if tr.variants(o, "ConnectionState") == {"Active"}:
                    old = project(o, P.el("ConnectionState.Active.0"))
            R.ob(q is not None and old is not None, "C07.close-known", "what a closing connection starts with cannot be followed", tr, site)
            if q is None or old is None:
                continue
            want = []
            ok = True
            for f in ("pending_read_frame", "pending_write_frame"):
                o = P.get(old, "Active." + f)
                vs = tr.variants(o, "Option")
                if vs == {"Some"}:
                    want.append(project(o, SOME_E))
                elif vs != {"None"}:
                    ok = False
            R.ob(ok and len(q) == len(want) and all(x is y for x, y in zip(q, want)), "C07.close-keeps", "a frame held when the connection begins to close is lost or sent out of order", tr, site)
            R.ob(tr.same(P.get(v, "Closing.stream_receivers"), P.get(old, "Active.stream_receivers")), "C07.close-keeps-queues", "the streams' queues are not carried over into closing", tr, site)
            R.ob(tr.same(P.get(v, "Closing.socket"), P.get(old, "Active.socket")), "C07.close-keeps-socket", "the socket is not carried over into closing", tr, site)
    pf = P.el("Closing.pending_frames")
    for tr in P.run("Closing.poll"):
        if tr.kind == "panic":
            continue
        for i, root, path, old, new, site in tr.writes(pf):
            if tr.same(old, new):
                continue
            good = path[-1] is pf and new.k == "op" and new.a[0] in ("pushb", "popf") and new.a[1] is old
            R.ob(good, "C07.queue-order", "the closing queue is changed other than by appending and taking from the front", tr, site)
            if good and new.a[0] == "popf":
                front = project(old, FRONT)
                R.ob(any(j > i and e[4][1] is front for j, e in tr.socket(("start_send",))), "C07.popped-sent", "a frame is taken off the closing queue but not sent", tr, site)
        for i, sid, oc, kind, site in items(tr):
            later = [x for x in built_frames(tr) if x[0] > i]
            if kind == "SendFrame":
                pay = P.get(item_cmd(P, oc), "StreamCommand.SendFrame.0")
                R.ob(any(v is pay and w is pf for j, v, s, w in later), "C07.taken-kept", "a stream's frame is dropped while closing", tr, site)
            elif kind == "CloseStream":
                R.ob(any(w is pf for j, v, s, w in later), "C07.taken-kept", "a stream's close command is dropped while closing", tr, site)
            elif isinstance(kind, set):
                R.ob(False, "C07.taken-known", "a command is taken without looking at what it is", tr, site)
    for r in ("fill-empty", "not-dropped", "taken-kept", "in-order", "close-keeps", "queue-order", "popped-sent"):
        R.floor("C07." + r, 1)


def place_at(tr, i, el):
    """value of a field of the active connection just before event i"""
    for e in tr.ev[i:]:
        if e[0] == "w" and e[2]:
            if e[2][-1] is el:
                return e[3]
            if el in e[2]:
                return None
    return A1(tr, el_name(tr.P, el))


def el_name(P, el):
    for n in ADTS["Active"][1].split():
        if P.el("Active." + n) is el:
            return n


# ------------------------------------------------------------------------------------ C09
def payload_in(tr, s):
    """events of a section that append the received payload"""
    P = tr.P
    out = []
    for i, k, e in seq_writes(tr, s):
        if k == "seq" and e[4].k == "op" and e[4].a[0] == "pushb" and e[4].a[1] is e[3] and is_inbody(P, chunk_bytes(P, e[4].a[2])):
            out.append((i, e))
    return out


def seq_changed(tr, s):
    return [e for i, k, e in seq_writes(tr, s) if k == "seq" and not tr.same(e[3], e[4])]


def c09(P, R):
    for n in CONN_ENTRIES:
        for tr in P.run(n):
            if tr.kind == "panic":
                continue
            f = frame_of(tr) if n == "C.next" else None
            got = 0
            for s, a, b in shared_secs(tr):
                if b is None:
                    continue
                pays = payload_in(tr, s)
                got += len(pays)
                if pays:
                    k = lenof(f.body) if f is not None else None
                    R.ob(len(pays) == 1 and f is not None and tr.is_(f.tag, "Tag", "Data"), "C09.once", "a payload is delivered more than once, or from a frame that is not a data frame", tr, s.site)
                    if f is None:
                        continue
                    hy = [lt(k, I(1 << 32))]
                    R.ob(tr.equal(add(b.rw, k), a.rw, hy), "C09.shrinks", "the receive window does not shrink by exactly the payload length", tr, s.site)
                    R.ob(tr.le(k, a.rw, hy), "C09.fits", "a payload longer than the receive window is accepted", tr, s.site)
                    R.ob(on_frame_stream(tr, s, f) or is_new(s.arc()), "C09.own-stream", "a payload is delivered to another stream", tr, s.site)
                else:
                    R.ob(a.rw is b.rw or tr.same(a.rw, b.rw) or f is not None and tr.equal(a.rw, b.rw), "C09.only-data", "the receive window changes although no payload was delivered", tr, s.site)
                    R.ob(not seq_changed(tr, s), "C09.only-payload", "buffered data changes although no payload was received", tr, s.site)
            R.ob(got <= 1, "C09.once", "a payload is delivered %d times" % got, tr, tr.t.site)
            if f is None or not tr.is_(f.tag, "Tag", "Data") or tr.kind not in ("return", "back"):
                continue
            if bit(tr, f.flags, RST) is True:
                R.ob(got == 0, "C09.reset-carries-none", "the payload of a reset is delivered", tr, tr.t.site)
                continue
            syn = bit(tr, f.flags, SYN)
            if syn is True and newstream(tr) is not None or syn is False and known(tr, f) is True:
                none = tr.proves(eqz(lenof(f.body)))
                if got == 0 and not none:
                    over = any(tr.le(add(a.rw, ONE), lenof(f.body), [lt(lenof(f.body), I(1 << 32))]) for s, a, b in shared_secs(tr) if on_frame_stream(tr, s, f))
                    R.ob(protocol_error(tr) and over, "C09.refused", "a payload is not delivered although it fits, or is refused without a protocol-error go-away", tr, tr.t.site)
                else:
                    R.ob(not goaways(tr), "C09.accepted", "a payload is delivered and also answered with a go-away", tr, tr.t.site)
            elif got == 0 and syn is True and tr.refutes(eqz(lenof(f.body))) and tr.le(I(KIB256 + 1), lenof(f.body)):
                R.ob(bool(goaways(tr)), "C09.refused-first", "an oversized first payload is refused without a go-away", tr, tr.t.site)
    for r in ("shrinks", "fits", "refused", "accepted", "only-data"):
        R.floor("C09." + r, 1)


# ------------------------------------------------------------------------------------ C10
def c10(P, R):
    for n in CONN_ENTRIES:
        for tr in P.run(n):
            if tr.kind == "panic":
                continue
            f = frame_of(tr) if n == "C.next" else None
            ch = []
            for s, a, b in shared_secs(tr):
                if b is None or a.sw is b.sw or tr.same(a.sw, b.sw):
                    continue
                ch.append((s, a, b))
                ok = f is not None and tr.is_(f.tag, "Tag", "WindowUpdate") and (on_frame_stream(tr, s, f) or is_new(s.arc()))
                R.ob(ok, "C10.only-credit", "the send credit of a stream changes without a window update for it", tr, s.site)
                if ok:
                    c = f_len(P, f)
                    R.ob(tr.equal(b.sw, add(a.sw, c)), "C10.exact", "the send credit does not grow by exactly the announced amount", tr, s.site)
                    R.ob(tr.le(add(a.sw, c), I(U32)), "C10.no-wrap", "the send credit may exceed 32 bits", tr, s.site)
            R.ob(len(ch) <= 1, "C10.once", "credit is applied %d times" % len(ch), tr, tr.t.site)
            if f is None or tr.kind not in ("return", "back") or not tr.is_(f.tag, "Tag", "WindowUpdate"):
                continue
            if bit(tr, f.flags, RST) is not False:
                continue
            syn = bit(tr, f.flags, SYN)
            if syn is False and known(tr, f) is True:
                if not ch:
                    c = f_len(P, f)
                    none = tr.proves(eqz(c))
                    over = any(tr.le(I(U32 + 1), add(a.sw, c)) for s, a, b in shared_secs(tr) if on_frame_stream(tr, s, f))
                    R.ob(none or over and protocol_error(tr), "C10.refused", "a window update is not applied although it fits, or refused without a protocol-error go-away", tr, tr.t.site)
                else:
                    R.ob(not goaways(tr), "C10.applied", "a window update is applied and also answered with a go-away", tr, tr.t.site)
    # what a new stream starts with
    for n in ("C.next", "C.out"):
        for tr in P.run(n):
            st = newstream(tr)
            if st is None:
                continue
            f = frame_of(tr) if n == "C.next" else None
            arc = P.get(st, "Stream.shared")
            R.ob(is_new(arc), "C10.own-state", "a new stream shares its state with an older one", tr, tr.t.site)
            v = new_shared(tr, st)
            R.ob(tr.val(v.max) == KIB256, "C10.start-max", "a new stream's maximum receive window is %s" % short(v.max, 40), tr, tr.t.site)
            if f is not None and tr.is_(f.tag, "Tag", "WindowUpdate"):
                c = f_len(P, f)
                R.ob(tr.equal(v.sw, add(c, I(KIB256))), "C10.start-credit", "a stream opened by a window update starts with %s, not the default plus the announced amount" % short(v.sw, 60), tr, tr.t.site)
                R.ob(tr.le(add(c, I(KIB256)), I(U32)), "C10.start-no-wrap", "the starting credit may exceed 32 bits", tr, tr.t.site)
                R.ob(tr.val(v.rw) == KIB256, "C10.start-window", "a new stream starts with receive window %s" % short(v.rw, 40), tr, tr.t.site)
            else:
                R.ob(tr.val(v.sw) == KIB256, "C10.start-default", "a new stream starts with send credit %s" % short(v.sw, 40), tr, tr.t.site)
                if f is not None:
                    R.ob(tr.equal(add(v.rw, lenof(f.body)), I(KIB256), [lt(lenof(f.body), I(1 << 32))]), "C10.start-window", "a new stream starts with receive window %s" % short(v.rw, 60), tr, tr.t.site)
                else:
                    R.ob(tr.val(v.rw) == KIB256, "C10.start-window", "a new stream starts with receive window %s" % short(v.rw, 40), tr, tr.t.site)
    # a stream opened by a window update whose amount does not fit
    for tr, f in frame_paths(P):
        if tr.is_(f.tag, "Tag", "WindowUpdate") and bit(tr, f.flags, RST) is False and bit(tr, f.flags, SYN) is True:
            if tr.le(I(U32 + 1), add(f_len(P, f), I(KIB256))):
                R.ob(newstream(tr) is None and protocol_error(tr), "C10.start-refused", "an opening window update that does not fit is not refused with a protocol error", tr, tr.t.site)
    for r in ("exact", "no-wrap", "refused", "applied", "start-max", "start-credit", "start-default", "start-window", "start-refused"):
        R.floor("C10." + r, 1)


def f_len(P, f):
    """the announced amount of a received frame"""
    return f.length


# ------------------------------------------------------------------------------------ C13
def c13(P, R):
    constant(P, R, "C13.own-limits", "mode", "config")
    for tr, f in frame_paths(P):
        ins = inserts(tr)
        st = newstream(tr)
        syn, rst = bit(tr, f.flags, SYN), bit(tr, f.flags, RST)
        tags = tr.variants(f.tag, "Tag")
        streamy = tags <= {"Data", "WindowUpdate"}
        if st is not None or ins:
            site = ins[0][5] if ins else tr.t.site
            R.ob(syn is True and rst is not True and streamy, "C13.needs-syn", "a stream is created by a frame that need not carry SYN", tr, site)
            R.ob(tr.refutes(eqz(f.id)) or odd(tr, f.id) is True, "C13.non-zero", "a stream with id 0 may be created", tr, site)
            mode = tr.variants(A1(tr, "mode"), "Mode")
            o = odd(tr, f.id)
            R.ob(mode == {"Client"} and o is False or mode == {"Server"} and o is True, "C13.parity", "a stream may be created on an id of our own side", tr, site)
            R.ob(st is not None and len(ins) == 1, "C13.registered-and-returned", "a new stream is registered %d times and %s returned" % (len(ins), "" if st is not None else "not"), tr, site)
            if st is None or len(ins) != 1:
                continue
            m = ins[0][4]
            R.ob(m.a[1] is ins[0][3] and tr.truth(op_has(m.a[1], f.sid)) is False, "C13.not-in-use", "the id of a new stream may be in use", tr, site)
            R.ob(tr.same(m.a[2], f.sid) and m.a[3] is P.get(st, "Stream.shared"), "C13.registered", "a new stream is registered under another id or with another state", tr, site)
            R.ob(tr.same(P.get(st, "Stream.id"), f.sid), "C13.own-id", "the returned stream has another id", tr, site)
            below(P, R, tr, m.a[1], "C13.below-limit", site)
            channel(P, R, tr, st, f.sid, "C13.queue", site)
        elif streamy and syn is True and rst is False:
            g = goaways(tr)
            dead = torn(tr)
            R.ob(dead or len(g) == 1 and g[0][0] in (1, 2), "C13.refused", "a SYN that opens no stream is not answered with a go-away carrying an error code", tr, tr.t.site)
            bad = None
            for s, a, b in shared_secs(tr):
                if b is None or a.v is b.v:
                    continue
                if is_new(s.arc()):
                    continue
                if is_item(s.arc()) and dead:
                    continue
                if state_change(tr, a, b):
                    if not (bit(tr, f.flags, ACK) is True and tr.variants(a.state, "State") == {"Open"} and tr.variants(b.state, "State") == {"Open"}):
                        bad = s
                if not (tr.same(a.sw, b.sw) and tr.same(a.rw, b.rw)) or seq_changed(tr, s):
                    bad = s
            R.ob(bad is None, "C13.untouched", "a refused SYN alters an existing stream", tr, bad.site if bad else tr.t.site)
            # was there a reason
            why = tr.proves(eqz(f.id)) or known(tr, f) is True
            mode = tr.variants(A1(tr, "mode") or mk("sym", ("none",)), "Mode") if A1(tr, "mode") is not None else set()
            o = odd(tr, f.id)
            why = why or mode == {"Client"} and o is True or mode == {"Server"} and o is False
            full = False
            for t in maps(tr):
                lim = maxstreams(P, tr)
                if lim is not None and tr.le(lim, op_len(t)):
                    full = True
            if tr.is_(f.tag, "Tag", "Data") and tr.le(I(KIB256 + 1), lenof(f.body)):
                why = True
            if tr.is_(f.tag, "Tag", "WindowUpdate") and tr.le(I(U32 + 1), add(f.length, I(KIB256))):
                why = True
            if not dead and len(g) == 1 and (why or full):
                R.ob(g[0][0] != 2 or full, "C13.code", "the peer is told of an internal error although its frame is at fault", tr, g[0][1])
            R.ob(why or full or dead, "C13.accepted", "a valid, new, affordable id is refused", tr, tr.t.site)
        elif streamy:
            R.ob(syn is not None or rst is True or torn(tr), "C13.told-apart", "a stream frame is processed without looking at SYN", tr, tr.t.site)
    for n in ("C.close", "C.drop"):
        for tr in P.run(n):
            R.ob(not inserts(tr), "C13.nowhere-else", "a stream is registered outside opening and accepting", tr, tr.t.site)
    for tr in P.run("C.next"):
        if frame_of(tr) is None and tr.kind in ("return", "back"):
            R.ob(not inserts(tr) and newstream(tr) is None, "C13.nowhere-else", "a stream is registered without a frame", tr, tr.t.site)
    for r in ("needs-syn", "non-zero", "parity", "not-in-use", "registered", "own-id", "below-limit", "queue", "refused", "untouched", "accepted", "code"):
        R.floor("C13." + r, 1)


def op_len(m):
    from .models import maplen
    return maplen(m)


def maxstreams(P, tr):
    """the configured stream limit as this path reads it"""
    cfg = A1(tr, "config")
    if cfg is None:
        return None
    from .rules_stream import arc_content
    return project(arc_content(tr, cfg), P.el("Config.max_num_streams"))


def below(P, R, tr, m, rule, site):
    """the number of registered streams is below the limit (it never exceeds it, by this same rule)"""
    lim = maxstreams(P, tr)
    ok = lim is not None and tr.entails(add(sub(op_len(m), lim), ONE), [bnot(lt(lim, op_len(m)))] if not tr.truth(eq(op_len(m), lim)) is False else [])
    if lim is not None and not ok and tr.refutes(eq(op_len(m), lim)):
        # len <= limit (invariant) and len != limit
        ok = True
    R.ob(ok, rule, "a stream may be created beyond the configured number of streams", tr, site)


def channel(P, R, tr, st, sid, rule, site):
    """the new stream's queue is polled under its id"""
    tx = P.get(st, "Stream.sender")
    ps = tr.calls(("push",), "SelectAll")
    ok = len(ps) == 1
    if ok:
        t = ps[0][1][4][1]
        k, rx = P.get(t, "TaggedStream.key"), P.get(t, "TaggedStream.inner")
        ok = tr.same(k, sid) and tx.k == "sym" and rx.k == "sym" and tx.a[0][0] == "tx" and rx.a[0][0] == "rx" and tx.a[0][1:] == rx.a[0][1:]
    R.ob(ok, rule, "the new stream's queue is not polled under its id", tr, site)


def torn(tr):
    """the path leaves the active state"""
    P = tr.P
    st = tr.variants(tr.fin(tr.me(), (P.el("Connection.inner"),)), "ConnectionState")
    return st <= {"Cleanup", "Closed"} or draining(tr)

"""Rules about stream handles: what the poll functions of a stream may do."""
import re
from .view import *
from .prog import opname


def names(shape):
    return tuple(x for x in shape if isinstance(x, str))


def rets(tr, *roles):
    """{names: payload} of the possible results of a returning path"""
    if tr.kind != "return":
        return {}
    out = {}
    for s in tr.shapes(tr.ret, *roles):
        out[names(s)] = None if isinstance(s[-1], str) else s[-1]
    return out


ROLES = {"S.read": ("Poll", "Result"), "S.next": ("Poll", "Option", "Result"), "S.write": ("Poll", "Result"),
         "S.flush": ("Poll", "Result"), "S.close": ("Poll", "Result")}


def stream_traces(P, entries=STREAM_ENTRIES):
    for n in entries:
        for tr in P.run(n):
            yield n, tr


def wchange(tr, field):
    """[(section, before, after)] of sections that change a numeric field"""
    out = []
    for s, a, b in shared_secs(tr):
        if b is None:
            continue
        x, y = getattr(a, field), getattr(b, field)
        if x is not y and not tr.same(x, y):
            out.append((s, a, b))
    return out


# ------------------------------------------------------------------------------------ C08
def c08(P, R):
    from .rules_conn import A1, newstream, constant
    constant(P, R, "C08.config-kept", "config")
    for n in ("C.next", "C.out"):
        for tr in P.run(n):
            st = newstream(tr)
            if st is not None:
                R.ob(tr.same(P.get(st, "Stream.config"), A1(tr, "config")), "C08.own-config", "a new stream splits its writes by another configuration than its connection's", tr, tr.t.site)
    for tr in P.run("C.new"):
        a = P.get(P.get(tr.ret, "Connection.inner"), "ConnectionState.Active.0") if tr.kind == "return" else None
        if a is not None:
            R.ob(tr.same(tr.fin(("A", P.get(a, "Active.config"))), mk("sym", ("arg", 2))), "C08.own-config", "a connection does not use the configuration it was given", tr, tr.t.site)
    R.floor("C08.own-config", 2)
    arg_buf = mk("der", mk("sym", ("arg", 3)))
    for n, tr in stream_traces(P):
        if n == "S.write" and tr.kind == "panic":
            R.ob(False, "C08.no-wrap", "writing can panic: the credit arithmetic is not guarded", tr, tr.t.site)
            continue
        if tr.kind == "panic":
            continue
        cs = cmds(tr)
        data = [c for c in cs if c.kind == "SendFrame" and "Data" in tr.variants(c.frame.tag, "Tag") and not tr.proves(eqz(lenof(c.frame.body)))]
        if n == "S.write":
            data = [c for c in cs]
        ch = wchange(tr, "sw")
        if n != "S.write":
            R.ob(not data, "C08.only-write", "%s queues payload" % n, tr, data[0].site if data else tr.t.site)
            R.ob(not ch, "C08.only-write-takes", "%s changes the send credit" % n, tr, ch[0][0].site if ch else tr.t.site)
            continue
        R.ob(len(data) <= 1, "C08.one-frame", "one write queues %d frames" % len(data), tr, tr.t.site)
        if not data:
            R.ob(not ch, "C08.nothing-taken", "credit is taken although no frame is queued", tr, ch[0][0].site if ch else tr.t.site)
            ok = rets(tr, *ROLES[n])
            R.ob(("Ready", "Ok") not in ok, "C08.ok-means-queued", "a write reports success without queueing a frame", tr, tr.t.site)
            for s, a, b in shared_secs(tr):
                if tr.proves(eqz(a.sw)) and can_write(tr, a.state):
                    R.ob(set(ok) == {("Pending",)}, "C08.waits", "without credit the write does not wait", tr, s.site)
            continue
        for c in data:
            f = c.frame
            good = c.kind == "SendFrame" and tr.is_(f.tag, "Tag", "Data")
            R.ob(good, "C08.is-data", "a write queues something other than a data frame", tr, c.site)
            if not good:
                continue
            k = lenof(f.body)
            pre = f.body is slice_of(arg_buf, ZERO, k)
            if not pre and f.body.k == "op" and f.body.a[0] == "slice":
                pre = f.body.a[1] is arg_buf and tr.proves(eqz(f.body.a[2]))
            R.ob(pre, "C08.prefix", "the payload is %s, not a prefix of the caller's buffer" % short(f.body, 80), tr, c.site)
            R.ob(tr.equal(f.length, k), "C08.length", "the announced length is not the payload's", tr, c.site)
            one = len(ch) == 1
            R.ob(one, "C08.taken-once", "credit is changed in %d critical sections for one frame" % len(ch), tr, c.site)
            if one:
                s, a, b = ch[0]
                R.ob(s.arc() is own_arc(tr), "C08.own-stream", "the credit of another stream is taken", tr, s.site)
                R.ob(tr.equal(add(b.sw, k), a.sw), "C08.taken-exact", "the credit does not shrink by exactly the payload length", tr, s.site)
                R.ob(tr.le(k, a.sw), "C08.within-credit", "the payload may be longer than the remaining credit", tr, s.site)
                R.ob(tr.refutes(eqz(a.sw)), "C08.some-credit", "a frame is queued without any credit left", tr, s.site)
            R.ob(tr.le(k, split_of(P, tr)), "C08.within-split", "the payload may be longer than the configured split size", tr, c.site)
            for sh, pay in rets(tr, *ROLES[n]).items():
                if sh == ("Ready", "Ok"):
                    R.ob(tr.equal(pay, k), "C08.returns-length", "the write returns %s, not the number of bytes it queued" % short(pay, 60), tr, tr.t.site)
    for r in ("prefix", "taken-exact", "within-credit", "within-split", "returns-length", "waits", "nothing-taken"):
        R.floor("C08." + r, 1)


def arc_in(t):
    """value behind an Arc that is only read"""
    return t


def split_of(P, tr):
    """the configured split size as this path reads it"""
    el = P.el("Config.split_send_size")
    cfg = P.get(tr.at(0, tr.me()), "Stream.config")
    return project(arc_content(tr, cfg), el)


def arc_content(tr, a):
    return tr.eng.rootval(_empty(), ("A", a))


class _E(object):
    __slots__ = ("heap", "byc")


def _empty():
    e = _E()
    e.heap, e.byc = {}, {}
    return e


# ------------------------------------------------------------------------------------ C11 / C12
def unread(tr, v):
    """unread bytes buffered in a stream, exactly as the two counters define it"""
    P = tr.P
    front = project(v.seq, FRONT)
    pos = chunk_pos(P, front)
    if tr.proves(eqz(lenof(v.seq))):
        return v.unread
    if tr.refutes(eqz(lenof(v.seq))):
        return sub(v.unread, pos)
    return None


def chunk_parts(P):
    """(steps to the bytes of a chunk, steps to the read position)"""
    r = P.els.get("chunk parts")
    if r is None:
        from .models import CUR_P, CUR_I
        try:
            own = P.adt("Chunk")
        except Missing:
            # the queue holds the cursors themselves
            r = ((CUR_I,), (CUR_P,))
        else:
            fs = P.F.adts[own]["variants"][0]["fields"]
            ty = next(t for t in P.F.types if t["k"] == "adt" and t.get("name") == own)
            cs = [P.F.types[x] for x in ty["ft"][0]]
            by = [x for x, t in enumerate(cs) if re.match(r"std::vec::Vec<u8|std::boxed::Box<\[u8", t["s"])]
            ix = [x for x, t in enumerate(cs) if t["k"] == "int"]
            if any("Cursor<" in t["s"] for t in cs):
                c = P.el("Chunk.cursor")
                r = ((c, CUR_I), (c, CUR_P))
            elif len(by) == 1 and len(ix) == 1:
                r = ((E(own, 0, by[0], fs[by[0]]),), (E(own, 0, ix[0], fs[ix[0]]),))
            else:
                raise Missing("the parts of a chunk")
        P.els["chunk parts"] = r
    return r


def chunk_pos(P, c):
    for e in chunk_parts(P)[1]:
        c = project(c, e)
    return c


def chunk_bytes(P, c):
    for e in chunk_parts(P)[0]:
        c = project(c, e)
    return c


def early_exit(tr):
    """the caller asked not to read after close and the connection is gone"""
    P = tr.P
    cfg = P.get(tr.at(0, tr.me()), "Stream.config")
    rac = project(arc_content(tr, cfg), P.el("Config.read_after_close"))
    if tr.truth(rac) is not False:
        return False
    for i, e in tr.calls(("is_closed",), "mpsc::Sender<"):
        if tr.truth(e[5]) is True:
            return True
    return False


def wu(tr):
    return [c for c in cmds(tr) if c.kind == "SendFrame" and "WindowUpdate" in tr.variants(c.frame.tag, "Tag")]


def inv(tr, a):
    """the invariant assumed of a stream's state when a section begins: window + unread <= maximum <= 2^32-1"""
    u = unread(tr, a)
    hy = [bnot(lt(a.max, a.rw)), bnot(lt(I((1 << 32) - 1), a.max)), bnot(lt(a.max, I(KIB256)))]
    if tr.proves(eqz(lenof(a.seq))):
        hy.append(eqz(a.unread))  # the byte counter is exact (rule unread-exact), so zero when no chunk is left
    if u is not None:
        hy.append(bnot(lt(a.max, add(a.rw, u))))
        hy.append(bnot(lt(u, ZERO)))
    return hy, u


def c11(P, R):
    for n, tr in stream_traces(P):
        if tr.kind == "panic":
            continue
        ws = wu(tr)
        ch = wchange(tr, "rw")
        R.ob(len(ws) <= 1, "C11.once", "one call queues %d window updates" % len(ws), tr, tr.t.site)
        if not ws:
            for s, a, b in ch:
                R.ob(False, "C11.recorded-means-sent", "the recorded receive window changes without a window update being queued", tr, s.site)
            if not ch:
                R.ob(True, "C11.recorded-means-sent")
        else:
            c = ws[0]
            credit = c.frame.length
            inc = ZERO
            for s, a, b in ch:
                inc = add(inc, sub(b.rw, a.rw))
                R.ob(s.arc() is own_arc(tr), "C11.own-stream", "credit is granted for another stream", tr, s.site)
                R.ob(s.i1 is not None and s.i1 < c.i or s.contains(c.i), "C11.record-first", "the window update is queued before the credit is recorded", tr, c.site)
                hy, u = inv(tr, a)
                R.ob(u is not None and tr.le(add(b.rw, u), b.max, hy), "C11.within-max", "the recorded window plus unread data may exceed the stream's maximum", tr, s.site)
                R.ob(tr.le(a.rw, b.rw, hy), "C11.only-grows", "a window update may shrink the recorded window", tr, s.site)
            R.ob(tr.equal(inc, credit), "C11.same-amount", "the announced credit %s is not the amount by which the recorded window grows" % short(credit, 60), tr, c.site)
            R.ob(same_id(tr, c.frame), "C11.own-id", "the window update names another stream", tr, c.site)
            ready = [(i, e, sh) for i, e, sh in queue_ready(tr) if i < c.i]
            used = [x.i for x in cmds(tr) if x.i < c.i]
            ok = bool(ready) and ready[-1][2] == {("Ready", "Ok")} and not [u for u in used if u > ready[-1][0]]
            R.ob(ok, "C11.queue-has-room", "a window update is queued without the queue having reported room", tr, c.site)
            if tr.kind == "return" and c.ok is not True:
                R.ob(bool(tr.shapes(tr.ret, *ROLES[n])) and {names(x)[-1] for x in tr.shapes(tr.ret, *ROLES[n])} == {"Err"}, "C11.failed-grant", "credit is recorded, its frame could not be queued, and the call does not report it", tr, c.site)
            seen = [can_read(tr, a.state) for s, a, b in shared_secs(tr) if s.i0 < c.i]
            R.ob(True in seen, "C11.still-receiving", "a window update is queued although the stream may no longer receive", tr, c.site)
        if n in ("S.read", "S.next") and tr.kind == "return" and not ws:
            why = early_exit(tr)
            for i, e, sh in queue_ready(tr):
                if ("Ready", "Ok") not in sh:
                    why = True
            for s, a, b in shared_secs(tr):
                if can_read(tr, a.state) is False:
                    why = True
                hy, u = inv(tr, a)
                if u is not None:
                    d = sub(a.max, add(a.rw, u))
                    # below half of the maximum
                    if tr.entails(add(sub(scale(d, 2), a.max), ONE), hy):
                        why = True
            R.ob(bool(why), "C11.not-withheld", "a read returns without granting credit although at least half of the maximum is due", tr, tr.t.site)
    # the two counters stay exact: the byte counter grows and shrinks with the chunks
    for n, tr in stream_traces(P, ("S.read", "S.next")):
        for s, a, b in shared_secs(tr):
            if b is None:
                continue
            seq_counter(P, R, tr, s, a, b, "C11.unread-exact")
    for r in ("same-amount", "within-max", "queue-has-room", "still-receiving", "not-withheld", "recorded-means-sent", "unread-exact", "failed-grant"):
        R.floor("C11." + r, 1)


def seq_writes(tr, s):
    """writes to the chunk queue and the byte counter inside one section, in order"""
    P = tr.P
    sq, ln, buf = P.el("Chunks.seq"), P.el("Chunks.len"), P.el("Shared.buffer")
    out = []
    hi = s.i1 if s.i1 is not None else len(tr.ev)
    for i in range(s.i0, hi):
        e = tr.ev[i]
        if e[0] == "w" and e[1] == s.loc[0]:
            if sq in e[2]:
                out.append((i, "seq", e))
            elif ln in e[2]:
                out.append((i, "len", e))
            elif e[2] == s.loc[1] or buf in e[2]:
                # the whole buffer (or all of the stream's state) is replaced
                rest = () if buf in e[2] else (buf,)
                for k, el in (("seq", sq), ("len", ln)):
                    o, n = e[3], e[4]
                    for x in rest + (el,):
                        o, n = project(o, x), project(n, x)
                    if not tr.same(o, n):
                        out.append((i, k, e[:2] + (e[2] + rest + (el,), o, n) + e[5:]))
    return out


def seq_counter(P, R, tr, s, a, b, rule):
    """within a section the byte counter changes exactly with what is pushed or popped"""
    want = ZERO
    got = ZERO
    n = 0
    site = s.site
    for i, k, e in seq_writes(tr, s):
        old, new = e[3], e[4]
        if k == "len":
            got = add(got, sub(new, old))
            site = e[5]
        elif e[2][-1] is P.el("Chunks.seq"):
            n += 1
            site = e[5]
            if new.k == "op" and new.a[0] == "popf" and new.a[1] is old:
                want = sub(want, lenof(chunk_bytes(P, project(old, FRONT))))
            elif new.k == "op" and new.a[0] == "pushb" and new.a[1] is old:
                want = add(want, lenof(chunk_bytes(P, new.a[2])))
    if n or got is not ZERO:
        R.ob(tr.equal(want, got), rule, "the count of buffered bytes does not follow the chunks that are added or removed", tr, site)


def same_id(tr, f):
    return f.sid is tr.P.get(tr.at(0, tr.me()), "Stream.id") or f.id is tr.P.get(tr.at(0, tr.me()), "Stream.id", "StreamId.0")


def c12(P, R):
    for n, tr in stream_traces(P):
        if tr.kind == "panic":
            continue
        ch = wchange(tr, "max")
        accs = [s for s in tr.sections(r"^usize$")]
        changed = [s for s in accs if s.v1 is not None and s.v1 is not s.v0 and not tr.same(s.v0, s.v1)]
        if not ch:
            for s in changed:
                R.ob(False, "C12.total-follows", "the connection-wide total changes although no maximum does", tr, s.site)
            if not changed:
                R.ob(True, "C12.total-follows")
            continue
        R.ob(len(ch) == 1 and len(changed) == 1, "C12.one-step", "a maximum and the total do not change together once (%d and %d changes)" % (len(ch), len(changed)), tr, tr.t.site)
        if len(ch) != 1 or len(changed) != 1:
            continue
        (s, a, b), t = ch[0], changed[0]
        hy, u = inv(tr, a)
        R.ob(t.arc() is a.acc, "C12.own-total", "the growth is added to another connection's total", tr, t.site)
        R.ob(s.i0 < t.i0 and t.i1 is not None and s.i1 is not None and t.i1 < s.i1, "C12.under-lock", "the total is not updated while the stream's state is locked", tr, t.site)
        grow = sub(b.max, a.max)
        R.ob(tr.equal(sub(t.v1, t.v0), grow, hy), "C12.total-exact", "the total does not grow by exactly what the maximum grows", tr, t.site)
        R.ob(tr.le(a.max, b.max, hy), "C12.never-shrinks", "a maximum may shrink", tr, s.site)
        R.ob(tr.le(b.max, scale(a.max, 2), hy), "C12.at-most-double", "a maximum may grow to more than double", tr, s.site)
        rt = [x for x in tr.sections(r"RttInner$|%s$" % P.adt("RttInner").split("::")[-1]) if x.i0 < (s.i1 or 0)]
        some = any(tr.is_(P.get(x.v0, "RttInner.rtt"), "Option", "Some") for x in rt)
        R.ob(some, "C12.needs-rtt", "a maximum grows without a round-trip measurement", tr, s.site)
        cfg = arc_content(tr, a.config)
        lim = project(cfg, P.el("Config.max_connection_receive_window"))
        ns = project(cfg, P.el("Config.max_num_streams"))
        vs = tr.variants(lim, "Option")
        if vs == {"None"}:
            R.ob(True, "C12.unlimited")
        else:
            hy2 = hy + [bnot(lt(sub(project(lim, SOME_E), scale(ns, KIB256)), t.v0))]
            ok = vs == {"Some"} and tr.le(add(t.v1, scale(ns, KIB256)), project(lim, SOME_E), hy2)
            R.ob(ok, "C12.within-budget", "a maximum may grow past the configured limit minus every stream's guaranteed 256 KiB", tr, s.site)
    for tr in P.run("F.drop"):
        secs = tr.sections(r"^usize$")
        if tr.kind == "panic":
            continue
        me = tr.at(0, tr.me())
        acc, mx = P.get(me, "FlowController.accumulated_max_stream_windows"), P.get(me, "FlowController.max_receive_window")
        ok = len(secs) >= 1 and all(s.arc() is acc for s in secs)
        tot = ZERO
        for s in secs:
            if s.v1 is not None:
                tot = add(tot, sub(s.v0, s.v1))
        R.ob(ok and tr.equal(tot, sub(mx, I(KIB256)), [bnot(lt(mx, I(KIB256)))]), "C12.given-back", "a stream that goes away does not give back exactly what its maximum added", tr, tr.t.site)
    for n in CONN_ENTRIES:
        for tr in P.run(n):
            if tr.kind == "panic":
                continue
            bad = [s for s in tr.sections(r"^usize$") if s.v1 is not None and s.v1 is not s.v0]
            R.ob(not bad, "C12.nobody-else", "the connection itself changes the total", tr, bad[0].site if bad else tr.t.site)
            for s, a, b in wchange(tr, "max"):
                R.ob(False, "C12.nobody-else", "a maximum is changed outside the granting of credit", tr, s.site)
    # every stream of a connection shares the connection's budget, configuration and measurement
    from .rules_conn import A1, newstream, new_shared, v_inner, constant
    constant(P, R, "C12.own-kept", "accumulated_max_stream_windows", "config", "rtt")
    for n in ("C.next", "C.out"):
        for tr in P.run(n):
            st = newstream(tr)
            if st is None:
                continue
            sv = new_shared(tr, st)
            for nm, f, a in (("own-total", sv and sv.acc, "accumulated_max_stream_windows"), ("own-limit", sv and sv.config, "config"), ("own-rtt", sv and sv.rtt, "rtt")):
                R.ob(f is not None and tr.same(f, A1(tr, a)), "C12.new-" + nm, "a new stream's flow control does not share the connection's %s" % {"own-total": "window total", "own-limit": "configuration", "own-rtt": "round-trip measurement"}[nm], tr, tr.t.site)
    for tr in P.run("C.new"):
        a = P.get(P.get(tr.ret, "Connection.inner"), "ConnectionState.Active.0") if tr.kind == "return" else None
        if a is not None:
            tot = next(v_inner(tr.fin(("A", P.get(a, "Active.accumulated_max_stream_windows")))))
            R.ob(tr.equal(tot, ZERO), "C12.starts-at-zero", "the connection-wide total does not start at zero", tr, tr.t.site)
    kept_alive(P, R)
    for r in ("total-exact", "at-most-double", "needs-rtt", "within-budget", "given-back", "one-place", "goes-away", "unlimited", "total-follows", "new-own-total", "new-own-limit", "new-own-rtt", "starts-at-zero"):
        R.floor("C12." + r, 1)


def kept_alive(P, R):
    """a stream's state goes away with its handle and its entry in the table: nothing else owns it or leaks it"""
    F = P.F
    shared = P.adt("Shared")
    own = re.compile(r"(Arc|Rc)<.*(^|[^\w:])%s($|[^\w:])" % re.escape(shared))
    homes = {P.el("Stream.shared"), P.el("Active.streams")}
    table = None
    for t in F.types:
        if t["k"] == "adt" and t.get("local") and t["name"] == P.adt("Active") and t.get("ft"):
            table = F.ts(t["ft"][0][P.el("Active.streams").ix])
    for t in F.types:
        if t["k"] != "adt" or not t.get("local"):
            continue
        for v, fs in enumerate(t.get("ft") or ()):
            for i, ft in enumerate(fs):
                x = F.ts(ft)
                if not own.search(x) or any(h.owner == t["name"] and h.ix == i for h in homes):
                    continue
                ok = table is not None and (x == table and t["name"] in (P.adt("Closing"), P.adt("Cleanup")) or re.search(r"(^|[^\w:])%s($|[^\w:])" % re.escape(t["name"]), table))
                R.ob(bool(ok), "C12.one-place", "%s keeps the state of streams besides the table of streams and the handles, so what their windows added may never be given back" % t["name"], None, (t["name"], None))
        R.ob(True, "C12.one-place")
    roles = [P.adt(r) for r in ("Shared", "Stream", "FlowController")]
    ours = re.compile("|".join(r"(^|[^\w:])%s($|[^\w:])" % re.escape(r) for r in roles))
    for f in F.fns.values():
        if not f.local:
            continue
        for b in f.blocks:
            t = b and b["t"]
            c = t[1][2].get("c") if t and t[0] == "call" and t[1][0] == "k" and isinstance(t[1][2], dict) else None
            if c and re.search(r"(^|::)(forget|leak|into_raw|into_raw_with_allocator|increment_strong_count|into_raw_parts)$|ManuallyDrop(::<.*>)?::new$", re.sub(r"(?<=\w)::<.*>$", "", c.get("orig", ""))):
                R.ob(not any(ours.search(F.ts(a)) for a in t[5]), "C12.goes-away", "a stream's state is made to outlive its owners, so what its window added is never given back", None, (f.key, t[-1]))
        R.ob(True, "C12.goes-away")


# ------------------------------------------------------------------------------------ C21
def phi_info(tr):
    """{phi symbol: value on entry to its loop}"""
    out = {}
    for e in tr.ev:
        if e[0] == "loop":
            for p, o in e[4]:
                out[p] = o
    return out


def copies(tr, root, lo=0):
    return [(i, e) for i, e in enumerate(tr.ev) if e[0] == "copy" and e[1] == root and i >= lo]


def copy_parts(tr, root):
    """for every copy into the caller's buffer: (index, destination offset, length, source root, source path, event)"""
    out = []
    for i, e in copies(tr, root):
        p = e[2]
        d0, d1 = ZERO, None
        for x in p:
            if x.kind == "r":
                d0, d1 = add(d0, x.x), sub(x.y, x.x)
            else:
                return None
        k = d1 if d1 is not None else lenof(e[3])
        out.append((i, d0, k, e))
    return out


def c21(P, R):
    buf = ("D", mk("sym", ("arg", 3)))
    seqel, poself = P.el("Chunks.seq"), None
    CUR_P = chunk_parts(P)[1][-1]
    byhead = {}
    for tr in P.run("S.read"):
        if tr.kind == "back":
            byhead.setdefault(tr.t.head, []).append(tr)
    # every copy takes the unread front of the queue and consumes exactly what it copied
    for n, tr in stream_traces(P):
        if tr.kind == "panic":
            continue
        cps = copy_parts(tr, buf) if n == "S.read" else []
        if cps is None:
            R.ob(False, "C21.copy-known", "bytes are copied to the caller's buffer in a way that cannot be followed", tr, tr.t.site)
            continue
        # order the copies and the writes of the chunk queue
        secs = shared_secs(tr)
        pend = None  # (length, front) copied but not yet marked consumed
        consumed = []
        evs = []
        for s, a, b in secs:
            for i, k, e in seq_writes(tr, s):
                if k == "seq":
                    evs.append((i, "w", e, s))
        for c in cps:
            evs.append((c[0], "c", c, None))
        evs.sort(key=lambda x: x[0])
        packet = None
        r = rets(tr, *ROLES[n])
        if n == "S.next" and ("Ready", "Some", "Ok") in r:
            packet = P.get(r[("Ready", "Some", "Ok")], "Packet.0")
        bad = None
        taken = 0
        for i, kind, e, s in evs:
            if kind == "c":
                ev = e[3]
                sec = next((x for x in secs if x[0].contains(i)), None)
                q = None
                if sec is not None:
                    q = project(project(tr.at(i, sec[0].loc[0], sec[0].loc[1]), P.el("Shared.buffer")), seqel)
                if q is None:
                    bad = (ev[5], "bytes are copied out without the stream's lock")
                    break
                front = project(q, FRONT)
                pos, data = chunk_pos(P, front), chunk_bytes(P, front)
                src = ev[3]
                want = slice_of(data, pos, add(pos, e[2]))
                okc = src is want or (src.k == "op" and src.a[0] == "slice" and src.a[1] is data and tr.same(src.a[2], pos) and tr.equal(src.a[3], add(pos, e[2]))) \
                    or (src is data and tr.proves(eqz(pos)) and tr.equal(e[2], lenof(data)))
                R.ob(okc, "C21.copies-front", "the bytes copied to the caller are %s, not the unread start of the first chunk" % short(src, 80), tr, ev[5])
                R.ob(pend is None, "C21.consumed-between", "bytes are copied twice without being consumed in between", tr, ev[5])
                pend = (e[2], q, ev[5])
                continue
            old, new, site = e[3], e[4], e[5]
            if e[2][-1] is seqel:
                if new.k == "op" and new.a[0] == "popf" and new.a[1] is old:
                    front = project(old, FRONT)
                    pos, data = chunk_pos(P, front), chunk_bytes(P, front)
                    rest = sub(lenof(data), pos)
                    if packet is not None and is_rest(tr, packet, data, pos):
                        R.ob(taken == 0, "C21.packet-once", "a packet read removes more than one chunk", tr, site)
                        taken += 1
                    elif pend is not None and old is pend[1] and tr.equal(pend[0], rest):
                        pend = None
                    else:
                        R.ob(tr.proves(eqz(rest)) or tr.equal(rest, ZERO), "C21.no-loss", "a chunk is removed although it may hold unread bytes", tr, site)
                elif tr.same(old, new):
                    pass
                else:
                    R.ob(False, "C21.queue-order", "the queue of received data is changed to %s: neither appended to nor consumed from the front" % short(new, 80), tr, site)
            elif FRONT in e[2] and e[2][-1] is CUR_P:
                q = pend[1] if pend else None
                adv = sub(new, old)
                ok = pend is not None and tr.equal(adv, pend[0])
                R.ob(ok, "C21.consume-exact", "the read position advances by %s, not by the number of bytes handed out" % short(adv, 60), tr, site)
                pend = None
            else:
                R.ob(False, "C21.queue-known", "received data is modified in place (%s)" % short(new, 60), tr, site)
        if bad:
            R.ob(False, "C21.locked", bad[1], tr, bad[0])
            continue
        if pend is not None:
            R.ob(tr.proves(eqz(pend[0])), "C21.consumed", "bytes are handed out but not removed", tr, pend[2])
        if packet is not None:
            R.ob(taken == 1, "C21.packet-removed", "a packet is returned that is not the removed first chunk's unread rest", tr, tr.t.site)
        # results
        total = ZERO
        for c in cps:
            total = add(total, c[2])
        carried = carried_count(P, R, tr, cps, byhead) if n == "S.read" else ZERO
        if n == "S.read":
            if carried is None:
                R.ob(False, "C21.count", "the number of bytes copied in earlier iterations cannot be followed", tr, tr.t.site)
                continue
            total = add(total, carried)
            for sh, pay in r.items():
                if sh == ("Ready", "Ok"):
                    if early_exit(tr):
                        continue
                    R.ob(tr.equal(pay, total), "C21.returns-count", "a read returns %s but copied %s bytes" % (short(pay, 60), short(total, 60)), tr, tr.t.site)
                else:
                    R.ob(tr.equal(total, ZERO), "C21.no-silent-loss", "bytes were copied and consumed but the read does not report them", tr, tr.t.site)
        # end of stream
        for sh, pay in r.items():
            eof = (n == "S.read" and sh == ("Ready", "Ok") and not tr.refutes(eqz(pay))) or (n == "S.next" and sh == ("Ready", "None"))
            if not eof or early_exit(tr):
                continue
            if n == "S.read" and tr.proves(eqz(lenof(mk("der", mk("sym", ("arg", 3)))))):
                continue
            if n == "S.read" and empty_target(tr, buf):
                continue
            last = secs[-1] if secs else None
            ok = last is not None and last[2] is not None and can_read(tr, last[2].state) is False and tr.proves(eqz(lenof(last[2].seq)))
            R.ob(ok, "C21.eof", "end of stream is reported although data may be left or may still come", tr, tr.t.site)
    # the connection side: received payloads are appended, whole and once
    for n in CONN_ENTRIES:
        for tr in P.run(n):
            if tr.kind == "panic":
                continue
            ended = []
            for s, a, b in shared_secs(tr):
                for i, k, e in seq_writes(tr, s):
                    if k != "seq":
                        continue
                    old, new, site = e[3], e[4], e[5]
                    if tr.same(old, new):
                        continue
                    R.ob(not any(x is s.arc() for x in ended), "C21.data-before-end", "received data is appended after the lock was released with the receiving direction already ended: a reader in between sees the end too early", tr, site)
                    ok = e[2][-1] is seqel and new.k == "op" and new.a[0] == "pushb" and new.a[1] is old
                    if ok:
                        ch = new.a[2]
                        ok = is_inbody(P, chunk_bytes(P, ch)) and tr.proves(eqz(chunk_pos(P, ch)))
                    R.ob(ok, "C21.appended", "received data is not appended whole at the end of the stream's queue", tr, site)
                if a is not None and b is not None and a.state is not b.state and can_read(tr, a.state) is not False and can_read(tr, b.state) is False:
                    ended.append(s.arc())
                seq_counter(P, R, tr, s, a, b, "C21.unread-exact")
    for r in ("copies-front", "consume-exact", "no-loss", "packet-removed", "returns-count", "no-silent-loss", "eof", "appended"):
        R.floor("C21." + r, 1)


def empty_target(tr, buf):
    """the caller's buffer has length zero"""
    for t in list(tr.t.facts) + list(tr.t.neq):
        if isinstance(t, tuple):
            continue
        for x in subterms(t):
            if x.k == "op" and x.a[0] == "len" and (mentions(x, mk("sym", ("arg", 3))) or is_phi_of(x.a[1], buf)):
                if tr.equal(x, ZERO):
                    return True
    return False


def is_phi_of(v, root):
    return v.k == "sym" and isinstance(v.a[0], tuple) and v.a[0][0] == "phi" and v.a[0][3] == root


def is_rest(tr, v, data, pos):
    if v is slice_of(data, pos, lenof(data)):
        return True
    if v is data:
        return tr.proves(eqz(pos))
    if v.k == "op" and v.a[0] == "slice" and v.a[1] is data:
        return tr.same(v.a[2], pos) and tr.equal(v.a[3], lenof(data))
    if v.k == "op" and v.a[0] == "splitoff" and v.a[1] is data:
        return tr.same(v.a[2], pos)
    return False


def is_inbody(P, v):
    """v is the payload of the frame just received"""
    f = P.get
    t = v
    while t.k == "fld":
        t = t.a[0]
    return t.k == "sym" and t.a[0][0] == "inframe" and v is P.get(t, "Frame.body")


def carried_count(P, R, tr, cps, byhead):
    """bytes copied in earlier iterations of the loops this path passed through: ZERO, a counter
    proved to count them, or None"""
    loops = [e for e in tr.ev if e[0] == "loop"]
    heads = [(e[1], e[2]) for e in loops]
    copying = [h for h in heads if any(copies(b, ("D", mk("sym", ("arg", 3)))) for b in byhead.get(h, ()))]
    if not copying:
        return ZERO
    if len(copying) > 1:
        return None
    h = copying[0]
    ev = next(e for e in loops if (e[1], e[2]) == h)
    buf = ("D", mk("sym", ("arg", 3)))
    for p, init in ev[4]:
        if not (isint(init) and init.a[0] == 0) or p.a[0][0] != "phi":
            continue
        root, path = p.a[0][3], p.a[0][4]
        good = True
        for b in byhead[h]:
            parts = copy_parts(b, buf)
            if parts is None:
                good = False
                break
            tot = p
            for c in parts:
                if not b.same(c[1], tot):
                    good = False
                    break
                tot = add(tot, c[2])
            if not good:
                break
            if not b.equal(b.fin(root, path), tot):
                good = False
                break
        if not good:
            continue
        tot = p
        for c in cps:
            if not tr.same(c[1], tot):
                return None
            tot = add(tot, c[2])
        return p
    return None


# ------------------------------------------------------------------------------------ C22
def c22(P, R):
    for n, tr in stream_traces(P, ("S.write", "S.close", "S.flush")):
        if tr.kind == "panic":
            R.ob(False, "C22.no-panic", "%s can panic" % n, tr, tr.t.site)
            continue
        if tr.kind != "return":
            continue
        r = rets(tr, *ROLES[n])
        cs = cmds(tr)
        shut = any(can_write(tr, a.state) is False for s, a, b in shared_secs(tr))
        openp = any(can_write(tr, a.state) is True for s, a, b in shared_secs(tr))
        qr = queue_ready(tr)
        for c in cs:
            before = [x for x in qr if x[0] < c.i]
            R.ob(bool(before) and before[-1][2] == {("Ready", "Ok")}, "C22.room-first", "a frame is queued without the queue having reported room", tr, c.site)
            if c.ok is not True:
                R.ob(set(r) == {("Ready", "Err")}, "C22.queue-error", "a frame could not be queued but the call does not fail", tr, c.site)
        for i, e, sh in qr:
            if ("Ready", "Err") in sh:
                R.ob(set(r) == {("Ready", "Err")} and not cs, "C22.connection-gone", "the connection is gone but the call does not fail", tr, e[7])
            if ("Pending",) in sh:
                R.ob(not cs and set(r) == {("Pending",)}, "C22.queue-full", "the queue has no room but the call goes on", tr, e[7])
        if n == "S.write":
            if shut and not [x for x in qr if ("Ready", "Ok") not in x[2]]:
                # the state seen when deciding to queue; a later state change is not the writer's concern
                first = [can_write(tr, a.state) for s, a, b in shared_secs(tr) if not cs or s.i0 < cs[0].i]
                if False in first and not (cs and True in first):
                    R.ob(not cs and set(r) == {("Ready", "Err")}, "C22.write-after-close", "writing to a stream whose sending direction is closed does not fail at once", tr, tr.t.site)
            for c in cs:
                R.ob(openp, "C22.write-needs-open", "a write queues a frame without having seen the sending direction open", tr, c.site)
            if ("Ready", "Ok") in r:
                R.ob(len([c for c in cs if c.ok is True]) == 1, "C22.ok-means-queued", "a write succeeds without a frame having been queued", tr, tr.t.site)
            if ("Pending",) in r:
                R.ob(openp or any(("Pending",) in x[2] for x in qr), "C22.no-endless-wait", "a write waits on a stream that may be closed", tr, tr.t.site)
        elif n == "S.close":
            if ("Ready", "Ok") in r:
                R.ob(shut or len([c for c in cs if c.ok is True]) == 1, "C22.close-ok-means-queued", "closing succeeds although the closing frame was not queued", tr, tr.t.site)
            if ("Pending",) in r:
                R.ob(any(("Pending",) in x[2] for x in qr), "C22.close-pending", "closing waits although the queue had room", tr, tr.t.site)
        else:
            fl = tr.calls(("poll_flush",), "mpsc::Sender<")
            if fl:
                a = {names(s) for s in tr.shapes(fl[-1][1][5], "Poll", "Result")}
                R.ob(a == set(r), "C22.flush-result", "flush does not report what the queue reported", tr, fl[-1][1][7])
            else:
                R.ob(not (("Pending",) in r and not qr), "C22.flush-result", "flush waits for nothing", tr, tr.t.site)
    for r in ("room-first", "queue-error", "connection-gone", "queue-full", "write-after-close", "write-needs-open", "ok-means-queued", "no-endless-wait", "close-ok-means-queued", "close-pending"):
        R.floor("C22." + r, 1)


# ------------------------------------------------------------------------------------ shared by C17, C18, C20, C23
ALLENTRIES = STREAM_ENTRIES + STREAM_QUERIES + CONN_ENTRIES


def acked(tr, s):
    """acknowledged flag of an open state: True / False / None"""
    return tr.truth(tr.P.get(s, "State.Open.acknowledged"))


def state_change(tr, a, b):
    """does the section change the state"""
    return not (a.state is b.state or tr.same(a.state, b.state))


def items(tr):
    """commands the connection takes from the streams: [(i, id, option of command, kind)], kind one of
    SendFrame, CloseStream, Dropped, or a set when undecided"""
    out = []
    for i, e in tr.calls(("poll_next",), "SelectAll"):
        for s in tr.shapes(e[5], "Poll", "Option"):
            if names(s) != ("Ready", "Some"):
                continue
            p = s[-1]
            sid = project(p, E("tuple", 0, 0))
            oc = project(p, E("tuple", 0, 1))
            ks = set()
            for v in tr.variants(oc, "Option"):
                if v == "None":
                    ks.add("Dropped")
                else:
                    ks |= tr.variants(project(oc, SOME_E), "StreamCommand")
            out.append((i, sid, oc, list(ks)[0] if len(ks) == 1 else ks, e[7]))
    return out


def item_cmd(P, oc):
    return project(oc, SOME_E)


def built_frames(tr):
    """frames that the connection puts into a holding place, the closing queue or the socket:
    [(i, frame value, site, where)]"""
    P = tr.P
    out = []
    places = [P.el("Active.pending_read_frame"), P.el("Active.pending_write_frame")]
    pf = P.el("Closing.pending_frames")
    for i, e in enumerate(tr.ev):
        if e[0] == "w" and e[2]:
            if e[2][-1] in places:
                new = e[4]
                if tr.variants(new, "Option") != {"None"}:
                    out.append((i, project(new, SOME_E), e[5], e[2][-1]))
            elif e[2][-1] is pf and e[4].k == "op" and e[4].a[0] in ("pushb", "pushf"):
                out.append((i, e[4].a[2], e[5], pf))
    for i, e in tr.socket(("start_send",)):
        out.append((i, e[4][1], e[7], "socket"))
    out.sort(key=lambda x: x[0])
    return out


def base_sym(v):
    while v.k == "fld" or (v.k == "op" and v.a[0] in ("upd",)):
        v = v.a[0] if v.k == "fld" else v.a[1]
    return v


# ------------------------------------------------------------------------------------ C17
def c17(P, R):
    flel = P.el("Stream.flag")
    want = {"None": 0, "Syn": SYN, "Ack": ACK}
    for n, tr in stream_traces(P):
        if tr.kind not in ("return", "back"):
            continue
        f0 = P.get(tr.at(0, tr.me()), "Stream.flag")
        f1 = tr.fin(tr.me(), (flel,))
        cs = cmds(tr)
        vs = tr.variants(f0, "Flag")
        if not cs:
            R.ob(tr.same(f0, f1) or tr.variants(f1, "Flag") == vs and len(vs) == 1, "C17.kept", "the pending SYN or ACK is dropped although nothing was sent", tr, tr.t.site)
            continue
        for j, c in enumerate(cs):
            b = c.flagbits()
            if b is None:
                R.ob(False, "C17.known", "the flags of a queued frame cannot be determined", tr, c.site)
                continue
            if j == 0:
                R.ob(all(b & 3 == want[v] for v in vs), "C17.first", "the stream still owes %s but its first frame carries flags %d" % ("/".join(sorted(vs)), b), tr, c.site)
            else:
                R.ob(b & 3 == 0, "C17.only-first", "a later frame carries SYN or ACK", tr, c.site)
            if b & ACK and c.kind == "SendFrame" and c.ok is not False:
                rec = False
                for s, a, z in shared_secs(tr):
                    if z is None or s.arc() is not own_arc(tr):
                        continue
                    if "Open" not in tr.variants(a.state, "State") and s.i1 is not None:
                        rec = True
                    elif tr.variants(z.state, "State") == {"Open"} and acked(tr, z.state) is True:
                        rec = True
                    elif s.i1 is not None and "Open" not in tr.variants(z.state, "State"):
                        rec = True
                R.ob(rec, "C17.recorded", "an acknowledgement is sent but the stream is not marked as acknowledged", tr, c.site)
        R.ob(tr.variants(f1, "Flag") == {"None"}, "C17.cleared", "after the first frame the stream would mark another one", tr, cs[-1].site)
    # streams are created owing SYN when outbound and ACK when inbound
    for n, roles, fl in (("C.next", ("Poll", "Option", "Result"), "Ack"), ("C.out", ("Poll", "Result"), "Syn")):
        for tr in P.run(n):
            if tr.kind != "return":
                continue
            for s in tr.shapes(tr.ret, *roles):
                if names(s)[-1] == "Ok":
                    v = tr.variants(P.get(s[-1], "Stream.flag"), "Flag")
                    R.ob(v == {fl}, "C17.created", "a new %s stream owes %s" % ("inbound" if fl == "Ack" else "outbound", "/".join(sorted(v))), tr, tr.t.site)
    close_frames(P, R, "C17.close-ack", ACK)
    for r in ("kept", "first", "recorded", "cleared", "created", "close-ack"):
        R.floor("C17." + r, 1)


def close_frames(P, R, rule, what):
    """a queued close command becomes one data frame on that stream with FIN, plus ACK when asked"""
    for n in ("C.next", "Closing.poll"):
        for tr in P.run(n):
            if tr.kind == "panic":
                continue
            for i, sid, oc, kind, site in items(tr):
                if kind != "CloseStream":
                    continue
                if not_held(P, tr, n, i):
                    continue
                later = [x for x in built_frames(tr) if x[0] > i]
                if not later:
                    R.ob(False, rule, "a stream's close command is not turned into a frame", tr, site)
                    continue
                f = FV(P, later[0][1])
                bits = tr.val(f.flags)
                ack = tr.truth(P.get(item_cmd(P, oc), "StreamCommand.CloseStream.ack"))
                if what == ACK:
                    if bits is None and ack is None:
                        ok = False
                    else:
                        ok = bits is not None and ack is not None and bool(bits & ACK) == ack and not bits & SYN
                    R.ob(ok, rule, "the closing frame carries ACK when it should not, or lacks it", tr, later[0][2])
                else:
                    ok = bits is not None and bits & FIN and not bits & RST and tr.is_(f.tag, "Tag", "Data") and tr.same(f.id, P.get(sid, "StreamId.0"))
                    R.ob(ok, rule, "a stream's close command is not turned into a FIN frame of that stream", tr, later[0][2])


def not_held(P, tr, n, i):
    """the item was taken while cleaning up after a fatal error (Cleanup), where nothing is sent any more"""
    cl = P.adt("Cleanup")
    e = tr.ev[i]
    return e[2] is not None and any(x.kind == "f" and x.owner == cl for x in e[2][1])


# ------------------------------------------------------------------------------------ C18
STATE_NEXT = {
    "Open": {"Open", "SendClosed", "RecvClosed", "Closed"},
    "SendClosed": {"SendClosed", "Closed"},
    "RecvClosed": {"RecvClosed", "Closed"},
    "Closed": {"Closed"},
}


def c18(P, R):
    stel = P.el("Shared.state")
    for n in ALLENTRIES:
        for tr in P.run(n):
            if tr.kind == "panic":
                continue
            covered = set()
            for s, a, b in shared_secs(tr):
                if b is None:
                    continue
                for i in range(s.i0, s.i1 + 1):
                    covered.add(i)
                if a.state is b.state:
                    continue
                va, vb = tr.variants(a.state, "State"), tr.variants(b.state, "State")
                if tr.same(a.state, b.state):
                    R.ob(True, "C18.forward")
                    continue
                ok = all(vb <= STATE_NEXT[x] for x in va)
                R.ob(ok, "C18.forward", "a stream's state goes from %s to %s" % ("/".join(sorted(va)), "/".join(sorted(vb))), tr, s.site)
                if "Open" in va and "Open" in vb:
                    x = P.get(a.state, "State.Open.acknowledged")
                    y = P.get(b.state, "State.Open.acknowledged")
                    R.ob(tr.truth(y) is True or tr.truth(x) is False or tr.same(x, y), "C18.stays-acknowledged", "an acknowledged stream becomes unacknowledged", tr, s.site)
                if n == "S.close" and "RecvClosed" in va:
                    R.ob(va == {"RecvClosed"} and vb == {"Closed"}, "C18.second-half", "closing a stream whose receiving direction is closed does not close it fully", tr, s.site)
                if n in CONN_ENTRIES and "SendClosed" in va:
                    R.ob(va == {"SendClosed"} and vb == {"Closed"}, "C18.second-half", "a FIN for a stream whose sending direction is closed does not close it fully", tr, s.site)
            for i, e in enumerate(tr.ev):
                if e[0] == "w" and stel in e[2] and e[1][0] == "A" and i not in covered and not (e[1][1].k == "sym" and e[1][1].a[0][0] == "newarc"):
                    R.ob(False, "C18.locked", "a stream's state is written outside its lock", tr, e[5])
    # the FIN that closes the second half
    for tr in P.run("S.close"):
        if tr.kind != "return":
            continue
        for c in cmds(tr):
            if c.ok is True:
                last = [(s, a, b) for s, a, b in shared_secs(tr) if b is not None]
                ok = bool(last) and can_write(tr, last[-1][2].state) is False
                R.ob(ok, "C18.second-half", "after its FIN was queued the stream may still be open for writing", tr, c.site)
    for r in ("forward", "second-half", "stays-acknowledged"):
        R.floor("C18." + r, 1)


# ------------------------------------------------------------------------------------ C20
def c20(P, R):
    tagged(P, R, "C20.queue-end")
    for n, tr in stream_traces(P):
        if tr.kind != "return":
            continue
        cs = cmds(tr)
        fins = []
        for c in cs:
            b = c.flagbits()
            if b is None:
                R.ob(False, "C20.known", "the flags of a queued frame cannot be determined", tr, c.site)
            elif b & (FIN | RST):
                fins.append(c)
                R.ob(not b & RST, "C20.no-rst", "a stream handle queues a reset", tr, c.site)
        if n != "S.close":
            R.ob(not fins, "C20.only-close", "%s queues a closing frame" % n, tr, fins[0].site if fins else tr.t.site)
            continue
        r = rets(tr, *ROLES[n])
        R.ob(len(fins) <= 1 and len(cs) == len(fins), "C20.one-fin", "one close queues %d frames, %d of them closing" % (len(cs), len(fins)), tr, tr.t.site)
        changed = [(s, a, b) for s, a, b in shared_secs(tr) if b is not None and state_change(tr, a, b)]
        for c in fins:
            seen = [can_write(tr, a.state) for s, a, b in shared_secs(tr) if s.i0 < c.i]
            R.ob(True in seen and False not in seen, "C20.not-again", "a FIN is queued without having seen the sending direction open", tr, c.site)
            if c.kind == "SendFrame":
                R.ob(tr.is_(c.frame.tag, "Tag", "Data") and same_id(tr, c.frame) and tr.proves(eqz(c.frame.length)), "C20.fin-frame", "the closing frame is not an empty data frame of this stream", tr, c.site)
            if c.ok is True:
                done = False
                for s, a, b in shared_secs(tr):
                    if b is not None and s.arc() is own_arc(tr) and s.i1 > c.i - 1 and can_write(tr, b.state) is False:
                        done = True
                R.ob(done, "C20.state-closed", "the FIN was queued but the sending direction stays open", tr, c.site)
        okfin = [c for c in fins if c.ok is True]
        for s, a, b in changed:
            va, vb = tr.variants(a.state, "State"), tr.variants(b.state, "State")
            R.ob(bool(okfin) or set(r) == {("Ready", "Err")}, "C20.only-with-fin", "the sending direction is closed although no FIN was queued", tr, s.site)
            R.ob((va, vb) in (({"Open"}, {"SendClosed"}), ({"RecvClosed"}, {"Closed"})), "C20.only-sending", "closing moves the stream from %s to %s" % ("/".join(sorted(va)), "/".join(sorted(vb))), tr, s.site)
        if ("Ready", "Ok") in r:
            shut = any(can_write(tr, a.state) is False for s, a, b in shared_secs(tr))
            R.ob(bool(okfin) or shut, "C20.ok-means-closed", "closing reports success although no FIN was queued", tr, tr.t.site)
    close_frames(P, R, "C20.close-frame", FIN)
    # a dropped handle
    for tr in P.run("C.next"):
        if tr.kind not in ("return", "back"):
            continue
        for i, sid, oc, kind, site in items(tr):
            if not_held(P, tr, "C.next", i):
                continue
            if kind != "Dropped":
                if isinstance(kind, set) and "Dropped" in kind:
                    R.ob(False, "C20.drop-known", "a dropped handle is not told apart from a command", tr, site)
                continue
            rem = [e for e in tr.writes(P.el("Active.streams")) if e[0] > i and e[4].k == "op" and e[4].a[0] == "rem"]
            ok = bool(rem) and rem[0][4].a[1] is rem[0][3] and tr.same(rem[0][4].a[2], sid)
            R.ob(ok, "C20.forgotten", "the stream of a dropped handle stays registered", tr, site)
            if not ok:
                continue
            arc = mapget(rem[0][3], sid)
            secs = [(s, a, b) for s, a, b in shared_secs(tr) if s.i0 > i and s.arc() is arc and b is not None]
            R.ob(bool(secs) and tr.variants(secs[-1][2].state, "State") == {"Closed"}, "C20.marked-closed", "the stream of a dropped handle is not marked closed", tr, site)
            if not secs:
                continue
            st = tr.variants(secs[0][1].state, "State")
            sent = [x for x in built_frames(tr) if x[0] > i]
            if "Open" in st or "RecvClosed" in st:
                okst = len(st) == 1
                R.ob(okst, "C20.drop-frame", "the dropped stream's state is not told apart", tr, site)
                if okst:
                    bit = RST if "Open" in st else FIN
                    good = len(sent) == 1
                    if good:
                        f = FV(P, sent[0][1])
                        b = tr.val(f.flags)
                        good = b == bit and tr.is_(f.tag, "Tag", "Data") and tr.same(f.id, P.get(sid, "StreamId.0"))
                    R.ob(good, "C20.drop-frame", "dropping a handle in state %s does not send exactly one %s frame of that stream" % (list(st)[0], "RST" if bit == RST else "FIN"), tr, sent[0][2] if sent else site)
            else:
                R.ob(not sent, "C20.drop-quiet", "dropping a handle of a stream we already closed sends a frame", tr, sent[0][2] if sent else site)
    for r in ("one-fin", "not-again", "state-closed", "only-with-fin", "ok-means-closed", "close-frame", "forgotten", "marked-closed", "drop-frame", "drop-quiet"):
        R.floor("C20." + r, 1)


# ------------------------------------------------------------------------------------ C23
def stored(tr, w0, w1, argn=2):
    """the slot was filled with the task's waker"""
    return tr.variants(w1, "Option") == {"Some"} and is_waker_of(project(w1, SOME_E), argn, tr)


def woken(tr, w0, lo):
    """a waiter held in the slot w0 is woken at or after event lo, or there is none"""
    if tr.variants(w0, "Option") == {"None"}:
        return True
    t = project(w0, SOME_E)
    return any(i >= lo and w is t for i, w, s in tr.wakes())


def c23(P, R):
    for n, tr in stream_traces(P):
        if tr.kind == "panic":
            continue
        mine = {"S.read": "reader", "S.next": "reader", "S.write": "writer"}.get(n)
        for s, a, b in shared_secs(tr):
            if b is None:
                continue
            for slot in ("reader", "writer"):
                w0, w1 = getattr(a, slot), getattr(b, slot)
                if w0 is w1 or tr.same(w0, w1):
                    continue
                R.ob((slot == mine and stored(tr, w0, w1)) or woken(tr, w0, s.i0), "C23.not-lost", "%s replaces or drops the waker of a waiting %s" % (n, slot), tr, s.site)
        if tr.kind != "return":
            continue
        r = rets(tr, *ROLES[n])
        if ("Pending",) not in r:
            continue
        why = False
        if mine == "reader":
            for s, a, b in shared_secs(tr):
                if b is None or s.arc() is not own_arc(tr) or not stored(tr, a.reader, b.reader):
                    continue
                if can_read(tr, b.state) is True and (tr.proves(eqz(lenof(b.seq))) or (n == "S.read" and empty_target(tr, ("D", mk("sym", ("arg", 3)))))):
                    why = True
            R.ob(why, "C23.reader-stored", "a read waits without having stored its waker while it saw an open stream without data", tr, tr.t.site)
        else:
            qr = queue_ready(tr)
            if qr and qr[-1][2] == {("Pending",)}:
                why = True
            for i, e in tr.calls(("poll_flush",), "mpsc::Sender<"):
                if "Pending" in tr.variants(e[5], "Poll"):
                    why = True
            for s, a, b in shared_secs(tr):
                if n == "S.write" and b is not None and s.arc() is own_arc(tr) and stored(tr, a.writer, b.writer) and tr.proves(eqz(b.sw)) and can_write(tr, b.state) is True:
                    why = True
            R.ob(why, "C23.writer-stored", "%s waits without a waker stored where it will be woken" % n, tr, tr.t.site)
    for n in CONN_ENTRIES:
        for tr in P.run(n):
            if tr.kind == "panic":
                continue
            for s, a, b in shared_secs(tr):
                if b is None:
                    continue
                for slot in ("reader", "writer"):
                    w0, w1 = getattr(a, slot), getattr(b, slot)
                    if w0 is w1 or tr.same(w0, w1):
                        continue
                    R.ob(woken(tr, w0, s.i0), "C23.not-lost", "the connection drops the waker of a waiting %s without waking it" % slot, tr, s.site)
                if state_change(tr, a, b):
                    cr0, cr1 = can_read(tr, a.state), can_read(tr, b.state)
                    if cr0 is not False and cr1 is not True:
                        R.ob(woken(tr, a.reader, s.i0), "C23.close-wakes-reader", "the receiving direction ends but the waiting reader is not woken", tr, s.site)
                    cw0, cw1 = can_write(tr, a.state), can_write(tr, b.state)
                    if cw0 is not False and cw1 is not True:
                        R.ob(woken(tr, a.writer, s.i0), "C23.close-wakes-writer", "the sending direction ends but the waiting writer is not woken", tr, s.site)
                if a.sw is not b.sw and not tr.same(a.sw, b.sw):
                    R.ob(woken(tr, a.writer, s.i0), "C23.credit-wakes-writer", "credit arrives but the waiting writer is not woken", tr, s.site)
                if [1 for i, k, e in seq_writes(tr, s) if k == "seq" and not tr.same(e[3], e[4])]:
                    R.ob(woken(tr, a.reader, s.i0), "C23.data-wakes-reader", "data arrives but the waiting reader is not woken", tr, s.site)
    for r in ("reader-stored", "writer-stored", "close-wakes-reader", "close-wakes-writer", "credit-wakes-writer", "data-wakes-reader", "not-lost"):
        R.floor("C23." + r, 1)


def tagged(P, R, rule):
    """a stream's queue, polled through its tag: every command once, under its id, then the end once"""
    inner, key = P.el("TaggedStream.inner"), P.el("TaggedStream.key")
    flag = P.el("TaggedStream.reported_none")
    def paths():
        for tr in P.run("TS.next"):
            polls = [e for e in tr.ev if e[0] == "call" and opname(e) == "poll_next"]
            for t in tr.cases(polls[0][5], "Poll", "Option") if len(polls) == 1 else [tr]:
                yield t

    for tr in paths():
        me = tr.me()
        if tr.kind != "return":
            R.ob(tr.kind == "panic", rule, "polling a stream's queue loops", tr, tr.t.site)
            continue
        polls = [(i, e) for i, e in enumerate(tr.ev) if e[0] == "call" and opname(e) == "poll_next"]
        f0, f1 = tr.truth(tr.at(0, me, (flag,))), tr.truth(tr.fin(me, (flag,)))
        out = {names(s) for s in tr.shapes(tr.ret, "Poll", "Option")}
        if f0 is True:
            R.ob(not polls and out == {("Ready", "None")} and f1 is True, rule, "a stream's queue is used after its end was reported", tr, tr.t.site)
            continue
        R.ob(f0 is False and len(polls) == 1 and polls[0][1][2] is not None and polls[0][1][2][1][-1:] == (inner,), rule, "a stream's queue is not polled once per poll", tr, tr.t.site)
        if len(polls) != 1:
            continue
        e = polls[0][1]
        src = {names(s): s[-1] for s in tr.shapes(e[5], "Poll", "Option")}
        if set(src) == {("Pending",)}:
            R.ob(out == {("Pending",)} and f1 is False, rule, "an idle queue is not reported as pending", tr, e[7])
        elif len(src) == 1:
            ok = out == {("Ready", "Some")}
            pay = tr.shapes(tr.ret, "Poll", "Option")[0][-1] if ok else None
            ok = ok and pay.k == "agg" and len(pay.a[2]) == 2 and tr.same(pay.a[2][0], tr.at(0, me, (key,)))
            if ok and ("Ready", "Some") in src:
                o = pay.a[2][1]
                ok = tr.variants(o, "Option") == {"Some"} and tr.same(project(o, SOME_E), src[("Ready", "Some")]) and f1 is False
                R.ob(ok, rule, "a command is lost, changed or attributed to another stream on the way out of its queue", tr, e[7])
            else:
                ok = ok and tr.variants(pay.a[2][1], "Option") == {"None"} and f1 is True
                R.ob(ok, rule, "the end of a stream's queue is not reported once", tr, e[7])
        else:
            R.ob(False, rule, "a stream's queue is polled without looking at the result", tr, e[7])
        R.ob(tr.same(tr.at(0, me, (key,)), tr.fin(me, (key,))), rule, "a queue's tag changes", tr, tr.t.site)
    R.floor(rule, 4)

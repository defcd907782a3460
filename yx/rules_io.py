"""C01-C05: the frame codec, the frame reader and the frame writer."""
from .term import *
from . import term as TM
from .prog import *

MIB = 1 << 20
HS = 12


def frame_view(P, f):
    g = P.get
    h = g(f, "Frame.header")
    return {
        "header": h, "version": g(h, "Header.version", "Version.0"), "tag": g(h, "Header.tag"),
        "flags": g(h, "Header.flags", "Flags.0"), "id": g(h, "Header.stream_id", "StreamId.0"),
        "length": g(h, "Header.length", "Len.0"), "body": g(f, "Frame.body"),
    }


def header_view(P, h):
    g = P.get
    return {"version": g(h, "Header.version", "Version.0"), "tag": g(h, "Header.tag"), "flags": g(h, "Header.flags", "Flags.0"),
            "id": g(h, "Header.stream_id", "StreamId.0"), "length": g(h, "Header.length", "Len.0")}


def variants_of(tr, v, role):
    return tr.variants(v, role)


def decoded_from(tr, h, buf):
    """header term h is the decoding of the 12 bytes buf on this path; returns list of complaints"""
    P = tr.P
    v = header_view(P, h)
    b = lambda i: project(buf, EI(I(i)))
    bad = []
    if not tr.same(v["version"], b(0)):
        bad.append("version is not byte 0")
    if tr.val(b(0)) != 0:
        bad.append("a version other than 0 is accepted")
    ty = tr.val(b(1))
    tg = tr.variants(v["tag"], "Tag")
    if ty is None:
        # the tag may be computed from the byte without a branch per value: not recognised
        bad.append("the frame type is not determined by byte 1")
    else:
        want = [n for n in ("Data", "WindowUpdate", "Ping", "GoAway") if P.vdiscr("Tag", n) == ty]
        if len(want) != 1 or tg != set(want):
            bad.append("type byte %s is decoded as %s" % (ty, sorted(tg)))
        spec = {"Data": 0, "WindowUpdate": 1, "Ping": 2, "GoAway": 3}
        if len(tg) == 1 and spec.get(list(tg)[0]) != ty:
            bad.append("type byte %s is decoded as %s, against the yamux numbering" % (ty, list(tg)[0]))
    for f, lo, n in (("flags", 2, 2), ("id", 4, 4), ("length", 8, 4)):
        want = op("be", *[b(i) for i in range(lo, lo + n)])
        if v[f] is not want:
            bad.append("%s is not the big-endian value of bytes %d..%d" % (f, lo, lo + n))
    return bad


def io_states(tr, field):
    """successive values of Io.<field> on the path: [(event index, value)]"""
    P = tr.P
    el = P.el("Io." + field)
    me = tr.me()
    out = []
    last = None
    idx = [0] + [i + 1 for i, e in enumerate(tr.ev) if (e[0] in ("w", "h") and e[1] == me and (not e[2] or e[2][0] is el)) or e[0] == "cut"]
    for i in idx:
        v = tr.at(i, me, (el,))
        if v is not last:
            out.append((i, v))
            last = v
    return out


def c01(P, R):
    # encoder
    for tr in P.run("Io.send"):
        if tr.kind != "return":
            R.ob(False, "C01.encode-total", "accepting a frame can panic", tr, tr.t.site)
            continue
        for s in tr.outcome("Result"):
            if s != ("Ok",):
                continue
            W = tr.at(None, tr.me(), (P.el("Io.write_state"),))
            vs = tr.variants(W, "WriteState")
            R.ob(vs == {"Header"}, "C01.encode-stored", "after accepting a frame the writer holds %s instead of an encoded header" % sorted(vs), tr, tr.t.site)
            if vs != {"Header"}:
                continue
            hd = P.get(W, "WriteState.Header.header")
            f = mk("sym", ("arg", 2))
            v = frame_view(P, f)
            n = lenof(hd)
            R.ob(isint(n) and n.a[0] == HS, "C01.encode-size", "the encoded header has %r bytes instead of 12" % (n,), tr, tr.t.site)
            want = [("version", v["version"]), ("type", tr.eng.discr(v["tag"]))]
            want += [("flags byte %d" % i, op("byte", v["flags"], I(i), I(2))) for i in range(2)]
            want += [("stream id byte %d" % i, op("byte", v["id"], I(i), I(4))) for i in range(4)]
            want += [("length byte %d" % i, op("byte", v["length"], I(i), I(4))) for i in range(4)]
            for i, (nm, w) in enumerate(want):
                got = project(hd, EI(I(i)))
                R.ob(same_byte(tr, got, w), "C01.encode-byte", "header byte %d is %s, not the %s" % (i, short(got, 60), nm), tr, tr.t.site)
    # the type numbers used by the encoder
    for nm, d in (("Data", 0), ("WindowUpdate", 1), ("Ping", 2), ("GoAway", 3)):
        R.ob(P.vdiscr("Tag", nm) == d, "C01.type-number", "type %s is numbered %s instead of %d" % (nm, P.vdiscr("Tag", nm), d))
    # decoder
    seen = set()
    for tr in P.run("Io.next"):
        if tr.kind == "panic":
            continue
        states = io_states(tr, "read_state")
        # every header that is stored for a body or returned
        hs = []
        for i, X in states:
            if tr.variants(X, "ReadState") == {"Body"} and X.k == "agg":
                hs.append(P.get(X, "ReadState.Body.header"))
        for s, pay in (tr.outcome("Poll", "Option", "Result").items() if tr.kind == "return" else ()):
            if s == ("Ready", "Some", "Ok"):
                hs.append(P.get(pay, "Frame.header"))
            if s == ("Ready", "Some", "Err") and "Header" in tr.variants(pay, "FrameDecodeError"):
                e = P.get(pay, "FrameDecodeError.Header.0")
                buf = header_buffer(tr, states)
                vs = tr.variants(e, "HeaderDecodeError")
                ok = False
                if buf is not None and vs == {"Version"}:
                    b0 = project(buf, EI(I(0)))
                    ok = tr.same(project(e, P.el("HeaderDecodeError.Version.0")), b0) and tr.refutes(eqz(b0))
                elif buf is not None and vs == {"Type"}:
                    b1 = project(buf, EI(I(1)))
                    ok = tr.same(project(e, P.el("HeaderDecodeError.Type.0")), b1) and all(tr.refutes(eq(b1, I(k))) for k in range(4))
                R.ob(ok, "C01.decode-error", "a header error (%s) does not name the offending byte, or is reported for a valid header" % "/".join(sorted(vs)), tr, tr.t.site)
        for h in hs:
            if any(h is P.get(X, "ReadState.Body.header") for _, X in states if X.k != "agg" or tr.variants(X, "ReadState") != {"Body"}):
                continue  # carried over unchanged from an earlier call
            buf = header_buffer(tr, states)
            if buf is None:
                R.ob(False, "C01.decode", "a header is produced without a received header buffer", tr, tr.t.site)
                continue
            bad = decoded_from(tr, h, buf)
            R.ob(not bad, "C01.decode", "; ".join(bad), tr, tr.t.site)
            seen |= tr.variants(P.get(h, "Header.tag"), "Tag")
    for nm in ("Data", "WindowUpdate", "Ping", "GoAway"):
        R.ob(nm in seen, "C01.decode-kinds", "frames of type %s are never decoded" % nm)
    R.floor("C01.encode-byte", 12)
    R.floor("C01.decode", 4)
    R.floor("C01.decode-error", 2)


def same_byte(tr, a, b):
    if tr.same(a, b):
        return True
    return False


def header_buffer(tr, states):
    """the header bytes the path has completed (last state holding a header buffer)"""
    r = None
    for i, X in states:
        if "Header" in tr.variants(X, "ReadState"):
            r = tr.P.get(X, "ReadState.Header.buffer")
    return r


def read_state_ok(tr, X, what, R, site, rule):
    """obligations on a newly stored read state"""


def reached(tr, a, b):
    return tr.proves(eq(a, b)) or tr.proves(bnot(lt(a, b)))


def c03(P, R):
    me_el = P.el("Io.read_state")
    for tr in P.run("Io.next"):
        me = tr.me()
        if tr.kind == "panic":
            continue
        states = io_states(tr, "read_state")
        reads = tr.calls(("poll_read", "poll_read_vectored"), None)
        sites = tr.t.site
        end = tr.at(None, me, (me_el,))
        ret = tr.outcome("Poll", "Option", "Result") if tr.kind == "return" else {}
        # --- reads are made at the current offset, and their outcome is honoured
        for n, (i, e) in enumerate(reads):
            X = tr.at(i, me, (me_el,))
            vs = tr.variants(X, "ReadState")
            arg = e[4][2] if len(e[4]) > 2 else None
            ok = False
            if vs == {"Header"} and arg is not None:
                buf, off = P.get(X, "ReadState.Header.buffer"), P.get(X, "ReadState.Header.offset")
                ok = arg is slice_of(buf, off, I(HS)) or arg is slice_of(buf, off, lenof(buf))
                total = I(HS)
                dst, dlen = buf, I(HS)
            elif vs == {"Body"} and arg is not None:
                buf, off = P.get(X, "ReadState.Body.buffer"), P.get(X, "ReadState.Body.offset")
                bl = P.get(X, "ReadState.Body.header", "Header.length", "Len.0")
                ok = arg is slice_of(buf, off, bl) or arg is slice_of(buf, off, lenof(buf))
                total = bl
            R.ob(ok, "C03.read-at-offset", "the transport is asked to fill %s while the reader is in state %s: not the missing rest of the current header or body" % (short(arg, 80), "/".join(sorted(vs))), tr, e[7])
            if not ok:
                continue
            hi = reads[n + 1][0] if n + 1 < len(reads) else None
            r = e[5]
            for s in tr.shapes(r, "Poll", "Result"):
                names = tuple(x for x in s if isinstance(x, str))
                if names == ("Pending",):
                    good = hi is None and set(ret) == {("Pending",)}
                    R.ob(good, "C03.pending", "the transport has no data but the reader does not report pending", tr, e[7])
                elif names == ("Ready", "Err"):
                    ok2 = hi is None and set(ret) == {("Ready", "Some", "Err")} and mentions(list(ret.values())[0], s[-1])
                    R.ob(ok2, "C03.read-error", "a transport read error is not reported as that error", tr, e[7])
                else:
                    nbytes = s[-1]
                    z = tr.truth(eqz(nbytes))
                    if z is True:
                        if vs == {"Header"} and tr.proves(eqz(off)):
                            R.ob(hi is None and set(ret) == {("Ready", "None")}, "C03.clean-eof", "end of input between frames does not end the sequence", tr, e[7])
                        else:
                            good = hi is None and set(ret) == {("Ready", "Some", "Err")}
                            if good:
                                p = list(ret.values())[0]
                                good = tr.variants(p, "FrameDecodeError") == {"Io"} and P.get(p, "FrameDecodeError.Io.0") is op("ioerr", mk("str", "UnexpectedEof"))
                                good = good and (vs == {"Body"} or tr.refutes(eqz(off)))
                            R.ob(good, "C03.torn-eof", "end of input %s is not reported as an unexpected-EOF error" % ("inside a payload" if vs == {"Body"} else "inside a header"), tr, e[7])
                    elif z is None:
                        R.ob(False, "C03.eof-checked", "a read of zero bytes is treated like data", tr, e[7])
                    else:
                        # bytes arrived: the next state value must have advanced by exactly n
                        Y = None
                        for j, V in states:
                            if j > i and (hi is None or j <= hi):
                                Y = V
                                if V is not X:
                                    break
                        if Y is None:
                            Y = end
                        role = "Header" if vs == {"Header"} else "Body"
                        oky = tr.variants(Y, "ReadState") == {role} and P.get(Y, "ReadState.%s.offset" % role) is add(off, nbytes)
                        if not oky:
                            oky = any(j > i and tr.variants(V, "ReadState") == {role} and P.get(V, "ReadState.%s.offset" % role) is add(off, nbytes) for j, V in states)
                        R.ob(oky, "C03.advance", "after reading n bytes of a %s the offset does not grow by n" % role.lower(), tr, e[7])
                        if role == "Body" and tr.variants(Y, "ReadState") == {"Body"}:
                            R.ob(P.get(Y, "ReadState.Body.header") is P.get(X, "ReadState.Body.header"), "C03.header-kept", "the header changes while its payload is read", tr, e[7])
        # --- new states
        for k, (i, Y) in enumerate(states):
            if k == 0 or Y.k != "agg":
                continue
            vs = tr.variants(Y, "ReadState")
            X = states[k - 1][1]
            was = tr.variants(X, "ReadState")
            if X is not Y and len(was) == 1 and was <= {"Header", "Body"}:
                role, = was
                full = I(HS) if role == "Header" else P.get(X, "ReadState.Body.header", "Header.length", "Len.0")
                off = P.get(X, "ReadState.%s.offset" % role)
                if reached(tr, off, full) or role == "Body" and reached(tr, off, lenof(P.get(X, "ReadState.Body.buffer"))):
                    if not (role == "Header" and vs == {"Body"}):
                        good = tr.kind == "return" and bool(ret) and all(s[:2] == ("Ready", "Some") for s in ret) and not any(j > i for j, _ in reads)
                        R.ob(good, "C03.nothing-skipped", "a complete %s is left behind without handing out a frame or an error" % role.lower(), tr, sites)
            if vs == {"Header"}:
                R.ob(P.get(Y, "ReadState.Header.offset") is ZERO, "C03.fresh-header", "a new header does not start at offset 0", tr, sites)
            elif vs == {"Body"}:
                X = states[k - 1][1]
                h = P.get(Y, "ReadState.Body.header")
                hl = P.get(h, "Header.length", "Len.0")
                good = tr.variants(X, "ReadState") == {"Header"} and reached(tr, P.get(X, "ReadState.Header.offset"), I(HS))
                R.ob(good, "C03.header-complete", "a payload is started before the whole header was read", tr, sites)
                R.ob(P.get(Y, "ReadState.Body.offset") is ZERO, "C03.fresh-body", "a new payload does not start at offset 0", tr, sites)
                R.ob(tr.same(lenof(P.get(Y, "ReadState.Body.buffer")), hl), "C03.body-size", "the payload buffer is not as long as the header announces", tr, sites)
                R.ob(tr.is_(P.get(h, "Header.tag"), "Tag", "Data"), "C03.body-only-data", "a payload is read for a frame that is not a data frame", tr, sites)
        # --- results
        for s, pay in ret.items():
            if s == ("Pending",):
                last = reads[-1][1] if reads else None
                R.ob(last is not None and tr.is_(last[5], "Poll", "Pending"), "C03.pending-only-transport", "the reader reports pending although the transport did not", tr, sites)
            elif s == ("Ready", "None"):
                last = reads[-1] if reads else None
                good = False
                if last:
                    X = tr.at(last[0], me, (me_el,))
                    n = project(project(last[1][5], READY_E), OK_E)
                    good = tr.is_(last[1][5], "Poll", "Ready") and tr.is_(project(last[1][5], READY_E), "Result", "Ok") and tr.proves(eqz(n)) \
                        and tr.is_(X, "ReadState", "Header") and tr.proves(eqz(P.get(X, "ReadState.Header.offset")))
                R.ob(good, "C03.end-only-clean", "the frame sequence ends without a clean end of input between two frames", tr, sites)
            elif s == ("Ready", "Some", "Ok"):
                v = frame_view(P, pay)
                good = False
                why = "no completed header or payload on this path"
                for k, (i, X) in enumerate(states):
                    if reads and i < reads[-1][0]:
                        continue
                    if tr.variants(X, "ReadState") == {"Header"}:
                        if not reached(tr, P.get(X, "ReadState.Header.offset"), I(HS)):
                            why = "the header is incomplete"
                            continue
                        tags = tr.variants(v["tag"], "Tag")
                        if "Data" in tags:
                            # only an empty payload may be handed out without reading it
                            if not (tr.proves(eqz(v["length"])) and tr.proves(eqz(lenof(v["body"])))):
                                why = "a data frame is handed out without its payload"
                                continue
                        elif not tr.proves(eqz(lenof(v["body"]))):
                            why = "a frame without payload is handed out with one"
                            continue
                        if decoded_from(tr, v["header"], P.get(X, "ReadState.Header.buffer")):
                            why = "the header is not decoded from the received bytes"
                            continue
                        good = True
                    elif tr.variants(X, "ReadState") == {"Body"}:
                        off = P.get(X, "ReadState.Body.offset")
                        bl = P.get(X, "ReadState.Body.header", "Header.length", "Len.0")
                        full = reached(tr, off, bl) or reached(tr, off, lenof(P.get(X, "ReadState.Body.buffer")))
                        if full and v["header"] is P.get(X, "ReadState.Body.header") and v["body"] is P.get(X, "ReadState.Body.buffer"):
                            good = True
                        else:
                            why = "the payload is incomplete or is not the one that was read"
                R.ob(good, "C03.complete-frame", "a frame is handed out although " + why, tr, sites)
                ve = tr.variants(end, "ReadState")
                okr = ve == {"Init"} or (ve == {"Header"} and P.get(end, "ReadState.Header.offset") is ZERO)
                R.ob(okr, "C03.reset", "after a complete frame the reader does not start afresh", tr, sites)
            elif s == ("Ready", "Some", "Err"):
                # every error has a reason: transport error, torn input, undecodable header, oversized frame
                vs = tr.variants(pay, "FrameDecodeError")
                good = bool(vs <= {"Header", "FrameTooLarge"}) or bool(reads)
                R.ob(good, "C03.error-reason", "an error is reported without a cause on this path", tr, sites)
    for r, n in (("C03.read-at-offset", 2), ("C03.pending", 2), ("C03.read-error", 2), ("C03.clean-eof", 1), ("C03.torn-eof", 2),
                 ("C03.advance", 2), ("C03.complete-frame", 4), ("C03.header-complete", 1), ("C03.body-size", 1), ("C03.nothing-skipped", 3)):
        R.floor(r, n)


def c04(P, R):
    for tr in P.run("Io.next"):
        for e in tr.ev:
            if e[0] == "alloc":
                R.ob(tr.proves(lt(e[1], I(MIB + 1))), "C04.bounded-allocation", "a buffer of size %s is allocated without being bounded by 1 MiB first" % short(e[1], 80), tr, e[2])
        if tr.kind == "panic":
            continue
        states = io_states(tr, "read_state")
        ret = tr.outcome("Poll", "Option", "Result") if tr.kind == "return" else {}
        too = [p for s, p in ret.items() if s == ("Ready", "Some", "Err") and "FrameTooLarge" in tr.variants(p, "FrameDecodeError")]
        # a completed data header is known to be within the limit, or rejected as too large
        buf = header_buffer(tr, states)
        for k, (i, X) in enumerate(states):
            if tr.variants(X, "ReadState") == {"Body"} and X.k == "agg":
                n = P.get(X, "ReadState.Body.header", "Header.length", "Len.0")
                R.ob(tr.proves(lt(n, I(MIB + 1))), "C04.accepted-size", "a data frame is accepted although its announced length was not found to be at most 1 MiB", tr, tr.t.site)
        for p in too:
            n = project(p, P.el("FrameDecodeError.FrameTooLarge.0"))
            isdata = buf is not None and tr.val(project(buf, EI(I(1)))) == 0
            ln = op("be", *[project(buf, EI(I(j))) for j in range(8, 12)]) if buf is not None else None
            R.ob(isdata and tr.same(n, ln) and tr.proves(lt(I(MIB), ln)), "C04.too-large", "frame-too-large is reported for a frame that is not a data frame of more than 1 MiB, or with another size", tr, tr.t.site)
    R.floor("C04.bounded-allocation", 1)
    R.floor("C04.accepted-size", 1)
    R.floor("C04.too-large", 1)


def c05(P, R):
    me_el = P.el("Io.write_state")
    g = P.get
    for tr in P.run("Io.ready"):
        me = tr.me()
        if tr.kind == "panic":
            continue
        writes = tr.calls(("poll_write", "poll_write_vectored"))
        ret = tr.outcome("Poll", "Result") if tr.kind == "return" else {}
        start = tr.at(first_state_index(tr), me, (me_el,))
        end = tr.at(None, me, (me_el,))
        bounds = [i for i, _ in writes]
        segs = []
        if not writes:
            segs.append((start, None, end, None))
        else:
            for k, (i, e) in enumerate(writes):
                X = tr.at(i, me, (me_el,))
                if k == 0 and X is not start:
                    segs.append((start, None, X, None))
                Y = tr.at(bounds[k + 1] if k + 1 < len(bounds) else None, me, (me_el,))
                segs.append((X, e, Y, k + 1 == len(bounds)))
        for X, e, Y, last in segs:
            vx = tr.variants(X, "WriteState")
            vy = tr.variants(Y, "WriteState")
            site = e[7] if e else tr.t.site
            n = ZERO
            if e is not None:
                arg = e[4][2] if len(e[4]) > 2 else None
                ok = False
                for role, fld_ in (("Header", "header"), ("Body", "buffer")):
                    if vx == {role}:
                        data, off = g(X, "WriteState.%s.%s" % (role, fld_)), g(X, "WriteState.%s.offset" % role)
                        ok = arg is slice_of(data, off, lenof(data)) or (role == "Header" and arg is slice_of(data, off, I(HS)))
                R.ob(ok, "C05.offer-rest", "the transport is offered %s while the writer is in state %s: not the unwritten rest of the current frame" % (short(arg, 80), "/".join(sorted(vx))), tr, site)
                if not ok:
                    continue
                done = False
                for s in tr.shapes(e[5], "Poll", "Result"):
                    names = tuple(x for x in s if isinstance(x, str))
                    if names == ("Pending",):
                        R.ob(last and set(ret) == {("Pending",)} and same_ws(tr, X, Y), "C05.pending", "the transport accepts nothing now but the writer does not report pending with its state unchanged", tr, site)
                        done = True
                    elif names == ("Ready", "Err"):
                        R.ob(last and set(ret) == {("Ready", "Err")} and mentions(list(ret.values())[0], s[-1]), "C05.write-error", "a transport write error is not returned", tr, site)
                        R.ob(same_ws(tr, X, Y) or vy == {"Poisoned"}, "C05.error-keeps-place", "after a transport write error the writer's position has changed", tr, site)
                        done = True
                    else:
                        n = s[-1]
                        z = tr.truth(eqz(n))
                        if z is True:
                            R.ob(last and set(ret) == {("Ready", "Err")} and list(ret.values())[0] is op("ioerr", mk("str", "WriteZero")), "C05.write-zero", "a write of zero bytes is not reported as an error", tr, site)
                            R.ob(same_ws(tr, X, Y) or vy == {"Poisoned"}, "C05.error-keeps-place", "after a zero-length write the writer's position has changed", tr, site)
                            done = True
                        elif z is None:
                            R.ob(False, "C05.zero-checked", "a write of zero bytes is treated like progress", tr, site)
                if done:
                    continue
            # transition X --n--> Y
            if vx == {"Header"}:
                off = add(g(X, "WriteState.Header.offset"), n)
                data, body = g(X, "WriteState.Header.header"), g(X, "WriteState.Header.buffer")
                total = lenof(data)
            elif vx == {"Body"}:
                off = add(g(X, "WriteState.Body.offset"), n)
                data, body = g(X, "WriteState.Body.buffer"), None
                total = lenof(data)
            elif vx == {"Init"}:
                R.ob(vy == {"Init"}, "C05.idle", "an idle writer starts writing by itself", tr, site)
                continue
            elif vx == {"Poisoned"}:
                R.ob(vy == {"Poisoned"} and set(ret) == {("Ready", "Err")}, "C05.poisoned-final", "a writer that failed for good does not keep failing", tr, site)
                continue
            else:
                R.ob(False, "C05.state-known", "the writer acts without looking at its state (%s)" % "/".join(sorted(vx)), tr, site)
                continue
            if vy == {"Poisoned"}:
                R.ob(set(ret) == {("Ready", "Err")} and tr.proves(lt(total, off)), "C05.poison", "the writer gives up although the transport accepted no more than was offered", tr, site)
                continue
            # here the accepted count must be plausible
            R.ob(tr.refutes(lt(total, off)), "C05.over-accept", "a transport that claims to accept more than was offered is believed", tr, site)
            if vy == vx:
                if vx == {"Header"}:
                    ok = g(Y, "WriteState.Header.offset") is off and g(Y, "WriteState.Header.header") is data and g(Y, "WriteState.Header.buffer") is body
                else:
                    ok = g(Y, "WriteState.Body.offset") is off and g(Y, "WriteState.Body.buffer") is data
                R.ob(ok, "C05.advance", "after n accepted bytes the writer's position does not grow by n, or the data changes", tr, site)
            elif vy == {"Body"}:
                ok = vx == {"Header"} and tr.proves(eq(off, total)) and g(Y, "WriteState.Body.buffer") is body and g(Y, "WriteState.Body.offset") is ZERO
                R.ob(ok, "C05.header-then-body", "the payload is started before the whole header was accepted, or is not the frame's payload from its start", tr, site)
            elif vy == {"Init"}:
                ok = tr.proves(eq(off, total))
                if vx == {"Header"}:
                    ok = ok and tr.proves(eqz(lenof(body)))
                R.ob(ok, "C05.done-only-complete", "the writer accepts the next frame before every byte of the previous one was accepted", tr, site)
            else:
                R.ob(False, "C05.state-known", "the writer's next state is unclear (%s)" % "/".join(sorted(vy)), tr, site)
        for s, pay in ret.items():
            if s == ("Ready", "Ok"):
                R.ob(tr.is_(end, "WriteState", "Init"), "C05.ready-means-idle", "readiness is reported while a frame is unfinished", tr, tr.t.site)
            elif s == ("Pending",):
                R.ob(bool(writes) and tr.is_(writes[-1][1][5], "Poll", "Pending"), "C05.pending-only-transport", "the writer reports pending although the transport did not", tr, tr.t.site)
            elif s == ("Ready", "Err"):
                R.ob(bool(writes) or tr.is_(start, "WriteState", "Poisoned"), "C05.error-reason", "an error is reported without a cause", tr, tr.t.site)
    for tr in P.run("Io.send"):
        if tr.kind != "return":
            continue
        f = mk("sym", ("arg", 2))
        for s in tr.outcome("Result"):
            if s == ("Ok",):
                W = tr.at(None, tr.me(), (me_el,))
                ok = tr.is_(W, "WriteState", "Header") and g(W, "WriteState.Header.offset") is ZERO and g(W, "WriteState.Header.buffer") is g(f, "Frame.body")
                R.ob(ok, "C05.accept-whole", "an accepted frame is not taken over whole, from its first byte", tr, tr.t.site)
    for name, call in (("Io.flush", "poll_flush"), ("Io.close", "poll_close")):
        for tr in P.run(name):
            if tr.kind == "panic":
                continue
            me = tr.me()
            tcalls = [(i, e) for i, e in tr.calls((call,)) if not (e[6] and "Io<" in e[6])]
            rcalls = [(i, e) for i, e in tr.calls(("poll_ready",))]
            ret = tr.outcome("Poll", "Result") if tr.kind == "return" else {}
            for i, e in tcalls:
                pr = [x for j, x in rcalls if j < i]
                W = tr.at(i, me, (me_el,))
                ok = (pr and tr.is_(pr[-1][5], "Poll", "Ready") and tr.is_(project(pr[-1][5], READY_E), "Result", "Ok")) or tr.is_(W, "WriteState", "Init")
                R.ob(bool(ok), "C05.%s-after-frame" % call[5:], "the transport is asked to %s before the current frame is fully written" % call[5:], tr, e[7])
                R.ob(same_result(tr, tr.ret, e[5]), "C05.%s-result" % call[5:], "the transport's answer to %s is not what is returned" % call[5:], tr, e[7])
            for s, pay in ret.items():
                if tcalls:
                    continue
                if s == ("Ready", "Ok"):
                    R.ob(False, "C05.%s-happens" % call[5:], "%s reports success without asking the transport" % call[5:], tr, tr.t.site)
                elif s == ("Pending",):
                    ok = (rcalls and tr.is_(rcalls[-1][1][5], "Poll", "Pending")) or (tr.calls(("poll_write",)) and tr.is_(tr.calls(("poll_write",))[-1][1][5], "Poll", "Pending"))
                    R.ob(bool(ok), "C05.%s-pending" % call[5:], "%s reports pending although the transport did not" % call[5:], tr, tr.t.site)
                elif s == ("Ready", "Err"):
                    src = [project(project(e[5], READY_E), ERR_E) for _, e in rcalls + tr.calls(("poll_write",))]
                    direct = any(mentions(pay, x) for x in src)
                    own = not rcalls and (tr.calls(("poll_write",)) or tr.is_(tr.at(0, me, (me_el,)), "WriteState", "Poisoned"))
                    R.ob(bool(direct or own), "C05.%s-error" % call[5:], "%s reports an error nobody raised" % call[5:], tr, tr.t.site)
            for i, e in rcalls:
                for s in tr.shapes(e[5], "Poll", "Result"):
                    names = tuple(x for x in s if isinstance(x, str))
                    if names == ("Ready", "Err"):
                        R.ob(set(ret) == {("Ready", "Err")} and mentions(list(ret.values())[0], s[-1]), "C05.%s-write-error" % call[5:], "a write error found while preparing to %s is not returned" % call[5:], tr, e[7])
    for r, n in (("C05.offer-rest", 2), ("C05.pending", 2), ("C05.write-error", 2), ("C05.write-zero", 2), ("C05.poison", 2), ("C05.over-accept", 2),
                 ("C05.advance", 2), ("C05.header-then-body", 1), ("C05.done-only-complete", 2), ("C05.ready-means-idle", 1),
                 ("C05.accept-whole", 1), ("C05.flush-after-frame", 1), ("C05.close-after-frame", 1), ("C05.poisoned-final", 1)):
        R.floor(r, n)


def first_state_index(tr):
    """index right after the loop-carried values were introduced at the start of the path"""
    i = 0
    for j, e in enumerate(tr.ev):
        if e[0] in ("h", "loop"):
            i = j + 1
        else:
            break
    return i


def same_ws(tr, X, Y):
    return X is Y or tr.same(X, Y)


def same_result(tr, ret, r):
    if ret is r:
        return True
    a, b = tr.shapes(ret, "Poll", "Result"), tr.shapes(r, "Poll", "Result")
    na = {tuple(x for x in s if isinstance(x, str)) for s in a}
    nb = {tuple(x for x in s if isinstance(x, str)) for s in b}
    if na != nb:
        return False
    for s in a:
        if s[:2] == ("Ready", "Err"):
            t = [x for x in b if x[:2] == ("Ready", "Err")]
            if not mentions(s[-1], t[0][-1]):
                return False
    return True

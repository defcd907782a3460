"""Rules about crashes: explicit panics, index and slice bounds, arithmetic overflow."""
import re
from .view import *
from .prog import Tr
from .engine import contradiction
from .term import *
from .rules_stream import inv, unread, seq_counter, chunk_pos, chunk_bytes, arc_content, names
from .rules_conn import frame_of, U32
from .rules_io import io_states

TOP64 = I((1 << 64) - 1)


class Known(object):
    """what is known at some point of a path"""

    def __init__(self, snap):
        self.facts, self.neq = snap.facts, snap.neq


def seen_at(tr, snap):
    """the path as far as it was known when the snapshot was taken"""
    q = Tr.__new__(Tr)
    for k, v in tr.__dict__.items():
        setattr(q, k, v)
    q.t = Known(snap)
    return q


def sure(q, atom, hyps):
    """is the boolean atom certain?"""
    if atom.k == "int":
        return atom.a[0] != 0
    if q.truth(atom) is True:
        return True
    if atom.k == "op":
        if atom.a[0] == "ltz":
            return q.entails(add(atom.a[1], ONE), hyps)
        if atom.a[0] == "eqz":
            return q.entails(atom.a[1], hyps) and q.entails(scale(atom.a[1], -1), hyps)
        if atom.a[0] == "not":
            b = atom.a[1]
            if b.k == "op" and b.a[0] == "ltz":
                return q.entails(scale(b.a[1], -1), hyps)
            if b.k == "op" and b.a[0] == "eqz":
                return q.entails(add(b.a[1], ONE), hyps) or q.entails(sub(ONE, b.a[1]), hyps)
    return False


def absurd(tr, hyps):
    """can this path not be taken at all, given the hypotheses?"""
    facts = tr.t.facts
    for h in hyps:
        a, v = h, 1
        if a.k == "op" and a.a[0] == "not":
            a, v = a.a[1], 0
        if a.k == "int" and bool(a.a[0]) != bool(v):
            return True
        if a in facts and bool(facts[a]) != bool(v):
            return True
    q = Tr.__new__(Tr)
    for k, v in tr.__dict__.items():
        setattr(q, k, v)
    for f, v in reversed(list(facts.items())):  # the panic's own condition comes last
        if not (isinstance(f, T) and f.k == "op" and f.a[0] in ("ltz", "eqz")):
            continue
        q.t = Known(tr.t)
        q.t.facts = {x: y for x, y in facts.items() if x is not f}
        if sure(q, bnot(f) if v else f, hyps):
            return True
    # x differs from these values by the path's own findings
    for f, vs in tr.t.neq.items():
        if isinstance(f, T):
            for v in vs:
                q.t = Known(tr.t)
                q.t.neq = {x: y for x, y in tr.t.neq.items() if x is not f}
                if f.ty in TM.WIDTH and sure(q, eq(f, I(v)), hyps):
                    return True
    return False


def obligations(R, rule, trs, hyps, what, where=None):
    """every bounds or overflow obligation on these paths must follow from what is known there and the hypotheses"""
    done = {}
    bad = set()
    for tr in trs:
        for i, e in enumerate(tr.ev):
            if e[0] != "maypanic" or (e[1], e[3]) in bad:
                continue
            ok = done.get(id(e))
            if ok is None:
                q = seen_at(tr, e[4])
                ok = sure(q, e[2], ()) or sure(q, e[2], hyps(q, i, (e[2],)))
                done[id(e)] = ok
                if not ok:
                    bad.add((e[1], e[3]))  # reported once
            R.ob(ok, rule, "%s (%s): not shown that %s" % (what, e[1], short(e[2], 160)), tr, e[3])
    R.ob(True, rule)


# ------------------------------------------------------------------------------------ C34
def state_hyps(P, q, X, field):
    """what is known of a reader's or writer's state between two steps"""
    g = P.get
    if field == "read_state":
        o, b = g(X, "ReadState.Header.offset"), g(X, "ReadState.Header.buffer")
        o2, b2 = g(X, "ReadState.Body.offset"), g(X, "ReadState.Body.buffer")
        n = g(X, "ReadState.Body.header", "Header.length", "Len.0")
        return {"Header": [le(o, I(12)), eq(lenof(b), I(12))], "Body": [le(o2, lenof(b2)), eq(lenof(b2), n)]}
    h, o = g(X, "WriteState.Header.header"), g(X, "WriteState.Header.offset")
    b, o2 = g(X, "WriteState.Body.buffer"), g(X, "WriteState.Body.offset")
    return {"Header": [le(o, lenof(h)), eq(lenof(h), I(12))], "Body": [le(o2, lenof(b))]}


def le(a, b):
    return bnot(lt(b, a))


def io_hyps(P, field, role):
    call = {"read_state": ("poll_read", "poll_read_vectored"), "write_state": ("poll_write", "poll_write_vectored")}[field]

    def hyps(q, i, extra=()):
        out = []
        for j, X in io_states(q, field):
            if j > i or X.k == "agg":
                continue
            for v, hs in state_hyps(P, q, X, field).items():
                if v in q.variants(X, role):
                    out += hs
        # the transport never claims more than it was given
        for j, e in q.calls(call):
            if j < i and len(e[4]) > 2:
                n = project(project(e[5], READY_E), OK_E)
                out.append(le(n, lenof(e[4][2])))
                out.append(le(lenof(e[4][2]), I((1 << 63) - 1)))
        return out
    return hyps


def io_inductive(P, R, entry, field, role, rule, suffix):
    """the state that a step leaves behind is again within its buffer"""
    h = io_hyps(P, field, role)
    for tr in P.run(entry, oblig=True):
        if tr.kind not in ("return", "back"):
            continue
        Y = tr.at(None, tr.me(), (P.el("Io." + field),))
        if Y.k == "sym" and all(Y is X for _, X in io_states(tr, field)):
            R.ob(True, rule)
            continue
        hy = h(tr, len(tr.ev))
        for v, hs in state_hyps(P, tr, Y, field).items():
            if v in tr.variants(Y, role):
                for a in hs:
                    R.ob(sure(tr, a, hy), rule, "the %s can be left with a position outside its buffer%s" % ("reader" if field == "read_state" else "writer", suffix), tr, tr.t.site)


def frame_hyps(P):
    def hyps(q, i, extra=()):
        out = []
        f = frame_of(q)
        bodies = [f.body] if f is not None else []
        for s, a, b in shared_secs(q):
            if s.i0 > i:
                continue
            # the counter is the total size of distinct buffers in memory (C21), and so is the new payload
            for x in bodies:
                out.append(lt(add(a.unread, lenof(x)), TOP64))
        return out
    return hyps


def c34(P, R):
    for Q, sfx in ((P, ""), (P.debug(), " (debug build)")):
        io = Q.run("Io.next", oblig=True)
        obligations(R, "C34.reader", io, io_hyps(Q, "read_state", "ReadState"), "reading a frame can crash" + sfx)
        for n in ("Io.next", "Io.ready", "Io.send", "Io.flush", "Io.close"):
            io_inductive(Q, R, n, "read_state", "ReadState", "C34.reader-state", sfx)
        for tr in io:
            if tr.kind == "panic":
                R.ob(absurd(tr, io_hyps(Q, "read_state", "ReadState")(tr, len(tr.ev))), "C34.reader-panic", "reading a frame can panic (%s)%s" % (tr.t.msg, sfx), tr, tr.t.site)
            else:
                R.ob(True, "C34.reader-panic")
        fr = [tr for tr in Q.run("C.next", oblig=True) if frame_of(tr) is not None]
        obligations(R, "C34.frame", fr, frame_hyps(Q), "processing a received frame can crash" + sfx)
        for tr in fr:
            if tr.kind == "panic":
                R.ob(absurd(tr, frame_hyps(Q)(tr, len(tr.ev))), "C34.frame-panic", "processing a received frame can panic (%s)%s" % (tr.t.msg, sfx), tr, tr.t.site)
            else:
                R.ob(True, "C34.frame-panic")
        if Q is not P:
            P.stats["paths"] += Q.stats["paths"]
            for k, v in Q.analysed.items():
                P.analysed[k + " (debug build)"] = v
    for r, n in (("reader", 4), ("reader-state", 4), ("reader-panic", 4), ("frame", 10), ("frame-panic", 100)):
        R.floor("C34." + r, n)

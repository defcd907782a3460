"""The library's own operations never panic: every possible panic is refuted from the path and from invariants of the
stored state, which are themselves shown to be kept."""
from .view import *
from .prog import opname, Result
from .term import *
from .rules_stream import inv, chunk_pos, chunk_bytes, chunk_parts, arc_content, names, seq_writes
from .rules_conn import frame_of, odd, A0, final_active
from .rules_panic import TOP64, le, seen_at, sure, absurd, obligations, io_hyps, io_inductive
from .rules_misc import inner_first, inner_last, phi_place, cleanup_errors

STREAM_OPS = STREAM_ENTRIES + STREAM_QUERIES
FALSE = I(0)


# ------------------------------------------------------------------ invariants used as hypotheses
def config_hyps(tr, cfg):
    """an accepted configuration (C33) with at least the one stream that is being used (C13, C15)"""
    P = tr.P
    c = arc_content(tr, cfg)
    n = project(c, P.el("Config.max_num_streams"))
    lim = project(c, P.el("Config.max_connection_receive_window"))
    out = [le(I(1), n), le(scale(n, KIB256), TOP64)]
    vs = tr.variants(lim, "Option")
    if vs == {"Some"}:
        out.append(le(scale(n, KIB256), project(lim, SOME_E)))
    top = project(lim, SOME_E) if vs == {"Some"} else TOP64 if vs == {"None"} else None
    return out, n, top


def fronts(tr, extra=()):
    """first-chunk terms that occur on the path"""
    out = []
    seen = set()
    for f in list(tr.t.facts) + list(tr.t.neq) + list(extra):
        if isinstance(f, T):
            for t in subterms(f, seen):
                if t.k == "fld" and t.a[1] is FRONT and t not in out:
                    out.append(t)
    return out


def totals(tr, i):
    """{queue of chunks: its byte counter} wherever the counter is known to be exact (rule C21): at lock and loop heads"""
    P = tr.P
    seqel, lenel = P.el("Chunks.seq"), P.el("Chunks.len")
    out = {}
    for s, a, b in shared_secs(tr):
        if s.i0 <= i:
            out[a.seq] = a.unread
    for j, e in enumerate(tr.ev[:i + 1]):
        if e[0] == "loop":
            for p, init in e[4]:
                root, path = phi_place(p)
                if path and path[-1] is seqel:
                    out[p] = tr.at(j + 1, root, path[:-1] + (lenel,))
                    for q, _ in e[4]:
                        if phi_place(q) == (root, path[:-1] + (lenel,)):
                            out[p] = q
    return out


def total(P, tots, s):
    """the number of bytes a queue of chunks holds, in terms of a known counter"""
    if s in tots:
        return tots[s]
    if s.k == "upd" and all(e is FRONT for e, _ in s.a[1]):
        return total(P, tots, s.a[0])
    if s.k == "op" and s.a[0] == "popf":
        t = total(P, tots, s.a[1])
        return None if t is None else sub(t, lenof(chunk_bytes(P, project(s.a[1], FRONT))))
    if s.k == "op" and s.a[0] == "pushb":
        t = total(P, tots, s.a[1])
        return None if t is None else add(t, lenof(chunk_bytes(P, s.a[2])))
    if s.k == "fld" and s.a[1] is P.el("Chunks.seq"):
        return project(s.a[0], P.el("Chunks.len"))
    return None


class Hyp(object):
    """hypotheses about a stream operation"""

    def __init__(self, P):
        self.P = P
        self.loops = {}
        self.counters = set()

    def __call__(self, q, i, extra=()):
        P = self.P
        out = []
        tots = totals(q, i)
        for s, a, b in shared_secs(q):
            if s.i0 > i:
                continue
            out += inv(q, a)[0]
            ch, n, top = config_hyps(q, a.config)
            out += ch
            # what this path itself added to the connection-wide total
            for t in q.sections(r"^usize$"):
                if t.i0 > i or t.i0 < s.i0 or t.arc() is not a.acc:
                    continue
                mine = sub(a.max, I(KIB256))
                for u in q.sections(r"^usize$"):
                    if s.i0 <= u.i0 < t.i0 and u.v1 is not None:
                        mine = add(mine, sub(u.v1, u.v0))
                out.append(le(mine, t.v0))
                if top is not None:
                    out.append(le(add(t.v0, scale(n, KIB256)), top))
            had = False
            for x in q.sections(r"RttInner$|%s$" % P.adt("RttInner").split("::")[-1]):
                if x.i0 > i:
                    continue
                v = q.variants(P.get(x.v0, "RttInner.rtt"), "Option")
                if v == {"None"}:
                    out += [FALSE] if had else [le(a.max, I(KIB256))]
                had = had or v == {"Some"}
        for f in fronts(q, extra):
            s = f.a[0]
            pos, ln = chunk_pos(P, f), lenof(chunk_bytes(P, f))
            out += [le(ZERO, pos), le(pos, ln)]
            t = total(P, tots, s)
            if t is not None:
                out += [le(ln, t), le(t, TOP64)]
        out += self.loop_hyps(q, i)
        return out

    def loop_hyps(self, q, i):
        out = []
        for j, e in enumerate(q.ev[:i + 1]):
            if e[0] == "loop":
                for p, ln in self.loops.get((q.entry, e[1], e[2]), ()):
                    out.append(le(p, ln))
                for p, _ in e[4]:
                    if p in self.counters:
                        out.append(le(p, I(1 << 62)))
        return out

    def find_counters(self, n, trs, heads):
        """machine words that start at a constant and grow by a small constant per round cannot overflow within the
        rounds one call can make"""
        for h, xs in heads.items():
            for p, init in xs[0][2][4]:
                if p.k != "sym" or p.ty not in ("usize", "u64", "u128"):
                    continue
                ok = all(dict(e[4])[p].k == "int" for tr, j, e in xs if p in dict(e[4]))
                for tr in trs:
                    if not ok or tr.kind != "back" or (n,) + tuple(tr.t.head) != h:
                        continue
                    ok = tr.le(tr.fin(*phi_place(p)), add(p, I(1 << 16)))
                if ok:
                    self.counters.add(p)

    def find_loops(self, n, trs):
        """loop-carried numbers that never exceed the length of a buffer of the same loop: greatest set that is inductive"""
        heads = {}
        for tr in trs:
            for j, e in enumerate(tr.ev):
                if e[0] == "loop":
                    heads.setdefault((n, e[1], e[2]), []).append((tr, j, e))
        self.find_counters(n, trs, heads)
        for h, xs in heads.items():
            e = xs[0][2]
            nums = [p for p, init in e[4] if p.k == "sym" and p.ty in ("usize", "u32", "u64")]
            bufs = [p for p, init in e[4] if phi_place(p)[0][0] == "D" and not phi_place(p)[1]]
            cand = [(p, lenof(b)) for p in nums for b in bufs]
            init = dict(e[4])
            self.loops[h] = set(cand)
            while True:
                bad = set()
                for tr, j, e2 in xs:
                    ini = dict(e2[4])
                    for p, ln in self.loops[h]:
                        b = [x for x in bufs if lenof(x) is ln][0]
                        if not tr.le(ini[p], lenof(ini[b])):
                            bad.add((p, ln))
                for tr in trs:
                    if tr.kind != "back" or (n,) + tuple(tr.t.head) != h:
                        continue
                    hy = self(tr, len(tr.ev))
                    for p, ln in self.loops[h]:
                        b = [x for x in bufs if lenof(x) is ln][0]
                        if not tr.le(tr.fin(*phi_place(p)), lenof(tr.fin(*phi_place(b))), hy):
                            bad.add((p, ln))
                if not bad:
                    break
                self.loops[h] -= bad


# ------------------------------------------------------------------ refuting explicit panics of the connection
def excused(P, tr):
    """a panic of the connection that an invariant of its own state rules out"""
    n = tr.entry
    if n in CONN_ENTRIES and tr.variants(inner_first(tr), "ConnectionState") == {"Poisoned"}:
        return True
    if n == "C.next" or n == "C.out":
        # the parity of our next id matches our role
        md, nid = A0(tr, "mode"), A0(tr, "next_id")
        m = tr.variants(md, "Mode") if md is not None else set()
        o = odd(tr, nid) if nid is not None else None
        if o is not None and len(m) == 1 and (m == {"Client"}) != o:
            return True
        # our next id is not in use: ours only grow (C14), the remote's have the other parity (C13)
        for f, v in tr.t.facts.items():
            if isinstance(f, T) and f.k == "op" and f.a[0] == "discr" and f.a[1].k == "op" and f.a[1].a[0] == "mapold":
                f = f.a[1]  # what an insertion replaced
            if isinstance(f, T) and f.k == "op" and f.a[0] in ("has", "mapold") and v and nid is not None and tr.equal(P.get(f.a[2], "StreamId.0"), nid):
                return True
    if n == "C.next":
        # the stream whose queue ended is registered: it is removed only here
        for i, e in tr.calls(("poll_next",), "SelectAll"):
            for s in tr.shapes(e[5], "Poll", "Option"):
                if names(s) != ("Ready", "Some"):
                    continue
                it = s[-1]
                key, cmd = item_parts(it)
                if tr.variants(cmd, "Option") != {"None"}:
                    continue
                for f, v in tr.t.facts.items():
                    if isinstance(f, T) and f.k == "op" and f.a[0] == "has" and not v and f.a[2] is key:
                        return True
    if n == "Io.send":
        # a frame is handed over only when the writer said it is idle
        if "Init" not in tr.variants(tr.at(0, tr.me(), (P.el("Io.write_state"),)), "WriteState"):
            P.opaque["idle writer"] = True
            return True
    if n == "Cleanup.poll":
        return tr.variants(tr.at(0, tr.me(), (P.el("Cleanup.error"),)), "Option") == {"None"}
    return False


def item_parts(it):
    return project(it, E("tuple", 0, 0)), project(it, E("tuple", 0, 1))


class Part(object):
    """runs another property's rule but keeps only some of its obligations, under this property's name"""

    def __init__(self, R, rules, to):
        self.R, self.rules, self.to = R, rules, to
        self.P = R.P

    def ob(self, ok, rule, what="", tr=None, site=None):
        if rule in self.rules:
            self.R.ob(ok, self.to + "." + rule.split(".", 1)[1], what, tr, site)
        return bool(ok)

    def floor(self, rule, n=1):
        if rule in self.rules:
            self.R.floor(self.to + "." + rule.split(".", 1)[1], n)


# ------------------------------------------------------------------------------------ C37
ENTRIES = STREAM_OPS + CONN_ENTRIES + ("Io.ready", "Io.send", "Io.flush", "Io.close", "Closing.poll", "Cleanup.poll", "F.drop", "C.new", "TS.next")


def drop_hyps(P):
    """a stream's part of the connection-wide total when it goes away"""
    def hyps(q, i, extra=()):
        mx = P.get(q.at(0, q.me()), "FlowController.max_receive_window")
        out = [le(I(KIB256), mx), le(mx, I((1 << 32) - 1))]
        for t in q.sections(r"^usize$"):
            if t.i0 <= i:
                out.append(le(sub(mx, I(KIB256)), t.v0))
                break
        return out
    return hyps


def hyps_of(Q, n, trs):
    if n.startswith("Io."):
        return io_hyps(Q, "write_state", "WriteState")
    if n == "F.drop":
        return drop_hyps(Q)
    h = Hyp(Q)
    h.find_loops(n, trs)
    return h


def c37(P, R):
    for Q, sfx in ((P, ""), (P.debug(), " (debug build)")):
        for n in ENTRIES:
            trs = every = Q.run(n, oblig=True)
            if n == "C.next":
                trs = [tr for tr in trs if frame_of(tr) is None]  # what a received frame can do: C34
            hy = hyps_of(Q, n, trs)
            obligations(R, "C37.arithmetic", trs, hy, "%s can crash%s" % (Q.key(n), sfx))
            bad = set()
            for tr in trs:
                if tr.kind == "panic":
                    if (tr.t.msg, tr.t.site) in bad:
                        continue  # reported once
                    ok = excused(Q, tr) or absurd(tr, hy(tr, len(tr.ev)))
                    if not ok:
                        bad.add((tr.t.msg, tr.t.site))
                    R.ob(ok, "C37.panic", "%s can panic (%s)%s" % (Q.key(n), tr.t.msg, sfx), tr, tr.t.site)
                else:
                    R.ob(True, "C37.panic")
            if n.startswith("Io."):
                io_inductive(Q, R, n, "write_state", "WriteState", "C37.writer-state", sfx)
            if Q is P or n in ("S.read", "S.next"):
                kept(Q, R, n, every, hy)
        if Q.opaque.get("idle writer"):
            P.opaque["idle writer"] = True
        if Q is not P:
            P.stats["paths"] += Q.stats["paths"]
            for k, v in Q.analysed.items():
                P.analysed[k + " (debug build)"] = v
    parts = PARTS
    if P.opaque.get("idle writer"):
        parts += (("rules_conn", "c06", ("C06.ready-first",)), ("rules_io", "c05", ("C05.ready-means-idle",)))
    for mod, fn, rules in parts:
        import importlib
        m = importlib.import_module("yx." + mod)
        getattr(m, fn)(P, Part(R, set(rules), "C37"))
    for r, n in (("arithmetic", 10), ("panic", 100), ("writer-state", 4), ("chunk-position", 1), ("rtt-stays", 1), ("removed", 1), ("cleanup-error", 1)):
        R.floor("C37." + r, n)


PARTS = (
    ("rules_stream", "c11", ("C11.within-max", "C11.unread-exact")),
    ("rules_stream", "c12", ("C12.total-exact", "C12.never-shrinks", "C12.within-budget", "C12.needs-rtt", "C12.given-back", "C12.total-follows", "C12.nobody-else", "C12.own-total", "C12.new-own-total", "C12.new-own-limit", "C12.new-own-rtt", "C12.starts-at-zero", "C12.at-most-double", "C12.own-kept")),
    ("rules_conn", "c13", ("C13.below-limit", "C13.registered", "C13.queue", "C13.nowhere-else", "C13.own-limits")),
    ("rules_misc", "c14", ("C14.first", "C14.next", "C14.step", "C14.no-wrap", "C14.registered", "C14.queue", "C14.kept")),
    ("rules_misc", "c15", ("C15.limit",)),
    ("rules_stream", "c20", ("C20.queue-end",)),
    ("rules_stream", "c21", ("C21.unread-exact",)),
    ("rules_misc", "c26", ("C26.never-poisoned", "C26.follows", "C26.content")),
    ("rules_more", "c33", ("C33.rejects",)),
)


def kept(P, R, n, trs, hy):
    """the hypotheses about stored state are kept by every path"""
    seqel = P.el("Chunks.seq")
    CUR_I, CUR_P = (x[-1] for x in chunk_parts(P))
    for tr in trs:
        if tr.kind == "panic":
            continue
        # the position within a chunk stays inside it
        for i, root, path, old, new, site in tr.writes(seqel):
            k = path.index(seqel)
            if len(path) > k + 1 and path[-1] is CUR_P:
                at = tr.at(i + 1, root, path[:-1])
                R.ob(tr.le(new, lenof(project(at, CUR_I)), hy(tr, i, (project(at, CUR_I), at))), "C37.chunk-position", "the position in a chunk may be left beyond its end", tr, site)
            elif new.k == "op" and new.a[0] == "pushb":
                R.ob(tr.le(chunk_pos(P, new.a[2]), lenof(chunk_bytes(P, new.a[2]))), "C37.chunk-position", "a chunk is queued with a position beyond its end", tr, site)
        for i, root, path, old, new, site in tr.writes(P.el("RttInner.rtt")):
            if path[-1] is P.el("RttInner.rtt"):
                R.ob(tr.variants(new, "Option") == {"Some"} or tr.same(old, new), "C37.rtt-stays", "a measured round-trip time is forgotten", tr, site)
        if n in ("C.next", "C.out"):
            for i, root, path, old, new, site in tr.writes(P.el("Active.streams")):
                if path[-1] is not P.el("Active.streams"):
                    continue
                ok = new.k == "op" and new.a[0] == "ins"
                if new.k == "op" and new.a[0] == "rem":
                    ok = any(key is new.a[2] for key in ended(tr, i))
                R.ob(ok or not still_active(tr, i), "C37.removed", "a stream is taken off the table of streams although its handle may still be there", tr, site)
        if n in CONN_ENTRIES:
            for v, site in cleanup_errors(tr):
                R.ob(v is not None, "C37.cleanup-error", "cleaning up starts without an error to report", tr, site)


def ended(tr, hi):
    """ids of streams whose command queue was seen to have ended"""
    out = []
    for i, e in tr.calls(("poll_next",), "SelectAll", 0, hi):
        for s in tr.shapes(e[5], "Poll", "Option"):
            if names(s) == ("Ready", "Some"):
                key, cmd = item_parts(s[-1])
                if tr.variants(cmd, "Option") == {"None"}:
                    out.append(key)
    return out


def still_active(tr, i):
    """does the connection go on after the i-th event of this path?"""
    if tr.kind == "cut":
        return True  # a frame was received
    if tr.kind == "back":
        if tr.variants(tr.fin(tr.me(), (tr.P.el("Connection.inner"),)), "ConnectionState") <= {"Cleanup", "Closing", "Closed"}:
            return False
        # the loop being repeated was entered before, so this is not the loop that takes the connection down
        return not any(e[0] == "loop" and (e[1], e[2]) == tuple(tr.t.head) for e in tr.ev[i:])
    return final_active(tr) is not None

"""The analysed program as the rules see it: entry points, roles of types and fields, path views.

Everything here is resolved from the fact file of the current build.  Types and fields are found by
name and, when a name is gone, by the remaining shape (field overlap, position); a role that cannot
be resolved makes the check fail closed (Missing)."""
import copy
import re

from . import term as TM
from .term import *
from .flat import unwrap
from .engine import Engine, Facts, prove, refute, contradiction, lemmas, Trace, NIL


class Missing(Exception):
    pass


ADTS = {
    "Active": ("connection::Active", "id mode config socket next_id streams stream_receivers no_streams_waker pending_read_frame pending_write_frame new_outbound_stream_waker rtt accumulated_max_stream_windows"),
    "Connection": ("connection::Connection", "inner"),
    "ConnectionState": ("connection::ConnectionState", "Active Closing Cleanup Closed Poisoned"),
    "StreamCommand": ("connection::StreamCommand", "SendFrame CloseStream"),
    "Mode": ("connection::Mode", "Server Client"),
    "Cleanup": ("connection::cleanup::Cleanup", "state stream_receivers error"),
    "Closing": ("connection::closing::Closing", "state stream_receivers pending_frames socket"),
    "Rtt": ("connection::rtt::Rtt", "inner next_id"),
    "RttInner": ("connection::rtt::RttInner", "state rtt"),
    "RttState": ("connection::rtt::RttState", "AwaitingPong Waiting"),
    "Flag": ("connection::stream::Flag", "None Syn Ack"),
    "Shared": ("connection::stream::Shared", "state flow_controller buffer reader writer"),
    "State": ("connection::stream::State", "Open SendClosed RecvClosed Closed"),
    "Stream": ("connection::stream::Stream", "id conn config sender flag shared"),
    "FlowController": ("connection::stream::flow_control::FlowController", "config last_window_update rtt accumulated_max_stream_windows receive_window max_receive_window send_window"),
    "Chunk": ("chunks::Chunk", "cursor"),
    "Chunks": ("chunks::Chunks", "seq len"),
    "Frame": ("frame::Frame", "header body"),
    "Header": ("frame::header::Header", "version tag flags stream_id length _marker"),
    "Tag": ("frame::header::Tag", "Data WindowUpdate Ping GoAway"),
    "Flags": ("frame::header::Flags", "0"),
    "Len": ("frame::header::Len", "0"),
    "StreamId": ("frame::header::StreamId", "0"),
    "Version": ("frame::header::Version", "0"),
    "HeaderDecodeError": ("frame::header::HeaderDecodeError", "Version Type"),
    "Io": ("frame::io::Io", "id io read_state write_state"),
    "ReadState": ("frame::io::ReadState", "Init Header Body"),
    "WriteState": ("frame::io::WriteState", "Init Header Body Poisoned"),
    "FrameDecodeError": ("frame::io::FrameDecodeError", "Io Header FrameTooLarge"),
    "ConnectionError": ("error::ConnectionError", "Io Decode NoMoreStreamIds Closed TooManyStreams InvalidWindowUpdate"),
    "TaggedStream": ("tagged_stream::TaggedStream", "key inner reported_none"),
    "Config": ("Config", "max_connection_receive_window max_num_streams read_after_close split_send_size"),
    "Packet": ("connection::stream::Packet", "0"),
}
STD = {
    "Option": ("std::option::Option", ["None", "Some"]),
    "Result": ("std::result::Result", ["Ok", "Err"]),
    "Poll": ("std::task::Poll", ["Ready", "Pending"]),
}


class Prog(object):
    def __init__(self, facts):
        self.F = facts
        self.adtname = {}
        self.els = {}
        self.vix = {}
        self.cache = {}
        self.eng = {}
        self.analysed = {}
        self.stats = {"paths": 0, "steps": 0}
        self.opaque = {}
        self.fncov = set()
        self._dbg = None
        self.debug_facts = None
        keep = {x[0] for x in ADTS.values()}
        for role in ADTS:
            try:
                keep.add(self.adt(role))
            except Missing:
                pass
        unwrap(facts, keep)

    def debug(self):
        """the same program as debug builds have it (debug assertions on)"""
        if self._dbg is None:
            self._dbg = Prog(self.debug_facts())
        return self._dbg

    # ------------------------------------------------------------ roles
    def members(self, a):
        if a["enum"]:
            return [v["name"] for v in a["variants"]]
        return list(a["variants"][0]["fields"])

    def adt(self, role):
        r = self.adtname.get(role)
        if r:
            return r
        if role in STD:
            return STD[role][0]
        want, mem = ADTS[role]
        mem = mem.split()
        F = self.F
        if want in F.adts:
            r = want
        else:
            same = [n for n, a in F.adts.items() if a["local"] and n.split("::")[-1] == want.split("::")[-1]]
            if len(same) > 1:
                same = [n for n in same if len(set(self.members(F.adts[n])) & set(mem)) * 2 >= len(mem)]
            if len(same) == 1:
                r = same[0]
            else:
                best = []
                for n, a in F.adts.items():
                    if not a["local"] or n in [x[0] for x in ADTS.values()]:
                        continue
                    ms = set(self.members(a))
                    j = len(ms & set(mem)) / float(len(ms | set(mem)) or 1)
                    if j > 0.5:
                        best.append((j, n))
                best.sort(reverse=True)
                if not best or (len(best) > 1 and best[0][0] == best[1][0]):
                    raise Missing("type %s (%s) not found" % (role, want))
                r = best[0][1]
        self.adtname[role] = r
        return r

    def member_ix(self, role, name):
        if role in STD:
            return STD[role][1].index(name)
        a = self.F.adts[self.adt(role)]
        ms = self.members(a)
        if name in ms:
            return ms.index(name)
        known = ADTS[role][1].split()
        lost = [x for x in known if x not in ms]
        new = [x for x in ms if x not in known]
        if len(lost) == len(new) and name in lost:
            return ms.index(new[lost.index(name)])
        raise Missing("%s.%s not found in %s" % (role, name, self.adt(role)))

    def el(self, spec):
        """Elem for 'Role.field' (struct), 'Role.Variant.field' (enum; field may be an index)"""
        e = self.els.get(spec)
        if e is not None:
            return e
        p = spec.split(".")
        if p[0] in STD:
            v = STD[p[0]][1].index(p[1])
            e = E(STD[p[0]][0], v, int(p[2]) if len(p) > 2 else 0, p[2] if len(p) > 2 else "0", p[1])
        elif len(p) == 2:
            ix = self.member_ix(p[0], p[1])
            a = self.F.adts[self.adt(p[0])]
            e = E(self.adt(p[0]), 0, ix, a["variants"][0]["fields"][ix])
        else:
            v = self.member_ix(p[0], p[1])
            a = self.F.adts[self.adt(p[0])]
            fs = a["variants"][v]["fields"]
            if p[2] in fs:
                ix = fs.index(p[2])
            elif p[2].isdigit() and int(p[2]) < len(fs):
                ix = int(p[2])
            elif len(fs) == 1:
                ix = 0
            else:
                raise Missing("%s not found" % spec)
            e = E(self.adt(p[0]), v, ix, fs[ix], p[1])
        self.els[spec] = e
        return e

    def get(self, v, *specs):
        for s in specs:
            v = project(v, self.el(s))
        return v

    def vdiscr(self, role, variant):
        """discriminant value of a variant"""
        ix = self.member_ix(role, variant)
        if role in STD:
            return ix
        return self.F.adts[self.adt(role)]["variants"][ix]["discr"]

    # ------------------------------------------------------------ entry points
    def entry(self, spec):
        tr, self_, m = spec
        ks = self.F.find_impl(tr, self_, m) if tr else self.F.find_inherent(self_, m)
        if len(ks) != 1:
            raise Missing("entry %s::%s on %s: %d candidates" % (tr, m, self_, len(ks)))
        return ks[0]

    def rx(self, role):
        return "^" + re.escape(self.adt(role)) + r"(<.*>)?$"

    ENT = {
        "S.read": (r"AsyncRead$", "Stream", "poll_read"),
        "S.next": (r"(^|::)Stream$", "Stream", "poll_next"),
        "S.write": (r"AsyncWrite$", "Stream", "poll_write"),
        "S.flush": (r"AsyncWrite$", "Stream", "poll_flush"),
        "S.close": (r"AsyncWrite$", "Stream", "poll_close"),
        "S.is_closed": (None, "Stream", "is_closed"),
        "S.is_write_closed": (None, "Stream", "is_write_closed"),
        "S.is_pending_ack": (None, "Stream", "is_pending_ack"),
        "S.id": (None, "Stream", "id"),
        "C.new": (None, "Connection", "new"),
        "C.next": (None, "Connection", "poll_next_inbound"),
        "C.out": (None, "Connection", "poll_new_outbound"),
        "C.close": (None, "Connection", "poll_close"),
        "C.drop": (r"Drop$", "Connection", "drop"),
        "F.drop": (r"Drop$", "FlowController", "drop"),
        "Io.ready": (r"(^|::)Sink(<|$)", "Io", "poll_ready"),
        "Io.send": (r"(^|::)Sink(<|$)", "Io", "start_send"),
        "Io.flush": (r"(^|::)Sink(<|$)", "Io", "poll_flush"),
        "Io.close": (r"(^|::)Sink(<|$)", "Io", "poll_close"),
        "Io.next": (r"(^|::)Stream$", "Io", "poll_next"),
        "Closing.poll": (r"Future$", "Closing", "poll"),
        "Cleanup.poll": (r"Future$", "Cleanup", "poll"),
        "TS.next": (r"(^|::)Stream$", "TaggedStream", "poll_next"),
        "Cfg.default": (r"Default$", "Config", "default"),
        "Cfg.recv": (None, "Config", "set_max_connection_receive_window"),
        "Cfg.streams": (None, "Config", "set_max_num_streams"),
        "Cfg.rac": (None, "Config", "set_read_after_close"),
        "Cfg.split": (None, "Config", "set_split_send_size"),
    }

    def key(self, name):
        tr, role, m = self.ENT[name]
        return self.entry((tr, self.rx(role), m))

    def run(self, name, oblig=False, pre=None, tag=None):
        ck = (name, oblig, tag)
        r = self.cache.get(ck)
        if r is None:
            eng = Engine(self.F, oblig=oblig)
            k = self.key(name)
            raw = eng.run(k, pre=pre)
            if eng.unmodelled:
                raise Missing("library calls without a model on the analysed paths: %s" % sorted(eng.unmodelled)[:5])
            r = [Tr(self, t, name, i) for i, t in enumerate(raw)]
            self.cache[ck] = r
            self.eng[name] = eng
            self.analysed[name] = {"function": k, "paths": len(r), "steps": eng.nsteps,
                                   "functions": len(eng.fncov)}
            self.stats["paths"] += len(r)
            self.stats["steps"] += eng.nsteps
            self.fncov |= eng.fncov
        return r

    def struct_eq(self, a, b):
        return a is b


def opname(e):
    n = e[1].split("::")[-1]
    if n.endswith("_unpin"):
        n = n[:-6]
    return n


class Tr(object):
    """one path through an entry point"""

    def __init__(self, P, t, entry, ix):
        self.P, self.t, self.entry, self.ix = P, t, entry, ix
        self.ev = t.ev
        self.kind = t.kind
        self.ret = t.ret
        self.eng = t.eng
        self._sec = {}

    # ---------------------------------------------------------- facts
    class St(object):
        __slots__ = ("facts", "neq", "conds")

    def _st(self):
        s = Tr.St()
        s.facts, s.neq, s.conds = self.t.facts, self.t.neq, NIL
        return s

    def decide(self, atom):
        return self.eng.decide(self._st(), atom)

    def truth(self, atom, depth=4):
        """True / False / None"""
        if atom.k == "int":
            return atom.a[0] != 0
        d = self.decide(atom)
        if d is not None:
            return d != 0
        if atom.k == "op" and atom.a[0] in ("ltz", "eqz", "not"):
            if prove(self.eng, self.t.facts, self.t.neq, atom, depth):
                return True
            if refute(self.eng, self.t.facts, self.t.neq, atom, depth):
                return False
        return None

    def proves(self, atom):
        return self.truth(atom) is True

    def refutes(self, atom):
        return self.truth(atom) is False

    def val(self, t):
        """integer value of t under the facts, or None"""
        if t.k == "int":
            return t.a[0]
        return self.decide(t)

    def entails(self, e, hyps=(), depth=5):
        """is `e <= 0` certain on this path, given the extra atoms that are assumed true?
        saturating subtractions and minima in `e` are split into their cases"""
        facts = dict(self.t.facts)
        for a in hyps:
            v = 1
            if a.k == "op" and a.a[0] == "not":
                a, v = a.a[1], 0
            if a.k == "int":
                if bool(a.a[0]) != bool(v):
                    return True
                continue
            facts[a] = v
        self._spell(facts, e)
        return self._entails(facts, e, depth, 4)

    NONLIN = ("min", "max", "satsub", "div", "trunc", "satmul", "satadd")

    def _spell(self, facts, e):
        """add what the non-linear operations among the facts mean, as linear facts"""
        todo = [e]
        for f, v in list(facts.items()):
            if isinstance(f, T) and f.k == "op" and f.a[0] in ("ltz", "eqz"):
                todo.append(f.a[1])
                if f.a[0] == "eqz" and not v:
                    # a whole number that is not zero and not below (above) it is at least (at most) one
                    x = f.a[1]
                    for y in (x, scale(x, -1)):
                        if facts.get(lt(y, ZERO)) == 0 or facts.get(lt(scale(y, -1), ONE)) == 1:
                            self._assume(facts, lt(y, ONE), 0)
        seen = set()
        while todo:
            x = todo.pop()
            for t, _ in lin_parts(x)[1]:
                if t in seen or t.k != "op" or t.a[0] not in self.NONLIN:
                    continue
                seen.add(t)
                for l in lemmas(t):
                    self._assume(facts, lt(ZERO, l), 0)
                    todo.append(l)
                if t.a[0] == "trunc":
                    todo.append(t.a[2])
        for t in seen:
            if t.a[0] == "trunc" and prove(self.eng, facts, self.t.neq, lt(t.a[2], I(1 << t.a[1])), 2):
                self._assume(facts, lt(t, t.a[2]), 0)

    @staticmethod
    def _assume(facts, a, v):
        if a.k == "op" and a.a[0] == "not":
            a, v = a.a[1], 1 - v
        if a.k != "int":
            facts.setdefault(a, v)

    def _entails(self, facts, e, depth, splits):
        if e.k == "int":
            return e.a[0] <= 0
        if contradiction(facts, self.t.neq, sub(ONE, e), depth):
            return True
        if splits == 0:
            return False
        c, it = lin_parts(e)
        for t, k in it:
            if t.k != "op":
                continue
            if t.a[0] == "satsub":
                a, b = t.a[1], t.a[2]
                cases = [(lt(a, b), 1, ZERO), (lt(a, b), 0, sub(a, b))]
            elif t.a[0] == "min" and len(t.a) >= 3:
                a = t.a[1]
                b = t.a[2] if len(t.a) == 3 else op("min", *t.a[2:])
                cases = [(lt(b, a), 0, a), (lt(b, a), 1, b)]
            else:
                continue
            good = True
            for atom, v, r in cases:
                if atom.k == "int":
                    if atom.a[0] != v:
                        continue
                    f2 = facts
                else:
                    if atom in facts and facts[atom] != v:
                        continue
                    f2 = dict(facts)
                    f2[atom] = v
                e2 = add(sub(e, scale(t, k)), scale(r, k))
                f2 = self._subst(f2, t, r)
                if f2 is None:
                    continue
                if not self._entails(f2, e2, depth, splits - 1):
                    # or the case itself cannot happen
                    d = atom.a[1] if atom.k == "op" and atom.a[0] == "ltz" else None
                    if d is not None and contradiction({x: y for x, y in f2.items() if x is not atom}, self.t.neq, add(d, ONE) if v else scale(d, -1), depth):
                        continue
                    good = False
                    break
            if good:
                return True
        return False

    @staticmethod
    def _subst(facts, t, r):
        """the facts with what they say about t also said about r, which equals it; None if that is impossible"""
        out = None
        for f, v in facts.items():
            if isinstance(f, T) and f.k == "op" and f.a[0] in ("ltz", "eqz"):
                for x, k in lin_parts(f.a[1])[1]:
                    if x is t:
                        y = add(sub(f.a[1], scale(t, k)), scale(r, k))
                        g = lt(y, ZERO) if f.a[0] == "ltz" else eqz(y)
                        w = v
                        if g.k == "op" and g.a[0] == "not":
                            g, w = g.a[1], 1 - w
                        if g.k == "int":
                            if bool(g.a[0]) != bool(w):
                                return None
                        elif g not in facts:
                            if out is None:
                                out = dict(facts)
                            out[g] = w
                        elif bool(facts[g]) != bool(w):
                            return None
        return out or facts

    def le(self, a, b, hyps=()):
        return self.entails(sub(a, b), hyps)

    def equal(self, a, b, hyps=()):
        return self.same(a, b) or (self.le(a, b, hyps) and self.le(b, a, hyps))

    def same(self, a, b):
        """a == b on this path (structurally or by facts)"""
        if a is b:
            return True
        if a.k == "agg" and b.k == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
            return all(self.same(x, y) for x, y in zip(a.a[2], b.a[2]))
        va, vb = self.val(a), self.val(b)
        if va is not None and vb is not None:
            return va == vb
        try:
            return self.truth(eq(a, b)) is True
        except Exception:
            return False

    def variants(self, term, role):
        """set of variant names (of the role's own vocabulary) the value may have on this path"""
        P = self.P
        if role in STD:
            names = STD[role][1]
            ds = list(range(len(names)))
        else:
            a = P.F.adts[P.adt(role)]
            names = [v["name"] for v in a["variants"]]
            ds = [v["discr"] for v in a["variants"]]
            back = {}
            for n in ADTS[role][1].split():
                back[names[P.member_ix(role, n)]] = n
            names = [back.get(n, n) for n in names]
        if term.k == "agg" and len(term.a[2]) >= 0 and not str(term.a[0]).startswith("yx::"):
            return {names[term.a[1]]}
        d = self.eng.discr(term)
        if d.k == "int":
            return {n for n, x in zip(names, ds) if x == d.a[0]}
        v = self.t.facts.get(d)
        if v is not None:
            return {n for n, x in zip(names, ds) if x == v}
        nq = self.t.neq.get(d, ())
        return {n for n, x in zip(names, ds) if x not in nq}

    def is_(self, term, role, variant):
        return self.variants(term, role) == {variant}

    def may(self, term, role, variant):
        return variant in self.variants(term, role)

    # ---------------------------------------------------------- results
    def shapes(self, term, *roles):
        """possible nestings, e.g. shapes(ret,'Poll','Result') -> [('Ready','Ok',payload), ('Pending',)]"""
        out = []
        if not roles:
            return [(term,)]
        role = roles[0]
        for v in sorted(self.variants(term, role)):
            if v in ("Pending", "None"):
                out.append((v,))
                continue
            e = self.P.el("%s.%s.0" % (role, v))
            p = project(term, e)
            if v == "Err":
                out.append((v, p))
                continue
            for s in self.shapes(p, *roles[1:]):
                out.append((v,) + s)
        return out

    def cases(self, term, *roles):
        """the path, split by the nesting the term has (Poll/Option/Result): [path]"""
        if not roles:
            return [self]
        vs = sorted(self.variants(term, roles[0]))
        out = []
        for v in vs:
            tr = self
            if len(vs) > 1:
                s = self._st()
                s.facts, s.neq = dict(s.facts), dict(s.neq)
                ix = [x["discr"] for x in self.eng.variants(self.P.adt(roles[0])) if x["name"] == v][0]
                if not self.eng.assume(s, eqz(sub(self.eng.discr(term), I(ix))), 1):
                    continue
                t = copy.copy(self.t)
                t.facts, t.neq = s.facts, s.neq
                tr = Tr(self.P, t, self.entry, self.ix)
            if v in ("Pending", "None", "Err") or len(roles) == 1 and roles[0] not in STD:
                out.append(tr)
            else:
                out += tr.cases(project(term, self.P.el("%s.%s.0" % (roles[0], v))), *roles[1:])
        return out

    def assuming(self, atom, b):
        """the path with the atom assumed true or false: [] if that contradicts what is known"""
        s = self._st()
        s.facts, s.neq = dict(s.facts), dict(s.neq)
        if not self.eng.assume(s, atom, 1 if b else 0):
            return []
        t = copy.copy(self.t)
        t.facts, t.neq = s.facts, s.neq
        return [Tr(self.P, t, self.entry, self.ix)]

    def outcome(self, *roles):
        """shapes of the return value without payloads: set of tuples of strings"""
        res = {}
        for s in self.shapes(self.ret, *roles):
            names = tuple(x for x in s if isinstance(x, str))
            pay = [x for x in s if not isinstance(x, str)]
            res[names] = pay[0] if pay else None
        return res

    # ---------------------------------------------------------- events
    def calls(self, names, selfty=None, lo=0, hi=None):
        """[(index, event)] of opaque calls by last name segment and receiver type"""
        out = []
        for i, e in enumerate(self.ev[lo:hi], lo):
            if e[0] == "call" and opname(e) in names and (selfty is None or re.search(selfty, e[6])):
                out.append((i, e))
        return out

    def sections(self, cls):
        """lock sections of a class: list of Sec"""
        if cls in self._sec:
            return self._sec[cls]
        out = []
        opened = {}
        for i, e in enumerate(self.ev):
            if e[0] in ("lock", "trylock"):
                opened.setdefault(e[1], []).append((i, e))
            elif e[0] == "unlock":
                if opened.get(e[1]):
                    j, l = opened[e[1]].pop()
                    if re.search(cls, l[2]):
                        out.append(Sec(self, l[1], l[4], e[3], j, i, l[3]))
        for loc, st in opened.items():
            for j, l in st:
                if re.search(cls, l[2]):
                    out.append(Sec(self, l[1], l[4], None, j, None, l[3]))
        out.sort(key=lambda s: s.i0)
        self._sec[cls] = out
        return out

    def shared(self):
        return self.sections("(^|::)" + self.P.adt("Shared").split("::")[-1] + "$")

    def writes(self, elem):
        """[(i, root, path, old, new, site)] of writes whose path ends at or passes the element"""
        out = []
        for i, e in enumerate(self.ev):
            if e[0] == "w" and elem in e[2]:
                out.append((i,) + e[1:])
        return out

    def wakes(self):
        return [(i, e[1], e[2]) for i, e in enumerate(self.ev) if e[0] == "wake"]

    def sends(self):
        """commands handed to a stream's command queue: [(i, value, ret, site)]"""
        out = []
        for i, e in enumerate(self.ev):
            if e[0] == "call" and opname(e) in ("start_send", "try_send") and "mpsc::Sender<" in e[6]:
                out.append((i, e[4][-1] if opname(e) == "try_send" else e[4][1], e[5], e[7]))
        return out

    def socket(self, names, lo=0, hi=None):
        return self.calls(names, r"frame::io::Io<|%s<" % re.escape(self.P.adt("Io")), lo, hi)

    def inframes(self):
        """index of the reception of a frame and the frame's symbol (None when none on this path)"""
        out = []
        for i, e in enumerate(self.ev):
            if e[0] == "cut":
                out.append(i)
        return out

    # ---------------------------------------------------------- values of places
    def _stl(self):
        s = Tr.SL()
        s.heap, s.byc = self.t.heap, self.t.locs
        return s

    class SL(object):
        __slots__ = ("heap", "byc")

    def fin(self, root, path=()):
        """value of a place at the end of the path"""
        if path and path[-1].kind == "w":
            r, p, lo, hi = self.eng.window(self.eng.load(self._stl(), root, path[:-1]))
            if path[-1].name == "lo":
                return lo
            return lenof(self.eng.load(self._stl(), r, p)) if hi is None else hi
        return self.eng.load(self._stl(), root, path)

    def at(self, i, root, path=()):
        """value of a heap place just before event i (None = end)"""
        if i is None:
            i = len(self.ev)
        vals = {}
        lo = 0
        s = Tr.SL()
        s.heap, s.byc = {}, {}
        for e in self.ev[:i]:
            if e[0] == "cut":
                s.heap = dict(self.eng.cutsnap[e[2]][0])
            elif e[0] in ("w", "h") and e[1] == root:
                x = e[4] if e[0] == "w" else e[3]
                if e[2]:
                    x = self.eng.upd_path(self.eng.rootval(s, root), e[2], x)
                s.heap[root] = x
        return self.eng.load(s, root, path)

    def me(self):
        """the root of `self`"""
        return ("D", mk("sym", ("arg", 1)))

    def actroot(self):
        """(root, path) of the Active value the path works on, or None"""
        own = self.P.adt("Active")
        for e in reversed(self.ev):
            rp = None
            if e[0] == "w":
                rp = (e[1], e[2])
            elif e[0] == "call" and e[2] is not None:
                rp = e[2]
            if rp:
                for j, x in enumerate(rp[1]):
                    if x.kind == "f" and x.owner == own:
                        return rp[0], rp[1][:j]
        return None

    def act(self, field):
        """final value of Active.<field>"""
        r = self.actroot()
        if r is None:
            return None
        return self.fin(r[0], r[1] + (self.P.el("Active." + field),))

    def act0(self, field):
        """value of Active.<field> at the start of the path"""
        el = self.P.el("Active." + field)
        for e in self.ev:
            if e[0] == "w" and e[2] and e[2][-1] is el:
                return e[3]
        return self.act(field)

    def describe(self, limit=40):
        ls = ["entry: %s" % self.P.key(self.entry), "path ending: %s %s" % (self.kind, self.t.msg or "")]
        if self.ret is not None:
            ls.append("returns: %s" % short(self.ret, 300))
        ls.append("path condition:")
        n = 0
        for k, v in self.t.facts.items():
            if isinstance(k, tuple):
                continue
            ls.append("  %s = %s" % (short(k), v))
            n += 1
            if n > limit:
                break
        for k, v in self.t.neq.items():
            ls.append("  %s not in %s" % (short(k), sorted(v)))
        ls.append("events:")
        n = 0
        for e in self.ev:
            s = fmt(e)
            if s:
                ls.append("  " + s)
                n += 1
                if n > 120:
                    break
        return "\n".join(ls)


def short(t, n=220):
    s = repr(t)
    return s if len(s) <= n else s[:n] + "..."


def at(site):
    return "%s in %s" % (site[1], site[0]) if isinstance(site, tuple) and len(site) == 2 else str(site)


def fmt(e):
    k = e[0]
    if k == "w":
        if e[1][0] == "L":
            return None
        return "write %s: %s -> %s  (%s)" % (TM.show_loc(e[1], e[2])[:120], short(e[3], 120), short(e[4], 160), at(e[5]))
    if k == "call":
        return "call %s(%s) -> %s  (%s)" % (e[1].split("::")[-1], ", ".join(short(x, 90) for x in e[4]), short(e[5], 60), at(e[7]))
    if k in ("lock", "trylock"):
        return "%s %s  (%s)" % (k, e[2], at(e[3]))
    if k == "unlock":
        return "unlock"
    if k == "wake":
        return "wake %s  (%s)" % (short(e[1], 100), at(e[2]))
    if k == "cut":
        return "(a frame was received)"
    return None


class Sec(object):
    """a critical section: protected value before and after"""
    __slots__ = ("tr", "loc", "v0", "v1", "i0", "i1", "site")

    def __init__(self, tr, loc, v0, v1, i0, i1, site):
        self.tr, self.loc, self.v0, self.v1, self.i0, self.i1, self.site = tr, loc, v0, v1, i0, i1, site

    def arc(self):
        return self.loc[0][1] if self.loc[0][0] == "A" else None

    def contains(self, i):
        return self.i0 <= i and (self.i1 is None or i <= self.i1)


class Result(object):
    """obligations of one rule run"""

    def __init__(self, P, pid):
        self.P, self.pid = P, pid
        self.n = 0
        self.okc = 0
        self.viol = {}
        self.byrule = {}
        self.samples = {}

    def ob(self, ok, rule, what="", tr=None, site=None):
        """one obligation: `rule` is the rule id, `what` describes the violated instance"""
        self.n += 1
        c = self.byrule.setdefault(rule, [0, 0])
        c[0] += 1
        if ok:
            self.okc += 1
            c[1] += 1
            return True
        fn = site[0] if isinstance(site, tuple) else (self.P.key(tr.entry) if tr else "")
        key = "%s | %s | %s" % (rule, what, fn)
        if key not in self.viol:
            self.viol[key] = (rule, what, tr, site)
        return False

    def floor(self, rule, n=1):
        """the rule must have had at least n instances"""
        got = self.byrule.get(rule, [0, 0])[0]
        if got < n:
            key = "%s | only %d instance(s) of this rule were found, at least %d expected" % (rule, got, n)
            self.viol[key] = (rule, "only %d instance(s) were found where at least %d are expected: the code no longer does this at all, or in no analysable place" % (got, n), None, None)
            self.n += 1
            self.byrule.setdefault(rule, [0, 0])[0] += 1

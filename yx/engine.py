"""Path-sensitive abstract interpretation of resolved MIR.

State  = call stack (all private functions inlined) + store (location -> value term) + facts
         (branch outcomes over terms) + ordered event list.
Forks  = at branches undecided by the facts.  Loops are summarised: at a loop head every location
         that the body may change is replaced by a fresh phi symbol (fixpoint over the set of
         changed locations), each iteration is analysed once from that general state and cut at the
         back edge.  No program code is executed and no solver is called.
"""
import re
import sys

from .term import *
from . import term as TM


class Abort(Exception):
    pass


class Fn(object):
    def __init__(self, j, facts):
        self.j = j
        self.key = j["key"]
        self.argc = j["argc"]
        self.blocks = j["blocks"]
        self.locals = j["locals"]
        self.local = j.get("local", False)
        self.path = j.get("path", self.key)
        self._cfg = self._slots = None
        self._live = None
        self.F = facts

    def succ(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[5]]
        return []

    def slot_loops(self):
        """heads of the short loops that end when a call answers None"""
        if self._slots is None:
            self._slots = set()
            bodies = self.cfg[2]
            for h, body in bodies.items():
                if len(body) > 20:
                    continue
                for b in body:
                    t = self.blocks[b]["t"]
                    if t[0] != "call" or t[4] not in body or self.F.types[t[6]].get("name") != "std::option::Option":
                        continue
                    n = self.blocks[t[4]]
                    if n["t"][0] == "switch" and any(s[0] == "=" and s[2][0] == "discr" and s[2][1] == t[3] for s in n["s"]) \
                            and any(x not in body for x in self.succ(t[4])):
                        self._slots.add(h)
        return self._slots

    @property
    def cfg(self):
        if self._cfg is None:
            n = len(self.blocks)
            succ = [self.succ(b) if self.blocks[b] else [] for b in range(n)]
            # reachable, preds
            reach, st = set(), [0]
            while st:
                b = st.pop()
                if b in reach:
                    continue
                reach.add(b)
                st.extend(succ[b])
            preds = {b: [] for b in reach}
            for b in reach:
                for s in succ[b]:
                    preds[s].append(b)
            # back edges by DFS
            heads = {}
            color = {}
            stack = [(0, iter(succ[0]))]
            color[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    c = color.get(s, 0)
                    if c == 0:
                        color[s] = 1
                        stack.append((s, iter(succ[s])))
                        break
                    if c == 1:
                        heads.setdefault(s, set()).add(b)
                else:
                    color[b] = 2
                    stack.pop()
            bodies = {}
            for h, srcs in heads.items():
                body, st = {h}, list(srcs)
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(preds[x])
                bodies[h] = body
            self._cfg = (succ, preds, bodies)
        return self._cfg

    def live_in(self):
        """locals possibly read (or address-taken anywhere) at block entry"""
        if self._live is None:
            succ, preds, _ = self.cfg
            taken = set()
            use, dfn = {}, {}

            def pl_uses(p, u, d, write):
                l, pr = p
                if write and not pr:
                    if l not in u:
                        d.add(l)
                else:
                    if l not in d:
                        u.add(l)
                for e in pr:
                    if e[0] == "i" and e[1] not in d:
                        u.add(e[1])

            def op_uses(o, u, d):
                if o[0] in ("c", "m"):
                    pl_uses(o[1], u, d, False)

            for b in preds:
                u, d = set(), set()
                blk = self.blocks[b]
                for s in blk["s"]:
                    if s[0] == "=":
                        r = s[2]
                        k = r[0]
                        if k in ("use", "rep"):
                            op_uses(r[1], u, d)
                        elif k == "ref":
                            pl_uses(r[2], u, d, False)
                            if not any(e[0] == "*" for e in r[2][1]):
                                taken.add(r[2][0])
                        elif k == "cast":
                            op_uses(r[2], u, d)
                        elif k == "bin":
                            op_uses(r[2], u, d)
                            op_uses(r[3], u, d)
                        elif k == "un":
                            op_uses(r[2], u, d)
                        elif k == "discr":
                            pl_uses(r[1], u, d, False)
                        elif k == "agg":
                            for o in r[4]:
                                op_uses(o, u, d)
                        pl_uses(s[1], u, d, True)
                    elif s[0] == "sd":
                        pl_uses(s[1], u, d, False)
                t = blk["t"]
                if t[0] == "switch":
                    op_uses(t[1], u, d)
                elif t[0] == "drop":
                    pl_uses(t[1], u, d, False)
                elif t[0] == "call":
                    op_uses(t[1], u, d)
                    for o in t[2]:
                        op_uses(o, u, d)
                    pl_uses(t[3], u, d, True)
                elif t[0] == "assert":
                    op_uses(t[1], u, d)
                    for o in t[4]:
                        op_uses(o, u, d)
                elif t[0] == "ret":
                    u.add(0)
                use[b], dfn[b] = u, d
            live = {b: set(use[b]) for b in preds}
            ch = True
            while ch:
                ch = False
                for b in preds:
                    n = set(use[b])
                    for s in succ[b]:
                        n |= live[s] - dfn[b]
                    if n != live[b]:
                        live[b] = n
                        ch = True
            self._live = (live, taken)
        return self._live


class Facts(object):
    """the fact file of one build"""

    def __init__(self, j):
        self.j = j
        self.types = j["types"]
        self.adts = {n: a for n, a in j["adts"]}
        self.fns = {f["key"]: Fn(f, self) for f in j["fns"]}
        self.roots = j["roots"]
        self.consts = {c[0]: (c[1], c[2]) for c in j["consts"]}
        self.impls = j["impls"]
        for t in self.types:
            t["canon"] = t["s"]

    def ts(self, ix):
        return self.types[ix]["s"]

    def find_impl(self, trait, selfre, method):
        out = []
        for k in self.roots:
            f = self.fns.get(k)
            if not f:
                continue
            tr = f.j.get("impl_trait")
            if tr is None or not re.search(trait, tr):
                continue
            if f.path.split("::")[-1].split("<")[0] != method:
                continue
            s = self.ts(f.j["impl_self"])
            if re.search(selfre, s):
                out.append(k)
        return out

    def find_inherent(self, selfre, method):
        out = []
        for k in self.roots:
            f = self.fns.get(k)
            if not f or f.j.get("impl_trait") is not None or "impl_self" not in f.j:
                continue
            if f.path.split("::")[-1].split("<")[0] != method:
                continue
            if re.search(selfre, self.ts(f.j["impl_self"])):
                out.append(k)
        return out


class Frame(object):
    __slots__ = ("fn", "bb", "cs", "loc", "dest", "ret", "active", "snaps", "post", "it", "ip")

    def __init__(self):
        self.it = self.ip = 0

    @property
    def pt(self):
        """names the current block; tells the rounds of an unrolled loop apart"""
        return (self.bb, self.it) if self.it else self.bb

    def copy(self):
        f = Frame()
        f.fn, f.bb, f.cs, f.dest, f.ret, f.active, f.post = self.fn, self.bb, self.cs, self.dest, self.ret, self.active, self.post
        f.loc = dict(self.loc)
        f.snaps, f.it, f.ip = self.snaps, self.it, self.ip
        return f


class State(object):
    __slots__ = ("fr", "heap", "facts", "neq", "ev", "byc", "conds")

    def copy(self):
        s = State()
        s.fr = [f.copy() for f in self.fr]
        s.byc = {f.cs: f for f in s.fr}
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.neq = dict(self.neq)
        s.ev = self.ev
        s.conds = self.conds
        return s


NIL = mk("nil")
BOOLBIN = {"BitAnd", "BitOr", "BitXor", "Eq", "Ne"}


class Trace(object):
    """one summarised path: facts, events, ending"""
    __slots__ = ("kind", "ret", "ev", "facts", "neq", "heap", "site", "entry", "eng", "loops", "msg", "head", "locs", "_idx")

    def lenev(self):
        return len(self.ev)


CANON = re.compile(r"::\{impl#\d+\}")


def canon(vpath):
    return CANON.sub("", vpath)


STDENUM = ("std::option::Option", "std::result::Result", "std::task::Poll")


class Snap(object):
    __slots__ = ("facts", "neq")

    def __init__(self, facts, neq):
        self.facts, self.neq = facts, neq


class Engine(object):
    def __init__(self, facts, boundary=(), oblig=False, max_traces=60000, max_steps=6000000):
        self.F = facts
        self.boundary = boundary      # predicate(callee dict) -> opaque name or None
        self.oblig = oblig
        self.cutframes = True
        self.max_traces = max_traces
        self.max_steps = max_steps
        self.cstab = {}
        self.csrev = []
        self.opaque = {}
        self.unmodelled = set()
        self.fncov = set()
        self.H = {}
        self.nsteps = 0
        self._promo = {}
        self.slices = set()           # pointer arguments to slices
        self._blocks = set()
        from . import models
        self.models = models.TABLE
        self.M = models

    # ---------------------------------------------------------------- types / constants
    def adt(self, name):
        return self.F.adts.get(name)

    def adt_local(self, name):
        a = self.F.adts.get(name)
        return bool(a and a["local"])

    def elem(self, pe, variant, vname):
        # ["f", ix, name, ty, owner]
        return E(pe[4] or "tuple", variant, pe[1], pe[2], vname)

    def const_val(self, tyix, v):
        k = v["k"]
        ty = self.F.types[tyix]
        if k == "int":
            return I(int(v["v"]))
        if k == "zst":
            if ty["k"] == "tuple" and not ty["args"]:
                return UNIT
            if ty["k"] == "adt" and ty.get("name"):
                a = self.adt(ty["name"])
                if a and not a["enum"]:
                    fs = tuple(mk("zst") for _ in a["variants"][0]["fields"]) if a["variants"] else ()
                    return mk("agg", ty["name"], 0, fs)
            if ty["k"] == "closure":
                return mk("agg", "closure:" + ty["name"], 0, ())
            return mk("zst")
        if k == "str":
            return mk("str", v["v"])
        if k == "agg":
            tag = "tuple" if ty["k"] == "tuple" else "array" if ty["k"] == "array" else ty.get("name", "?")
            fs = tuple(self.const_val(t, x) for t, x in v["fields"])
            if ty["k"] == "array":
                return mk("agg", "array", 0, fs)
            return mk("agg", tag, v["variant"], fs)
        if k == "fn":
            v["c"].setdefault("ty", tyix)
            return self.fnterm(v["c"])
        t = mk("sym", ("const", str(v.get("v"))[:80], self.F.ts(tyix)))
        return t

    def fnterm(self, c):
        key = c.get("inst") or c.get("path") or c["orig"]
        t = mk("fn", key)
        self.__dict__.setdefault("_fnc", {})[t] = c
        return t

    def operand(self, st, fr, o):
        k = o[0]
        if k == "k":
            v = o[2]
            if v["k"] == "promoted":
                return self.promoted(v["fn"])
            return self.const_val(o[1], v)
        root, path = self.place(st, fr, o[1])
        return self.load(st, root, path)

    def promoted(self, key):
        r = self._promo.get(key)
        if r is None:
            f = self.F.fns[key]
            st = State()
            st.heap, st.facts, st.neq, st.ev, st.conds = {}, {}, {}, NIL, NIL
            fr = Frame()
            fr.fn, fr.bb, fr.cs, fr.loc, fr.dest, fr.ret, fr.active, fr.snaps, fr.post = f, 0, ("promo", key), {}, None, None, frozenset(), {}, None
            st.fr = [fr]
            st.byc = {fr.cs: fr}
            b = 0
            for _ in range(50):
                blk = f.blocks[b]
                for s in blk["s"]:
                    self.stmt(st, fr, s)
                t = blk["t"]
                if t[0] == "goto":
                    b = t[1]
                elif t[0] == "ret":
                    break
                elif t[0] == "call":
                    # constructor-like call in a promoted
                    c = t[1][2].get("c", {}) if t[1][0] == "k" else {}
                    args = [self.operand(st, fr, a) for a in t[2]]
                    v = mk("sym", ("promo", key, b))
                    h = canon(c.get("vpath") or c.get("orig", ""))
                    if h == "core::ops::range::new" and len(args) == 2:
                        v = mk("agg", "std::ops::RangeInclusive", 0, tuple(args) + (ZERO,))
                    elif h.startswith("core::time::from_") and args and all(isint(a) for a in args):
                        v = op("dur." + h.split("::")[-1], *args)
                    self.store(st, *self.place(st, fr, t[3]), v, None)
                    b = t[4]
                else:
                    break
            v = fr.loc.get(0, mk("sym", ("promo", key)))
            if v.k == "ref":
                inner = self.load(st, v.a[0], v.a[1])
                v = mk("ref", ("V", inner), ())
            r = self._promo[key] = v
        return r

    # ---------------------------------------------------------------- memory
    def place(self, st, fr, p):
        root = ("L", fr.cs, p[0])
        path = ()
        variant, vname = 0, None
        for e in p[1]:
            k = e[0]
            if k == "*":
                v = self.load(st, root, path)
                root, path = self.deref(v)
                variant, vname = 0, None
            elif k == "f":
                path = path + (self.elem(e, variant, vname),)
                variant, vname = 0, None
            elif k == "d":
                variant, vname = e[1], e[2]
            elif k == "i":
                path = path + (EI(fr.loc[e[1]]),)
            elif k == "ci":
                if e[3]:
                    v = self.load(st, root, path)
                    path = path + (EI(sub(lenof(v), I(e[1]))),)
                else:
                    path = path + (EI(I(e[1])),)
            elif k == "ss":
                v = self.load(st, root, path)
                n = lenof(v)
                path = path + (ER(I(e[1]), sub(n, I(e[2])) if e[3] else I(e[2])),)
            else:
                path = path + (E("?", 0, "?" + str(e)),)
        return root, path

    def deref(self, v):
        if v.k == "ref":
            return v.a[0], v.a[1]
        if v.k == "agg" and v.a[0] == "yx::Guard":
            g = v.a[2][0]
            return g.a[0], g.a[1]
        return ("D", v), ()

    def rootval(self, st, root):
        k = root[0]
        if k == "L":
            f = st.byc.get(root[1])
            if f is None:
                return mk("sym", ("dead", str(root[1]), root[2]))
            v = f.loc.get(root[2])
            if v is None:
                v = mk("sym", ("uninit", str(root[1]), root[2]))
            return v
        v = st.heap.get(root)
        if v is not None:
            return v
        if k == "V":
            return root[1]
        if k == "D":
            return mk("der", root[1])
        if k == "A":
            return mk("sym", ("arcin", root[1]))
        return mk("sym", ("root",) + root)

    def load(self, st, root, path):
        v = self.rootval(st, root)
        for e in path:
            v = project(v, e)
        return v

    def upd_path(self, v, path, x):
        if not path:
            return x
        e = path[0]
        if len(path) == 1:
            return update(v, e, x)
        return update(v, e, self.upd_path(project(v, e), path[1:], x))

    def store(self, st, root, path, x, site, log=True):
        old = self.rootval(st, root) if path else None
        if not log and root[0] != "L":
            # value changed by something other than an assignment of the analysed code
            st.ev = mk("ev", st.ev, ("h", root, path, x))
        if log and site is not None:
            if root[0] != "L" or any(e.kind == "f" and self.adt_local(e.owner) for e in path):
                o = self.load(st, root, path)
                if o is not x:
                    st.ev = mk("ev", st.ev, ("w", root, path, o, x, site))
        if path:
            x = self.upd_path(old, path, x)
        if root[0] == "L":
            f = st.byc.get(root[1])
            if f is not None:
                f.loc[root[2]] = x
        else:
            st.heap[root] = x

    def snap(self, st):
        """what is known at this point"""
        return Snap(dict(st.facts), dict(st.neq))

    def event(self, st, *e):
        st.ev = mk("ev", st.ev, e)

    # ---------------------------------------------------------------- facts
    def variants(self, adtname):
        a = self.adt(adtname)
        return a["variants"] if a else None

    def discr(self, v, tyix=None):
        if v.k == "agg":
            a = self.adt(v.a[0])
            if a and a["enum"]:
                return I(a["variants"][v.a[1]]["discr"])
            return I(v.a[1])
        if v.k == "upd":
            return self.discr(v.a[0], tyix)
        t = op("discr", v)
        if tyix is not None and t.nv is None:
            ty = self.F.types[tyix]
            if ty["k"] == "adt":
                a = self.adt(ty["name"])
                if a and a["enum"]:
                    t.nv = tuple(x["discr"] for x in a["variants"])
                    t.ty = "discr:" + ty["name"]
        return t

    def decide(self, st, t):
        """value of t if known: int or None"""
        if t.k == "int":
            return t.a[0]
        f = st.facts.get(t)
        if f is not None:
            return f
        if t.k == "op":
            n = t.a[0]
            if n == "not":
                v = self.decide(st, t.a[1])
                return None if v is None else 1 - v
            if n == "eqz":
                c, it = lin_parts(t.a[1])
                if len(it) == 1 and it[0][1] == 1:
                    x = it[0][0]
                    v = st.facts.get(x)
                    if v is not None:
                        return 1 if v + c == 0 else 0
                    if -c in st.neq.get(x, ()):
                        return 0
                    # x < k facts
                    for k2 in ():
                        pass
                # implied by strict order facts
                if st.facts.get(op("ltz", t.a[1])) == 1:
                    return 0
            if n in ("ltz", "eqz"):
                r = self.quick(st, t)
                if r is not None:
                    return r
                if n == "ltz":
                    if contradiction(st.facts, st.neq, add(t.a[1], ONE), 2):
                        return 0
                    if contradiction(st.facts, st.neq, scale(t.a[1], -1), 2):
                        return 1
            if n == "has":
                return self.has_decide(st, t)
        nq = st.neq.get(t)
        if nq and t.nv:
            left = [x for x in t.nv if x not in nq]
            if len(left) == 1:
                return left[0]
        return None

    def has_decide(self, st, t):
        m, k = t.a[1], t.a[2]
        if m.k == "op":
            if m.a[0] == "emptymap":
                return 0
            if m.a[0] == "ins":
                if m.a[2] is k:
                    return 1
            if m.a[0] == "rem":
                if m.a[2] is k:
                    return 0
        return None

    def quick(self, st, t):
        """cheap single-fact consequences for ltz/eqz atoms: compare against facts over the same
        linear part"""
        c, it = lin_parts(t.a[1])
        if len(it) == 1:
            x, k = it[0]
            if k == 1:
                v = st.facts.get(x)
                if v is not None:
                    if t.a[0] == "ltz":
                        return 1 if v + c < 0 else 0
                    return 1 if v + c == 0 else 0
        lo, hi = self.bounds_same(st, it)
        if t.a[0] == "ltz":
            # sum + c < 0
            if hi is not None and hi + c < 0:
                return 1
            if lo is not None and lo + c >= 0:
                return 0
        else:
            if hi is not None and hi + c < 0:
                return 0
            if lo is not None and lo + c > 0:
                return 0
            if lo is not None and lo == hi and lo + c == 0:
                return 1
        return None

    def bounds_same(self, st, it):
        lo = hi = None
        key = tuple(it)
        d = st.facts.get(("lin", key))
        if d:
            lo, hi = d
        if len(it) == 1 and it[0][1] == 1:
            if lo is None or lo < 0:
                lo = 0
            x = it[0][0]
            nq = st.neq.get(x)
            if nq:
                while lo in nq:
                    lo += 1
        return lo, hi

    def assume(self, st, t, v):
        """record t = v; False when contradictory"""
        if t.k == "int":
            return t.a[0] == v
        d = self.decide(st, t)
        if d is not None:
            if d != v:
                return False
            if t in st.facts:
                return True
        if t.k == "op":
            n = t.a[0]
            if n == "not":
                return self.assume(st, t.a[1], 1 - v)
            if n == "eqz":
                c, it = lin_parts(t.a[1])
                if len(it) == 1 and it[0][1] == 1:
                    x = it[0][0]
                    if v == 1:
                        return self.assume_val(st, x, -c)
                    nq = st.neq.get(x, frozenset())
                    st.neq[x] = nq | {-c}
                    self.cond(st, t, 0)
                    if x.nv:
                        left = [y for y in x.nv if y not in st.neq[x]]
                        if not left:
                            return False
                        if len(left) == 1:
                            st.facts[x] = left[0]
                    return True
                key = ("lin", tuple(it))
                if v == 1:
                    st.facts[key] = (-c, -c)
            elif n == "ltz":
                c, it = lin_parts(t.a[1])
                lo, hi = self.bounds_same(st, it)
                # sum + c < 0  <=> sum <= -c-1 ; else sum >= -c
                if v == 1:
                    hi = -c - 1 if hi is None else min(hi, -c - 1)
                else:
                    lo = -c if lo is None else max(lo, -c)
                if lo is not None and hi is not None and lo > hi:
                    return False
                st.facts[("lin", tuple(it))] = (lo, hi)
                if lo is not None and lo == hi and len(it) == 1 and it[0][1] == 1:
                    st.facts[it[0][0]] = lo
        st.facts[t] = v
        self.cond(st, t, v)
        return True

    def cond(self, st, t, v):
        st.conds = mk("cond", st.conds, t, v)

    def assume_val(self, st, x, v):
        d = st.facts.get(x)
        if d is not None:
            return d == v
        if v in st.neq.get(x, ()):
            return False
        if x.nv and v not in x.nv:
            return False
        b = st.facts.get(("lin", ((x, 1),)))
        if b:
            lo, hi = b
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                return False
        st.facts[x] = v
        self.cond(st, x, v)
        return True

    # ---------------------------------------------------------------- statements
    def site(self, fr, sp):
        if sp is None:
            # inside an expanded library combinator: attribute to the innermost local frame
            return None
        return (fr.fn.key, sp)

    def where(self, st, sp=None):
        """source site for the current position (innermost frame that has spans)"""
        fr = st.fr[-1]
        if sp is not None:
            return (fr.fn.path, sp)
        for f in reversed(st.fr[:-1]):
            if f.fn.local:
                blk = f.fn.blocks[f.bb]
                t = blk["t"]
                s = t[-1]
                if isinstance(s, str):
                    return (f.fn.path, s)
        return (fr.fn.path, "?")

    def stmt(self, st, fr, s):
        k = s[0]
        if k == "=":
            site = self.where(st, s[3])
            self.assign(st, fr, s[1], s[2], site)
        elif k == "dead":
            fr.loc.pop(s[1], None)
        elif k == "sd":
            root, path = self.place(st, fr, s[1])
            self.store(st, root, path, op("setdiscr", self.load(st, root, path), I(s[2])), None)

    def assign(self, st, fr, pl, r, site):
        v = self.rvalue(st, fr, r, site)
        if not pl[1]:
            fr.loc[pl[0]] = v
        else:
            root, path = self.place(st, fr, pl)
            if v.k == "agg" and len(v.a[2]) <= 1:
                v = self.rewritten(st, self.load(st, root, path), v)
            self.store(st, root, path, v, site)

    def rewritten(self, st, old, v):
        """the old value when it is known to be the enum value that is being written"""
        if old.k not in ("fld", "der", "sym"):
            return v
        a = self.adt(v.a[0])
        if not a or not a["enum"]:
            return v
        x = a["variants"][v.a[1]]
        if self.decide(st, self.discr(old)) != x["discr"]:
            return v
        for i, y in enumerate(v.a[2]):
            o = project(old, E(v.a[0], v.a[1], i, x["fields"][i], x["name"]))
            if o is not y and not (y.k == "int" and self.decide(st, o) == y.a[0]):
                return v
        return old

    def tyof(self, ix):
        return self.F.types[ix]["s"]

    def settype(self, v, tyix):
        if v.ty is None and v.k in ("fld", "der", "sym", "op"):
            ty = self.F.types[tyix]
            if ty["k"] in ("int", "bool", "char"):
                v.ty = ty["s"]

    def rvalue(self, st, fr, r, site):
        k = r[0]
        if k == "use":
            v = self.operand(st, fr, r[1])
            if r[1][0] in ("c", "m"):
                pr = r[1][1][1]
                if pr and pr[-1][0] == "f":
                    self.settype(v, pr[-1][3])
            return v
        if k == "ref":
            root, path = self.place(st, fr, r[2])
            return mk("ref", root, path)
        if k == "discr":
            root, path = self.place(st, fr, r[1])
            return self.discr(self.load(st, root, path), r[2])
        if k == "cast":
            v = self.operand(st, fr, r[2])
            if r[1] == "int":
                t, f = self.F.types[r[3]], self.F.types[r[4]]
                if f["k"] == "adt":  # enum as integer
                    if v.k == "agg":
                        return self.discr(v)
                    d = self.discr(v, r[4])
                    return d
                if v.ty is None:
                    self.settype(v, r[4])
                return cast_int(v, f["s"], t["s"])
            if r[1].startswith("coerce") or r[1] in ("ptr", "sub", "transmute"):
                return v
            return op("cast", r[1], self.tyof(r[3]), v)
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            if r[1] in BOOLBIN and self.F.types[r[4]]["k"] == "bool":
                x, y = self.decide(st, a), self.decide(st, b)
                a, b = a if x is None else I(x), b if y is None else I(y)
            return self.binop(st, r[1], a, b, r[4], site)
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if self.F.types[r[3]]["k"] == "bool":
                    return bnot(a)
                return op("bitnot", a)
            if r[1] == "Neg":
                return op("neg", a)
            if r[1] == "PtrMetadata":
                root, path = self.deref(a)
                return lenof(self.load(st, root, path))
            return op("un:" + r[1], a)
        if k == "agg":
            fs = [self.operand(st, fr, o) for o in r[4]]
            ty = self.F.types[r[2]]
            if r[1] == "adt":
                a = self.adt(ty["name"])
                return agg(ty["name"], r[3], fs, enum=bool(a and a["enum"]))
            if r[1] == "tuple":
                return agg("tuple", 0, fs)
            if r[1] == "array":
                return mk("agg", "array", 0, tuple(fs))
            if r[1] == "closure":
                return mk("agg", "closure:" + (r[5] if len(r) > 5 else ty["name"]), 0, tuple(fs))
            if r[1] == "rawptr":
                return fs[0]
            return op("agg:" + r[1], *fs)
        if k == "rep":
            v = self.operand(st, fr, r[1])
            n = r[2]
            if n is not None and n <= 64:
                return mk("agg", "array", 0, tuple([v] * n))
            return op("rep", v, I(n) if n is not None else mk("sym", ("n",)))
        return mk("sym", ("rv", fr.cs, fr.pt, str(r)[:60]))

    def binop(self, st, o, a, b, tyix, site):
        ty = self.F.types[tyix]
        isnum = ty["k"] in ("int", "bool", "char")
        if isnum:
            if a.ty is None and a.k in ("fld", "der", "sym"):
                self.settype(a, tyix)
            if b.ty is None and b.k in ("fld", "der", "sym"):
                self.settype(b, tyix)
        if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if not isnum:
                if o in ("Eq", "Ne"):
                    x, y = sorted((a, b), key=lambda t: t.id)
                    e = ONE if x is y else op("eq", x, y)
                    return e if o == "Eq" else bnot(e)
                if o in ("Gt",):
                    return op("cmpb", b, a)
                if o == "Lt":
                    return op("cmpb", a, b)
                if o == "Le":
                    return bnot(op("cmpb", b, a))
                return bnot(op("cmpb", a, b))
            return self.cmp(o, a, b)
        if not isnum:
            return op("f:" + o, a, b)
        if o in ("Add", "AddUnchecked"):
            return add(a, b)
        if o in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if o in ("Mul", "MulUnchecked"):
            return mul(a, b)
        if o in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            w = WIDTH.get(ty["s"], 64)
            if o[0] == "A":
                x = add(a, b)
                ov = lt(I((1 << w) - 1), x)
            elif o[0] == "S":
                x = sub(a, b)
                ov = lt(a, b)
            else:
                x = mul(a, b)
                ov = lt(I((1 << w) - 1), x)
            return mk("agg", "tuple", 0, (x, ov))
        if o == "BitAnd":
            if ty["k"] == "bool":
                if a.k == "int":
                    return b if a.a[0] else ZERO
                if b.k == "int":
                    return a if b.a[0] else ZERO
                return op("and", a, b)
            return band(a, b)
        if o == "BitOr":
            if ty["k"] == "bool":
                if a.k == "int":
                    return ONE if a.a[0] else b
                if b.k == "int":
                    return ONE if b.a[0] else a
            return bor(a, b)
        if o == "BitXor":
            if isint(a) and isint(b):
                return I(a.a[0] ^ b.a[0])
            if isbool(a) and isint(b):
                return bnot(a) if b.a[0] else a
            if isbool(b) and isint(a):
                return bnot(b) if a.a[0] else b
            return op("xor", a, b)
        if o == "Rem":
            return rem(a, b)
        if o == "Div":
            return div(a, b)
        if o in ("Shl", "ShlUnchecked") and isint(b):
            return mul(a, I(1 << b.a[0])) if isint(a) else op("shl", a, b)
        if o in ("Shr", "ShrUnchecked") and isint(b):
            return div(a, I(1 << b.a[0]))
        return op("b:" + o, a, b)

    @staticmethod
    def cmp(o, a, b):
        if o == "Eq":
            return eq(a, b)
        if o == "Ne":
            return bnot(eq(a, b))
        if o == "Lt":
            return lt(a, b)
        if o == "Gt":
            return lt(b, a)
        if o == "Le":
            return bnot(lt(b, a))
        return bnot(lt(a, b))

    # ---------------------------------------------------------------- running
    def cskey(self, cs):
        i = self.cstab.get(cs)
        if i is None:
            i = self.cstab[cs] = len(self.csrev)
            self.csrev.append(cs)
        return i

    def run(self, key, args=None, init=None, pre=None, name=None):
        """analyse entry function `key`; returns list of Trace"""
        self.attempts = 0
        for attempt in range(40):
            self.traces = []
            self.dirty = False
            self.seen = set()
            self.attempts += 1
            self.bucket = {}
            self.cutdone = {}
            self.cutsnap = []
            self._run_once(key, args, init, pre)
            if not self.dirty:
                for t in self.traces:
                    t.entry = name or key
                    t.eng = self
                return self.traces
        raise Abort("loop fixpoint did not converge for " + key)

    def _run_once(self, key, args, init, pre):
        f = self.F.fns[key]
        st = State()
        st.heap, st.facts, st.neq, st.ev, st.conds = {}, {}, {}, NIL, NIL
        fr = Frame()
        fr.fn, fr.bb, fr.dest, fr.ret, fr.active, fr.snaps, fr.post = f, 0, None, None, frozenset(), {}, None
        fr.cs = self.cskey(("entry", key))
        fr.loc = {}
        st.fr = [fr]
        st.byc = {fr.cs: fr}
        names = {l: n for l, n in f.j.get("dbg", [])}
        for i in range(1, f.argc + 1):
            n = names.get(i, "arg%d" % i)
            if args and n in args:
                v = args[n]
            elif args and i in args:
                v = args[i]
            else:
                v = self.symarg(i, f.locals[i])
            fr.loc[i] = v
        if init:
            init(self, st)
        if pre:
            for t, v in pre:
                if not self.assume(st, t, v):
                    return
        work = [st]
        while work or self.bucket:
            if not work:
                for s in self.merge_cuts():
                    work.append(s)
                if not work:
                    continue
            s = work.pop()
            self.advance(s, work)
            if len(self.traces) > self.max_traces or self.nsteps > self.max_steps:
                raise Abort("analysis budget exceeded in %s (%d traces, %d steps)" % (key, len(self.traces), self.nsteps))
            if self.dirty and len(self.traces) > 400:
                return

    def symarg(self, i, tyix):
        ty = self.F.types[tyix]
        s = mk("sym", ("arg", i))
        if ty["k"] in ("int", "bool"):
            s.ty = ty["s"]
        if ty["k"] == "ref":
            if self.F.types[ty["e"]]["k"] == "slice":
                self.slices.add(s)
            return mk("ref", ("D", s), ())
        if ty["k"] == "adt" and ty["name"] == "std::pin::Pin" and self.F.types[ty["args"][0]]["k"] == "ref":
            return mk("agg", "std::pin::Pin", 0, (mk("ref", ("D", s), ()),))
        return s

    def finish(self, st, kind, ret=None, site=None, msg=None, head=None):
        t = Trace()
        t.kind, t.ret, t.site, t.msg, t.head = kind, ret, site, msg, head
        ev = []
        e = st.ev
        while e.k == "ev":
            ev.append(e.a[1])
            e = e.a[0]
        ev.reverse()
        t.ev = ev
        t.facts, t.neq, t.heap = st.facts, st.neq, st.heap
        t.locs = st.byc
        self.traces.append(t)

    def advance(self, st, work):
        while True:
            fr = st.fr[-1]
            fn = fr.fn
            b = fr.bb
            if b is None:
                return
            self.fncov.add(fn.key)
            succ, preds, bodies = fn.cfg
            # leaving loops
            if fr.active:
                gone = [h for h in fr.active if b not in bodies[h]]
                if gone:
                    fr.active = fr.active - frozenset(gone)
            ip, fr.ip = fr.ip, 0
            if ip:
                pass
            elif b in bodies:
                if b in fr.active:
                    if not self.unroll(st, fr, b):
                        self.back_edge(st, fr, b)
                        return
                else:
                    self.enter_loop(st, fr, b)
            elif fn.local and len(preds.get(b, ())) > 1:
                live, taken = fn.live_in()
                lv = live[b]
                for l in [x for x in fr.loc if x not in lv and x not in taken]:
                    del fr.loc[l]
                if self.prune(st):
                    return
            blk = fn.blocks[b]
            self._blocks.add((fn.key, b))
            split = False
            for i in range(ip, len(blk["s"])):
                s = blk["s"][i]
                self.nsteps += 1
                if s[0] == "=" and s[2][0] == "bin" and s[2][1] in BOOLBIN and self.split(st, fr, s[2], i, work):
                    split = True
                    break
                self.stmt(st, fr, s)
            if split:
                continue
            self.nsteps += 1
            t = blk["t"]
            k = t[0]
            if k == "goto":
                fr.bb = t[1]
            elif k == "switch":
                if not self.switch(st, fr, t, work):
                    return
            elif k == "call":
                if not self.call(st, fr, t, work):
                    return
            elif k == "ret":
                if not self.ret(st, fr, work):
                    return
            elif k == "drop":
                if not self.drop(st, fr, t, work):
                    return
            elif k == "assert":
                if not self.assertion(st, fr, t):
                    return
            elif k == "unreach":
                return
            else:
                self.finish(st, "panic", site=self.where(st), msg="unwind")
                return

    # ---------------------------------------------------------------- merge points
    def cut(self, st, tag):
        """end the current segment here; all paths arriving at this point continue as one merged
        state (facts they agree on, values they agree on, everything else unknown)"""
        key = (tag,) + tuple((f.cs, f.pt, f.active) for f in st.fr)
        self.finish(st, "cut", head=tag)
        self.bucket.setdefault(key, []).append(st)

    def merge_cuts(self):
        out = []
        for key, sts in list(self.bucket.items()):
            old = self.cutdone.get(key)
            if old is not None:
                sts = [old] + sts
            m = self.join(key, sts)
            self.cutdone[key] = m.copy()
            self.cutsnap.append((dict(m.heap), m.copy()))
            m.ev = mk("ev", NIL, ("cut", key[0], len(self.cutsnap) - 1))
            m.conds = NIL
            out.append(m)
        self.bucket = {}
        return out

    def join(self, key, sts):
        m = sts[0].copy()
        if len(sts) == 1:
            return m
        facts = dict(m.facts)
        neq = dict(m.neq)
        for s in sts[1:]:
            facts = {k: v for k, v in facts.items() if s.facts.get(k) == v}
            neq = {k: v & s.neq.get(k, frozenset()) for k, v in neq.items() if k in s.neq}
        m.facts = facts
        m.neq = {k: v for k, v in neq.items() if v}
        name = ("join",) + (key[0],) + tuple(x[0] for x in key[1:])
        # locals
        for i, f in enumerate(m.fr):
            live, taken = f.fn.live_in()
            ls = set(f.loc)
            for s in sts[1:]:
                ls &= set(s.fr[i].loc)
            for l in list(f.loc):
                if l not in ls:
                    del f.loc[l]
        locs = [("L", f.cs, l) for f in m.fr for l in f.loc]
        heap = set(m.heap)
        for s in sts[1:]:
            heap |= set(s.heap)
        for root in locs + sorted(heap, key=repr):
            out = set()
            base = self.rootval(m, root)
            for s in sts[1:]:
                v = self.rootval(s, root)
                if v is not base:
                    self.diff(root, (), base, v, out)
            for (r, p) in out:
                if any(h[0] == r and len(h[1]) < len(p) and p[:len(h[1])] == h[1] for h in out):
                    continue
                old = self.load(m, r, p)
                t = mk("sym", name + (r, p))
                t.ty = t.ty or old.ty
                d = self.same_variant(sts, r, p)
                self.store(m, r, p, t, None, log=False)
                if d is not None:
                    m.facts[self.discr(t)] = d
        return m

    def same_variant(self, sts, r, p):
        """the discriminant a place has in all of the states, or None"""
        got = None
        for s in sts:
            v = self.load(s, r, p)
            if v.k == "agg":
                if not (self.adt(v.a[0]) or {}).get("enum") and v.a[0] not in STDENUM:
                    return None
            elif v.k not in ("sym", "fld", "der"):
                return None
            x = self.discr(v)
            x = x.a[0] if x.k == "int" else s.facts.get(x)
            if x is None or got is not None and x != got:
                return None
            got = x
        return got

    def prune(self, st):
        key = (
            tuple((f.fn.key, f.bb, f.cs, frozenset(f.loc.items()), f.active, f.it) for f in st.fr),
            frozenset(st.heap.items()),
            frozenset(st.facts.items()),
            frozenset(st.neq.items()),
            st.ev,
        )
        h = hash(key)
        if key in self.seen:
            return True
        self.seen.add(key)
        return False

    # ---------------------------------------------------------------- loops
    def snapshot(self, st, fr, b):
        live, taken = fr.fn.live_in()
        lv = live.get(b, set())
        locs = {}
        for f in st.fr:
            for l, v in f.loc.items():
                if f is fr and l not in lv and l not in taken:
                    continue
                locs[("L", f.cs, l)] = v
        for r, v in st.heap.items():
            locs[r] = v
        return locs

    def split(self, st, fr, r, i, work):
        """case distinction on the operands of a logical operator on booleans; statement i is run again"""
        if self.F.types[r[4]]["k"] != "bool":
            return False
        for o in (r[2], r[3]):
            a = self.operand(st, fr, o)
            if self.decide(st, a) is None and "logmax" not in self.taint(a):
                if a.ty is None:
                    self.settype(a, r[4])
                s2 = st.copy()
                if self.assume(s2, a, 0):
                    s2.fr[-1].ip = i
                    work.append(s2)
                if not self.assume(st, a, 1):
                    st.fr[-1].bb = None
                    return True
                fr.ip = i
                return True
        return False

    def emptied(self, st, snap, cur):
        """did the round turn an Option from Some to None"""
        for r, v1 in cur.items():
            v0 = snap.get(r)
            if v0 is None or v0 is v1:
                continue
            out = set()
            self.diff(r, (), v0, v1, out)
            for _, path in out:
                if path and path[-1].kind == "w":
                    continue
                a, b = v0, v1
                for e in path:
                    a, b = project(a, e), project(b, e)
                if b.k == "agg" and b.a[0] == "std::option::Option" and b.a[1] == 0 and self.decide(st, eqz(self.discr(a))) == 0:
                    return True
        return False

    def unroll(self, st, fr, b):
        """a loop that consumes a list of known length, or the content of an Option, is followed round by round"""
        snap = fr.snaps[b]
        cur = self.snapshot(st, fr, b)
        if fr.it < 3 and b in fr.fn.slot_loops() and self.emptied(st, snap, cur):
            fr.it += 1
            fr.snaps = dict(fr.snaps)
            fr.snaps[b] = cur
            return True
        for r, v0 in snap.items():
            if r[0] != "L":
                continue
            v1 = cur.get(r)
            if v1 is None or v1 is v0:
                continue
            m0 = self.M.measure(v0)
            if m0 is not None and m0 <= 64:
                m1 = self.M.measure(v1)
                if m1 is not None and m1 < m0:
                    fr.it += 1
                    fr.snaps = dict(fr.snaps)
                    fr.snaps[b] = cur
                    return True
        return False

    def enter_loop(self, st, fr, b):
        b, bb = (b, fr.it) if fr.it else b, b
        K = (fr.cs, b)
        init = []
        for (root, path) in sorted(self.H.get(K, ()), key=repr):
            if path and path[-1].kind == "w":
                self.enter_window(st, fr, b, root, path, init)
                continue
            old = self.load(st, root, path)
            phi = mk("sym", ("phi", fr.cs, b, root, path))
            phi.ty = phi.ty or old.ty
            self.store(st, root, path, phi, None, log=False)
            if not path and root[0] == "D" and root[1] in self.slices:
                # what a slice pointer points to keeps its length
                self.assume(st, eqz(sub(lenof(phi), lenof(old))), 1)
            init.append((phi, old))
        fr.active = fr.active | {bb}
        fr.snaps = dict(fr.snaps)
        fr.snaps[bb] = self.snapshot(st, fr, bb)
        fr.snaps[("it", bb)] = fr.it
        self.event(st, "loop", fr.cs, b, fr.fn.path, tuple(init))

    def window(self, v):
        """(root, path, lo, hi) when v points to a part of a sequence; hi None: to its end"""
        root, path = self.deref(v)
        lo, hi = ZERO, None
        n = len(path)
        while n and path[n - 1].kind == "r":
            n -= 1
        for e in path[n:]:
            hi = add(lo, e.y)
            lo = add(lo, e.x)
        return root, path[:n], lo, hi

    def enter_window(self, st, fr, b, root, path, init):
        """the slot points into the same sequence on every round: its bounds vary, within the sequence"""
        which, slot = path[-1].name, path[:-1]
        r, p, lo, hi = self.window(self.load(st, root, slot))
        n = lenof(self.load(st, r, p))
        hi = n if hi is None else hi
        phi = mk("sym", ("phi", fr.cs, b, root, path))
        phi.ty = "usize"
        init.append((phi, lo if which == "lo" else hi))
        if which == "lo":
            lo = phi
        else:
            hi = phi
        self.store(st, root, slot, mk("ref", r, p + (ER(lo, hi),)), None, log=False)
        both = {x[1][-1].name for x in self.H[(fr.cs, b)] if x[0] == root and x[1][:-1] == slot and x[1][-1].kind == "w"}
        if which == "lo" or "lo" not in both:
            self.assume(st, bnot(lt(n, hi)), 1)
            self.assume(st, bnot(lt(hi, lo)), 1)

    def back_edge(self, st, fr, b):
        n = fr.snaps[("it", b)]
        K = (fr.cs, (b, n) if n else b)
        snap = fr.snaps[b]
        cur = self.snapshot(st, fr, b)
        H = self.H.setdefault(K, set())
        new = set()
        for r, v0 in snap.items():
            v1 = cur.get(r)
            if v1 is None:
                if r[0] == "L":
                    continue
                v1 = self.rootval(st, r)
            if v1 is not v0:
                self.diff(r, (), v0, v1, new)
        for r, v1 in cur.items():
            if r in snap or r[0] == "L":
                continue
            if r[0] in ("D", "A", "V"):
                s0 = State()
                s0.heap, s0.byc = {}, {}
                v0 = self.rootval(s0, r)
                if v0 is not v1:
                    self.diff(r, (), v0, v1, new)
        for x in new:
            if x not in H and not any(h[0] == x[0] and x[1][:len(h[1])] == h[1] for h in H):
                H.add(x)
                self.dirty = True
        # drop entries covered by a shorter one
        for x in list(H):
            if any(h is not x and h[0] == x[0] and len(h[1]) < len(x[1]) and x[1][:len(h[1])] == h[1] for h in H):
                H.discard(x)
        self.finish(st, "back", head=K)

    def diff(self, root, path, v0, v1, out):
        if v0 is v1:
            return
        if v0.k == "agg" and v1.k == "agg" and v0.a[0] == v1.a[0] and v0.a[1] == v1.a[1] and len(v0.a[2]) == len(v1.a[2]) and v0.a[0] != "array":
            vs = self.variants(v0.a[0])
            for i, (x, y) in enumerate(zip(v0.a[2], v1.a[2])):
                if x is not y:
                    nm = vs[v0.a[1]]["fields"][i] if vs and i < len(vs[v0.a[1]]["fields"]) else str(i)
                    vn = vs[v0.a[1]]["name"] if vs and self.adt(v0.a[0])["enum"] else None
                    self.diff(root, path + (E(v0.a[0], v0.a[1], i, nm, vn),), x, y, out)
            return
        b0 = v0.a[0] if v0.k == "upd" else v0
        b1 = v1.a[0] if v1.k == "upd" else v1
        if b0 is b1:
            es = set()
            for v in (v0, v1):
                if v.k == "upd":
                    es |= set(e for e, _ in v.a[1])
            if all(e.kind == "f" for e in es):
                for e in sorted(es, key=TM.id_of):
                    x, y = project(v0, e), project(v1, e)
                    self.diff(root, path + (e,), x, y, out)
                return
        # one side a struct aggregate, the other an update of a symbolic struct
        a = v0 if v0.k == "agg" else v1 if v1.k == "agg" else None
        if a is not None:
            ad = self.adt(a.a[0])
            if ad and not ad["enum"] and len(ad["variants"]) == 1 and a.a[2]:
                for i, nm in enumerate(ad["variants"][0]["fields"]):
                    e = E(a.a[0], 0, i, nm, None)
                    self.diff(root, path + (e,), project(v0, e), project(v1, e), out)
                return
        if self.pointer(v0) and v1.k == "ref":
            r0, p0, lo0, hi0 = self.window(v0)
            r1, p1, lo1, hi1 = self.window(v1)
            if r0 == r1 and p0 == p1 and (lo0 is not lo1 or hi0 is not hi1):
                if hi0 is None or hi1 is None:
                    s0 = State()
                    s0.heap, s0.byc = {}, {}
                    n = None
                    if r0[0] == "D" and not p0:
                        n = lenof(self.rootval(s0, r0))
                    hi0, hi1 = hi0 or n, hi1 or n
                if hi0 is not None and hi1 is not None:
                    if lo0 is not lo1:
                        out.add((root, path + (EW("lo"),)))
                    if hi0 is not hi1:
                        out.add((root, path + (EW("hi"),)))
                    return
        out.add((root, path))

    def pointer(self, v):
        if v.k == "ref":
            return True
        if v.k == "sym" and isinstance(v.a[0], tuple) and v.a[0][0] == "arg":
            return True
        return False

    # ---------------------------------------------------------------- terminators
    def switch(self, st, fr, t, work):
        v = self.operand(st, fr, t[1])
        d = self.decide(st, v)
        targets = [(int(x), b) for x, b in t[2]]
        if v.ty is None and v.k in ("fld", "der", "sym"):
            self.settype(v, t[4])
        if d is not None:
            for x, b in targets:
                if x == d:
                    fr.bb = b
                    return True
            fr.bb = t[3]
            return True
        if isbool(v) or self.F.types[t[4]]["k"] == "bool":
            if "logmax" in self.taint(v):
                opts = [(None, None, targets[0][1]), (None, None, t[3])]
            else:
                opts = []
                used = set()
                for x, b in targets:
                    opts.append((v, x, b))
                    used.add(x)
                for x in (0, 1):
                    if x not in used:
                        opts.append((v, x, t[3]))
        else:
            opts = [(eqz(sub(v, I(x))), 1, b) for x, b in targets]
            opts.append(("else", [eqz(sub(v, I(x))) for x, b in targets], t[3]))
        outs = []
        for i, (a, val, b) in enumerate(opts):
            if fr.fn.blocks[b] and fr.fn.blocks[b]["t"][0] == "unreach" and not fr.fn.blocks[b]["s"]:
                continue
            s2 = st.copy() if i < len(opts) - 1 else st
            ok = True
            if a == "else":
                for at in val:
                    if not self.assume(s2, at, 0):
                        ok = False
                        break
            elif a is not None:
                ok = self.assume(s2, a, val)
            if ok:
                s2.fr[-1].bb = b
                outs.append(s2)
        if not outs:
            return False
        mine = None
        for s2 in outs:
            if s2 is st:
                mine = st
            else:
                work.append(s2)
        return mine is not None

    _taintc = {}

    def taint(self, v):
        r = self._taintc.get(v)
        if r is None:
            r = set()
            for x in subterms(v):
                if x.k == "sym" and x.a[0] == ("logmax",):
                    r.add("logmax")
            self._taintc[v] = r
        return r

    def outcomes(self, st, v, tyix):
        """one state per combination of Poll/Option/Result variants the returned value may have"""
        ty = self.F.types[tyix]
        n = ty.get("name")
        if n not in STDENUM or not ty.get("ft"):
            return [st]
        d = self.discr(v, tyix)
        vs = self.variants(n)
        out = []
        for i, x in enumerate(vs):
            s2 = st.copy()
            if not self.assume(s2, eqz(sub(d, I(x["discr"]))), 1):
                continue
            if x["fields"] and ty["ft"][i]:
                out += self.outcomes(s2, project(v, E(n, i, 0, x["fields"][0], x["name"])), ty["ft"][i][0])
            else:
                out.append(s2)
        return out

    def ret(self, st, fr, work):
        v = fr.loc.get(0, UNIT)
        st.fr.pop()
        if not st.fr:
            st.byc = {fr.cs: fr}
            for s2 in self.outcomes(st, v, fr.fn.locals[0]):
                self.finish(s2, "return", ret=v, site=(fr.fn.path, fr.fn.blocks[fr.bb]["t"][-1]))
            return False
        del st.byc[fr.cs]
        up = st.fr[-1]
        if fr.post is not None:
            v = fr.post(self, st, v)
        if fr.dest is not None:
            root, path = fr.dest
            self.store(st, root, path, v, self.where(st, up.fn.blocks[up.bb]["t"][-1] if isinstance(up.fn.blocks[up.bb]["t"][-1], str) else None))
        up.bb = fr.ret
        return True

    def assertion(self, st, fr, t):
        c = self.operand(st, fr, t[1])
        want = 1 if t[2] else 0
        d = self.decide(st, c)
        site = self.where(st, t[6])
        if d is not None and d != want:
            self.finish(st, "panic", site=site, msg="assert:" + t[3])
            return False
        if d is None:
            atom = c if want else bnot(c)
            if self.oblig:
                if not self.prove(st, atom):
                    self.event(st, "maypanic", t[3], atom, site, self.snap(st))
            self.assume(st, c, want)
        fr.bb = t[5]
        return True

    # prove a boolean atom from the facts by bounded combination of linear facts
    def prove(self, st, atom, depth=4):
        return prove(self, st.facts, st.neq, atom, depth)

    def drop(self, st, fr, t, work):
        # ["drop", place, target, ty, dropinfo, inst, span]
        root, path = self.place(st, fr, t[1])
        v = self.load(st, root, path)
        site = self.where(st, t[6])
        fr.bb, keep = t[2], fr.bb
        if t[4]:
            self.drop_value(st, v, site)
            if not (v.k == "agg" and v.a[0] == "yx::Guard"):
                info = t[4]
                self.event(st, "drop", tuple(info), v, self.F.ts(t[3]), site)
        if t[5]:
            # the value's own Drop impl
            f = self.F.fns[t[5]]
            fr.bb = keep
            self.push(st, f, [mk("ref", root, path)], None, t[2])
            return True
        if not path and root[0] == "L":
            pass
        return True

    def drop_value(self, st, v, site):
        """release every lock guard inside a dropped value"""
        if v.k == "agg":
            if v.a[0] == "yx::Guard":
                g = v.a[2][0]
                self.event(st, "unlock", (g.a[0], g.a[1]), site, self.load(st, g.a[0], g.a[1]))
                return
            for x in v.a[2]:
                self.drop_value(st, x, site)

    def push(self, st, f, args, dest, ret, post=None):
        up = st.fr[-1]
        if len(st.fr) > 60:
            raise Abort("call depth: " + f.key)
        fr = Frame()
        fr.fn, fr.bb, fr.dest, fr.ret, fr.active, fr.snaps, fr.post = f, 0, dest, ret, frozenset(), {}, post
        fr.cs = self.cskey((up.cs, up.pt, f.key))
        if fr.cs in st.byc:
            raise Abort("recursion: " + f.key)
        fr.loc = {}
        for i, a in enumerate(args):
            fr.loc[i + 1] = a
        st.fr.append(fr)
        st.byc[fr.cs] = fr

    def call_closure(self, st, fn_val, args, dest, ret, post=None):
        """push a frame calling a closure/fn value with the given (already untupled) args"""
        if fn_val.k == "ref":
            inner = self.load(st, fn_val.a[0], fn_val.a[1])
            return self.call_closure_val(st, inner, fn_val, args, dest, ret, post)
        return self.call_closure_val(st, fn_val, None, args, dest, ret, post)

    def call_closure_val(self, st, v, ref, args, dest, ret, post):
        if v.k == "agg" and str(v.a[0]).startswith("closure:"):
            key = v.a[0][8:]
            f = self.F.fns.get(key)
            if f is None:
                return False
            # does the body take the closure by reference?
            byref = self.F.types[f.locals[1]]["k"] == "ref"
            self_arg = v
            if byref:
                if ref is None:
                    up = st.fr[-1]
                    root = ("C", up.cs, up.pt)
                    st.heap[root] = v
                    ref = mk("ref", root, ())
                self_arg = ref
            self.push(st, f, [self_arg] + list(args), dest, ret, post)
            return True
        if v.k == "fn":
            c = self._fnc.get(v)
            if c and c.get("inst") and c["inst"] in self.F.fns:
                self.push(st, self.F.fns[c["inst"]], list(args), dest, ret, post)
                return True
            x = self.constructed(c, args) if c else None
            if x is not None:
                if post is not None:
                    x = post(self, st, x)
                if dest is not None:
                    self.store(st, dest[0], dest[1], x, None)
                st.fr[-1].bb = ret
                return True
            if c and c.get("vpath"):
                name = canon(c["vpath"])
                if self.M.lookup(name) is not None or canon(c.get("orig", "")) in self.models:
                    self.push(st, self.M.via(self, c, len(args)), list(args), dest, ret, post)
                    return True
        return False

    def constructed(self, c, args):
        """the value built by a library type's constructor used as a function"""
        if c.get("kind") != "ctor" or not c.get("vpath", "").endswith("::{constructor#0}"):
            return None
        seg = c["vpath"].split("::")[:-1]
        for n, a in self.F.adts.items():
            m = n.split("::")
            if a["enum"] and len(seg) > 1 and m[1:] == seg[1:-1]:
                for i, x in enumerate(a["variants"]):
                    if x["name"] == seg[-1]:
                        return mk("agg", n, i, tuple(args))
            elif not a["enum"] and m[1:] == seg[1:]:
                return mk("agg", n, 0, tuple(args))
        return None

    def call(self, st, fr, t, work):
        # ["call", func, args, dest, target, argtys, destty, span]
        site = self.where(st, t[7])
        args = [self.operand(st, fr, a) for a in t[2]]
        fv = self.operand(st, fr, t[1])
        c = None
        if fv.k == "fn":
            c = self._fnc[fv]
        if t[1][0] == "k" and t[1][2].get("k") == "fn":
            c = t[1][2]["c"]
        ctx = CallCtx(self, st, fr, t, c, args, site)
        name = ctx.name
        if name.endswith("::start_send") and len(args) == 2:
            # case distinction on the booleans inside what is sent; the call is run again
            a = self.open_bool(st, args[1])
            if a is not None:
                s2 = st.copy()
                ip = len(fr.fn.blocks[fr.bb]["s"]) + 1
                if self.assume(s2, a, 0):
                    s2.fr[-1].ip = ip
                    work.append(s2)
                if not self.assume(st, a, 1):
                    return False
                fr.ip = ip
                return True
        if c is None:
            # call through a value: closure object or unknown
            droot = self.place(st, fr, t[3])
            if self.call_closure(st, fv, args, droot, t[4]):
                return True
            return self.opaque_call(ctx, work)
        # boundary functions stay opaque even when their body is known
        if self.boundary:
            bn = self.boundary(self, c, ctx)
            if bn:
                ctx.name = bn
                return self.opaque_call(ctx, work)
        h = self.M.lookup(name)
        if h is None:
            h = self.models.get(canon(c.get("orig", "")))
        if h is not None:
            r = h(ctx)
            if r is not NotImplemented:
                return self.resume(ctx, r, work)
        if c.get("inst") and c["inst"] in self.F.fns:
            f = self.F.fns[c["inst"]]
            a = args
            if f.j.get("closure") and len(args) == 2 and f.j.get("spread") is None:
                tup = args[1]
                n = f.argc - 1
                if n != 1 or self.is_tuple_arg(t[5][1]):
                    a = [args[0]] + [project(tup, E("tuple", 0, i)) for i in range(n)]
                # by-value closure called through a by-ref body
                if self.F.types[f.locals[1]]["k"] == "ref" and a[0].k == "agg":
                    root = ("C", fr.cs, fr.pt)
                    st.heap[root] = a[0]
                    a[0] = mk("ref", root, ())
            droot = self.place(st, fr, t[3]) if t[4] is not None else None
            self.push(st, f, a, droot, t[4])
            return True
        tr = c.get("trait") or ""
        if tr in ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn") and args:
            droot = self.place(st, fr, t[3])
            a = args
            if len(args) == 2:
                n = 0
                ty = self.F.types[t[5][1]]
                n = len(ty["args"]) if ty["k"] == "tuple" else 0
                a = [project(args[1], E("tuple", 0, i)) for i in range(n)]
            if self.call_closure(st, args[0], a, droot, t[4]):
                return True
        x = self.constructed(c, args)
        if x is not None:
            return self.resume(ctx, x, work)
        return self.opaque_call(ctx, work)

    def open_bool(self, st, v):
        """an undecided condition that is a field of the value"""
        if v.k == "agg":
            for x in v.a[2]:
                a = self.open_bool(st, x)
                if a is not None:
                    return a
        elif v.k == "op" and v.a[0] in ("eqz", "ltz", "not") and self.decide(st, v) is None and "logmax" not in self.taint(v):
            return v
        return None

    def is_tuple_arg(self, tyix):
        return self.F.types[tyix]["k"] == "tuple"

    def resume(self, ctx, r, work):
        """r: T | list[(State, T)] | True (frame pushed) | None (diverged)"""
        st, fr, t = ctx.st, ctx.fr, ctx.t
        if r is True:
            return True
        if r is None:
            return False
        if isinstance(r, T):
            r = [(st, r)]
        mine = False
        for s2, v in r:
            f2 = s2.fr[-1]
            if t[4] is None:
                self.finish(s2, "panic", site=ctx.site, msg="diverges:" + ctx.name)
                continue
            root, path = self.place(s2, f2, t[3])
            ty = self.F.types[t[6]]
            if v.ty is None and v.k in ("op", "sym", "fld") and ty["k"] in ("int", "bool"):
                v.ty = ty["s"]
            self.store(s2, root, path, v, ctx.site)
            f2.bb = t[4]
            if s2 is st:
                mine = True
            else:
                work.append(s2)
        return mine

    def opaque_call(self, ctx, work):
        st, fr, t = ctx.st, ctx.fr, ctx.t
        name = ctx.name
        self.opaque[name] = self.opaque.get(name, 0) + 1
        if t[4] is None:
            self.finish(st, "panic", site=ctx.site, msg="diverges:" + name)
            return False
        # closures handed to unmodelled library code: any number of calls is assumed, unless they are kept for later
        clos = [a for a in ctx.args if self.closure_of(st, a) is not None or self.local_fn(a)]
        if clos and ("closure" in self.F.types[t[6]]["s"] or any(self.arg_types(st, a) is None for a in clos)):
            self.unmodelled.add(name)
            clos = []
        v = mk("sym", ("ret", fr.cs, fr.pt, name))
        if v.nv is None:
            pass
        recv = None
        if ctx.args:
            a0 = ctx.args[0]
            if a0.k == "agg" and a0.a[0] == "std::pin::Pin":
                a0 = a0.a[2][0]
            if a0.k == "ref":
                recv = (a0.a[0], a0.a[1])
        vals = tuple(self.argval(st, a) for a in ctx.args)
        self.event(st, "call", name, recv, tuple(ctx.args), vals, v, ctx.selfty(), ctx.site)
        # &mut arguments may be changed by the callee
        if name not in self.M.PURE:
            for i, (a, ty) in enumerate(zip(ctx.args, t[5])):
                if self.is_mutref(ty):
                    if a.k == "agg" and a.a[0] == "std::pin::Pin":
                        a = a.a[2][0]
                    if a.k == "ref" and not (a.a[0][0] == "V"):
                        tyn = self.F.types[ty]
                        if "std::task::Context" in tyn["s"]:
                            continue
                        self.store(st, a.a[0], a.a[1], mk("sym", ("hv", fr.cs, fr.pt, i)), None, log=False)
        root, path = self.place(st, fr, t[3])
        ty = self.F.types[t[6]]
        if ty["k"] in ("int", "bool"):
            v.ty = ty["s"]
        if ty["k"] == "ref":
            v = mk("ref", ("D", v), ())
        if clos:
            self.push(st, self.M.anycalls(self, len(clos), name.startswith(self.M.ONCE)), [v] + clos, (root, path), t[4])
            return True
        self.store(st, root, path, v, ctx.site)
        fr.bb = t[4]
        return True

    def local_fn(self, a):
        c = self._fnc.get(a) if a.k == "fn" else None
        return bool(c and c.get("inst") and c["inst"] in self.F.fns)

    def arg_types(self, st, a):
        """the types of the arguments a function value takes, or None"""
        if a.k == "fn":
            f = self.F.fns[self._fnc[a]["inst"]]
            return f.locals[1:1 + f.argc]
        v = self.closure_of(st, a)
        f = self.F.fns.get(v.a[0][8:])
        return None if f is None else f.locals[2:1 + f.argc]

    def any_value(self, ty, tag):
        """anything of that type"""
        ty = self.F.types[ty]
        v = mk("sym", tag)
        if ty["k"] == "ref":
            return mk("ref", ("D", v), ())
        if ty["k"] == "adt" and ty["name"] == "std::pin::Pin":
            return mk("agg", "std::pin::Pin", 0, (self.any_value(ty["args"][0], tag),))
        if ty["k"] == "tuple":
            return mk("agg", "tuple", 0, tuple(self.any_value(x, tag + (i,)) for i, x in enumerate(ty["args"])))
        if ty["k"] in ("int", "bool"):
            v.ty = ty["s"]
        return v

    def argval(self, st, a):
        if a.k == "ref":
            return self.load(st, a.a[0], a.a[1])
        if a.k == "agg" and a.a[0] == "std::pin::Pin":
            return self.argval(st, a.a[2][0])
        return a

    def closure_of(self, st, a):
        if a.k == "agg" and str(a.a[0]).startswith("closure:"):
            return a
        if a.k == "ref":
            v = self.load(st, a.a[0], a.a[1])
            if v.k == "agg" and str(v.a[0]).startswith("closure:"):
                return v
        return None

    def is_mutref(self, tyix):
        ty = self.F.types[tyix]
        if ty["k"] == "ref":
            return ty["mut"]
        if ty["k"] == "adt" and ty["name"] == "std::pin::Pin":
            return self.is_mutref(ty["args"][0])
        return False


class CallCtx(object):
    __slots__ = ("eng", "st", "fr", "t", "c", "args", "site", "name")

    def __init__(self, eng, st, fr, t, c, args, site):
        self.eng, self.st, self.fr, self.t, self.c, self.args, self.site = eng, st, fr, t, c, args, site
        if c is None:
            self.name = "<fnptr>"
        elif c.get("kind") == "unresolved" or not c.get("vpath"):
            self.name = c["orig"]
        else:
            self.name = canon(c["vpath"])

    def fork(self):
        return self.st.copy()

    def ty(self, i):
        return self.eng.F.types[self.t[5][i]]

    def destty(self):
        return self.eng.F.types[self.t[6]]

    def selfty(self):
        """type string of the receiver (references and Pin stripped)"""
        if not self.t[5]:
            return ""
        ty = self.eng.F.types[self.t[5][0]]
        for _ in range(4):
            if ty["k"] == "ref":
                ty = self.eng.F.types[ty["e"]]
            elif ty["k"] == "adt" and ty["name"] == "std::pin::Pin":
                ty = self.eng.F.types[ty["args"][0]]
            else:
                break
        return ty["s"]

    def val(self, i):
        return self.eng.argval(self.st, self.args[i])

    def loc(self, i):
        a = self.args[i]
        if a.k == "agg" and a.a[0] == "std::pin::Pin":
            a = a.a[2][0]
        return self.eng.deref(a)

    def sym(self, tag=""):
        return mk("sym", ("ret", self.fr.cs, self.fr.pt, self.name + tag))


# -------------------------------------------------------------------- linear entailment
def prove(eng, facts, neq, atom, depth=4):
    if atom.k == "int":
        return atom.a[0] == 1
    if atom.k == "op" and atom.a[0] == "not":
        return refute(eng, facts, neq, atom.a[1], depth)
    if facts.get(atom) == 1:
        return True
    if atom.k == "op" and atom.a[0] == "ltz":
        # negation: d >= 0 i.e. -d <= 0
        return contradiction(facts, neq, scale(atom.a[1], -1), depth)
    if atom.k == "op" and atom.a[0] == "eqz":
        d = atom.a[1]
        c, it = lin_parts(d)
        if len(it) == 1 and it[0][1] == 1 and facts.get(it[0][0]) == -c:
            return True
        # d < 0 and d > 0 both impossible
        return contradiction(facts, neq, add(d, ONE), depth) and contradiction(facts, neq, sub(ONE, d), depth)
    return False


def refute(eng, facts, neq, atom, depth=4):
    if atom.k == "int":
        return atom.a[0] == 0
    if atom.k == "op" and atom.a[0] == "not":
        return prove(eng, facts, neq, atom.a[1], depth)
    if facts.get(atom) == 0:
        return True
    if atom.k == "op" and atom.a[0] == "ltz":
        # assume d <= -1
        return contradiction(facts, neq, add(atom.a[1], ONE), depth)
    if atom.k == "op" and atom.a[0] == "eqz":
        d = atom.a[1]
        c, it = lin_parts(d)
        if len(it) == 1 and it[0][1] == 1:
            x = it[0][0]
            if -c in neq.get(x, ()):
                return True
        # d = 0 contradictory
        return contradiction(facts, neq, d, depth) or contradiction(facts, neq, scale(d, -1), depth)
    return False


def lemmas(t):
    """inequalities (as terms e with e <= 0) that hold for atom t by its own meaning"""
    out = [scale(t, -1)]
    if t.ty in WIDTH and t.k != "lin":
        out.append(sub(t, I((1 << WIDTH[t.ty]) - 1)))
    if t.k == "op":
        n = t.a[0]
        if n == "min":
            out += [sub(t, x) for x in t.a[1:]]
        elif n == "max":
            out += [sub(x, t) for x in t.a[1:]]
        elif n == "satsub":
            out += [sub(t, t.a[1]), sub(sub(t.a[1], t.a[2]), t)]
        elif n == "div" and isint(t.a[2]):
            out += [sub(scale(t, t.a[2].a[0]), t.a[1])]
        elif n == "trunc":
            out += [sub(t, t.a[2]), sub(t, I((1 << t.a[1]) - 1))]
        elif n == "and" and isint(t.a[2]):
            out += [sub(t, t.a[2])]
        elif n == "satmul" or n == "satadd":
            out += [sub(t, I((1 << t.a[3]) - 1))]
            if n == "satadd":
                pass
            if n == "satmul" and isint(t.a[2]) and t.a[2].a[0] >= 1:
                out += [sub(t.a[1], t)] if bits(t.a[1]) <= t.a[3] else []
                out += [sub(t, scale(t.a[1], t.a[2].a[0]))]
    return out


_cmemo = {}


def _lp(e):
    c, it = lin_parts(e)
    return (c, it)


def fact_constraints(f, v):
    """linear consequences `e <= 0` of one recorded fact, as (const, items)"""
    k = (f, v)
    r = _cmemo.get(k)
    if r is None:
        r = []
        if f.k == "op" and f.a[0] == "ltz":
            d = f.a[1]
            r.append(_lp(add(d, ONE) if v else scale(d, -1)))
        elif f.k == "op" and f.a[0] == "eqz":
            if v:
                r.append(_lp(f.a[1]))
                r.append(_lp(scale(f.a[1], -1)))
            else:
                c, it = lin_parts(f.a[1])
                if c == 0 and all(k > 0 for _, k in it):
                    r.append(_lp(sub(ONE, f.a[1])))  # unsigned and not zero
        elif f.k in ("sym", "fld", "der", "op") and isinstance(v, int) and not isbool(f):
            r.append(_lp(sub(f, I(v))))
            r.append(_lp(sub(I(v), f)))
        r = _cmemo[k] = tuple(r)
    return r


_lmemo = {}


def lemma_constraints(t):
    r = _lmemo.get(t)
    if r is None:
        r = _lmemo[t] = tuple(_lp(e) for e in lemmas(t))
    return r


_gmemo = {}


def contradiction(facts, neq, goal, depth):
    """is `goal <= 0` inconsistent with the facts?"""
    ix = {}
    for f, v in facts.items():
        if isinstance(f, tuple):
            continue
        for e in fact_constraints(f, v):
            for t, k in e[1]:
                ix.setdefault(t, []).append((k, e))
    for f, vs in neq.items():
        if 0 in vs and isinstance(f, T) and f.nv is None:
            e = (1, ((f, -1),))
            ix.setdefault(f, []).append((-1, e))
    c, it = lin_parts(goal)
    # the constraints that can take part: connected to the goal through shared atoms
    comp = set()
    todo = [t for t, _ in it]
    seen = set(todo)
    while todo:
        t = todo.pop()
        for k, e in ix.get(t, ()):
            if e not in comp:
                comp.add(e)
                for t2, _ in e[1]:
                    if t2 not in seen:
                        seen.add(t2)
                        todo.append(t2)
        for e in lemma_constraints(t):
            for t2, _ in e[1]:
                if t2 not in seen:
                    seen.add(t2)
                    todo.append(t2)
    key = (goal, depth, frozenset(comp))
    r = _gmemo.get(key)
    if r is None:
        r = _gmemo[key] = _contra(c, dict(it), ix, depth, {})
    return r


def _contra(c, g, ix, depth, memo):
    if not g:
        return c > 0
    if c > 0 and all(k > 0 for k in g.values()):
        return True
    if depth == 0:
        return False
    for t, k in sorted(g.items(), key=lambda p: p[0].id):
        for e in lemma_constraints(t):
            if _step(c, g, t, k, e, ix, depth, memo):
                return True
        for ke, e in ix.get(t, ()):
            if ke * k < 0 and _step(c, g, t, k, e, ix, depth, memo):
                return True
    return False


def _step(c, g, t, k, e, ix, depth, memo):
    """combine the goal with one constraint so that atom t disappears"""
    ce, ie = e
    ke = 0
    for t2, k2 in ie:
        if t2 is t:
            ke = k2
    if ke * k >= 0:
        return False
    m, n = abs(ke), abs(k)
    ng = {x: y * m for x, y in g.items()}
    for t2, k2 in ie:
        y = ng.get(t2, 0) + k2 * n
        if y:
            ng[t2] = y
        else:
            ng.pop(t2, None)
    nc = c * m + ce * n
    key = (nc, frozenset(ng.items()))
    if memo.get(key, -1) >= depth - 1:
        return False
    memo[key] = depth - 1
    return _contra(nc, ng, ix, depth - 1, memo)

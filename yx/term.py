"""Hash-consed value terms (the Herbrand value-numbering domain) and their normal forms.

A value computed by the analysed program is represented by a term; two program expressions that
denote the same value for structural reasons get the *same* term.  Integers are kept in a linear
normal form, comparisons are reduced to `ltz` (d < 0) and `eqz` (d = 0) atoms over linear forms, so
`a < b`, `b > a`, `!(a >= b)` and `a + 1 <= b` are one atom.
"""


class T(object):
    __slots__ = ("k", "a", "ty", "id", "nv")

    def __repr__(self):
        return show(self)


_tab = {}


def mk(k, *a):
    key = (k, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        t.ty = None
        t.nv = None
        t.id = len(_tab)
        _tab[key] = t
    return t


class Elem(object):
    """A path element.  kind 'f' (field of variant of owner) or 'i' (index) or 'r' (sub-range)."""
    __slots__ = ("kind", "owner", "variant", "ix", "name", "vname", "x", "y")

    def __repr__(self):
        if self.kind == "f":
            v = (self.vname + ".") if self.vname else ""
            return v + str(self.name)
        if self.kind == "i":
            return "[%r]" % (self.x,)
        if self.kind == "w":
            return "<%s>" % self.name
        return "[%r..%r]" % (self.x, self.y)


_etab = {}


def E(owner, variant, ix, name=None, vname=None):
    key = ("f", owner, variant, ix)
    e = _etab.get(key)
    if e is None:
        e = Elem()
        e.kind = "f"
        e.owner = owner
        e.variant = variant
        e.ix = ix
        e.name = str(ix) if name is None else name
        e.vname = vname
        e.x = e.y = None
        _etab[key] = e
    elif name is not None and e.name != name:
        e.name = name
    if vname and not e.vname:
        e.vname = vname
    return e


def EI(x):
    key = ("i", x)
    e = _etab.get(key)
    if e is None:
        e = Elem()
        e.kind = "i"
        e.owner = None
        e.variant = e.ix = e.name = e.vname = e.y = None
        e.x = x
        _etab[key] = e
    return e


def ER(x, y):
    key = ("r", x, y)
    e = _etab.get(key)
    if e is None:
        e = Elem()
        e.kind = "r"
        e.owner = None
        e.variant = e.ix = e.name = e.vname = None
        e.x = x
        e.y = y
        _etab[key] = e
    return e


def EW(name):
    """pseudo element: a bound of the part of a sequence a slot points to"""
    key = ("w", name)
    e = _etab.get(key)
    if e is None:
        e = Elem()
        e.kind = "w"
        e.owner = e.variant = e.ix = e.vname = e.x = e.y = None
        e.name = name
        _etab[key] = e
    return e


# ------------------------------------------------------------------ constructors
def I(v):
    return mk("int", int(v))


ZERO = I(0)
ONE = I(1)
UNIT = mk("agg", "tuple", 0, ())
SOME_E = E("std::option::Option", 1, 0, "0", "Some")
OK_E = E("std::result::Result", 0, 0, "0", "Ok")
ERR_E = E("std::result::Result", 1, 0, "0", "Err")
READY_E = E("std::task::Poll", 0, 0, "0", "Ready")


def agg(tag, variant, fields, enum=False):
    fields = tuple(fields)
    if not enum and fields and tag != "array":
        # eta: rebuilding a struct from its own projections is the struct itself
        base = None
        ok = True
        for i, f in enumerate(fields):
            if is_zst(f):
                continue
            if f.k == "fld" and f.a[1].kind == "f" and f.a[1].ix == i and f.a[1].owner == tag:
                if base is None:
                    base = f.a[0]
                elif base is not f.a[0]:
                    ok = False
                    break
            else:
                ok = False
                break
        if ok and base is not None:
            return base
    return mk("agg", tag, variant, fields)


def is_zst(t):
    return t.k == "zst" or (t.k == "agg" and t.a[1] != "x" and not t.a[2] and t.a[0] in ("tuple", "std::marker::PhantomData"))


def none():
    return mk("agg", "std::option::Option", 0, ())


def some(x):
    return mk("agg", "std::option::Option", 1, (x,))


def ok(x):
    return mk("agg", "std::result::Result", 0, (x,))


def err(x):
    return mk("agg", "std::result::Result", 1, (x,))


def ready(x):
    return mk("agg", "std::task::Poll", 0, (x,))


def pending():
    return mk("agg", "std::task::Poll", 1, ())


def op(name, *a):
    return mk("op", name, *a)


def isint(t):
    return t.k == "int"


BOOLOPS = {"ltz", "eqz", "has", "not", "eq", "isvar", "cmpb"}


def isbool(t):
    return (t.k == "op" and t.a[0] in BOOLOPS) or t.ty == "bool"


# ------------------------------------------------------------------ integers
def lin_parts(t):
    """-> (const, ((term,coef),...))"""
    if t.k == "int":
        return t.a[0], ()
    if t.k == "lin":
        return t.a[0], t.a[1]
    return 0, ((t, 1),)


def mklin(c, d):
    items = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda p: p[0].id))
    if not items:
        return I(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", c, items)


def add(a, b, s=1):
    ca, ia = lin_parts(a)
    cb, ib = lin_parts(b)
    d = dict(ia)
    for t, k in ib:
        d[t] = d.get(t, 0) + s * k
    return mklin(ca + s * cb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    c, i = lin_parts(a)
    return mklin(c * n, {t: k * n for t, k in i})


def mul(a, b):
    if isint(a):
        return scale(b, a.a[0])
    if isint(b):
        return scale(a, b.a[0])
    x, y = sorted((a, b), key=lambda t: t.id)
    return op("mul", x, y)


def bnot(t):
    if t.k == "int":
        return I(0 if t.a[0] else 1)
    if t.k == "op" and t.a[0] == "not":
        return t.a[1]
    return op("not", t)


def ltz(d):
    """d < 0 over the integers; atoms are unsigned machine quantities (>= 0)"""
    c, it = lin_parts(d)
    if not it:
        return I(1 if c < 0 else 0)
    if all(k > 0 for _, k in it) and c >= 0:
        return ZERO
    if all(k < 0 for _, k in it) and c < 0:
        return ONE
    if len(it) == 1:
        (t, k) = it[0]
        if k == 1 and c == -1:
            return eqz(t)
        if k == -1 and c == 0:
            return bnot(eqz(t))
    if it[0][1] < 0:
        return bnot(ltz(sub(I(-1), d)))
    return op("ltz", d)


def eqz(d):
    c, it = lin_parts(d)
    if not it:
        return I(1 if c == 0 else 0)
    if c > 0 and all(k > 0 for _, k in it):
        return ZERO
    if c < 0 and all(k < 0 for _, k in it):
        return ZERO
    if it[0][1] < 0:
        return eqz(scale(d, -1))
    if len(it) == 1 and it[0][1] == 1:
        t = it[0][0]
        if isbool(t):
            if c == 0:
                return bnot(t)
            if c == -1:
                return t
            return ZERO
        if t.k == "op" and t.a[0] == "and" and isint(t.a[2]):
            m = t.a[2].a[0]
            if c != 0 and m & (m - 1) == 0:
                return bnot(op("eqz", t)) if -c == m else ZERO
    return op("eqz", d)


def lt(a, b):
    return ltz(sub(a, b))


def eq(a, b):
    return eqz(sub(a, b))


def band(a, b):
    if isint(a) and not isint(b):
        a, b = b, a
    if isint(a) and isint(b):
        return I(a.a[0] & b.a[0])
    if isint(b):
        c = b.a[0]
        if c == 0:
            return ZERO
        if a.k == "op" and a.a[0] == "and" and isint(a.a[2]):
            return band(a.a[1], I(a.a[2].a[0] & c))
        if a.k == "op" and a.a[0] == "or" and isint(a.a[2]):
            m = a.a[2].a[0]
            if m & c == c:
                return I(c)
            if m & c == 0:
                return band(a.a[1], b)
        return op("and", a, b)
    if a is b:
        return a
    x, y = sorted((a, b), key=lambda t: t.id)
    return op("and", x, y)


def bor(a, b):
    if isint(a) and not isint(b):
        a, b = b, a
    if isint(a) and isint(b):
        return I(a.a[0] | b.a[0])
    if isint(b):
        c = b.a[0]
        if c == 0:
            return a
        if a.k == "op" and a.a[0] == "or" and isint(a.a[2]):
            return bor(a.a[1], I(a.a[2].a[0] | c))
        return op("or", a, b)
    if a is b:
        return a
    x, y = sorted((a, b), key=lambda t: t.id)
    return op("or", x, y)


def rem(a, b):
    if isint(a) and isint(b) and b.a[0]:
        return I(a.a[0] % b.a[0])
    if isint(b):
        n = b.a[0]
        if n and n & (n - 1) == 0:
            return band(a, I(n - 1))
    return op("rem", a, b)


def div(a, b):
    if isint(a) and isint(b) and b.a[0]:
        return I(a.a[0] // b.a[0])
    if isint(b) and b.a[0] == 1:
        return a
    return op("div", a, b)


def tmin(a, b):
    if isint(a) and isint(b):
        return I(min(a.a[0], b.a[0]))
    xs = []
    for t in (a, b):
        xs += list(t.a[1:]) if t.k == "op" and t.a[0] == "min" else [t]
    xs = sorted(set(xs), key=lambda t: t.id)
    if len(xs) == 1:
        return xs[0]
    return op("min", *xs)


def tmax(a, b):
    if isint(a) and isint(b):
        return I(max(a.a[0], b.a[0]))
    xs = []
    for t in (a, b):
        xs += list(t.a[1:]) if t.k == "op" and t.a[0] == "max" else [t]
    xs = sorted(set(xs), key=lambda t: t.id)
    if len(xs) == 1:
        return xs[0]
    return op("max", *xs)


WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "bool": 1, "char": 32}


def bits(t):
    """an upper bound for the number of bits of a non-negative integer term"""
    if t.k == "int":
        return max(t.a[0], 0).bit_length()
    if t.k == "op":
        n = t.a[0]
        if n == "discr" and t.nv:
            return max(int(x) for x in t.nv).bit_length()
        if n == "min":
            return min(bits(x) for x in t.a[1:])
        if n == "max":
            return max(bits(x) for x in t.a[1:])
        if n == "and":
            return min(bits(x) for x in t.a[1:])
        if n in ("satsub", "div"):
            return bits(t.a[1])
        if n == "trunc":
            return t.a[1]
        if n == "satadd" or n == "satmul":
            return t.a[3]
        if isbool(t):
            return 1
    if t.ty in WIDTH:
        return WIDTH[t.ty]
    if t.k == "lin":
        return 64
    return 64


def cast_int(t, frm, to):
    w = WIDTH.get(to)
    if w is None:
        return op("cast", to, t)
    if t.k == "int":
        return I(t.a[0] & ((1 << w) - 1))
    if WIDTH.get(frm, 999) <= w:
        return t
    if w == 8 and frm in ("u16", "u32", "u64") and t.k in ("fld", "sym", "der", "op") and not (t.k == "op" and t.a[0] != "div"):
        # the k-th byte of a machine word
        n = WIDTH[frm] // 8
        x, k = t, 0
        if t.k == "op":
            x, k = t.a[1], None
            if isint(t.a[2]) and x.k in ("fld", "sym", "der"):
                k = {1 << 8 * i: i for i in range(n)}.get(t.a[2].a[0])
        if k is not None:
            b = op("byte", x, I(n - 1 - k), I(n))
            b.ty = b.ty or "u8"
            return b
    if bits(t) <= w:
        return t
    return mk("op", "trunc", w, t)


# ------------------------------------------------------------------ sequences
EMPTYSEQ = op("emptyseq")


def lenof(v):
    if v.k == "agg" and v.a[0] == "array":
        return I(len(v.a[2]))
    if v.k == "str":
        return I(len(v.a[0]))
    if v.k == "op":
        n = v.a[0]
        if n == "slice":
            return sub(v.a[3], v.a[2])
        if n == "rep":
            return v.a[2]
        if n == "emptyseq":
            return ZERO
        if n == "pushb":
            return add(lenof(v.a[1]), ONE)
        if n == "popf":
            return sub(lenof(v.a[1]), ONE)
        if n == "splitoff":
            return sub(lenof(v.a[1]), v.a[2])
    if v.k == "upd":
        return lenof(v.a[0])
    t = op("len", v)
    t.ty = "usize"
    return t


# ------------------------------------------------------------------ projections / updates
def project(v, e):
    k = v.k
    if e.kind == "f":
        if k == "agg":
            if e.ix is not None and isinstance(e.ix, int) and e.ix < len(v.a[2]) and (v.a[1] == e.variant or v.a[0] in ("tuple",) or str(v.a[0]).startswith("closure")):
                return v.a[2][e.ix]
            return fld(v, e)
        if k == "upd":
            base, ups = v.a
            for (e2, x) in ups:
                if e2 is e:
                    return x
                if e2.kind == "f" and e2.owner == e.owner and e2.variant == e.variant and e2.ix == e.ix:
                    return x
            return project(base, e)
        if e.name == "front" and e.owner == "yx::Deque" and k == "op":
            if v.a[0] == "pushb":
                w = v
                while w.k == "op" and w.a[0] == "pushb" and w.a[1].k == "op" and w.a[1].a[0] == "pushb":
                    w = w.a[1]
                if w.a[1] is EMPTYSEQ:
                    return w.a[2]
        return fld(v, e)
    if e.kind == "i":
        if k == "agg" and v.a[0] == "array" and isint(e.x) and 0 <= e.x.a[0] < len(v.a[2]):
            return v.a[2][e.x.a[0]]
        if k == "op" and v.a[0] == "rep":
            return v.a[1]
        if k == "op" and v.a[0] == "slice":
            return project(v.a[1], EI(add(v.a[2], e.x)))
        if k == "upd":
            base, ups = v.a
            if all(x.kind == "i" and isint(x.x) for x, _ in ups) and isint(e.x):
                for e2, x in ups:
                    if e2 is e:
                        return x
                return project(base, e)
        t = op("idx", v, e.x)
        return t
    # range
    return slice_of(v, e.x, e.y)


def slice_of(v, a, b):
    if isint(a) and a.a[0] == 0 and b is lenof(v):
        return v
    if v.k == "op" and v.a[0] == "slice":
        return slice_of(v.a[1], add(v.a[2], a), add(v.a[2], b))
    if v.k == "agg" and v.a[0] == "array" and isint(a) and isint(b):
        if 0 <= a.a[0] <= b.a[0] <= len(v.a[2]):
            return mk("agg", "array", 0, v.a[2][a.a[0]:b.a[0]])
    if v.k == "op" and v.a[0] == "rep":
        return op("rep", v.a[1], sub(b, a))
    return op("slice", v, a, b)


def fld(v, e):
    return mk("fld", v, e)


def update(v, e, x):
    """functional update of component e of v"""
    if e.kind == "f" and v.k == "agg" and e.ix is not None and isinstance(e.ix, int) and e.ix < len(v.a[2]) and (v.a[1] == e.variant or v.a[0] == "tuple" or str(v.a[0]).startswith("closure")):
        fs = list(v.a[2])
        fs[e.ix] = x
        return mk("agg", v.a[0], v.a[1], tuple(fs))
    if e.kind == "i" and v.k == "agg" and v.a[0] == "array" and isint(e.x) and 0 <= e.x.a[0] < len(v.a[2]):
        fs = list(v.a[2])
        fs[e.x.a[0]] = x
        return mk("agg", "array", 0, tuple(fs))
    if e.kind == "r" and v.k == "agg" and v.a[0] == "array" and isint(e.x) and isint(e.y) and x.k == "agg" and x.a[0] == "array" and e.y.a[0] - e.x.a[0] == len(x.a[2]) and e.y.a[0] <= len(v.a[2]):
        fs = list(v.a[2])
        fs[e.x.a[0]:e.y.a[0]] = list(x.a[2])
        return mk("agg", "array", 0, tuple(fs))
    if e.kind == "r" and e.x is ZERO and e.y is lenof(v):
        return x
    if project(v, e) is x:
        return v
    if v.k == "upd":
        base, ups = v.a
        d = dict(ups)
    else:
        base, d = v, {}
    if e.kind != "f":
        # keep element writes ordered after everything already there unless plainly disjoint
        if any(k.kind != "f" and k is not e and not (k.kind == "i" and e.kind == "i" and isint(k.x) and isint(e.x)) for k in d):
            base, d = mk("upd", base, tuple(sorted(d.items(), key=lambda p: id_of(p[0])))), {}
    d[e] = x
    if project(base, e) is x and e.kind == "f":
        del d[e]
        if not d:
            return base
    return mk("upd", base, tuple(sorted(d.items(), key=lambda p: id_of(p[0]))))


_eid = {}


def id_of(e):
    i = _eid.get(e)
    if i is None:
        i = _eid[e] = len(_eid)
    return i


# ------------------------------------------------------------------ misc
def subterms(t, seen=None):
    """all subterms (values only), each once"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, Elem):
            if isinstance(x.x, T):
                st.append(x.x)
            if isinstance(x.y, T):
                st.append(x.y)
    return seen


def mentions(t, what):
    return what in subterms(t)


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 7:
        return "..."
    s = lambda x: show(x, d + 1)
    k = t.k
    if k == "int":
        return str(t.a[0])
    if k == "str":
        return repr(t.a[0])
    if k == "sym":
        return "$" + ".".join(str(x) for x in t.a[0]) if isinstance(t.a[0], tuple) else "$" + str(t.a[0])
    if k == "fld":
        return "%s.%r" % (s(t.a[0]), t.a[1])
    if k == "der":
        return "*%s" % s(t.a[0])
    if k == "ref":
        return "&%s" % show_loc(t.a[0], t.a[1], d)
    if k == "lin":
        return "(" + " + ".join(([str(t.a[0])] if t.a[0] else []) + [("%d*%s" % (c, s(x)) if c != 1 else s(x)) for x, c in t.a[1]]) + ")"
    if k == "agg":
        return "%s#%s(%s)" % (str(t.a[0]).split("::")[-1], t.a[1], ", ".join(s(x) for x in t.a[2]))
    if k == "op":
        return "%s(%s)" % (t.a[0], ", ".join(s(x) for x in t.a[1:]))
    if k == "upd":
        return "%s{%s}" % (s(t.a[0]), ", ".join("%r:=%s" % (e, s(x)) for e, x in t.a[1]))
    if k == "fn":
        return "fn:" + str(t.a[0])
    if k == "zst":
        return "zst"
    return "%s%r" % (k, t.a)


def show_loc(root, path, d=0):
    r = root
    if isinstance(root, tuple):
        if root[0] == "L":
            r = "_%s@%s" % (root[2], root[1])
        else:
            r = root[0] + "(" + ", ".join(show(x, d + 1) if isinstance(x, T) else str(x) for x in root[1:]) + ")"
    return str(r) + "".join("." + repr(e) for e in path)

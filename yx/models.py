"""Semantics of the library functions the analysed crate calls (std, futures, parking_lot).

Each model is a function of a CallCtx returning the abstract result, a list of (state, result) forks,
True (a frame was pushed), None (diverges) or NotImplemented (treat as an opaque call).
Everything without a model is an opaque call: it is recorded as an event, its result is a fresh
symbol and whatever it may mutate is forgotten.
"""
import re
from .term import *
from . import term as TM

TABLE = {}
SUFFIX = []
MUT_E = E("yx::Mutex", 0, 0, "locked")
CUR_I = E("yx::Cursor", 0, 0, "inner")
CUR_P = E("yx::Cursor", 0, 1, "pos")
FRONT = E("yx::Deque", 0, 99, "front")
BACK = E("yx::Deque", 0, 98, "back")
EMPTYMAP = op("emptymap")
LOGMAX = mk("sym", ("logmax",))

PURE = set()
# library types whose functions call what they are given at most once
ONCE = ("core::option::", "core::result::", "core::bool::", "core::task::poll::", "core::mem::", "std::sync::", "alloc::sync::", "core::ops::control_flow::")


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def ref(root, path=()):
    return mk("ref", root, tuple(path))


def vref(v):
    return ref(("V", v))


def unpin(a):
    while a.k == "agg" and a.a[0] == "std::pin::Pin":
        a = a.a[2][0]
    return a


def loc_of(ctx, i):
    return ctx.eng.deref(unpin(ctx.args[i]))


def typed(t, ty):
    if t.ty is None and t.k != "int":
        t.ty = ty
    return t


def fork2(ctx, atom, yes, no):
    """fork on a boolean atom; yes/no are functions state -> result"""
    out = []
    d = ctx.eng.decide(ctx.st, atom)
    if d is None:
        s2 = ctx.fork()
        if ctx.eng.assume(s2, atom, 0):
            out.append((s2, no(s2)))
        if ctx.eng.assume(ctx.st, atom, 1):
            out.append((ctx.st, yes(ctx.st)))
        return out
    return [(ctx.st, yes(ctx.st) if d else no(ctx.st))]


def maypanic(ctx, kind, atom):
    """obligation: atom must hold or the call panics; afterwards it is known to hold"""
    eng, st = ctx.eng, ctx.st
    if eng.oblig and not eng.prove(st, atom):
        eng.event(st, "maypanic", kind, atom, ctx.site, eng.snap(st))
    return eng.assume(st, atom, 1)


# ---------------------------------------------------------------------------------- formatting, logs
def nothing(ctx):
    if ctx.t[4] is None:
        return NotImplemented
    return ctx.sym()


def str_result(ctx):
    return ctx.sym()


@model("log::max_level")
def _(ctx):
    return LOGMAX


@model("core::cmp::PartialOrd::le", "core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge",
       "core::cmp::impls::lt", "core::cmp::impls::le", "core::cmp::impls::gt", "core::cmp::impls::ge",
       "std::time::lt", "std::time::le", "std::time::gt", "std::time::ge")
def _(ctx):
    m = ctx.name.rsplit("::", 1)[1]
    s = ctx.selfty()
    if s.startswith("log::"):
        v = ctx.val(1)
        if v is LOGMAX:
            return op("cmpb", LOGMAX)
        return ONE
    a, b = ctx.val(0), ctx.val(1)
    # one more reference level for &&T
    a, b = deep(ctx, a), deep(ctx, b)
    return order(ctx, m, a, b, s)


def deep(ctx, a):
    while a.k == "ref":
        a = ctx.eng.load(ctx.st, a.a[0], a.a[1])
    return a


INTS = set(TM.WIDTH)


def order(ctx, m, a, b, ty):
    ty = ty.lstrip("&")
    if ty in INTS or (isint(a) and isint(b)):
        o = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[m]
        return ctx.eng.cmp(o, a, b)
    mo = re.match(r"(std|core)::option::Option<(.*)>$", ty)
    if mo and a.k == "agg" and b.k == "agg":
        # None comes before every Some
        if a.a[1] == 1 and b.a[1] == 1:
            return order(ctx, m, deep(ctx, a.a[2][0]), deep(ctx, b.a[2][0]), mo.group(2))
        return I(1 if {"lt": a.a[1] < b.a[1], "le": a.a[1] <= b.a[1], "gt": a.a[1] > b.a[1], "ge": a.a[1] >= b.a[1]}[m] else 0)
    t = lambda x, y: op("cmpb", x, y)
    if m == "lt":
        return t(a, b)
    if m == "gt":
        return t(b, a)
    if m == "le":
        return bnot(t(b, a))
    return bnot(t(a, b))


@model("core::cmp::PartialEq::ne", "core::cmp::PartialEq::eq", "core::cmp::impls::eq", "core::cmp::impls::ne",
       "alloc::vec::partial_eq::eq", "core::marker::eq")
def _(ctx):
    if ctx.name.startswith("core::cmp::PartialEq::") and ctx.c.get("inst") in ctx.eng.F.fns:
        return NotImplemented          # default method of a type with its own `eq`
    a, b = deep(ctx, ctx.val(0)), deep(ctx, ctx.val(1))
    m = ctx.name.rsplit("::", 1)[1]
    e = equal(ctx, a, b)
    return e if m == "eq" else bnot(e)


def equal(ctx, a, b):
    if a is b:
        return ONE
    if a.k in ("int", "lin") or b.k in ("int", "lin") or (a.ty in INTS and b.ty in INTS):
        return eq(a, b)
    if a.k == "agg" and b.k == "agg" and a.a[0] == b.a[0] == "std::option::Option":
        if a.a[1] != b.a[1]:
            return ZERO
        return equal(ctx, deep(ctx, a.a[2][0]), deep(ctx, b.a[2][0])) if a.a[1] == 1 else ONE
    x, y = sorted((a, b), key=lambda t: t.id)
    return op("eq", x, y)


@model("core::cmp::min", "core::cmp::Ord::min", "core::cmp::impls::min")
def _(ctx):
    return typed(tmin(ctx.args[0], ctx.args[1]), ctx.destty()["s"]) if ctx.destty()["k"] == "int" else op("minb", *ctx.args)


@model("core::cmp::max", "core::cmp::Ord::max", "core::cmp::impls::max")
def _(ctx):
    return typed(tmax(ctx.args[0], ctx.args[1]), ctx.destty()["s"]) if ctx.destty()["k"] == "int" else op("maxb", *ctx.args)


@model("core::cmp::Ord::clamp", "core::cmp::impls::clamp")
def _(ctx):
    if ctx.destty()["k"] != "int":
        return NotImplemented
    x, lo, hi = ctx.args
    if not maypanic(ctx, "clamp bounds", bnot(lt(hi, lo))):
        return None
    t = ctx.destty()["s"]
    return typed(tmin(typed(tmax(x, lo), t), hi), t)


@model("core::hint::must_use", "core::convert::identity", "core::hint::black_box")
def _(ctx):
    return ctx.args[0]


# ---------------------------------------------------------------------------------- integers
def width(ctx, i=0):
    return TM.WIDTH.get(ctx.ty(i)["s"], 64)


@model("core::num::checked_add", "core::num::checked_sub", "core::num::checked_mul")
def _(ctx):
    a, b = ctx.args[:2]
    w = width(ctx)
    m = ctx.name.rsplit("_", 1)[1]
    if m == "add":
        r = add(a, b)
        bad = lt(I((1 << w) - 1), r)
    elif m == "sub":
        r = sub(a, b)
        bad = lt(a, b)
    else:
        r = mul(a, b)
        bad = lt(I((1 << w) - 1), r)
    if r.k in ("op",):
        typed(r, ctx.ty(0)["s"])
    return fork2(ctx, bad, lambda s: none(), lambda s: some(r))


@model("core::num::overflowing_add", "core::num::overflowing_sub", "core::num::overflowing_mul")
def _(ctx):
    o = {"add": "AddWithOverflow", "sub": "SubWithOverflow", "mul": "MulWithOverflow"}[ctx.name.rsplit("_", 1)[1]]
    return ctx.eng.binop(ctx.st, o, ctx.args[0], ctx.args[1], ctx.t[5][0], ctx.site)


@model("core::num::wrapping_add", "core::num::wrapping_sub", "core::num::wrapping_mul")
def _(ctx):
    a, b = ctx.args[:2]
    w = width(ctx)
    m = ctx.name.rsplit("_", 1)[1]
    eng, st = ctx.eng, ctx.st
    r = {"add": add, "sub": sub, "mul": mul}[m](a, b)
    over = lt(a, b) if m == "sub" else lt(I((1 << w) - 1), r)
    return fork2(ctx, over, lambda s: typed(op("wrap" + m, a, b), ctx.ty(0)["s"]), lambda s: r)


@model("core::num::saturating_sub")
def _(ctx):
    a, b = ctx.args
    if isint(a) and isint(b):
        return I(max(0, a.a[0] - b.a[0]))
    d = ctx.eng.decide(ctx.st, lt(a, b))
    if d == 1:
        return ZERO
    if d == 0:
        return sub(a, b)
    return typed(op("satsub", a, b), ctx.ty(0)["s"])


@model("core::num::saturating_mul")
def _(ctx):
    a, b = ctx.args
    if isint(a):
        a, b = b, a
    return typed(op("satmul", a, b, width(ctx)), ctx.ty(0)["s"])


@model("core::num::saturating_add")
def _(ctx):
    a, b = ctx.args
    w = width(ctx)
    m = I((1 << w) - 1)
    return fork2(ctx, lt(m, add(a, b)), lambda s: m, lambda s: add(a, b))


@model("core::num::abs_diff")
def _(ctx):
    a, b = ctx.args
    return fork2(ctx, lt(a, b), lambda s: sub(b, a), lambda s: sub(a, b))


@model("core::num::is_multiple_of")
def _(ctx):
    return eqz(rem(ctx.args[0], ctx.args[1]))


@model("core::num::div_ceil", "core::num::pow", "core::num::next_power_of_two", "core::num::leading_zeros", "core::num::count_ones")
def _(ctx):
    return typed(op(ctx.name.rsplit("::", 1)[1], *ctx.args), ctx.destty()["s"])


def nbytes(ctx, ty):
    return TM.WIDTH.get(ty["s"], 64) // 8


@model("core::num::to_be_bytes", "core::num::to_le_bytes", "core::num::to_ne_bytes")
def _(ctx):
    x = ctx.args[0]
    n = nbytes(ctx, ctx.ty(0))
    bs = [byte(x, i, n) for i in range(n)]
    if "_be_" not in ctx.name:
        bs.reverse()
    return mk("agg", "array", 0, tuple(bs))


def byte(x, i, n):
    if isint(x):
        return I((x.a[0] >> (8 * (n - 1 - i))) & 255)
    if x.k == "op" and x.a[0] == "be" and len(x.a) == n + 1:
        return x.a[1 + i]
    return typed(op("byte", x, I(i), I(n)), "u8")


@model("core::num::from_be_bytes", "core::num::from_le_bytes", "core::num::from_ne_bytes")
def _(ctx):
    v = ctx.args[0]
    n = nbytes(ctx, ctx.destty())
    bs = [project(v, EI(I(i))) for i in range(n)]
    if "_be_" not in ctx.name:
        bs.reverse()
    if all(isint(b) for b in bs):
        r = 0
        for b in bs:
            r = r * 256 + b.a[0]
        return I(r)
    if all(b.k == "op" and b.a[0] == "byte" and b.a[1] is bs[0].a[1] and b.a[2] is I(i) and b.a[3] is I(n) for i, b in enumerate(bs)):
        return bs[0].a[1]
    return typed(op("be", *bs), ctx.destty()["s"])


@model("core::num::to_be", "core::num::from_be", "core::num::swap_bytes", "core::num::to_le", "core::num::from_le")
def _(ctx):
    m = ctx.name.rsplit("::", 1)[1]
    if m.endswith("le"):
        return ctx.args[0]
    x = ctx.args[0]
    if x.k == "op" and x.a[0] == "bswap":
        return x.a[1]
    return typed(op("bswap", x), ctx.ty(0)["s"])


# ---------------------------------------------------------------------------------- memory helpers
@model("core::mem::replace")
def _(ctx):
    root, path = loc_of(ctx, 0)
    old = ctx.eng.load(ctx.st, root, path)
    ctx.eng.store(ctx.st, root, path, ctx.args[1], ctx.site)
    return old


def default_of(eng, ty):
    k = ty["k"]
    if k in ("int", "bool", "char"):
        return ZERO
    n = ty.get("name") or ""
    if n == "std::option::Option":
        return none()
    if n in ("std::vec::Vec", "std::collections::VecDeque", "std::string::String"):
        return EMPTYSEQ
    if n in ("std::collections::HashMap", "std::collections::BTreeMap", "std::collections::HashSet"):
        return EMPTYMAP
    if n == "std::sync::Arc":
        return None
    if n.endswith("lock_api::Mutex") or n == "std::sync::Mutex":
        inner = default_of(eng, eng.F.types[ty["args"][-1]])
        return mk("agg", "yx::Mutex", 0, (inner,)) if inner is not None else None
    if k == "tuple":
        xs = [default_of(eng, eng.F.types[a]) for a in ty["args"]]
        return mk("agg", "tuple", 0, tuple(xs)) if all(x is not None for x in xs) else None
    return None


@model("core::mem::take")
def _(ctx):
    root, path = loc_of(ctx, 0)
    old = ctx.eng.load(ctx.st, root, path)
    d = default_of(ctx.eng, ctx.destty())
    if d is None:
        return NotImplemented
    ctx.eng.store(ctx.st, root, path, d, ctx.site)
    return old


@model("core::mem::swap")
def _(ctx):
    r1, p1 = loc_of(ctx, 0)
    r2, p2 = loc_of(ctx, 1)
    a, b = ctx.eng.load(ctx.st, r1, p1), ctx.eng.load(ctx.st, r2, p2)
    ctx.eng.store(ctx.st, r1, p1, b, ctx.site)
    ctx.eng.store(ctx.st, r2, p2, a, ctx.site)
    return UNIT


@model("core::mem::drop", "core::mem::forget")
def _(ctx):
    if ctx.name.endswith("drop"):
        eng, st = ctx.eng, ctx.st
        v = ctx.args[0]
        # the own Drop impl of the dropped value, if any, runs here
        eng.drop_value(st, v, ctx.site)
        eng.event(st, "drop", ("mem::drop",), v, ctx.ty(0)["s"], ctx.site)
        return UNIT
    ctx.eng.event(ctx.st, "forget", ctx.args[0], ctx.ty(0)["s"], ctx.site)
    return UNIT


@model("core::clone::impls::clone", "core::task::wake::clone", "alloc::vec::clone", "alloc::string::clone", "core::marker::clone",
       "std::time::clone", "core::time::clone", "core::array::clone", "alloc::rcs::arc::clone")
def _(ctx):
    return deep1(ctx)


def deep1(ctx):
    v = ctx.val(0)
    dk = ctx.destty()["k"]
    while v.k == "ref" and dk != "ref":
        v = ctx.eng.load(ctx.st, v.a[0], v.a[1])
    return v


@model("core::default::default", "alloc::vec::default", "std::collections::hash::map::default", "core::option::default",
       "alloc::collections::vec_deque::default")
def _(ctx):
    d = default_of(ctx.eng, ctx.destty())
    return NotImplemented if d is None else d


# ---------------------------------------------------------------------------------- Arc / Mutex
def new_arc(ctx, content):
    t = mk("sym", ("newarc", ctx.fr.cs, ctx.fr.pt))
    ctx.st.heap[("A", t)] = content
    return t


@model("alloc::rcs::arc::new")
def _(ctx):
    return new_arc(ctx, ctx.args[0])


@model("alloc::rcs::arc::default")
def _(ctx):
    ty = ctx.destty()
    inner = default_of(ctx.eng, ctx.eng.F.types[ty["args"][0]])
    if inner is None:
        inner = mk("sym", ("default", ty["s"]))
    return new_arc(ctx, inner)


@model("alloc::rcs::arc::deref", "alloc::rcs::arc::as_ref", "alloc::rcs::arc::borrow")
def _(ctx):
    return ref(("A", ctx.val(0)))


@model("alloc::rcs::arc::ptr_eq")
def _(ctx):
    return equal(ctx, ctx.val(0), ctx.val(1))


def lockclass(ctx):
    """the type protected by the mutex"""
    s = ctx.selfty()
    i = s.find("RawMutex, ")
    if i >= 0:
        return s[i + len("RawMutex, "):].rstrip(">") if not s.endswith(">>") else s[i + 10:-1]
    return s


@model("lock_api::mutex::new", "lock_api::mutex::const_new")
def _(ctx):
    return mk("agg", "yx::Mutex", 0, (ctx.args[0],))


def do_lock(ctx, how="lock"):
    eng, st = ctx.eng, ctx.st
    root, path = loc_of(ctx, 0)
    loc = (root, path + (MUT_E,))
    fresh = root[0] == "A" and root[1].k == "sym" and root[1].a[0][0] == "newarc"
    if not fresh:
        # another task may have changed the protected value since we last held the lock
        eng.store(st, loc[0], loc[1], mk("sym", ("locked", ctx.fr.cs, ctx.fr.pt, root, path)), None, log=False)
    eng.event(st, how, loc, lockclass(ctx), ctx.site, eng.load(st, loc[0], loc[1]))
    return mk("agg", "yx::Guard", 0, (ref(*loc),))


@model("lock_api::mutex::lock")
def _(ctx):
    return do_lock(ctx)


@model("lock_api::mutex::try_lock")
def _(ctx):
    s2 = ctx.fork()
    return [(s2, none()), (ctx.st, some(do_lock(ctx, "trylock")))]


@model("lock_api::mutex::get_mut", "lock_api::mutex::data_ptr")
def _(ctx):
    root, path = loc_of(ctx, 0)
    return ref(root, path + (MUT_E,))


@model("lock_api::mutex::into_inner")
def _(ctx):
    return project(ctx.args[0], MUT_E)


@model("lock_api::mutex::deref", "lock_api::mutex::deref_mut")
def _(ctx):
    v = ctx.val(0)
    if v.k == "agg" and v.a[0] == "yx::Guard":
        return v.a[2][0]
    # unknown guard (e.g. a MutexGuard argument of an entry point)
    return ref(("D", v))


@model("lock_api::mutex::map", "lock_api::mutex::try_map")
def _(ctx):
    return NotImplemented


@model("lock_api::mutex::is_locked")
def _(ctx):
    return ctx.sym()


# ---------------------------------------------------------------------------------- sequences
def seqval(ctx, i=0):
    v = ctx.val(i)
    while v.k == "ref":
        v = ctx.eng.load(ctx.st, v.a[0], v.a[1])
    return v


def seqloc(ctx, i=0):
    root, path = loc_of(ctx, i)
    v = ctx.eng.load(ctx.st, root, path)
    while v.k == "ref":
        root, path = v.a[0], v.a[1]
        v = ctx.eng.load(ctx.st, root, path)
    return root, path, v


@model("alloc::vec::new", "alloc::collections::vec_deque::new", "alloc::string::new")
def _(ctx):
    return EMPTYSEQ


@model("alloc::vec::with_capacity", "alloc::collections::vec_deque::with_capacity", "alloc::string::with_capacity")
def _(ctx):
    ctx.eng.event(ctx.st, "alloc", ctx.args[0], ctx.site)
    return EMPTYSEQ


@model("alloc::vec::from_elem")
def _(ctx):
    ctx.eng.event(ctx.st, "alloc", ctx.args[1], ctx.site)
    return op("rep", ctx.args[0], ctx.args[1])


@model("alloc::vec::resize")
def _(ctx):
    root, path, v = seqloc(ctx)
    n, e = ctx.args[1], ctx.args[2]
    ctx.eng.event(ctx.st, "alloc", n, ctx.site)
    if v is EMPTYSEQ:
        nv = op("rep", e, n)
    else:
        nv = op("resize", v, n, e)
    ctx.eng.store(ctx.st, root, path, nv, ctx.site)
    return UNIT


@model("alloc::vec::reserve", "alloc::vec::reserve_exact", "alloc::collections::vec_deque::reserve")
def _(ctx):
    ctx.eng.event(ctx.st, "alloc", ctx.args[1], ctx.site)
    return UNIT


@model("alloc::vec::deref", "alloc::vec::deref_mut", "alloc::vec::as_slice", "alloc::vec::as_mut_slice", "alloc::vec::as_ref",
       "alloc::vec::as_mut", "alloc::vec::borrow", "core::array::as_slice", "core::array::as_ref", "core::array::as_mut",
       "core::array::as_mut_slice", "core::slice::as_ref", "core::slice::as_mut")
def _(ctx):
    root, path, _v = seqloc(ctx)
    return ref(root, path)


@model("alloc::vec::len", "core::slice::len", "core::str::len", "alloc::collections::vec_deque::len", "alloc::string::len", "core::array::len")
def _(ctx):
    return lenof(seqval(ctx))


@model("alloc::vec::is_empty", "core::slice::is_empty", "core::str::is_empty", "alloc::collections::vec_deque::is_empty", "alloc::string::is_empty")
def _(ctx):
    return eqz(lenof(seqval(ctx)))


def range_bounds(rv, n):
    """(lo, hi) of a range value over a sequence of length n, or None"""
    if rv.k != "agg":
        return None
    tag = str(rv.a[0]).split("::")[-1]
    f = rv.a[2]
    if tag == "Range":
        return f[0], f[1]
    if tag == "RangeFrom":
        return f[0], n
    if tag == "RangeTo":
        return ZERO, f[0]
    if tag == "RangeFull":
        return ZERO, n
    if tag == "RangeToInclusive":
        return ZERO, add(f[0], ONE)
    if tag == "RangeInclusive":
        return f[0], add(f[1], ONE)
    return None


@model("alloc::vec::index", "alloc::vec::index_mut", "core::array::index", "core::array::index_mut",
       "core::slice::index::index", "core::slice::index::index_mut")
def _(ctx):
    root, path, v = seqloc(ctx)
    r = ctx.args[1]
    n = lenof(v)
    if ctx.ty(1)["k"] == "int":
        if not maypanic(ctx, "index", lt(r, n)):
            return None
        return ref(root, path + (EI(r),))
    if r.k == "zst":
        return ref(root, path)
    b = range_bounds(r, n)
    if b is None:
        return NotImplemented
    lo, hi = b
    if not maypanic(ctx, "slice end", bnot(lt(n, hi))):
        return None
    if not maypanic(ctx, "slice order", bnot(lt(hi, lo))):
        return None
    if lo is ZERO and hi is n:
        return ref(root, path)
    return ref(root, path + (ER(lo, hi),))


@model("core::slice::get", "core::slice::get_mut", "alloc::vec::get", "alloc::vec::get_mut")
def _(ctx):
    root, path, v = seqloc(ctx)
    r = ctx.args[1]
    n = lenof(v)
    if ctx.ty(1)["k"] == "int":
        return fork2(ctx, lt(r, n), lambda s: some(ref(root, path + (EI(r),))), lambda s: none())
    b = range_bounds(r, n)
    if b is None:
        return NotImplemented
    lo, hi = b
    out = []
    eng = ctx.eng
    for good in (1, 0):
        s2 = ctx.fork() if good else ctx.st
        if good:
            if eng.assume(s2, bnot(lt(n, hi)), 1) and eng.assume(s2, bnot(lt(hi, lo)), 1):
                out.append((s2, some(ref(root, path + (ER(lo, hi),)))))
        else:
            s3 = ctx.fork()
            if eng.assume(s3, lt(n, hi), 1):
                out.append((s3, none()))
            if eng.assume(s2, bnot(lt(n, hi)), 1) and eng.assume(s2, lt(hi, lo), 1):
                out.append((s2, none()))
    return out


@model("core::slice::copy_from_slice", "core::slice::clone_from_slice")
def _(ctx):
    eng, st = ctx.eng, ctx.st
    root, path, dv = seqloc(ctx, 0)
    sroot, spath, sv = seqloc(ctx, 1)
    if not maypanic(ctx, "copy_from_slice", eq(lenof(dv), lenof(sv))):
        return None
    eng.event(st, "copy", root, path, sv, (sroot, spath), ctx.site)
    eng.store(st, root, path, sv, ctx.site)
    return UNIT


@model("core::slice::fill")
def _(ctx):
    root, path, v = seqloc(ctx)
    ctx.eng.store(ctx.st, root, path, op("rep", ctx.args[1], lenof(v)), ctx.site)
    return UNIT


@model("alloc::vec::from", "alloc::slice::to_vec", "alloc::slice::to_owned", "alloc::slice::into_vec", "alloc::vec::into_boxed_slice",
       "alloc::boxed::convert::from", "alloc::vec::to_vec", "alloc::collections::vec_deque::from", "alloc::boxed::new", "alloc::slice::to_vec_in")
def _(ctx):
    return seqval(ctx)


@model("alloc::vec::extend_from_slice", "alloc::vec::append")
def _(ctx):
    root, path, v = seqloc(ctx, 0)
    r2, p2, x = seqloc(ctx, 1)
    nv = x if v is EMPTYSEQ else op("cat", v, x)
    ctx.eng.store(ctx.st, root, path, nv, ctx.site)
    if ctx.name.endswith("append"):
        ctx.eng.store(ctx.st, r2, p2, EMPTYSEQ, ctx.site)
    return UNIT


@model("alloc::vec::split_off")
def _(ctx):
    root, path, v = seqloc(ctx)
    n = ctx.args[1]
    if not maypanic(ctx, "split_off", bnot(lt(lenof(v), n))):
        return None
    if n is ZERO:
        ctx.eng.store(ctx.st, root, path, EMPTYSEQ, ctx.site)
        return v
    ctx.eng.store(ctx.st, root, path, TM.slice_of(v, ZERO, n), ctx.site)
    return TM.slice_of(v, n, lenof(v))


@model("alloc::vec::drain", "alloc::collections::vec_deque::drain")
def _(ctx):
    root, path, v = seqloc(ctx)
    b = range_bounds(ctx.args[1], lenof(v)) if ctx.args[1].k == "agg" else ((ZERO, lenof(v)) if ctx.args[1].k == "zst" else None)
    if b is None:
        return NotImplemented
    lo, hi = b
    if not maypanic(ctx, "drain end", bnot(lt(lenof(v), hi))) or not maypanic(ctx, "drain order", bnot(lt(hi, lo))):
        return None
    n = lenof(v)
    if lo is ZERO:
        rest = EMPTYSEQ if hi is n else TM.slice_of(v, hi, n)
    elif hi is n:
        rest = TM.slice_of(v, ZERO, lo)
    else:
        rest = op("cut", v, lo, hi)
    ctx.eng.store(ctx.st, root, path, rest, ctx.site)
    return mk("agg", "yx::SeqIter", 0, (TM.slice_of(v, lo, hi), I(0)))


@model("alloc::vec::truncate")
def _(ctx):
    root, path, v = seqloc(ctx)
    n = ctx.args[1]
    eng = ctx.eng

    def yes(s):
        eng.store(s, root, path, TM.slice_of(v, ZERO, n), ctx.site)
        return UNIT
    return fork2(ctx, lt(n, lenof(v)), yes, lambda s: UNIT)


@model("alloc::vec::clear", "alloc::collections::vec_deque::clear", "alloc::string::clear")
def _(ctx):
    root, path, v = seqloc(ctx)
    ctx.eng.store(ctx.st, root, path, EMPTYSEQ, ctx.site)
    return UNIT


@model("core::slice::split_at", "core::slice::split_at_mut")
def _(ctx):
    root, path, v = seqloc(ctx)
    n = ctx.args[1]
    if not maypanic(ctx, "split_at", bnot(lt(lenof(v), n))):
        return None
    return mk("agg", "tuple", 0, (ref(root, path + (ER(ZERO, n),)), ref(root, path + (ER(n, lenof(v)),))))


@model("core::slice::first", "core::slice::first_mut")
def _(ctx):
    root, path, v = seqloc(ctx)
    return fork2(ctx, eqz(lenof(v)), lambda s: none(), lambda s: some(ref(root, path + (EI(ZERO),))))


@model("core::array::try_from", "core::array::convert::try_from", "core::slice::try_into")
def _(ctx):
    v = seqval(ctx)
    dt = ctx.destty()
    okty = ctx.eng.F.types[dt["args"][0]] if dt.get("args") else {}
    isref = okty.get("k") == "ref"
    aty = ctx.eng.F.types[okty["e"]] if isref else okty
    n = aty.get("n")
    if n is None:
        return NotImplemented
    arr = mk("agg", "array", 0, tuple(project(v, EI(I(i))) for i in range(n))) if n <= 64 else v
    if isref:
        root, path, _v = seqloc(ctx)
        arr = ref(root, path)
    return fork2(ctx, eq(lenof(v), I(n)), lambda s: ok(arr), lambda s: err(UNIT))


@model("alloc::vec::push", "alloc::collections::vec_deque::push_back")
def _(ctx):
    root, path, v = seqloc(ctx)
    ctx.eng.store(ctx.st, root, path, op("pushb", v, ctx.args[1]), ctx.site)
    return UNIT


@model("alloc::collections::vec_deque::push_front")
def _(ctx):
    root, path, v = seqloc(ctx)
    ctx.eng.store(ctx.st, root, path, op("pushf", v, ctx.args[1]), ctx.site)
    return UNIT


def popf(v):
    if v.k == "upd" and all(e is FRONT for e, _ in v.a[1]):
        v = v.a[0]
    if v.k == "op" and v.a[0] == "pushb" and v.a[1] is EMPTYSEQ:
        return EMPTYSEQ
    if v.k == "op" and v.a[0] == "pushf":
        return v.a[1]
    x = literal(v) if v.k == "op" else None
    if x:
        r = EMPTYSEQ
        for y in x[1:]:
            r = op("pushb", r, y)
        return r
    return op("popf", v)


@model("alloc::collections::vec_deque::pop_front")
def _(ctx):
    root, path, v = seqloc(ctx)
    eng = ctx.eng

    def yes(s):
        eng.store(s, root, path, popf(v), ctx.site)
        return some(project(v, FRONT))
    return fork2(ctx, eqz(lenof(v)), lambda s: none(), yes)


@model("alloc::collections::vec_deque::pop_back", "alloc::vec::pop")
def _(ctx):
    root, path, v = seqloc(ctx)
    eng = ctx.eng

    def yes(s):
        if v.k == "op" and v.a[0] == "pushb":
            eng.store(s, root, path, v.a[1], ctx.site)
            return some(v.a[2])
        eng.store(s, root, path, op("popb", v), ctx.site)
        return some(project(v, BACK))
    return fork2(ctx, eqz(lenof(v)), lambda s: none(), yes)


@model("alloc::collections::vec_deque::front", "alloc::collections::vec_deque::front_mut")
def _(ctx):
    root, path, v = seqloc(ctx)
    return fork2(ctx, eqz(lenof(v)), lambda s: none(), lambda s: some(ref(root, path + (FRONT,))))


@model("alloc::collections::vec_deque::get", "alloc::collections::vec_deque::get_mut")
def _(ctx):
    if ctx.args[1] is not ZERO:
        return NotImplemented
    root, path, v = seqloc(ctx)
    return fork2(ctx, eqz(lenof(v)), lambda s: none(), lambda s: some(ref(root, path + (FRONT,))))


@model("alloc::collections::vec_deque::index", "alloc::collections::vec_deque::index_mut")
def _(ctx):
    if ctx.args[1] is not ZERO:
        return NotImplemented
    root, path, v = seqloc(ctx)
    if not maypanic(ctx, "index", bnot(eqz(lenof(v)))):
        return None
    return ref(root, path + (FRONT,))


@model("alloc::collections::vec_deque::back", "alloc::collections::vec_deque::back_mut")
def _(ctx):
    root, path, v = seqloc(ctx)
    return fork2(ctx, eqz(lenof(v)), lambda s: none(), lambda s: some(ref(root, path + (BACK,))))


@model("alloc::collections::vec_deque::append")
def _(ctx):
    root, path, v = seqloc(ctx, 0)
    r2, p2, x = seqloc(ctx, 1)
    ctx.eng.store(ctx.st, root, path, x if v is EMPTYSEQ else op("cat", v, x), ctx.site)
    ctx.eng.store(ctx.st, r2, p2, EMPTYSEQ, ctx.site)
    return UNIT


# ---------------------------------------------------------------------------------- io::Cursor
@model("core::io::cursor::new", "std::io::cursor::new")
def _(ctx):
    return mk("agg", "yx::Cursor", 0, (ctx.args[0], ZERO))


@model("core::io::cursor::get_ref", "core::io::cursor::get_mut", "std::io::cursor::get_ref", "std::io::cursor::get_mut")
def _(ctx):
    root, path = loc_of(ctx, 0)
    return ref(root, path + (CUR_I,))


@model("core::io::cursor::position", "std::io::cursor::position")
def _(ctx):
    root, path = loc_of(ctx, 0)
    return typed(ctx.eng.load(ctx.st, root, path + (CUR_P,)), "u64")


@model("core::io::cursor::set_position", "std::io::cursor::set_position")
def _(ctx):
    root, path = loc_of(ctx, 0)
    ctx.eng.store(ctx.st, root, path + (CUR_P,), ctx.args[1], ctx.site)
    return UNIT


@model("core::io::cursor::into_inner", "std::io::cursor::into_inner")
def _(ctx):
    return project(ctx.args[0], CUR_I)


# ---------------------------------------------------------------------------------- io::Error
@model("alloc::io::error::new", "alloc::io::error::other", "std::io::error::new", "std::io::error::other", "core::io::error::from")
def _(ctx):
    k = ctx.name.rsplit("::", 1)[1]
    if k == "new":
        a = ctx.args[0]
        return op("ioerr", kindname(ctx, a))
    if k == "other":
        return op("ioerr", mk("str", "Other"))
    return op("ioerr", kindname(ctx, ctx.args[0]))


def kindname(ctx, a):
    ad = ctx.eng.adt("std::io::ErrorKind")
    if a.k == "agg" and ad and ad["enum"]:
        return mk("str", ad["variants"][a.a[1]]["name"])
    return a


# ---------------------------------------------------------------------------------- maps
def has(m, k):
    if m.k == "op":
        if m.a[0] == "emptymap":
            return ZERO
        if m.a[0] == "ins" and m.a[2] is k:
            return ONE
        if m.a[0] == "rem" and m.a[2] is k:
            return ZERO
    return op("has", m, k)


def mapget(m, k):
    if m.k == "op" and m.a[0] == "ins" and m.a[2] is k:
        return m.a[3]
    return op("mapget", m, k)


def maplen(m):
    if m is EMPTYMAP:
        return ZERO
    return typed(op("maplen", m), "usize")


HM = "std::collections::hash::map::"


def keyval(ctx, i):
    a = ctx.args[i]
    if a.k == "ref":
        return deep(ctx, a)
    return a


@model(HM + "contains_key")
def _(ctx):
    return has(seqval(ctx), keyval(ctx, 1))


@model(HM + "get", HM + "get_mut")
def _(ctx):
    m, k = seqval(ctx), keyval(ctx, 1)
    return fork2(ctx, has(m, k), lambda s: some(vref(mapget(m, k))), lambda s: none())


@model(HM + "index")
def _(ctx):
    m, k = seqval(ctx), keyval(ctx, 1)
    if not maypanic(ctx, "map index", has(m, k)):
        return None
    return vref(mapget(m, k))


@model(HM + "insert")
def _(ctx):
    root, path, m = seqloc(ctx)
    k, v = ctx.args[1], ctx.args[2]
    ctx.eng.store(ctx.st, root, path, op("ins", m, k, v), ctx.site)
    d = ctx.eng.decide(ctx.st, has(m, k))
    if d == 0:
        return none()
    if d == 1:
        return some(mapget(m, k))
    return op("mapold", m, k)


@model(HM + "remove", HM + "remove_entry")
def _(ctx):
    root, path, m = seqloc(ctx)
    k = keyval(ctx, 1)
    eng = ctx.eng
    entry = ctx.name.endswith("entry")

    def yes(s):
        nm = m.a[1] if (m.k == "op" and m.a[0] == "ins" and m.a[2] is k) else op("rem", m, k)
        eng.store(s, root, path, nm, ctx.site)
        v = mapget(m, k)
        return some(mk("agg", "tuple", 0, (k, v)) if entry else v)
    return fork2(ctx, has(m, k), yes, lambda s: none())


@model(HM + "len")
def _(ctx):
    return maplen(seqval(ctx))


@model(HM + "is_empty")
def _(ctx):
    return eqz(maplen(seqval(ctx)))


@model(HM + "clear")
def _(ctx):
    root, path, m = seqloc(ctx)
    ctx.eng.store(ctx.st, root, path, EMPTYMAP, ctx.site)
    return UNIT


@model(HM + "new", HM + "with_capacity", HM + "with_hasher", HM + "with_capacity_and_hasher")
def _(ctx):
    return EMPTYMAP


@model(HM + "entry")
def _(ctx):
    root, path, m = seqloc(ctx)
    k = ctx.args[1]
    e = mk("agg", "yx::Entry", 0, (ref(root, path), k))
    ad = ctx.eng.adt("std::collections::hash_map::Entry")
    occ, vac = 0, 1
    if ad:
        for i, v in enumerate(ad["variants"]):
            if v["name"] == "Occupied":
                occ = i
            if v["name"] == "Vacant":
                vac = i
    return fork2(ctx, has(m, k), lambda s: mk("agg", "std::collections::hash_map::Entry", occ, (e,)),
                 lambda s: mk("agg", "std::collections::hash_map::Entry", vac, (e,)))


def entry_parts(ctx, i=0):
    e = ctx.args[i]
    if e.k == "ref":
        e = deep(ctx, e)
    if e.k == "agg" and e.a[0] == "yx::Entry":
        r, k = e.a[2]
        return r.a[0], r.a[1], k
    return None


def _entry_vac_insert(ctx):
    p = entry_parts(ctx)
    if p is None:
        return NotImplemented
    root, path, k = p
    m = ctx.eng.load(ctx.st, root, path)
    ctx.eng.store(ctx.st, root, path, op("ins", m, k, ctx.args[1]), ctx.site)
    return vref(ctx.args[1])


def _entry_occ_get(ctx):
    p = entry_parts(ctx)
    if p is None:
        return NotImplemented
    root, path, k = p
    return vref(mapget(ctx.eng.load(ctx.st, root, path), k))


def _entry_occ_remove(ctx):
    p = entry_parts(ctx)
    if p is None:
        return NotImplemented
    root, path, k = p
    m = ctx.eng.load(ctx.st, root, path)
    ctx.eng.store(ctx.st, root, path, op("rem", m, k), ctx.site)
    return mapget(m, k)


def entry_dispatch(ctx):
    m = ctx.name.rsplit("::", 1)[1]
    if entry_parts(ctx) is None:
        return NotImplemented
    if m == "insert" and len(ctx.args) == 2:
        return _entry_vac_insert(ctx)
    if m in ("get", "get_mut", "into_mut"):
        return _entry_occ_get(ctx)
    if m == "remove":
        return _entry_occ_remove(ctx)
    if m == "key":
        return vref(entry_parts(ctx)[2])
    return NotImplemented


# ---------------------------------------------------------------------------------- atomics
@model("core::sync::atomic::new")
def _(ctx):
    return ctx.args[0]


@model("core::sync::atomic::fetch_add", "core::sync::atomic::fetch_sub", "core::sync::atomic::load", "core::sync::atomic::store",
       "core::sync::atomic::swap", "core::sync::atomic::fetch_or", "core::sync::atomic::fetch_max")
def _(ctx):
    root, path = loc_of(ctx, 0)
    m = ctx.name.rsplit("::", 1)[1]
    old = mk("sym", ("atomic", ctx.fr.cs, ctx.fr.pt, root, path))
    ctx.eng.event(ctx.st, "atomic", m, (root, path), tuple(ctx.args[1:]), old, ctx.site)
    return UNIT if m == "store" else old


# ---------------------------------------------------------------------------------- tasks
@model("core::task::wake::waker")
def _(ctx):
    root, path = loc_of(ctx, 0)
    return vref(op("waker", ctx.eng.load(ctx.st, root, path)))


@model("core::task::wake::wake", "core::task::wake::wake_by_ref")
def _(ctx):
    w = ctx.args[0]
    if w.k == "ref":
        w = deep(ctx, w)
    ctx.eng.event(ctx.st, "wake", w, ctx.site)
    return UNIT


@model("core::task::wake::will_wake")
def _(ctx):
    return op("cmpb", deep(ctx, ctx.args[0]), deep(ctx, ctx.args[1]), mk("str", "will_wake"))


@model("core::task::wake::clone_from")
def _(ctx):
    root, path = loc_of(ctx, 0)
    ctx.eng.store(ctx.st, root, path, deep(ctx, ctx.args[1]), ctx.site)
    return UNIT


# ---------------------------------------------------------------------------------- time
@model("std::time::now")
def _(ctx):
    return mk("sym", ("now", ctx.fr.cs, ctx.fr.pt))


@model("core::ops::range::new")
def _(ctx):
    if len(ctx.args) != 2 or "RangeInclusive" not in ctx.destty().get("s", ""):
        return NotImplemented
    return mk("agg", "std::ops::RangeInclusive", 0, tuple(ctx.args) + (ZERO,))


@model("core::ops::range::contains")
def _(ctx):
    r, x = deep(ctx, ctx.args[0]), deep(ctx, ctx.args[1])
    if r.k != "agg" or ctx.ty(1).get("k") != "ref":
        return NotImplemented
    tag, f = str(r.a[0]).split("::")[-1], r.a[2]
    if tag == "RangeInclusive":
        return fork2(ctx, lt(x, f[0]), lambda s: ZERO, lambda s: bnot(lt(f[1], x)))
    if tag == "Range":
        return fork2(ctx, lt(x, f[0]), lambda s: ZERO, lambda s: lt(x, f[1]))
    if tag == "RangeFrom":
        return bnot(lt(x, f[0]))
    if tag == "RangeTo":
        return lt(x, f[0])
    if tag == "RangeToInclusive":
        return bnot(lt(f[0], x))
    return NotImplemented


@model("std::time::checked_duration_since")
def _(ctx):
    a, b = deep(ctx, ctx.args[0]), deep(ctx, ctx.args[1])
    return fork2(ctx, op("cmpb", a, b), lambda s: none(), lambda s: some(op("time.duration_since", a, b)))


@model("core::time::is_zero")
def _(ctx):
    return op("dur.is-zero", deep(ctx, ctx.args[0]))


def pureop(name):
    def f(ctx):
        return op(name, *[deep(ctx, a) if a.k == "ref" else a for a in ctx.args])
    return f


for n in ("add", "sub", "elapsed", "duration_since", "checked_add", "checked_duration_since", "saturating_duration_since"):
    if n in ("checked_add", "checked_duration_since"):
        continue
    TABLE["std::time::" + n] = pureop("time." + n)
for n in ("mul", "add", "sub", "div", "as_secs_f64", "as_secs", "as_millis", "from_secs", "from_millis", "as_secs_f32", "as_micros", "as_nanos"):
    TABLE["core::time::" + n] = pureop("dur." + n)


@model("core::time::sub")
def _(ctx):
    a, b = ctx.args
    if not maypanic(ctx, "subtraction of durations", bnot(op("cmpb", a, b))):
        return None
    return op("dur.sub", a, b)


@model("core::time::sub_assign")
def _(ctx):
    root, path = loc_of(ctx, 0)
    a, b = ctx.eng.load(ctx.st, root, path), ctx.args[1]
    if not maypanic(ctx, "subtraction of durations", bnot(op("cmpb", a, b))):
        return None
    ctx.eng.store(ctx.st, root, path, op("dur.sub", a, b), ctx.site)
    return UNIT


@model("core::time::div")
def _(ctx):
    if not maypanic(ctx, "division by zero", bnot(eqz(ctx.args[1]))):
        return None
    return op("dur.div", *ctx.args)


@model("std::time::sub")
def _(ctx):
    a, b = ctx.args
    if "Duration" in ctx.ty(1).get("s", "") and not maypanic(ctx, "subtraction from an instant", op("cmpb", b, op("time.since-start", a))):
        return None
    return op("time.sub", a, b)


@model("std::time::elapsed")
def _(ctx):
    # reads the clock: a new value per call
    return op("time.elapsed", deep(ctx, ctx.args[0]), mk("sym", ("now", ctx.fr.cs, ctx.fr.pt)))


@model("core::cmp::impls::cmp", "core::cmp::Ord::cmp")
def _(ctx):
    a, b = deep(ctx, ctx.args[0]), deep(ctx, ctx.args[1])
    ty = ctx.selfty().lstrip("&")
    if not (ty in INTS or isint(a) and isint(b)):
        return pureop("cmp")(ctx)
    names = [x["name"] for x in ctx.eng.variants("std::cmp::Ordering")]
    out = []
    for n, f in (("Less", ctx.eng.cmp("Lt", a, b)), ("Equal", eq(a, b)), ("Greater", ctx.eng.cmp("Lt", b, a))):
        s = ctx.fork()
        if ctx.eng.assume(s, f, 1) and ctx.eng.assume(s, bnot(f), 0):
            out.append((s, mk("agg", "std::cmp::Ordering", names.index(n), ())))
    return out


@model("core::time::cmp", "std::time::cmp", "alloc::vec::cmp")
def _(ctx):
    return op("ordering", deep(ctx, ctx.args[0]), deep(ctx, ctx.args[1]))


# ---------------------------------------------------------------------------------- mpsc
@model("futures_channel::mpsc::channel", "futures_channel::mpsc::unbounded")
def _(ctx):
    tx = mk("sym", ("tx", ctx.fr.cs, ctx.fr.pt))
    rx = mk("sym", ("rx", ctx.fr.cs, ctx.fr.pt))
    ctx.eng.event(ctx.st, "call", ctx.name, None, tuple(ctx.args), tuple(ctx.args), mk("agg", "tuple", 0, (tx, rx)), "", ctx.site)
    return mk("agg", "tuple", 0, (tx, rx))


PURE |= {"futures_channel::mpsc::poll_ready", "futures_channel::mpsc::start_send", "futures_channel::mpsc::is_closed",
         "futures_channel::mpsc::close", "futures_channel::mpsc::try_send", "futures_channel::mpsc::disconnect",
         "futures_channel::mpsc::close_channel",
         "futures_util::stream::select_all::iter_mut"}


# ---------------------------------------------------------------------------------- inbound frames
def m_socket_next(ctx):
    """polling the frame reader: the four outcomes are separate paths; all paths that received a
    frame continue as one merged state"""
    eng, st = ctx.eng, ctx.st
    s = ctx.selfty()
    if "frame::io::Io<" not in s or not eng.cutframes:
        return NotImplemented
    root, path = loc_of(ctx, 0)
    v = ctx.sym()
    P = lambda *a: mk("agg", *a)
    frame = mk("sym", ("inframe", ctx.fr.cs, ctx.fr.pt))
    e = mk("sym", ("readerr", ctx.fr.cs, ctx.fr.pt))
    outs = []
    for res in ("pending", "none", "err", "ok"):
        s2 = st if res == "ok" else ctx.fork()
        r = {"pending": TM.pending(), "none": TM.ready(none()), "err": TM.ready(some(err(e))), "ok": TM.ready(some(ok(frame)))}[res]
        eng.event(s2, "call", ctx.name, (root, path), tuple(ctx.args), tuple(eng.argval(s2, a) for a in ctx.args), r, s, ctx.site)
        eng.store(s2, root, path, mk("sym", ("hv", ctx.fr.cs, ctx.fr.pt, 0)), None, log=False)
        if res != "ok":
            outs.append((s2, r))
    droot, dpath = eng.place(st, ctx.fr, ctx.t[3])
    eng.store(st, droot, dpath, TM.ready(some(ok(frame))), None)
    ctx.fr.bb = ctx.t[4]
    eng.cut(st, "frame")
    return outs


for nm in ("futures_util::stream::stream::StreamExt::poll_next_unpin", "futures_util::stream::stream::fuse::poll_next",
           "futures_util::stream::stream::StreamExt::poll_next", "futures_core::stream::Stream::poll_next", "futures::Stream::poll_next",
           "futures_util::stream::try_stream::TryStreamExt::try_poll_next_unpin"):
    TABLE[nm] = m_socket_next


# ---------------------------------------------------------------------------------- iterators
def it(tag, *a):
    return mk("agg", "yx::" + tag, 0, tuple(a))


def is_iter(v):
    return v.k == "agg" and str(v.a[0]).startswith("yx::") and v.a[0] in ITERS


def literal(v):
    """the elements of a sequence that was put together on this path, or None"""
    if v.k == "agg" and v.a[0] == "array":
        return list(v.a[2])
    out = []
    while v.k == "op" and v.a[0] == "pushb":
        out.append(v.a[2])
        v = v.a[1]
    return out[::-1] if v is EMPTYSEQ else None


def measure(v):
    """how many elements an iterator still has, when that is known"""
    if v.k != "agg":
        return None
    tag, f = v.a[0], v.a[2]
    if tag == "yx::ArrIter":
        return len(f)
    if tag == "yx::OptIter":
        return 0 if f[0].k == "agg" and f[0].a[1] == 0 else 1
    if tag in ("yx::Range", "std::ops::Range") and isint(f[0]) and isint(f[1]):
        return max(0, f[1].a[0] - f[0].a[0])
    if tag == "yx::SeqIter" and f[1] is ZERO:
        x = literal(f[0])
        return None if x is None else len(x)
    if tag == "yx::Chain":
        a, b = measure(f[0]), measure(f[1])
        return None if a is None or b is None else a + b
    if tag in ("yx::Filter", "yx::Map", "yx::Cloned", "yx::Enum", "yx::Flatten", "yx::FilterMap", "yx::FlatMap"):
        return measure(f[0])
    return None


ITERS = {"yx::ArrIter", "yx::Flatten", "yx::FilterMap", "yx::FlatMap", "yx::MapIter", "yx::SelIter", "yx::SeqIter", "yx::OptIter", "yx::Chain", "yx::Filter", "yx::Map", "yx::Range", "yx::Cloned", "yx::Enum", "yx::Take"}


@model(HM + "drain")
def _(ctx):
    root, path, m = seqloc(ctx)
    ctx.eng.store(ctx.st, root, path, EMPTYMAP, ctx.site)
    return it("MapIter", mk("str", "kv"), m)


@model(HM + "iter", HM + "iter_mut")
def _(ctx):
    return it("MapIter", mk("str", "rkv"), seqval(ctx))


@model(HM + "values", HM + "values_mut")
def _(ctx):
    return it("MapIter", mk("str", "rv"), seqval(ctx))


@model(HM + "keys")
def _(ctx):
    return it("MapIter", mk("str", "rk"), seqval(ctx))


@model(HM + "into_values")
def _(ctx):
    return it("MapIter", mk("str", "v"), ctx.args[0])


@model(HM + "into_keys")
def _(ctx):
    return it("MapIter", mk("str", "k"), ctx.args[0])


@model("futures_util::stream::select_all::iter_mut", "futures_util::stream::select_all::iter")
def _(ctx):
    root, path = loc_of(ctx, 0)
    return it("SelIter", ref(root, path))


@model("core::slice::iter", "core::slice::iter_mut", "alloc::collections::vec_deque::iter", "alloc::collections::vec_deque::iter_mut",
       "alloc::vec::iter", "alloc::vec::iter_mut")
def _(ctx):
    root, path, v = seqloc(ctx)
    x = literal(v)
    if x is not None:
        return it("ArrIter", *[vref(y) if root[0] == "V" else ref(root, path + (EI(I(i)),)) for i, y in enumerate(x)])
    return it("SeqIter", ref(root, path), I(1))


@model("core::option::iter", "core::option::iter_mut")
def _(ctx):
    root, path = loc_of(ctx, 0)
    d = ctx.eng.discr(ctx.eng.load(ctx.st, root, path))
    return fork2(ctx, eqz(d), lambda s: it("OptIter", none()), lambda s: it("OptIter", some(ref(root, path + (TM.SOME_E,)))))


@model("core::iter::sources::once::once")
def _(ctx):
    return it("OptIter", some(ctx.args[0]))


@model("core::iter::sources::repeat::repeat")
def _(ctx):
    return it("Repeat", ctx.args[0])


@model("core::iter::sources::repeat_n::repeat_n")
def _(ctx):
    return it("SeqIter", op("rep", ctx.args[0], ctx.args[1]), ZERO)


@model("core::iter::sources::empty::empty")
def _(ctx):
    return it("OptIter", none())


def as_iter(ctx, v, ty):
    """IntoIterator::into_iter on a value"""
    if is_iter(v):
        return v
    n = ty.get("name") or ""
    if n == "std::option::Option":
        return it("OptIter", v)
    if n == "std::option::IntoIter":
        return it("OptIter", v)
    if n in ("std::vec::Vec", "std::collections::VecDeque") or ty["k"] == "array":
        x = literal(v)
        if x is not None:
            return it("ArrIter", *x)
        return it("SeqIter", v, I(0))
    if n == "std::collections::HashMap":
        return it("MapIter", mk("str", "kv"), v)
    if ty["k"] == "ref" and v.k == "ref":
        e = ctx.eng.F.types[ty["e"]]
        en = e.get("name") or ""
        if en == "std::collections::HashMap":
            return it("MapIter", mk("str", "rkv"), deep(ctx, v))
        if en in ("std::vec::Vec", "std::collections::VecDeque") or e["k"] in ("slice", "array"):
            x = literal(deep(ctx, v))
            if x is not None:
                return it("ArrIter", *[vref(y) if v.a[0][0] == "V" else ref(v.a[0], v.a[1] + (EI(I(i)),)) for i, y in enumerate(x)])
            return it("SeqIter", v, I(1))
        if en.endswith("SelectAll"):
            return it("SelIter", v)
    if n in ("std::ops::Range",) and v.k == "agg":
        return it("Range", v.a[2][0], v.a[2][1])
    if n.endswith("SelectAll"):
        return it("SelIter", vref(v))
    return None


def m_into_iter(ctx):
    v = as_iter(ctx, ctx.args[0], ctx.ty(0))
    return NotImplemented if v is None else v


for n in ("core::iter::traits::collect::into_iter", "core::option::into_iter", "alloc::vec::into_iter", "std::collections::hash::map::into_iter",
          "alloc::collections::vec_deque::into_iter", "core::iter::traits::collect::IntoIterator::into_iter",
          "futures_util::stream::select_all::into_iter", "core::slice::iter::into_iter", "core::array::iter::into_iter",
          "core::option::iter"):
    TABLE[n] = m_into_iter


def mapitem(mode, m, k, v):
    if mode == "kv":
        return mk("agg", "tuple", 0, (k, v))
    if mode == "rkv":
        return mk("agg", "tuple", 0, (vref(k), vref(v)))
    if mode == "rv":
        return vref(v)
    if mode == "rk":
        return vref(k)
    return v if mode == "v" else k


def m_next(ctx):
    """Iterator::next"""
    eng, st = ctx.eng, ctx.st
    root, path = loc_of(ctx, 0)
    v = eng.load(st, root, path)
    if v.k == "ref":          # &mut &mut I
        root, path = v.a[0], v.a[1]
        v = eng.load(st, root, path)
    if not is_iter(v):
        if v.k == "agg" and v.a[0] == "std::ops::Range":
            lo, hi = v.a[2]

            def yes(s):
                eng.store(s, root, path, mk("agg", "std::ops::Range", 0, (add(lo, ONE), hi)), None)
                return some(lo)
            return fork2(ctx, lt(lo, hi), yes, lambda s: none())
        return NotImplemented
    tag = v.a[0]
    f = v.a[2]
    cs, bb = ctx.fr.cs, ctx.fr.pt
    if tag == "yx::MapIter":
        mode, m = f[0].a[0], f[1]
        k = mk("sym", ("itemk", cs, bb))
        val = mk("sym", ("itemv", cs, bb))
        s2 = ctx.fork()
        eng.event(s2, "iterend", m, ctx.site)
        if m is EMPTYMAP:
            return [(s2, none())]
        eng.event(st, "iter", m, k, val, ctx.site)
        return [(s2, none()), (st, some(mapitem(mode, m, k, val)))]
    if tag == "yx::SelIter":
        r = f[0]
        val = mk("sym", ("item", cs, bb))
        s2 = ctx.fork()
        eng.event(s2, "iterend", r, ctx.site)
        eng.event(st, "iter", r, val, val, ctx.site)
        return [(s2, none()), (st, some(vref(val)))]
    if tag == "yx::SeqIter":
        if f[1] is ZERO:
            seq = f[0]

            def yes(s):
                nv = popf(seq)
                eng.store(s, root, path, it("SeqIter", nv, ZERO), None)
                return some(project(seq, FRONT))
            return fork2(ctx, eqz(lenof(seq)), lambda s: none(), yes)
        r = f[0]
        s2 = ctx.fork()
        eng.event(s2, "iterend", r, ctx.site)
        ix = mk("sym", ("itemix", cs, bb))
        ix.ty = "usize"
        eng.event(st, "iter", r, ix, ix, ctx.site)
        rr = r
        if rr.k == "ref":
            return [(s2, none()), (st, some(ref(rr.a[0], rr.a[1] + (EI(ix),))))]
        return NotImplemented
    if tag == "yx::OptIter":
        o = f[0]
        d = eng.discr(o)

        def yes(s):
            eng.store(s, root, path, it("OptIter", none()), None)
            return some(project(o, TM.SOME_E))
        return fork2(ctx, eqz(d), lambda s: none(), yes)
    if tag == "yx::ArrIter":
        if not f:
            return none()
        eng.store(st, root, path, it("ArrIter", *f[1:]), None)
        return some(f[0])
    if tag in ("yx::Flatten", "yx::FilterMap", "yx::FlatMap"):
        eng.push(st, synth(eng, "flatten_next" if tag == "yx::Flatten" else "filter_map_next"), [ref(root, path)], eng.place(st, ctx.fr, ctx.t[3]), ctx.t[4])
        return True
    if tag in ("yx::Filter", "yx::Map", "yx::Cloned", "yx::Chain", "yx::Enum"):
        body = synth(eng, {"yx::Filter": "filter_next", "yx::Map": "map_next", "yx::Cloned": "cloned_next", "yx::Chain": "chain_next",
                           "yx::Enum": "enum_next"}[tag])
        eng.push(st, body, [ref(root, path)], eng.place(st, ctx.fr, ctx.t[3]), ctx.t[4])
        return True
    if tag == "yx::Range":
        lo, hi = f

        def yes(s):
            eng.store(s, root, path, it("Range", add(lo, ONE), hi), None)
            return some(lo)
        return fork2(ctx, lt(lo, hi), yes, lambda s: none())
    return NotImplemented


TABLE["yx::next"] = m_next


@model("yx::invoke")
def _(ctx):
    eng, st = ctx.eng, ctx.st
    dest = eng.place(st, ctx.fr, ctx.t[3])
    if eng.call_closure(st, ctx.args[0], list(ctx.args[1:]), dest, ctx.t[4]):
        return True
    eng.unmodelled.add("closure call")
    return ctx.sym()


@model("yx::either")
def _(ctx):
    """0: the library function returns; i: it calls the i-th function it was given"""
    out = [(ctx.st, I(0))]
    for i in range(ctx.args[0].a[0]):
        s = ctx.fork()
        ctx.eng.event(s, "iter", ctx.sym(), ctx.sym(), ctx.sym(), ctx.site)
        out.append((s, I(i + 1)))
    return out[::-1]


@model("yx::anycall")
def _(ctx):
    eng, st = ctx.eng, ctx.st
    a = ctx.args[0]
    if a.k == "ref":
        v = eng.load(st, a.a[0], a.a[1])
        if v.k in ("fn", "ref"):
            a = v
    tys = eng.arg_types(st, a)
    args = [eng.any_value(t, ("any", ctx.fr.cs, ctx.fr.pt, i)) for i, t in enumerate(tys)]
    if eng.call_closure(st, a, args, eng.place(st, ctx.fr, ctx.t[3]), ctx.t[4]):
        return True
    eng.unmodelled.add("closure call")
    return ctx.sym()


@model("yx::deref")
def _(ctx):
    return deep(ctx, ctx.args[0])


def coerce(ctx, i=0):
    v = ctx.args[i]
    if is_iter(v):
        return v
    if v.k == "ref":
        inner = ctx.eng.load(ctx.st, v.a[0], v.a[1])
        if is_iter(inner):
            return inner
    return as_iter(ctx, v, ctx.ty(i))


IT = "core::iter::traits::iterator::Iterator::"
AD = "core::iter::adapters::"


def adaptor(tag):
    def f(ctx):
        a = coerce(ctx)
        if a is None:
            return NotImplemented
        return it(tag, a, *ctx.args[1:])
    return f


TABLE[IT + "filter"] = adaptor("Filter")
TABLE[IT + "map"] = adaptor("Map")
TABLE[IT + "cloned"] = adaptor("Cloned")
TABLE[IT + "filter_map"] = adaptor("FilterMap")


def m_flat_map(ctx):
    f = ctx.args[1]
    if f.k == "agg" and str(f.a[0]).startswith("closure:"):
        g = ctx.eng.F.fns.get(f.a[0][8:])
        if g and (ctx.eng.F.types[g.locals[0]].get("name") == "std::option::Option"):
            return adaptor("FlatMap")(ctx)
    return NotImplemented


TABLE[IT + "flat_map"] = m_flat_map


def m_flatten(ctx):
    """of an iterator over options"""
    a = coerce(ctx)
    if a is None or not opts_only(ctx, a):
        return NotImplemented
    return it("Flatten", a)


def opts_only(ctx, a):
    s = ctx.eng.F.ts(ctx.t[6]) if isinstance(ctx.t[6], int) else ""
    return "Flatten<" in s and "option::Option<" in s.split("Flatten<", 1)[1]


TABLE[IT + "flatten"] = m_flatten


def m_rev(ctx):
    a = coerce(ctx)
    if a is None:
        return NotImplemented
    if a.a[0] == "yx::ArrIter":
        return it("ArrIter", *a.a[2][::-1])
    if a.a[0] == "yx::OptIter":
        return a
    return NotImplemented


TABLE[IT + "rev"] = m_rev
TABLE[IT + "enumerate"] = lambda ctx: NotImplemented if coerce(ctx) is None else it("Enum", coerce(ctx), ZERO)
TABLE[IT + "fuse"] = lambda ctx: NotImplemented if coerce(ctx) is None else coerce(ctx)


def m_len(ctx):
    a = coerce(ctx)
    n = None if a is None else measure(a)
    return NotImplemented if n is None or a.a[0] != "yx::ArrIter" else I(n)


TABLE["core::iter::traits::exact_size::ExactSizeIterator::len"] = m_len
TABLE[IT + "copied"] = adaptor("Cloned")


def m_chain(ctx):
    a = coerce(ctx, 0)
    b = coerce(ctx, 1)
    if a is None or b is None:
        return NotImplemented
    return it("Chain", a, b)


TABLE[IT + "chain"] = m_chain
TABLE[IT + "by_ref"] = lambda ctx: ctx.args[0]


def consume(body):
    def f(ctx):
        a = coerce(ctx)
        if a is None:
            return NotImplemented
        eng, st = ctx.eng, ctx.st
        eng.push(st, synth(eng, body), [a] + list(ctx.args[1:]), eng.place(st, ctx.fr, ctx.t[3]), ctx.t[4])
        return True
    return f


for nm in ("count", "for_each", "any", "all", "find", "fold", "sum", "collect"):
    pass


def flat(v):
    """static list of Option values of a finite iterator made of options"""
    if v.k == "agg" and v.a[0] == "yx::OptIter":
        return [v.a[2][0]]
    if v.k == "agg" and v.a[0] == "yx::Chain":
        a, b = flat(v.a[2][0]), flat(v.a[2][1])
        return None if a is None or b is None else a + b
    return None


def gather(ctx, base, opts):
    """append every present option to base, forking on each"""
    eng = ctx.eng
    outs = [(ctx.st, base)]
    for o in opts:
        nxt = []
        for s, seq in outs:
            d = eng.discr(o)
            known = eng.decide(s, eqz(d))
            if known is None:
                s2 = s.copy()
                if eng.assume(s2, eqz(d), 1):
                    nxt.append((s2, seq))
                if eng.assume(s, eqz(d), 0):
                    nxt.append((s, op("pushb", seq, project(o, TM.SOME_E))))
            elif known:
                nxt.append((s, seq))
            else:
                nxt.append((s, op("pushb", seq, project(o, TM.SOME_E))))
        outs = nxt
    return outs


def whole(ctx, a):
    """the sequence an iterator copies from its first to its last element, or None"""
    if a.a[0] == "yx::Cloned":
        a = a.a[2][0]
        if a.a[0] != "yx::SeqIter" or a.a[2][1] is ZERO:
            return None
        return deep(ctx, a.a[2][0])
    if a.a[0] == "yx::SeqIter" and a.a[2][1] is ZERO:
        return a.a[2][0]
    return None


def m_part(first):
    """Iterator::take and Iterator::skip over a sequence"""
    def f(ctx):
        if first and ctx.args[0].k == "agg" and ctx.args[0].a[0] == "yx::Repeat":
            return it("SeqIter", op("rep", ctx.args[0].a[2][0], ctx.args[1]), ZERO)
        a, n = None if ctx.args[0].k == "ref" else coerce(ctx), ctx.args[1]
        wrap = []
        while a is not None and a.a[0] == "yx::Cloned":
            wrap.append(a)
            a = a.a[2][0]
        if a is None or a.a[0] != "yx::SeqIter":
            return NotImplemented
        r, byref = a.a[2]
        v = r if byref is ZERO else deep(ctx, r)
        ln = lenof(v)

        def cut(lo, hi):
            x = TM.slice_of(v, lo, hi)
            x = it("SeqIter", x if byref is ZERO else vref(x), byref)
            for _ in wrap:
                x = it("Cloned", x)
            return x
        return fork2(ctx, lt(ln, n), lambda s: cut(ZERO, ln) if first else cut(ln, ln), lambda s: cut(ZERO, n) if first else cut(n, ln))
    return f


TABLE[IT + "take"] = m_part(True)
TABLE[IT + "skip"] = m_part(False)


def m_collect(ctx):
    a = coerce(ctx)
    n = ctx.destty().get("name") or ""
    if a is None or n not in ("std::vec::Vec", "std::collections::VecDeque"):
        return NotImplemented
    opts = flat(a)
    if opts is not None:
        return gather(ctx, EMPTYSEQ, opts)
    x = whole(ctx, a)
    if x is not None:
        if x.k == "op" and x.a[0] == "rep":
            ctx.eng.event(ctx.st, "alloc", x.a[2], ctx.site)
        return x
    eng, st = ctx.eng, ctx.st
    eng.push(st, synth(eng, "collect"), [a], eng.place(st, ctx.fr, ctx.t[3]), ctx.t[4])
    return True


def m_extend(ctx):
    eng, st = ctx.eng, ctx.st
    root, path, v = seqloc(ctx)
    a = coerce(ctx, 1)
    if a is None:
        if ctx.args[1].k == "ref":
            x = deep(ctx, ctx.args[1])
            eng.store(st, root, path, x if v is EMPTYSEQ else op("cat", v, x), ctx.site)
            return UNIT
        return NotImplemented
    opts = flat(a)
    if opts is not None:
        outs = []
        for s, seq in gather(ctx, v, opts):
            eng.store(s, root, path, seq, ctx.site)
            outs.append((s, UNIT))
        return outs
    if a.a[0] == "yx::SeqIter":
        x = a.a[2][0]
        if x.k == "ref":
            x = deep(ctx, x)
        eng.store(st, root, path, x if v is EMPTYSEQ else op("cat", v, x), ctx.site)
        return UNIT
    x = whole(ctx, a)
    if x is not None:
        eng.store(st, root, path, x if v is EMPTYSEQ else op("cat", v, x), ctx.site)
        return UNIT
    eng.push(st, synth(eng, "extend"), [ref(root, path), a], eng.place(st, ctx.fr, ctx.t[3]), ctx.t[4])
    return True


for nm in ("alloc::vec::extend", "alloc::collections::vec_deque::extend", "core::iter::traits::collect::Extend::extend", "alloc::vec::spec_extend::extend"):
    TABLE[nm] = m_extend


def m_retain(ctx):
    eng, st = ctx.eng, ctx.st
    root, path, m = seqloc(ctx)
    a = it("MapIter", mk("str", "rkv"), m)
    eng.push(st, synth(eng, "retain"), [a, ctx.args[1]], eng.place(st, ctx.fr, ctx.t[3]), ctx.t[4])
    eng.store(st, root, path, op("retained", m), ctx.site)
    return True


TABLE[HM + "retain"] = m_retain

# ------------------------------------------------------------- synthetic bodies
_SY = {}


class _B(object):
    """tiny assembler for synthetic MIR"""

    def __init__(self, eng, name, argc):
        self.eng, self.name, self.argc = eng, name, argc
        F = eng.F
        if not hasattr(F, "yxty"):
            F.types.append({"s": "yx", "k": "yx", "args": []})
            F.types.append({"s": "isize", "k": "int", "args": []})
            F.types.append({"s": "bool", "k": "bool", "args": []})
            F.yxty = len(F.types) - 3
        self.ty, self.int, self.bool = F.yxty, F.yxty + 1, F.yxty + 2
        self.blocks = []

    def fnop(self, n):
        return ["k", self.ty, {"k": "fn", "c": {"orig": n, "path": n, "vpath": n, "kind": "item"}}, None]

    def call(self, n, args, dest, target):
        return ["call", self.fnop(n), args, dest, target, [self.ty] * len(args), self.ty, None]

    def block(self, stmts, term):
        self.blocks.append({"s": stmts, "t": term})

    def build(self):
        from .engine import Fn
        j = {"key": "yx::" + self.name, "argc": self.argc, "blocks": self.blocks, "locals": [self.ty] * 16, "dbg": [], "local": False,
             "path": "yx::" + self.name}
        return Fn(j, self.eng.F)


def sigof(F, tyix):
    """argument and result types of a function item, as far as they are known by their text"""
    s = F.types[tyix]["s"]
    m = re.match(r"(?:for<[^>]*> )?(?:unsafe )?(?:extern \"[^\"]*\" )?fn\(", s)
    if not m:
        return None
    parts, depth, cur, i = [], 0, "", m.end()
    while i < len(s):
        ch = s[i]
        if ch in "([{<":
            depth += 1
        elif ch in ")]}>" and not (ch == ">" and s[i - 1] == "-"):
            if depth == 0:
                break
            depth -= 1
        if ch == "," and depth == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += ch
        i += 1
    if cur.strip():
        parts.append(cur)
    rest = s[i + 1:]
    k = rest.rfind(" {")
    if k >= 0:
        rest = rest[:k]
    ret = rest[4:] if rest.startswith(" -> ") else "()"
    if not hasattr(F, "bytext"):
        F.bytext = {}
        for n, t in enumerate(F.types):
            F.bytext.setdefault(t["s"], n)
    clean = lambda x: re.sub(r"'\w+ ", "", x.strip())
    return [F.bytext.get(clean(p)) for p in parts], F.bytext.get(clean(ret))


def via(eng, c, n):
    """a body that calls the library function it was given as a value"""
    key = (id(eng.F), c.get("inst"), c.get("path"), c.get("ty"), n)
    f = _SY.get(key)
    if f is None:
        b = _B(eng, "via:%s" % (c.get("inst") or c["path"]), n)
        sig = sigof(eng.F, c["ty"]) if isinstance(c.get("ty"), int) else None
        at = [b.ty] * n
        rt = b.ty
        if sig is not None and len(sig[0]) == n:
            at = [b.ty if x is None else x for x in sig[0]]
            rt = b.ty if sig[1] is None else sig[1]
        fn = ["k", c.get("ty", b.ty), {"k": "fn", "c": c}, None]
        b.block([], ["call", fn, [["m", L(x + 1)] for x in range(n)], L(0), 1, at, rt, None])
        b.block([], ["ret", None])
        f = _SY[key] = b.build()
    return f


def anycalls(eng, n, once):
    """the body of a library function without a model: it calls what it was given, any number of times in any order"""
    key = (id(eng.F), "anycalls", n, once)
    f = _SY.get(key)
    if f is None:
        b = _B(eng, "anycalls", n + 1)
        b.block([], ["goto", 1])
        b.block([], b.call("yx::either", [["k", b.int, {"k": "int", "v": str(n)}, None]], L(n + 2), 2))
        b.block([], ["switch", C(L(n + 2)), [[str(i + 1), 4 + i] for i in range(n)], 3, b.int, None])
        b.block([["=", L(0), ["use", C(L(1))], None]], ["ret", None])
        for i in range(n):
            b.block([["=", L(n + 3), ["ref", True, L(2 + i)], None]], b.call("yx::anycall", [C(L(n + 3))], L(n + 4), 3 if once else 1))
        f = _SY[key] = b.build()
    return f


def L(n, *proj):
    return [n, list(proj)]


def C(p):
    return ["c", p]


STAR = ["*"]


def fldp(ix, owner, ty=0):
    return ["f", ix, str(ix), ty, owner]


def synth(eng, name):
    key = (id(eng.F), name)
    if key in _SY:
        return _SY[key]
    some_p = lambda l: L(l, ["d", 1, "Some"], fldp(0, "std::option::Option"))
    A = lambda dest, rv: ["=", dest, rv, None]
    optagg = lambda b, v, ops: ["agg", "adt", opt_ty(eng), v, ops]
    b = None
    if name in ("for_each", "count", "any", "all", "find", "fold", "collect", "extend", "retain", "position", "sum"):
        itl = 2 if name == "extend" else 1
        b = _B(eng, name, 3 if name == "fold" else 2)
        init = []
        if name in ("count", "position"):
            init = [A(L(0), ["use", ["k", b.int, {"k": "int", "v": "0"}, None]])]
        if name == "sum":
            init = [A(L(0), ["use", ["k", b.int, {"k": "int", "v": "0"}, None]])]
        if name == "fold":
            init = [A(L(0), ["use", C(L(2))])]
        if name == "collect":
            b.block([], b.call("alloc::vec::new", [], L(0), 1))
        else:
            b.block(init, ["goto", 1])
        b.block([A(L(8), ["ref", True, L(itl)])], b.call("yx::next", [C(L(8))], L(10), 2))
        b.block([A(L(4), ["discr", L(10), b.ty])], ["switch", C(L(4)), [["0", 5], ["1", 3]], 9, b.int, None])
        x = C(some_p(10))
        k = {"k": "int", "v": "1"}
        # 3: body, 4: after body, 5: exhausted
        if name == "for_each":
            b.block([A(L(5), ["ref", True, L(2)])], b.call("yx::invoke", [C(L(5)), x], L(6), 4))
            b.block([], ["goto", 1])
            b.block([A(L(0), ["agg", "tuple", b.ty, 0, []])], ["ret", None])
        elif name == "retain":
            # closure(&k, &mut v) -> bool
            kk = C(L(10, ["d", 1, "Some"], fldp(0, "std::option::Option"), fldp(0, "tuple")))
            vv = C(L(10, ["d", 1, "Some"], fldp(0, "std::option::Option"), fldp(1, "tuple")))
            b.block([A(L(5), ["ref", True, L(2)])], b.call("yx::invoke", [C(L(5)), kk, vv], L(6), 4))
            b.block([], ["goto", 1])
            b.block([A(L(0), ["agg", "tuple", b.ty, 0, []])], ["ret", None])
        elif name == "count":
            b.block([A(L(0), ["bin", "Add", C(L(0)), ["k", b.int, k, None], b.int])], ["goto", 4])
            b.block([], ["goto", 1])
            b.block([], ["ret", None])
        elif name == "sum":
            b.block([A(L(0), ["bin", "Add", C(L(0)), x, b.int])], ["goto", 4])
            b.block([], ["goto", 1])
            b.block([], ["ret", None])
        elif name == "fold":
            b.block([A(L(5), ["ref", True, L(3)])], b.call("yx::invoke", [C(L(5)), C(L(0)), x], L(0), 4))
            b.block([], ["goto", 1])
            b.block([], ["ret", None])
        elif name in ("any", "all"):
            t, e = ("1", "0") if name == "any" else ("0", "1")
            b.block([A(L(5), ["ref", True, L(2)])], b.call("yx::invoke", [C(L(5)), x], L(6), 4))
            b.block([], ["switch", C(L(6)), [["0", 1 if name == "any" else 6]], 6 if name == "any" else 1, b.bool, None])
            b.block([A(L(0), ["use", ["k", b.bool, {"k": "int", "v": e}, None]])], ["ret", None])
            b.block([A(L(0), ["use", ["k", b.bool, {"k": "int", "v": t}, None]])], ["ret", None])
        elif name == "find":
            b.block([A(L(7), ["use", x]), A(L(9), ["ref", False, L(7)]), A(L(5), ["ref", True, L(2)])], b.call("yx::invoke", [C(L(5)), C(L(9))], L(6), 4))
            b.block([], ["switch", C(L(6)), [["0", 1]], 6, b.bool, None])
            b.block([A(L(0), optagg(b, 0, []))], ["ret", None])
            b.block([A(L(0), optagg(b, 1, [C(L(7))]))], ["ret", None])
        elif name == "collect":
            b.block([A(L(5), ["ref", True, L(0)])], b.call("alloc::vec::push", [C(L(5)), x], L(6), 4))
            b.block([], ["goto", 1])
            b.block([], ["ret", None])
        elif name == "extend":
            b.block([], b.call("alloc::vec::push", [C(L(1)), x], L(6), 4))
            b.block([], ["goto", 1])
            b.block([A(L(0), ["agg", "tuple", b.ty, 0, []])], ["ret", None])
        else:
            raise KeyError(name)
    elif name == "filter_next":
        b = _B(eng, name, 1)
        b.block([], ["goto", 1])
        b.block([A(L(8), ["ref", True, L(1, STAR, fldp(0, "yx::Filter"))])], b.call("yx::next", [C(L(8))], L(3), 2))
        b.block([A(L(4), ["discr", L(3), b.ty])], ["switch", C(L(4)), [["0", 5], ["1", 3]], 9, b.int, None])
        b.block([A(L(7), ["use", C(some_p(3))]), A(L(9), ["ref", False, L(7)]), A(L(5), ["ref", True, L(1, STAR, fldp(1, "yx::Filter"))])],
                b.call("yx::invoke", [C(L(5)), C(L(9))], L(6), 4))
        b.block([], ["switch", C(L(6)), [["0", 1]], 6, b.bool, None])
        b.block([A(L(0), optagg(b, 0, []))], ["ret", None])
        b.block([A(L(0), optagg(b, 1, [C(L(7))]))], ["ret", None])
    elif name == "flatten_next":
        own = "yx::Flatten"
        b = _B(eng, name, 1)
        b.block([], ["goto", 1])
        b.block([A(L(8), ["ref", True, L(1, STAR, fldp(0, own))])], b.call("yx::next", [C(L(8))], L(3), 2))
        b.block([A(L(4), ["discr", L(3), b.ty])], ["switch", C(L(4)), [["0", 4], ["1", 3]], 9, b.int, None])
        b.block([A(L(7), ["use", C(some_p(3))]), A(L(5), ["discr", L(7), b.ty])], ["switch", C(L(5)), [["0", 1], ["1", 5]], 9, b.int, None])
        b.block([A(L(0), optagg(b, 0, []))], ["ret", None])
        b.block([A(L(0), ["use", C(L(7))])], ["ret", None])
    elif name == "filter_map_next":
        own = "yx::FilterMap"
        b = _B(eng, name, 1)
        b.block([], ["goto", 1])
        b.block([A(L(8), ["ref", True, L(1, STAR, fldp(0, own))])], b.call("yx::next", [C(L(8))], L(3), 2))
        b.block([A(L(4), ["discr", L(3), b.ty])], ["switch", C(L(4)), [["0", 4], ["1", 3]], 9, b.int, None])
        b.block([A(L(7), ["use", C(some_p(3))]), A(L(5), ["ref", True, L(1, STAR, fldp(1, own))])], b.call("yx::invoke", [C(L(5)), C(L(7))], L(6), 5))
        b.block([A(L(0), optagg(b, 0, []))], ["ret", None])
        b.block([A(L(4), ["discr", L(6), b.ty])], ["switch", C(L(4)), [["0", 1], ["1", 6]], 9, b.int, None])
        b.block([A(L(0), ["use", C(L(6))])], ["ret", None])
    elif name == "enum_next":
        own = "yx::Enum"
        b = _B(eng, name, 1)
        b.block([A(L(8), ["ref", True, L(1, STAR, fldp(0, own))])], b.call("yx::next", [C(L(8))], L(3), 1))
        b.block([A(L(4), ["discr", L(3), b.ty])], ["switch", C(L(4)), [["0", 3], ["1", 2]], 9, b.int, None])
        b.block([A(L(6), ["use", C(L(1, STAR, fldp(1, own)))]),
                 A(L(7), ["agg", "tuple", b.ty, 0, [C(L(6)), C(some_p(3))]]),
                 A(L(1, STAR, fldp(1, own)), ["bin", "Add", C(L(6)), ["k", b.int, {"k": "int", "v": "1"}, None], b.int]),
                 A(L(0), optagg(b, 1, [C(L(7))]))], ["ret", None])
        b.block([A(L(0), optagg(b, 0, []))], ["ret", None])
    elif name == "find_map":
        b = _B(eng, name, 2)
        b.block([], ["goto", 1])
        b.block([A(L(8), ["ref", True, L(1)])], b.call("yx::next", [C(L(8))], L(10), 2))
        b.block([A(L(4), ["discr", L(10), b.ty])], ["switch", C(L(4)), [["0", 5], ["1", 3]], 9, b.int, None])
        b.block([A(L(5), ["ref", True, L(2)])], b.call("yx::invoke", [C(L(5)), C(some_p(10))], L(6), 4))
        b.block([A(L(4), ["discr", L(6), b.ty])], ["switch", C(L(4)), [["0", 1], ["1", 6]], 9, b.int, None])
        b.block([A(L(0), optagg(b, 0, []))], ["ret", None])
        b.block([A(L(0), ["use", C(L(6))])], ["ret", None])
    elif name in ("map_next", "cloned_next"):
        b = _B(eng, name, 1)
        own = "yx::Map" if name == "map_next" else "yx::Cloned"
        b.block([A(L(8), ["ref", True, L(1, STAR, fldp(0, own))])], b.call("yx::next", [C(L(8))], L(3), 1))
        b.block([A(L(4), ["discr", L(3), b.ty])], ["switch", C(L(4)), [["0", 4], ["1", 2]], 9, b.int, None])
        if name == "map_next":
            b.block([A(L(7), ["use", C(some_p(3))]), A(L(5), ["ref", True, L(1, STAR, fldp(1, own))])], b.call("yx::invoke", [C(L(5)), C(L(7))], L(6), 3))
        else:
            b.block([A(L(7), ["use", C(some_p(3))])], b.call("yx::deref", [C(L(7))], L(6), 3))
        b.block([A(L(0), optagg(b, 1, [C(L(6))]))], ["ret", None])
        b.block([A(L(0), optagg(b, 0, []))], ["ret", None])
    elif name == "chain_next":
        b = _B(eng, name, 1)
        b.block([A(L(8), ["ref", True, L(1, STAR, fldp(0, "yx::Chain"))])], b.call("yx::next", [C(L(8))], L(3), 1))
        b.block([A(L(4), ["discr", L(3), b.ty])], ["switch", C(L(4)), [["0", 3], ["1", 2]], 9, b.int, None])
        b.block([A(L(0), ["use", C(L(3))])], ["ret", None])
        b.block([A(L(8), ["ref", True, L(1, STAR, fldp(1, "yx::Chain"))])], b.call("yx::next", [C(L(8))], L(0), 4))
        b.block([], ["ret", None])
    else:
        raise KeyError(name)
    while len(b.blocks) < 10:
        b.block([], ["unreach"])
    f = _SY[key] = b.build()
    return f


def opt_ty(eng):
    F = eng.F
    if not hasattr(F, "optty"):
        F.optty = None
        for i, t in enumerate(F.types):
            if t.get("name") == "std::option::Option":
                F.optty = i
                break
    return F.optty


TABLE[IT + "count"] = TABLE[AD + "filter::count"] = consume("count")
TABLE[IT + "for_each"] = consume("for_each")
TABLE[IT + "any"] = consume("any")
TABLE[IT + "all"] = consume("all")
TABLE[IT + "find"] = consume("find")
TABLE[IT + "find_map"] = consume("find_map")
TABLE[IT + "fold"] = consume("fold")
TABLE[IT + "sum"] = consume("sum")
TABLE[IT + "collect"] = m_collect
for nm in ("alloc::collections::vec_deque::from_iter", "alloc::vec::from_iter", "core::iter::traits::collect::FromIterator::from_iter"):
    TABLE[nm] = m_collect
TABLE[IT + "next"] = m_next


def lookup(name):
    """model for a canonical callee name, or None"""
    h = TABLE.get(name)
    if h is not None:
        return h
    if name.startswith("core::fmt") or name.startswith("alloc::fmt") or name.startswith("log::"):
        return nothing
    last = name.rsplit("::", 1)[-1]
    if name.startswith("std::collections::hash::map") or name.startswith("hashbrown"):
        if last in ("insert", "get", "get_mut", "into_mut", "remove", "key"):
            return entry_dispatch
    if last == "next" and ("::iter" in name or "collections" in name or "select_all" in name or "option" in name or "vec" in name or "slice" in name):
        return m_next
    if last in ("for_each", "count", "any", "all", "find", "find_map", "fold", "sum", "filter", "filter_map", "map", "flatten", "flat_map", "chain", "collect", "rev",
                "enumerate") and ("iter" in name or "collections" in name or "select_all" in name):
        return TABLE.get(IT + last)
    return None

"""Contracts of internal functions: assumed at call sites, verified against their own bodies."""
import z3
from core import *
from model import *

C = {}


def contract(d):
    def w(f):
        C[d] = f
        return f
    return w


def lookup(cx, inst):
    md = cx.md
    x = md.m.insts[inst]
    if inst == getattr(cx, "inst", None):
        return None
    f = C.get(x["def"])
    if f is None:
        return None
    if cx.inline is not None and x["def"] in cx.inline:
        return None

    def h(st, inst, args, dest, target):
        dty = md.ex.dty
        r = f(cx, st, args, dty, x)
        cx.used_contracts.add(x["def"])
        if isinstance(r, list):
            out = []
            for s, v in r:
                out += md.ex.ret_to(s, v, dest, target)
            return out
        return md.ex.ret_to(st, r, dest, target)
    return h


RAW = "papaya::raw::HashMap::<K, V, S>::"


def tab(cx, st, v, what):
    """A Table argument: its fields agree with the table it points to."""
    md = cx.md
    ex = md.ex
    if isinstance(v, Ptr):
        v = ex.read(st, v, None) if False else deref(cx, st, v)
    if not isinstance(v, Agg) or not md.m.t(v.ty).get("def", "").endswith("alloc::Table"):
        raise core.NotHandled()
    names = [f[0] for f in md.m.t(v.ty)["variants"][0]["fields"]]
    raw = v.f[names.index("raw")]
    T = simp(ex.ptr_int(st, raw))
    md.ob(st, "C11,C06", "%s: mask and limit are the table's" % what,
          z3.And(v.f[names.index("mask")] == maskOf(T), v.f[names.index("limit")] == limitOf(T)))
    md.check_table(st, T)
    return T


def deref(cx, st, p):
    q = cx.md.ex.resolve(st, p)
    v = st.mem.get(q.root[1]) if q.root[0] == "R" else None
    if v is None:
        raise core.NotHandled()
    for e in q.path:
        v = cx.md.ex._step(v, e)
    return v


def mktab(cx, ty, T):
    m = cx.md.m
    fs = []
    for n, f in enumerate(m.fields(ty)):
        nm = m.field_name(ty, n)
        if nm == "raw":
            fs.append(H(T))
        elif nm == "mask":
            fs.append(maskOf(T))
        elif nm == "limit":
            fs.append(limitOf(T))
        else:
            raise core.NotHandled()
    return Agg(ty, 0, fs)


import core


def known(st, T):
    st.assume(T != bv(0))
    st.assume(TPROT(T))
    st.assume(TACQ(T))


@contract(RAW + "init")
def init(cx, st, args, dty, x):
    if len(args) != 2:
        raise core.NotHandled()
    md = cx.md
    md.ob(st, "C06", "the first table is created only after the root was seen null under the guard", st.g.get("nullroot", FALSE))
    T = fresh("T", B64)
    known(st, T)
    st.assume(ROOTED(T))
    st.assume(PROMOTED(T))
    st.g["table_exists"] = TRUE
    cx.on_root(st, T, "Acquire")
    return mktab(cx, dty, T)


@contract(RAW + "get_or_alloc_next")
def get_or_alloc_next(cx, st, args, dty, x):
    if len(args) != 3:
        raise core.NotHandled()
    md = cx.md
    T = tab(cx, st, args[2], "get_or_alloc_next")
    cx.alloc_next(st, T, args[1])
    md.has_next(st, T)
    st.assume(TPROT(nextOf(T)))
    return mktab(cx, dty, nextOf(T))


@contract(RAW + "help_copy")
def help_copy(cx, st, args, dty, x):
    if len(args) != 4:
        raise core.NotHandled()
    md = cx.md
    T = tab(cx, st, args[2], "help_copy")
    cx.guard_used(st, md.obj_term(st, args[3]))
    all_ = args[1]
    cx.on_help(st, T)
    if not md.inc:
        return copied_root(cx, st, T, dty)
    if z3.is_true(all_):
        return inc_root(cx, st, dty)
    if z3.is_false(all_):
        md.ob(st, "C05", "help_copy: the table has a next table", HASNEXT(T))
        st.assume(TPROT(nextOf(T)))
        st.assume(TACQ(nextOf(T)))
        return mktab(cx, dty, nextOf(T))
    raise Unsup("help_copy with a symbolic flag")


def copied_root(cx, st, T, dty):
    md = cx.md
    md.ob(st, "C05", "help_copy: the table has a next table", HASNEXT(T))
    md.ob(st, "C05", "help_copy: only the root table is copied", ROOTED(T))
    N = fresh("T", B64)
    known(st, N)
    st.assume(ROOTED(N))
    st.assume(PROMOTED(N))
    st.assume(N != T)
    cx.on_root(st, N, "Acquire")
    cx.on_copied(st, T, N)
    return mktab(cx, dty, N)


def inc_root(cx, st, dty):
    N = fresh("T", B64)
    known(st, N)
    st.assume(ROOTED(N))
    st.assume(PROMOTED(N))
    st.g["table_exists"] = TRUE
    cx.on_root(st, N, "Acquire")
    return mktab(cx, dty, N)


@contract(RAW + "wait_copied")
def wait_copied(cx, st, args, dty, x):
    if len(args) != 3:
        raise core.NotHandled()
    md = cx.md
    i = args[1]
    T = tab(cx, st, args[2], "wait_copied")
    md.bounds(st, T, i)
    md.ob(st, "C08", "a thread waits only for a slot that is being copied", z3.And(COPYINGS(T, i), frozen(T, i) != bv(0, 61)))
    st.assume(COPIEDS(T, i))
    st.assume(HASNEXT(T))
    return md.ex.zst(dty)


@contract(RAW + "defer_retire")
def defer_retire(cx, st, args, dty, x):
    if len(args) != 4 or not isinstance(args[1], Agg):
        raise core.NotHandled()
    md = cx.md
    names = [f[0] for f in md.m.t(args[1].ty)["variants"][0]["fields"]]
    raw, ptr = args[1].f[names.index("raw")], args[1].f[names.index("ptr")]
    T = tab(cx, st, args[2], "defer_retire")
    cx.guard_used(st, md.obj_term(st, args[3]))
    if raw.root[0] != "H" or ptr.root[0] != "H":
        md.ex.violate(st, "C06", "only an entry that was in the map is retired")
        raise Infeasible()
    hi, lo = md.entry_hi(st, ptr)
    rh, rt = md.entry_hi(st, raw)
    md.ob(st, "C06", "defer_retire: tagged and untagged pointer agree", rh == hi)
    cx.take_retire(st, hi, lo, rt, T)
    return md.ex.zst(dty)


@contract("papaya::raw::utils::counter::Counter::sum")
def c_sum(cx, st, args, dty, x):
    """Some number of entries: other threads add and remove concurrently (verified as part of len)."""
    n = fresh("sum", B64)
    st.assume(z3.ULE(n, bv(1 << 61)))
    return n

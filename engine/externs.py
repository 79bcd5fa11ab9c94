"""Handlers for functions without a verified body: atomics, the standard library, seize, user code."""
import re
import z3
from core import *
import core
from model import *


def order_of(v):
    if isinstance(v, Agg):
        return ORD[v.var]
    raise Unsup("symbolic memory ordering")


def width_of(mir, inst):
    d = mir.insts[inst]["def"]
    m = re.search(r"Atomic::<(.*?)>::", d)
    if m is None:
        return mir.size(mir.insts[inst]["args"][0])
    t = m.group(1)
    return {"u8": 1, "bool": 1}.get(t, 8)


def classify(md, st, p, width):
    """Which protocol location an atomic access touches."""
    ex = md.ex
    p = ex.resolve(st, p)
    if p.root[0] == "O":
        names = md.path_names(p.path) or ["?"]
        if md.extra_field(p.path):
            return ("extra", p, None)
        return (names[-1] if names else "?", p.root[1], None)
    if p.root[0] == "H":
        if p.path and not any(e[0] != "Z" for e in p.path):
            p = Ptr(p.root, ())
        if p.path:
            names = md.path_names(p.path)
            if names and names[0] == "state":
                if md.extra_field(p.path):
                    return ("extra", p, None)
                return (".".join(names[1:]), simp(p.root[1] + p.root[2]), None)
            return ("heap", p, None)
        if p.root[1].decl().name() == "shards":
            return md.shard(st, p)
        kind, T, i = md.slot(st, p, width)
        return (kind, T, i)
    if p.root[0] == "R":
        return ("own", p, None)
    if p.root[0] == "C":
        return ("static", p, None)
    return ("?", p, None)


def install(md):
    m = md.m
    hd = md.hd
    rx = md.rx = []
    ex = lambda: md.ex

    def ret(st, v, dest, target):
        return md.ex.ret_to(st, v, dest, target)

    # ---- atomics -------------------------------------------------------------------------
    def a_load(st, inst, args, dest, target, prot=False, order=None, ptr=None):
        d = m.insts[inst]["def"]
        p = args[0] if ptr is None else ptr
        o = order_of(args[1]) if order is None else order
        loc = classify(md, st, p, 8 if ptr is not None else width_of(m, inst))
        k = loc[0]
        if k == "own":
            return ret(st, md.ex.read(st, p, md.ex.dty), dest, target)
        if k == "table":
            return md.load_root(st, o, prot, dest, target)
        if k == "next":
            return md.load_next(st, loc[1], o, dest, target)
        if k == "META":
            return ret(st, md.load_meta(st, loc[1], loc[2], o), dest, target)
        if k == "ENTRY":
            return ret(st, md.load_entry(st, loc[1], loc[2], o, prot), dest, target)
        r = md.ex.ctx.atomic_load(st, loc, o, dest, target)
        if r is not None:
            return r
        if k in ("extra", "static", "count"):
            # shared state outside the protocol: other threads may have stored anything
            return ret(st, md.anyval(st, md.ex.dty, "shared"), dest, target)
        raise Unsup("atomic load of %s" % k)

    def a_store(st, inst, args, dest, target):
        d = m.insts[inst]["def"]
        p, v, o = args[0], args[1], order_of(args[2])
        loc = classify(md, st, p, width_of(m, inst))
        k = loc[0]
        z = md.ex.zst(md.ex.dty)
        if k == "own":
            md.ex.write(st, p, v)
            return ret(st, z, dest, target)
        if k == "META":
            md.store_meta(st, loc[1], loc[2], v, o)
            return ret(st, z, dest, target)
        if k == "ENTRY":
            md.bounds(st, loc[1], loc[2])
            md.ex.ctx.store_entry(st, loc[1], loc[2], md.new_value(st, v), o)
            return ret(st, z, dest, target)
        r = md.ex.ctx.atomic_store(st, loc, v, o, dest, target)
        if r is not None:
            return r
        if k in ("table", "next"):
            # a plain store would overwrite what another thread installed in between
            md.ex.violate(st, "C05,C01,C02,C06", "a shared table pointer is replaced by compare-exchange or under the allocation lock only")
            raise Infeasible()
        if k in ("extra", "static"):
            return ret(st, z, dest, target)
        wrong_write(st, loc, "stored to")
        raise Unsup("atomic store to %s" % k)

    def wrong_write(st, loc, what):
        """A change of a protocol location that is never the right one."""
        P = {"count": ("C07", "the count is changed by atomic additions"),
             "claim": ("C05,C08", "slots are claimed by an atomic addition to the claim counter"),
             "copied": ("C05,C08", "copied slots are counted by an atomic addition"),
             "table": ("C05,C01,C02,C06", "a shared table pointer is replaced by compare-exchange or under the allocation lock only"),
             "next": ("C05,C01,C02,C06", "a shared table pointer is replaced by compare-exchange or under the allocation lock only"),
             "ENTRY": ("C02,C03,C04,C05", "a slot is only changed by compare-exchange")}.get(loc[0])
        if P is not None:
            md.ex.violate(st, *P)
            raise Infeasible()

    def a_cas(st, inst, args, dest, target, prot=False, off=0, weak=False):
        p, e, n = args[off], args[off + 1], args[off + 2]
        so, fo = order_of(args[off + 3]), order_of(args[off + 4])
        d = m.insts[inst]["def"]
        loc = classify(md, st, p, 8 if off else width_of(m, inst))
        dty = md.ex.dty
        if loc[0] == "ENTRY":
            md.ex.ctx.weak = weak
            return md.cas_entry(st, loc[1], loc[2], e, n, so, fo, prot, dest, target, dty)
        r = md.ex.ctx.atomic_cas(st, loc, e, n, so, fo, prot, dest, target, dty)
        if r is not None:
            return r
        return cas_by_parts(st, loc, e, n, so, fo, dest, target, dty, weak)

    def cas_by_parts(st, loc, e, n, so, fo, dest, target, dty, weak):
        k = loc[0]
        vt = m.fields(dty, 0)[0]
        same = lambda a, b: a == b if not isinstance(a, Ptr) and not isinstance(b, Ptr) else md.ex.ptr_int(st, a) == md.ex.ptr_int(st, b)
        out = []
        s = st.copy()
        s.note("compare-exchange on %s succeeds" % k)
        ok = Agg(dty, 0, [e])
        try:
            if k in ("extra", "static"):
                out += ret(s, ok, dest, target)
            elif k == "own":
                v = md.ex.read(s, loc[1], vt)
                s.assume(simp(same(v, e)))
                if md.ex.feasible(s):
                    md.ex.write(s, loc[1], n)
                    out += ret(s, ok, dest, target)
            elif k == "META":
                v = md.load_meta(s, loc[1], loc[2], so)
                s.assume(v == e)
                if md.ex.feasible(s):
                    md.store_meta(s, loc[1], loc[2], n, so)
                    out += ret(s, ok, dest, target)
            elif k in ("count", "claim", "copied"):
                r = md.ex.ctx.atomic_rmw(s, "fetch_add", loc, simp(n - e), so, dest, target)
                if r is None:
                    wrong_write(s, loc, "")
                for q in r:
                    v = md.ex.read(q, dest, vt)
                    q.assume(v == e)
                    if md.ex.feasible(q):
                        md.ex.write(q, dest, ok)
                        out.append(q)
            elif k in ("table", "next"):
                wrong_write(s, loc, "")
            else:
                raise Unsup("compare-exchange on %s" % k)
        except Infeasible:
            pass
        st.note("compare-exchange on %s fails" % k)
        if k == "own":
            v = md.ex.read(st, loc[1], vt)
            if not weak:
                st.assume(simp(z3.Not(same(v, e))))
        elif k == "META":
            v = md.load_meta(st, loc[1], loc[2], fo)
            if not weak:
                st.assume(v != e)
        else:
            v = md.anyval(st, vt, "seen")
            if not weak:
                st.assume(simp(z3.Not(same(v, e))))
        if md.ex.feasible(st):
            out += ret(st, Agg(dty, 1, [v]), dest, target)
        return out

    def combine(op, a, b, signed):
        z = z3.is_bool(a)
        if op == "swap":
            return b
        if op in ("fetch_add", "fetch_sub"):
            return simp(a + b if op == "fetch_add" else a - b)
        if op == "fetch_or":
            return simp(z3.Or(a, b) if z else a | b)
        if op == "fetch_and":
            return simp(z3.And(a, b) if z else a & b)
        if op == "fetch_xor":
            return simp(z3.Xor(a, b) if z else a ^ b)
        if op == "fetch_nand":
            return simp(z3.Not(z3.And(a, b)) if z else ~(a & b))
        lt = (a < b) if signed else z3.ULT(a, b)
        return simp(z3.If(lt, b, a) if op == "fetch_max" else z3.If(lt, a, b))

    def a_rmw(op, prot=False):
        def h(st, inst, args, dest, target):
            d = m.insts[inst]["def"]
            dty = md.ex.dty
            p, v, o = args[0], args[1], order_of(args[2])
            loc = classify(md, st, p, width_of(m, inst) if not prot else 8)
            k = loc[0]
            if k == "own":
                old = md.ex.read(st, p, dty)
                if op != "swap" and (isinstance(old, Ptr) or isinstance(v, Ptr)):
                    raise Unsup("arithmetic on a private pointer")
                md.ex.write(st, p, combine(op, old, v, m.signed(m.core(dty)) if not z3.is_bool(old) else False))
                return ret(st, old, dest, target)
            if k in ("claim", "copied") and op == "fetch_sub":
                r = md.ex.ctx.atomic_rmw(st, "fetch_add", loc, simp(-v), o, dest, target)
            else:
                r = md.ex.ctx.atomic_rmw(st, op, loc, v, o, dest, target)
            if r is not None:
                return r
            if k in ("extra", "static"):
                return ret(st, md.anyval(st, dty, "old"), dest, target)
            if k == "META":
                old = md.load_meta(st, loc[1], loc[2], o)
                md.store_meta(st, loc[1], loc[2], combine(op, old, v, False), o)
                return ret(st, old, dest, target)
            if k == "ENTRY" and op == "swap":
                hi, tag = fresh("hi", BV61), fresh("tag", BV3)
                md.bounds(st, loc[1], loc[2])
                md.observe_entry(st, loc[1], loc[2], hi, tag, o, prot)
                md.ex.ctx.swap_entry(st, loc[1], loc[2], hi, tag, md.new_value(st, v), o)
                return ret(st, H(z3.Concat(hi, tag)), dest, target)
            wrong_write(st, loc, "")
            raise Unsup("atomic %s on %s" % (op, k))
        return h

    def a_getmut(st, inst, args, dest, target):
        return ret(st, args[0], dest, target)

    def a_new(st, inst, args, dest, target):
        return ret(st, args[0], dest, target)

    A = "std::sync::atomic::Atomic::<%s>::%s"
    for t in ("*mut T", "u8", "usize", "isize", "u64", "bool", "u32", "i32", "i64", "u16", "i16", "i8"):
        hd[A % (t, "load")] = a_load
        hd[A % (t, "store")] = a_store
        hd[A % (t, "compare_exchange")] = a_cas
        hd[A % (t, "compare_exchange_weak")] = lambda st, i, a, d, t: a_cas(st, i, a, d, t, weak=True)
        hd[A % (t, "get_mut")] = a_getmut
        hd[A % (t, "as_ptr")] = a_getmut
        hd[A % (t, "new")] = a_new
        hd[A % (t, "into_inner")] = a_getmut
        for op in ("fetch_add", "fetch_sub", "fetch_or", "fetch_and", "fetch_xor", "fetch_nand", "fetch_max", "fetch_min", "swap"):
            hd[A % (t, op)] = a_rmw(op)

    # what the methods above are inlined to inside the standard library's own loops
    hd["std::sync::atomic::atomic_load"] = a_load
    hd["std::sync::atomic::atomic_store"] = lambda st, i, a, d, t: a_store(st, i, a, d, t)
    hd["std::sync::atomic::atomic_compare_exchange"] = a_cas
    hd["std::sync::atomic::atomic_compare_exchange_weak"] = lambda st, i, a, d, t: a_cas(st, i, a, d, t, weak=True)

    # ---- guards --------------------------------------------------------------------------
    def verified(st, g):
        md.ex.ctx.guard_used(st, md.obj_term(st, g))

    def g_protect(st, inst, args, dest, target):
        verified(st, args[0])
        return a_load(st, inst, None, dest, target, prot=True, order=order_of(args[2]), ptr=args[1])

    hd["papaya::Guard::protect"] = g_protect

    def g_cas(weak):
        def h(st, inst, args, dest, target):
            verified(st, args[0])
            return a_cas(st, inst, args, dest, target, prot=True, off=1, weak=weak)
        return h

    hd["papaya::Guard::compare_exchange"] = g_cas(False)
    hd["papaya::Guard::compare_exchange_weak"] = g_cas(True)

    def g_swap(st, inst, args, dest, target):
        verified(st, args[0])
        return a_rmw("swap", True)(st, inst, args[1:], dest, target)
    hd["papaya::Guard::swap"] = g_swap

    gcoll = z3.Function("guard_collector", Obj, Obj)
    md.gcoll = gcoll

    def g_collector(st, inst, args, dest, target):
        return ret(st, Ptr(("O", gcoll(md.obj_term(st, args[0])))), dest, target)

    for g in ("<verif_harness::G as papaya::Guard>::collector", "<papaya::LocalGuard<'_> as papaya::Guard>::collector",
              "<papaya::OwnedGuard<'_> as papaya::Guard>::collector"):
        hd[g] = g_collector

    def g_tid(st, inst, args, dest, target):
        return ret(st, z3.Function("thread_id", Obj, B64)(md.obj_term(st, args[0])), dest, target)

    for g in ("<verif_harness::G as papaya::Guard>::thread_id", "<papaya::LocalGuard<'_> as papaya::Guard>::thread_id",
              "<papaya::OwnedGuard<'_> as papaya::Guard>::thread_id"):
        hd[g] = g_tid

    def g_retire(st, inst, args, dest, target):
        verified(st, args[0])
        md.ex.ctx.retire(st, args[1], args[2], "guard")
        return ret(st, md.ex.zst(md.ex.dty), dest, target)

    for g in ("<verif_harness::G as papaya::Guard>::defer_retire", "<papaya::LocalGuard<'_> as papaya::Guard>::defer_retire",
              "<papaya::OwnedGuard<'_> as papaya::Guard>::defer_retire"):
        hd[g] = g_retire

    def g_enter(st, inst, args, dest, target):
        c = md.obj_term(st, args[0])
        t = fresh("guard", Obj)
        st.assume(gcoll(t) == c)
        return ret(st, Sym(md.ex.dty, t), dest, target)

    hd["papaya::LocalGuard::<'_>::enter"] = g_enter
    hd["papaya::OwnedGuard::<'_>::enter"] = g_enter
    hd["seize::Collector::enter"] = g_enter
    hd["seize::Collector::enter_owned"] = g_enter
    rx.append((re.compile(r"Collector::(enter|enter_owned)$"), g_enter))

    def unit(st, inst, args, dest, target):
        return ret(st, md.ex.zst(md.ex.dty), dest, target)

    for g in ("<verif_harness::G as papaya::Guard>::flush", "<papaya::LocalGuard<'_> as papaya::Guard>::flush"):
        hd[g] = unit

    def c_eq(st, inst, args, dest, target):
        a, b = md.obj_term(st, args[0]), md.obj_term(st, args[1])
        r = a == b
        if m.insts[inst]["def"].endswith("::ne"):
            r = z3.Not(r)
        return ret(st, simp(r), dest, target)

    hd["<seize::Collector as std::cmp::PartialEq>::eq"] = c_eq
    rx.append((re.compile(r"^<(seize|papaya)::.*Collector as std::cmp::PartialEq>::(eq|ne)$"), c_eq))

    # ---- user code -----------------------------------------------------------------------
    def k_eq(st, inst, args, dest, target):
        a, b = kcls(md.obj_term(st, args[0])), kcls(md.obj_term(st, args[1]))
        r = simp(a == b)
        if m.insts[inst]["def"].endswith("::ne"):
            r = simp(z3.Not(r))
        return ret(st, r, dest, target)

    for n in ("<verif_harness::K as std::cmp::PartialEq>::eq", "<verif_harness::K as std::cmp::PartialEq>::ne",
              "<verif_harness::KC as std::cmp::PartialEq>::eq",
              "<verif_harness::Q as papaya::Equivalent<verif_harness::K>>::equivalent", "<Q as papaya::Equivalent<K>>::equivalent"):
        hd[n] = k_eq

    def hash_one(st, inst, args, dest, target):
        s = md.obj_term(st, args[0])
        k = kcls(md.obj_term(st, args[1]))
        return ret(st, hashOf(s, k), dest, target)

    hd["std::hash::BuildHasher::hash_one"] = hash_one

    # ---- boxes ---------------------------------------------------------------------------
    def box_new(st, inst, args, dest, target):
        rid = st.new_region(args[0])
        return ret(st, Ptr(("R", rid)), dest, target)

    hd["std::boxed::Box::<T>::new"] = box_new
    hd["std::boxed::Box::<T>::into_raw"] = lambda st, i, a, d, t: ret(st, a[0], d, t)

    def from_raw(st, inst, args, dest, target):
        p = md.ex.resolve(st, args[0])
        p = md.ex.ctx.box_from_raw(st, p)
        return ret(st, p, dest, target)

    hd["std::boxed::Box::<T>::from_raw"] = from_raw

    def box_free(st, inst, args, dest, target):
        """Drop for Box: frees the allocation; the contents were dropped or moved out before."""
        p = args[0]
        v = md.ex.read(st, p, m.t(m.insts[inst]["body"]["locals"][1])["elem"]) if isinstance(p, Ptr) else None
        q = md.ex.resolve(st, v) if isinstance(v, Ptr) else None
        if q is None or q.root[0] != "R" or q.root[1][0] != "B" or q.path:
            raise Unsup("free of %r" % (v,))
        rid = q.root[1]
        if st.mem.get(rid) is FREED:
            md.ex.oblige(st, "C06", "a box is freed once", FALSE)
        if rid in st.g.get("published", ()):
            md.ex.violate(st, "C06,C01", "an entry that was published is not freed directly")
            raise Infeasible()
        st.mem[rid] = FREED
        return ret(st, md.ex.zst(md.ex.dty), dest, target)

    hd["<std::boxed::Box<T, A> as std::ops::Drop>::drop"] = box_free

    # ---- panics --------------------------------------------------------------------------
    def panic(st, inst, args, dest, target):
        md.on_panic(st, m.insts[inst]["def"])
        return []

    for n in ("core::panicking::assert_failed", "core::panicking::panic", "core::panicking::panic_nounwind_fmt",
              "core::panicking::unreachable_default_msg", "core::slice::index::slice_index_fail", "std::option::expect_failed",
              "std::option::unwrap_failed", "std::result::unwrap_failed", "std::rt::panic_fmt"):
        hd[n] = panic
    hd["std::panicking::begin_panic"] = panic
    rx.append((re.compile(r"^core::panicking::|^std::rt::begin_panic|_fail(ed)?$"), panic))

    def stop(st, inst, args, dest, target):
        return []
    hd["std::alloc::handle_alloc_error"] = stop
    hd["std::process::abort"] = stop

    # ---- misc ----------------------------------------------------------------------------
    hd["std::hint::spin_loop"] = unit
    hd["std::thread::yield_now"] = unit
    hd["std::thread::sleep"] = unit
    hd["std::intrinsics::cold_path"] = unit
    hd["std::intrinsics::assert_inhabited"] = unit
    hd["std::hint::unreachable_unchecked::precondition_check"] = unit
    hd["std::fmt::Arguments::<'a>::from_str"] = lambda st, i, a, d, t: ret(st, Sym(md.ex.dty, fresh("fmt", Obj)), d, t)
    rx.append((re.compile(r"^std::fmt::|^core::fmt::"), lambda st, i, a, d, t: ret(st, Sym(md.ex.dty, fresh("fmt", Obj)), d, t)))

    def ctlz(st, inst, args, dest, target):
        a = args[0]
        w = a.size()
        r = bv(w, 32)
        for b in range(w):
            r = z3.If(z3.Extract(b, b, a) == bv(1, 1), bv(w - 1 - b, 32), r)
        return ret(st, simp(r), dest, target)

    def ctpop(st, inst, args, dest, target):
        a = args[0]
        w = a.size()
        r = bv(0, 32)
        for b in range(w):
            r = r + z3.ZeroExt(31, z3.Extract(b, b, a))
        return ret(st, simp(r), dest, target)

    hd["std::intrinsics::ctlz"] = ctlz
    hd["std::intrinsics::ctlz_nonzero"] = ctlz
    hd["std::intrinsics::ctpop"] = ctpop

    def minmax(op):
        def h(st, inst, args, dest, target):
            a, b = args
            sg = m.signed(m.core(md.ex.dty))
            lt = (a < b) if sg else z3.ULT(a, b)
            return ret(st, simp(z3.If(lt, a, b) if op == "min" else z3.If(lt, b, a)), dest, target)
        return h
    hd["std::intrinsics::integer_max"] = minmax("max")
    hd["std::intrinsics::integer_min"] = minmax("min")

    def sat(op):
        def h(st, inst, args, dest, target):
            a, b = args
            ov = md.ex.overflow(op, a, b, False)
            r = z3.If(ov, bv(-1 if op == "Add" else 0, a.size()), a + b if op == "Add" else a - b)
            return ret(st, simp(r), dest, target)
        return h
    hd["std::intrinsics::saturating_add"] = sat("Add")
    hd["std::intrinsics::saturating_sub"] = sat("Sub")

    def arith_offset(st, inst, args, dest, target):
        p, n = args
        sz = m.size(m.insts[inst]["args"][0])
        if p.root[0] == "H" and not p.path:
            off = simp(p.root[2] + n * bv(sz))
            atoms, c = lin(off)
            b = p.root[1]
            if b.get_id() in atoms and atoms[b.get_id()][1] == (1 << 64) - 1:
                # an address computed from this pointer's own address (tagging): a fresh base
                del atoms[b.get_id()]
                return ret(st, md.ex.int_ptr(st, unlin(atoms, c)), dest, target)
            return ret(st, Ptr(("H", b, off), (), p.meta), dest, target)
        a = md.ex.ptr_int(st, p)
        return ret(st, md.ex.int_ptr(st, simp(a + n * bv(sz))), dest, target)

    hd["std::intrinsics::arith_offset"] = arith_offset

    def offset_from(st, inst, args, dest, target):
        p, q = args
        sz = m.size(m.insts[inst]["args"][0])
        if p.root[0] == "H" and q.root[0] == "H" and not p.path and not q.path and p.root[1].eq(q.root[1]):
            d = simp(p.root[2] - q.root[2])
        elif p.root == q.root and p.path and q.path and p.path[-1][0] == "I" == q.path[-1][0]:
            return ret(st, simp(p.path[-1][1] - q.path[-1][1]), dest, target)
        else:
            raise Unsup("pointer difference")
        return ret(st, md.divide(d, sz), dest, target)

    hd["std::intrinsics::ptr_offset_from_unsigned"] = offset_from
    hd["std::intrinsics::ptr_offset_from"] = offset_from

    # ---- locks ---------------------------------------------------------------------------
    def mloc(st, p):
        q = md.ex.resolve(st, p)
        if q.root[0] == "H" and q.path:
            return simp(q.root[1] + q.root[2])
        raise Unsup("mutex at %r" % (q,))

    def try_lock(st, inst, args, dest, target):
        T = mloc(st, args[0])
        dty = md.ex.dty
        s = st.copy()
        s.note("try_lock fails")
        e = m.fields(dty, 1)[0]
        # TryLockError::WouldBlock (poisoning is excluded: unwinding is not modelled)
        wb = [i for i, v in enumerate(m.t(m.core(e))["variants"]) if v["name"] == "WouldBlock"] if m.t(m.core(e)).get("variants") else [0]
        out = ret(s, Agg(dty, 1, [Sym(e, fresh("lockerr", Obj)) if m.opaque(e) else Agg(e, wb[0], [])]), dest, target)
        out += locked(st, T, dty, dest, target)
        return out

    def locked(st, T, dty, dest, target):
        md.ex.ctx.lock(st, T)
        g = m.fields(dty, 0)[0]
        return ret(st, Agg(dty, 0, [Sym(g, z3.Function("lock_guard", B64, Obj)(T))]), dest, target)

    def lock(st, inst, args, dest, target):
        T = mloc(st, args[0])
        md.ex.ctx.lock_blocking(st, T)
        return locked(st, T, md.ex.dty, dest, target)

    hd["std::sync::Mutex::<T>::try_lock"] = try_lock
    hd["std::sync::Mutex::<T>::lock"] = lock

    # ---- closures ------------------------------------------------------------------------
    def fn_call(st, inst, args, dest, target):
        x = m.insts[inst]
        r = md.ex.ctx.user_call(st, inst, args, dest, target)
        if r is not None:
            return r
        raise Unsup("call through %s" % x["name"])

    for n in ("verif_harness::f_comp", "verif_harness::f_k", "verif_harness::f_make", "verif_harness::f_mut_kv", "verif_harness::f_upd"):
        hd[n] = fn_call

    def shim_call(st, inst, args, dest, target):
        """Fn*::call on a function item: the arguments come as a tuple."""
        x = m.insts[inst]
        if "body" in x:
            raise NotHandled()
        t = m.t(x["args"][0])
        while t.get("k") in ("ref", "ptr"):
            t = m.t(t["elem"])
        if t.get("k") not in ("fndef",):
            raise Unsup("call of " + t["s"])
        i = x["callee"] if x.get("callee") is not None else fn_by_def(t)
        a = list(args[1].f) if isinstance(args[1], Agg) else []
        return md.ex.invoke(st, i, a, dest, target)

    def fn_by_def(t):
        c = [i for i, x in enumerate(m.insts) if x["def"] == t["def"] and x["args"] == t.get("args", x["args"])]
        if not c:
            c = m.by_def.get(t["def"], [])
        if not c:
            raise Unsup("function item " + t["s"])
        return c[0]

    hd["std::ops::Fn::call"] = shim_call
    hd["std::ops::FnMut::call_mut"] = shim_call
    hd["std::ops::FnOnce::call_once"] = shim_call

    def catch_unwind(st, inst, args, dest, target):
        """catch_unwind(closure): runs the closure; unwinding is excluded."""
        x = m.insts[inst]
        cty = x["args"][0]
        while m.t(cty).get("def", "").endswith("AssertUnwindSafe"):
            cty = m.t(cty)["args"][0]
        i = md.ex.closure_inst(cty)
        dty = md.ex.dty

        class Cont:
            vals = (dest,)

            def __init__(self, vals):
                self.vals = vals

            def key(self):
                return "catch_unwind"

            def remap(self, v):
                return Cont(v)

            def __call__(self, ex_, st, v, f):
                return ex_.ret_to(st, Agg(dty, 0, [v]), self.vals[0], f.target)

        md.ex.push_frame(st, i, [args[0]], dest, target, Cont((dest,)))
        return None

    hd["std::panic::catch_unwind"] = catch_unwind


def drop_value(md, st, p, ty, inst, target):
    """Drop the value at p (structurally) and continue at target."""
    ex = md.ex
    if ex.m.t(ty).get("def", "") .startswith("papaya::raw::HashMap") or ex.ctx.drop_hook(st, p, ty, inst, target):
        r = ex.ctx.drop_special(st, p, ty, inst, target)
        if r is not None:
            return r
    v = ex.read(st, p, ty)
    drop_rec(md, st, v, ty)
    q = ex.resolve(st, p)
    if q.root[0] == "R" and st.mem.get(q.root[1]) is not FREED:
        ex.write(st, p, UNINIT)
    ex.goto(st, target)
    return [st]


def drop_rec(md, st, v, ty):
    ex = md.ex
    m = md.m
    if v is UNINIT:
        return
    t = m.t(ty)
    if isinstance(v, Sym):
        ex.ctx.drop_sym(st, Sym(ty, v.t))
        return
    if t.get("box"):
        inner = t["args"][0]
        q = ex.resolve(st, v) if isinstance(v, Ptr) else v
        if isinstance(q, Ptr) and q.root[0] == "R":
            rid = q.root[1]
            if st.mem.get(rid) is FREED:
                ex.oblige(st, "C06", "a box is freed once", FALSE)
            if rid in st.g.get("published", ()):
                ex.violate(st, "C06,C01", "an entry that was published is not freed directly")
                raise Infeasible()
            drop_rec(md, st, st.mem[rid], inner)
            st.mem[rid] = FREED
            return
        ex.ctx.drop_box(st, q, inner)
        return
    if isinstance(v, Agg):
        if t.get("k") in ("struct", "enum", "tuple", "closure"):
            c = m.core(ty) if t.get("k") == "struct" else ty
            if t.get("def", "").endswith(("ManuallyDrop", "MaybeUninit")):
                return
            fs = m.fields(c, v.var) if m.t(c).get("k") == "enum" else m.fields(c)
            for f, x in zip(fs, v.f):
                if m.t(f).get("needs_drop", True):
                    drop_rec(md, st, x, f)
            return
    if isinstance(v, (Ptr, FnV)):
        ex.ctx.drop_ptr(st, v, ty)
        return
    mf = m.main_field(ty)
    return

"""Operations that visit every slot of a table: clear, retain, iter and Iterator::next, and reserve.

The specification speaks about one arbitrary slot index j (a Skolem constant): every slot that is
looked at is compared with j, and the ghost state records what the operation last saw there.  What is
proved for j holds for every slot."""
import z3
from core import *
import core
from model import *
from ops import OpCtx, PREDTRUE, PREDFALSE
import resize

PROPS = {"clear": "C09", "retain": "C09", "iter": "C10", "next": "C10", "reserve": "C11"}
ITER = "<papaya::raw::Iter<'g, K, V, G> as std::iter::Iterator>::next"


def find_next(m):
    c = [i for i in m.by_def.get(ITER, []) if "verif_harness::K, verif_harness::V, papaya::raw::utils::MapGuard<verif_harness::G>>" in m.insts[i]["name"]]
    return c[0] if c else None


class ScanCtx(OpCtx):
    def __init__(self, md, root, op):
        OpCtx.__init__(self, md, root, "get", "m")
        self.op = op
        self.P = PROPS[op]
        self.panic_props = self.P + ",C11"
        self.j = z3.Const("j", B64)

    # ---- entry ---------------------------------------------------------------------------
    def init(self, ex, inst):
        md, m = self.md, self.md.m
        st = State()
        st.g.update(cnt=bv(0), live=(), duty=(), seen=None, last=None, sum=None)
        self.inst = inst
        self.k = self.ktok = self.vtok = None
        b = m.insts[inst]["body"]
        args = [self.sarg(ex, st, ty, n) for n, ty in enumerate(b["locals"][1:b["argc"] + 1])]
        self.opkeys = []
        ex.push_frame(st, inst, args, None, None)
        return st

    def sarg(self, ex, st, ty, n):
        from contracts import mktab
        md, m = self.md, self.md.m
        t = m.t(ty)
        if t.get("def", "").startswith("verif_harness::") and m.size(ty) == 0 or t.get("k") == "fndef":
            return Agg(ty, 0, [])
        if t.get("k") == "int":
            self.additional = z3.Const("additional", B64)
            return self.additional
        el = m.t(t["elem"]) if t.get("k") == "ref" else None
        if el and el.get("def", "") == "papaya::raw::Iter":
            self.i0, self.T = z3.Const("i", B64), z3.Const("T", B64)
            st.g["table_exists"] = TRUE
            fs = []
            for k, f in enumerate(m.fields(t["elem"])):
                nm = m.field_name(t["elem"], k)
                if nm == "i":
                    fs.append(self.i0)
                elif nm == "table":
                    fs.append(mktab(self, f, self.T))
                elif nm == "guard":
                    fs.append(Ptr(("O", self.guard)))
                else:
                    # a field that was added: no more is known of it than its type
                    fs.append(md.anyval(st, f, "added"))
            # the iterator's table: none, or one that held every entry when the iterator was created
            st.assume(md.gcoll(self.guard) == self.coll(self.map))
            for f in (TPROT, TACQ, PROMOTED) + ((NONEXT,) if md.inc else ()):
                st.assume(z3.Implies(self.T != bv(0), f(self.T)))
            r = ("I", n)
            st.mem[r] = Agg(t["elem"], 0, fs)
            self.it = r
            return Ptr(("R", r))
        return self.arg(ex, st, ty, n)

    def keys(self, st):
        return []

    # ---- the slot j ----------------------------------------------------------------------
    def at(self, st, i):
        ex = self.md.ex
        if ex.entails(st, i == self.j):
            return True
        if ex.entails(st, i != self.j):
            return False
        raise core.Split(simp(i == self.j))

    def on_root(self, st, T, order):
        self.enter(st, T)

    def enter(self, st, T):
        s = st.g["seen"]
        if s is None or not (s[0].eq(T) or self.md.ex.entails(st, s[0] == T)):
            st.g["seen"] = (T, None)

    def visit(self, st, T, i, *what):
        md = self.md
        if not self.at(st, i):
            return self.enter(st, T)
        md.ob(st, self.P + ",C05", "entries are looked for in a table that held every entry at an instant of the call",
              z3.And(PROMOTED(T), NONEXT(T)) if md.inc else PROMOTED(T))
        st.g["seen"] = (T,) + what

    def on_meta(self, st, T, i, m, order):
        self.visit(st, T, i, "meta", m)

    def on_entry(self, st, T, i, hi, tag, order):
        self.visit(st, T, i, "val", hi, tag)
        st.g["last"] = (T, i, hi)

    def settle(self, st):
        """Replace what was seen at j by what it means, once that is decided."""
        s = st.g["seen"]
        ent = lambda c: self.md.ex.entails(st, c)
        if s is None or s[1] not in ("meta", "val"):
            return
        if s[1] == "meta":
            if ent(z3.Or(s[2] == bv(EMPTY, 8), s[2] == bv(TOMB, 8))):
                st.g["seen"] = (s[0], "gone")
            return
        if ent(s[2] == bv(0, 61)):
            st.g["seen"] = (s[0], "gone")
        elif self.op == "retain" and ent(PREDTRUE(s[2])):
            st.g["seen"] = (s[0], "kept")
        elif self.op in ("clear", "retain") and ent(z3.Extract(0, 0, s[3]) == bv(1, 1)):
            st.g["seen"] = (s[0], "copying")

    def at_header(self, ex, st):
        self.settle(st)
        if st.g["last"] is not None and self.op != "next":
            st.g["last"] = None
        OpCtx.at_header(self, ex, st)
        import loops
        _, leaves = loops.skeleton(ex, st)
        for t in leaves:
            if t.sort() == B64:
                for f in (PROMOTED(t), NONEXT(t), ROOTED(t)):
                    if f.get_id() not in st.pcs and ex.entails(st, f):
                        st.assume(f)

    def templates(self, ex, st):
        import loops
        _, leaves = loops.skeleton(ex, st)
        j, out = self.j, []
        ts = [t for t in leaves if t.sort() == B64 and TPROT(t).get_id() in st.pcs]
        idx = {t.get_id(): t for t in leaves if t.sort() == B64 and resize.is_flex(t) and not any(t.eq(x) for x in ts)}.values()

        def near(t):
            """A generalised value plus a constant."""
            a, c = lin(t)
            return len(a) == 1 and all(q == 1 and resize.is_flex(x) and not any(x.eq(y) for y in ts) for x, q in a.values())

        sums = [t for t in {t.get_id(): t for t in leaves if t.sort() == B64 and near(t)}.values() if not any(t.eq(x) for x in idx)]
        for t in sums:
            for T in ts:
                for u in idx:
                    out += [z3.ULE(v, maskOf(T) + d - w) for v, w in ((t, u), (u, t)) for d in (0, 1)]
        for t in leaves:
            if z3.is_bv(t) and resize.is_flex(t) and not any(t.eq(x) for x in ts):
                out += [t != 0] + [z3.Or(t == 0, HASNEXT(T)) for T in ts]
            if any(t.eq(x) for x in idx):
                for T in ts:
                    out += [z3.ULE(t, maskOf(T)), z3.ULE(t, maskOf(T) + 1)]
                    # a number of slots counted so far, from the first one or from the last one
                    out += [z3.ULE(t, maskOf(T) + d - u) for u in idx if not u.eq(t) for d in (0, 1)]
                    out += [z3.Or(z3.UGT(t, j), z3.UGT(j, maskOf(T)))]
                out += [z3.ULE(t, u) for u in idx if not u.eq(t)]
                out += [z3.ULE(t, j), z3.UGT(t, j), z3.UGE(t, j), z3.ULT(t, j)]
                if self.op == "next":
                    # the number of slots, worked out before the loop, of a table that may be null
                    out += [z3.Or(self.T == 0, t == maskOf(self.T) + d) for d in (0, 1)] + [t == maskOf(self.T) + d for d in (0, 1)]
                    out += [z3.UGE(t, self.i0), z3.ULE(t, maskOf(self.T) + 1), z3.Or(z3.ULT(j, self.i0), z3.ULE(t, j))]
        return out

    # ---- changes -------------------------------------------------------------------------
    def insert(self, st, T, i, nv):
        self.md.ex.violate(st, self.P, "the operation does not insert")
        raise Infeasible()

    def replace(self, st, T, i, eh, et, nv):
        self.md.ex.violate(st, self.P, "the operation does not replace an entry")
        raise Infeasible()

    def remove(self, st, T, i, eh, et):
        md = self.md
        if self.op not in ("clear", "retain"):
            md.ex.violate(st, self.P, "the operation does not remove an entry")
            raise Infeasible()
        for d in st.g["duty"]:
            md.ex.violate(st, {"dec": "C07,C09", "retire": "C06"}[d[0]],
                          {"dec": "a removed entry is counted", "retire": "an entry that was unlinked is retired"}[d[0]])
            raise Infeasible()
        if self.op == "retain":
            md.ob(st, self.P, "an entry is removed only if the predicate returned false for it", PREDFALSE(eh))
        md.ob(st, "C13", "an entry that is removed, and later freed, was obtained with acquire ordering", ACQ(eh))
        at = self.at(st, i)
        md.duty(st, ("dec",))
        md.duty(st, ("retire", T, eh, et))
        self.enter(st, T)
        if at:
            st.g["seen"] = (T, "gone")

    def atomic_rmw(self, st, op, loc, v, o, dest, target):
        if loc[0] != "count":
            return None
        md = self.md
        md.ob(st, "C07", "the operation changes its own map's count", loc[1] == self.map)
        d = st.g["duty"]
        if ("dec",) not in d or op not in ("fetch_sub", "fetch_add"):
            md.ex.violate(st, "C07,C09", "the count changes only with a removal")
            raise Infeasible()
        md.ob(st, "C07,C09", "a removal decrements the count by one", v == (bv(1) if op == "fetch_sub" else bv((1 << 64) - 1)))
        st.g["duty"] = tuple(x for x in d if x != ("dec",))
        return md.ex.ret_to(st, fresh("count", B64), dest, target)

    def user_call(self, st, inst, args, dest, target):
        md, ex = self.md, self.md.ex
        if md.m.insts[inst]["name"].split("::")[-1] != "f_mut_kv":
            return None
        e = self.entry_of(st, args[0], args[1])
        self.ret_entry(st, e, "an entry shown to a closure")
        if e[0] != "sh":
            ex.violate(st, self.P, "the predicate is shown an entry of the map")
            raise Infeasible()
        s = st.copy()
        st.assume(PREDTRUE(e[1]))
        s.assume(PREDFALSE(e[1]))
        return ex.ret_to(st, TRUE, dest, target) + ex.ret_to(s, FALSE, dest, target)

    # ---- contracts -----------------------------------------------------------------------
    def contract(self, st, inst):
        d = self.md.m.insts[inst]["def"]
        md = self.md
        if inst == self.inst:
            return None
        if d == "papaya::raw::utils::counter::Counter::sum":
            def h(st, inst, args, dest, target):
                n = fresh("sum", B64)
                st.assume(z3.ULE(n, bv(1 << 61)))
                st.g["sum"] = n
                return md.ex.ret_to(st, n, dest, target)
            return h
        if d == "papaya::raw::probe::entries_for":
            def h(st, inst, args, dest, target):
                v = resize.c_entries_for(self, st, args, md.ex.dty, None, dest, target)
                self.used_contracts.add(d)
                return md.ex.ret_to(st, v, dest, target)
            return h
        return OpCtx.contract(self, st, inst)

    def alloc_next(self, st, T, cap):
        if self.op == "reserve":
            if not isinstance(cap, Agg) or cap.var != 1 or st.g["sum"] is None:
                self.md.ex.violate(st, "C11", "reserve asks for the capacity it needs")
                raise Infeasible()
            c = cap.f[0]
            self.md.ob(st, "C11", "reserve asks for the capacity it needs",
                       z3.UGE(c, resize.efor(st.g["sum"] + self.additional)))
            self.md.ob(st, "C11", "a requested capacity is a power of two", z3.And(c != bv(0), (c & (c - 1)) == bv(0)))

    def panic_ok(self, st, what):
        md = self.md
        if md.ex.entails(st, md.gcoll(self.guard) != self.coll(self.map)):
            return True
        if self.op == "reserve" and st.g["sum"] is not None:
            a, n = z3.ZeroExt(1, st.g["sum"]), z3.ZeroExt(1, self.additional)
            return md.ex.entails(st, z3.Extract(64, 64, a + n) == bv(1, 1))
        return False

    # ---- results -------------------------------------------------------------------------
    def finish(self, ex, st, v):
        md = self.md
        if self.op != "next":
            md.ob(st, "C12", "an operation that returns was given a guard of the map's collector", md.gcoll(self.guard) == self.coll(self.map))
        self.settle(st)
        getattr(self, "fin_" + self.op)(st, v)
        for d in st.g["duty"]:
            ex.violate(st, {"dec": "C07,C09", "retire": "C06"}[d[0]],
                       {"dec": "a removed entry is counted", "retire": "an entry that was unlinked is retired"}[d[0]])
        if not st.g["duty"]:
            ex.record(st, "C06,C07,C09", "no duty is left when the operation returns", True)

    def covered(self, st, ok, what):
        md = self.md
        s = st.g["seen"]
        if s is None:
            # no table
            return md.ob(st, self.P, what, st.g.get("nullroot", FALSE))
        if s[1] in ok:
            return md.ex.record(st, self.P, what, True)
        md.ob(st, self.P, what, z3.UGT(self.j, maskOf(s[0])))

    def fin_clear(self, st, v):
        self.covered(st, ("gone",), "clear leaves no slot before it was seen empty or was cleared, in the table that is current")

    def fin_retain(self, st, v):
        self.covered(st, ("gone", "kept"), "retain leaves no slot before it was seen empty, its entry was accepted, or was removed, in the table that is current")

    def fin_reserve(self, st, v):
        md = self.md
        if st.g["sum"] is None:
            md.ex.violate(st, "C11", "reserve returns only when the current table has the capacity")
            return
        need = resize.efor(st.g["sum"] + self.additional)
        ts = [f.children()[0] for f in st.pc if z3.is_app(f) and f.decl().name() == "TPROT"]
        for T in ts:
            if md.ex.entails(st, z3.And(PROMOTED(T), z3.UGE(maskOf(T) + 1, need))):
                return md.ex.record(st, "C11", "reserve returns only when the current table has the capacity", True)
        md.ex.violate(st, "C11", "reserve returns only when the current table has the capacity")

    def iters(self, v):
        if isinstance(v, Agg):
            if self.md.m.t(v.ty).get("def", "") == "papaya::raw::Iter" if not isinstance(v.ty, tuple) else False:
                return [v]
            return [y for x in v.f for y in self.iters(x)]
        return []

    def fin_iter(self, st, v):
        from contracts import tab
        md, m = self.md, self.md.m
        its = self.iters(v)
        if len(its) != 1:
            raise Unsup("result without an iterator")
        f = {m.field_name(its[0].ty, n): x for n, x in enumerate(its[0].f)}
        md.ob(st, "C10", "an iterator starts at the first slot", f["i"] == bv(0))
        md.ob(st, "C12,C10", "an iterator holds the guard it was created with", md.obj_term(st, f["guard"]) == self.guard)
        names = [x[0] for x in m.t(f["table"].ty)["variants"][0]["fields"]]
        T = simp(md.ex.ptr_int(st, f["table"].f[names.index("raw")]))
        if md.ex.entails(st, T == bv(0)):
            return md.ob(st, "C10", "an iterator is empty only if the map had no table", st.g.get("nullroot", FALSE))
        T = tab(self, st, f["table"], "iterator")
        md.ob(st, "C10,C05", "entries are looked for in a table that held every entry at an instant of the call",
              z3.And(PROMOTED(T), NONEXT(T)) if md.inc else PROMOTED(T))

    def fin_next(self, st, v):
        md, m, ex = self.md, self.md.m, self.md.ex
        it = st.mem[self.it]
        f = {m.field_name(it.ty, n): x for n, x in enumerate(it.f)}
        names = [x[0] for x in m.t(f["table"].ty)["variants"][0]["fields"]]
        i1 = f["i"]
        j, i0, T = self.j, self.i0, self.T
        md.ob(st, "C10", "an iterator stays with its table and guard",
              z3.And(md.obj_term(st, f["guard"]) == self.guard, ex.ptr_int(st, f["table"].f[names.index("raw")]) == T))
        L = maskOf(T)
        md.ob(st, "C10", "an iterator does not go back", z3.UGE(i1, i0))
        s = st.g["seen"]
        inside = z3.And(z3.UGE(j, i0), z3.ULT(j, i1), z3.ULE(j, L), T != bv(0))
        if not isinstance(v, Agg):
            raise Unsup("result")
        if v.var == 0:
            md.ob(st, "C10", "an iterator ends only after the last slot", z3.Or(T == bv(0), z3.UGT(i1, L)))
            ok = s is not None and s[1] == "gone"
            md.ob(st, "C10", "a slot is passed over only if it was seen empty", TRUE if ok else z3.Not(inside))
            return
        pair = v.f[0]
        e = self.entry_of(st, pair.f[0], pair.f[1])
        self.ret_entry(st, e, "an entry that is yielded")
        last = st.g["last"]
        if e[0] != "sh" or last is None:
            ex.violate(st, "C10", "an entry that is yielded was found in a slot of the table")
            return
        md.ob(st, "C10", "an entry that is yielded was found in the slot before the iterator's new position",
              z3.And(e[1] == last[2], last[0] == T, i1 == last[1] + 1, z3.UGE(last[1], i0), z3.ULE(last[1], L)))
        ok = s is not None and s[1] == "gone"
        md.ob(st, "C10", "a slot is passed over only if it was seen empty", TRUE if ok else z3.Or(z3.Not(inside), j == last[1]))

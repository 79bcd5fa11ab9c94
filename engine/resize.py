"""Contracts of the internal functions of a resize, verified against their own bodies."""
import re
import z3
from core import *
import core
from model import *
from ops import OpCtx

ALLCOPIED = F("ALLCOPIED", B64, B64, Bool)    # every slot of the first table was copied to the second (or is dead)
ALLCLAIMED = F("ALLCLAIMED", B64, Bool)       # every slot that is copied to the table has been claimed
NOTMET = F("NOTMET", B64, B64, B64, Bool)     # the third table is not among the tables from the first up to the second
BEFORE = F("BEFORE", B64, B64, Bool)          # the first table precedes the second
DECIDED = F("DECIDED", B64, Bool)             # a copy to the table is no longer pending
efor = F("entries_for", B64, B64)
PENDING, ABORT, PROMOTE = 0, 1, 2
G_ = "papaya::raw::HashMap::<verif_harness::K, verif_harness::V, verif_harness::S>::"


def find(m, name):
    """The instance of an internal function, over the harness's key, value and guard types."""
    d = "papaya::raw::HashMap::<K, V, S>::" + name
    c = [i for i in m.by_def.get(d, []) if m.insts[i]["name"].startswith(G_ + name) and "body" in m.insts[i]
         and ("<" not in m.insts[i]["name"][len(G_):] or "verif_harness::G>" in m.insts[i]["name"])]
    return c[0] if c else None


def is_flex(t):
    return z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in t.decl().name()


class ResizeCtx(OpCtx):
    copies_one = True

    def __init__(self, md, fn, P, panic="C05,C08,C11", **flags):
        OpCtx.__init__(self, md, None, "get", "m")
        self.fn, self.P, self.flags = fn, P, flags
        self.panic_props = panic
        self.inline = None

    # ---- entry ---------------------------------------------------------------------------
    def init(self, ex, inst):
        md, m = self.md, self.md.m
        self.inst = inst
        st = State()
        st.g.update(cnt=bv(0), live=(), claim=None, froze=None, ins=None, full=None, duty=(), cas=None, rt=None,
                    locked=None, nullnext=None, fresh=None, decided=None, roots_after=())
        self.T = z3.Const("T", B64)
        self.N = z3.Const("N", B64)
        st.assume(self.md.gcoll(self.guard) == self.coll(self.map))
        self.nt = 0
        self.nb = 0
        self.i = z3.Const("i", B64)
        self.hi = z3.Const("entry", BV61)
        b = m.insts[inst]["body"]
        args = [self.rarg(ex, st, ty, n) for n, ty in enumerate(b["locals"][1:b["argc"] + 1])]
        for X in (self.T, self.N)[:self.nt]:
            st.assume(X != bv(0))
            st.assume(TPROT(X))
            st.assume(TACQ(X))
        if self.nt:
            st.assume(REACH(self.T, self.T))
        if self.nt == 2:
            st.assume(REACH(self.T, self.N))
            st.assume(self.T != self.N)
            st.assume(HASNEXT(self.T))
            if md.inc:
                st.assume(self.N == nextOf(self.T))
        self.pre(st)
        ex.push_frame(st, inst, args, None, None)
        return st

    def rarg(self, ex, st, ty, n):
        from contracts import mktab
        m = self.md.m
        t = m.t(ty)
        el = m.t(t["elem"]) if t.get("k") in ("ref", "ptr") else None
        tt = el or t
        d = tt.get("def", "")
        if d.endswith("alloc::Table"):
            X = (self.T, self.N)[self.nt]
            self.nt += 1
            a = mktab(self, t["elem"] if el else ty, X)
            if not el:
                return a
            r = ("I", n)
            st.mem[r] = a
            return Ptr(("R", r))
        if d.endswith("Tagged"):
            self.tag = z3.Const("tag", BV3)
            fs = []
            for k in range(len(m.fields(ty))):
                nm = m.field_name(ty, k)
                fs.append(H(z3.Concat(self.hi, self.tag)) if nm == "raw" else H(z3.Concat(self.hi, bv(0, 3))))
            return Agg(ty, 0, fs)
        if d.endswith("option::Option"):
            if self.flags.get("some"):
                c = z3.Const("capacity", B64)
                st.assume(z3.And(c != bv(0), (c & (c - 1)) == bv(0)))
                self.cap = c
                return Agg(ty, 1, [c])
            self.cap = None
            return Agg(ty, 0, [])
        if t.get("k") == "bool":
            return z3.BoolVal(self.flags["flag"])
        if t.get("k") == "int":
            if self.fn == "try_promote":
                return z3.Const("copied", B64)
            if self.fn == "help_copy_incremental":
                return z3.Const("chunk", B64)
            return self.i
        return self.arg(ex, st, ty, n)

    def pre(self, st):
        f = self.fn
        if f == "insert_copy":
            st.assume(self.hi != bv(0, 61))
            st.g["froze"] = (self.T, self.i, self.hi, self.tag)
            self.src = True
            k = kcls(ekey(self.hi))
            st.assume(SEARCH(k, self.T))
            st.assume(self.tag == bv(4 if self.md.inc else 0, 3))
        if f.startswith("copy_at"):
            st.assume(z3.ULE(self.i, maskOf(self.T)))
        if f in ("help_copy_blocking", "help_copy"):
            st.assume(ROOTED(self.T))
            st.assume(PROMOTED(self.T))
            st.assume(HASNEXT(self.T))
        if f == "wait_copied":
            st.assume(z3.ULE(self.i, maskOf(self.T)))
            st.assume(COPYINGS(self.T, self.i))
            st.assume(frozen(self.T, self.i) != bv(0, 61))
        if f == "help_copy_incremental":
            st.g["table_exists"] = TRUE
        if f == "init":
            st.g["nullroot"] = TRUE
        if f == "defer_retire":
            st.assume(self.hi != bv(0, 61))
            st.assume(z3.Extract(1, 0, self.tag) == bv(0, 2))
            if not self.md.inc:
                st.assume(self.tag == bv(0, 3))
            st.g["duty"] = (("retire", self.T, self.hi, self.tag),)

    def keys(self, st):
        f = st.g.get("froze")
        return [kcls(ekey(f[2]))] if f else []

    def touch(self, st):
        pass

    def panic_ok(self, st, what):
        if self.fn == "get_or_alloc_next" and self.md.ex.feasible(st):
            # a capacity that cannot be represented
            c = self.cap if self.cap is not None else efor(z3.Function("initcap", Obj, B64)(self.map))
            return self.md.ex.entails(st, z3.UGT(c, bv((1 << 63) - 1)))
        return False

    def owns_table(self, st, T):
        f = st.g.get("fresh")
        return f is not None and f[0].eq(T)

    def owns_entry(self, st, hi):
        """The entry of a slot this thread froze stays valid until it was copied."""
        f = st.g["froze"]
        return f is not None and st.g["ins"] is None and (f[2].eq(hi) or self.md.ex.entails(st, f[2] == hi))

    def table_exists(self, st):
        return self.nt > 0 or "table_exists" in st.g

    # ---- tables --------------------------------------------------------------------------
    def reach(self, st, X):
        """X is the table T of this call or one of its successors."""
        if not self.nt:
            return False
        T = self.T
        r = REACH(T, X)
        if r.get_id() in st.pcs or X.eq(T):
            return True
        ex = self.md.ex
        if ex.entails(st, r):
            st.assume(r)
            return True
        for P in self.md.preds(st, X):
            if self.reach(st, P):
                st.assume(r)
                st.assume(X != T)
                return True
        return False

    def at_header(self, ex, st):
        import loops
        _, leaves = loops.skeleton(ex, st)
        ts = []
        for t in leaves:
            if t.sort() == B64 and self.is_table(st, t) and not any(t.eq(x) for x in ts):
                ts.append(t)
        for t in ts:
            if self.nt == 2:
                self.toward(st, t)
            if self.nt:
                self.reach(st, t)
                for c in (t != self.T,):
                    if ex.entails(st, c):
                        st.assume(c)
                if t.eq(self.T):
                    st.assume(REACH(t, t))
            for R in st.g["roots_after"]:
                self.walked(st, t, R)
            for c in (PROMOTED(t), HASNEXT(t), ALLCLAIMED(t)):
                if c.get_id() not in st.pcs and ex.entails(st, c):
                    st.assume(c)
        OpCtx.at_header(self, ex, st)

    def templates(self, ex, st):
        import loops
        _, leaves = loops.skeleton(ex, st)
        out = []
        for t in leaves:
            if t.sort() == B64 and is_flex(t) and TPROT(t).get_id() not in st.pcs:
                L = self.len(st)
                out += [t != bv(0), z3.ULE(t, L), z3.ULE(t, bv(64 if st.g["decided"] is not None else 32))]
        c = st.g["claim"]
        if c is None:
            return out
        N, s, ch, n = c
        L = self.len(st)
        for t in leaves:
            if t.sort() == B64 and is_flex(t) and TPROT(t).get_id() not in st.pcs and not any(t.eq(x) for x in (s, ch, n)):
                out += [t == s + n, t == n, t + n == ch, z3.ULE(t, s + ch), z3.ULE(s + n, t),
                        z3.Or(t == s + ch, t == L), z3.UGE(t, L), z3.Or(z3.ULE(s + ch, t), z3.ULE(L, t)),
                        # a bound on the number of slots, in all or left to do
                        z3.ULE(t, ch), z3.Or(t == bv(0), z3.ULE(s + t, L)), z3.Or(t == ch, z3.ULE(L, s + t)), z3.ULE(n, t),
                        z3.ULE(t, ch - n), z3.Or(t == bv(0), z3.ULE(s + n + t, L)), z3.Or(t + n == ch, z3.ULE(L, s + n + t))]
        return out + [z3.ULE(n, ch), z3.ULE(n, L), z3.ULE(ch, L), z3.Or(n == bv(0), z3.ULE(s + n, L)), ch != bv(0), z3.Or(z3.ULE(ch, L), z3.ULE(ch, bv(4096)))]

    def walked(self, st, X, R):
        """Positions of a walk from T, or from the root R, along next pointers."""
        ex = self.md.ex
        T = self.T
        if X.eq(T):
            st.assume(NOTMET(T, T, R))
        for P in self.md.preds(st, X):
            if NOTMET(T, P, R).get_id() in st.pcs and ex.entails(st, P != R):
                st.assume(NOTMET(T, X, R))
            if BEFORE(P, T).get_id() in st.pcs and ex.entails(st, X != T):
                st.assume(BEFORE(X, T))
        for f in (NOTMET(T, X, R), BEFORE(X, T)):
            if f.get_id() not in st.pcs and ex.entails(st, f):
                st.assume(f)

    def toward(self, st, X):
        """X is a table between T and N."""
        ex, N = self.md.ex, self.N
        r = REACH(X, N)
        if r.get_id() in st.pcs:
            return
        if ex.entails(st, r):
            st.assume(r)
        for P in self.md.preds(st, X):
            if REACH(P, N).get_id() in st.pcs and ex.entails(st, P != N):
                st.assume(r)

    def before_next(self, st, X):
        ex = self.md.ex
        if self.nt == 2:
            self.toward(st, X)
            if REACH(X, self.N).get_id() in st.pcs and ex.entails(st, X != self.N):
                st.assume(HASNEXT(X))
        for R in st.g["roots_after"]:
            self.walked(st, X, R)
        if self.nt and BEFORE(X, self.T).get_id() in st.pcs:
            st.assume(HASNEXT(X))

    def on_next(self, st, X):
        if self.nt == 2:
            self.toward(st, nextOf(X))
        if self.nt:
            self.reach(st, nextOf(X))
        for R in st.g["roots_after"]:
            self.walked(st, nextOf(X), R)

    def on_null_next(self, st, X):
        ex = self.md.ex
        for R in st.g["roots_after"]:
            self.walked(st, X, R)
            if self.nt and NOTMET(self.T, X, R).get_id() in st.pcs:
                # all tables form one list: a root that does not follow T precedes it
                st.assume(BEFORE(R, self.T) if ex.entails(st, X != R) else z3.Implies(X != R, BEFORE(R, self.T)))
        if st.g["locked"] is not None and st.g["locked"].eq(X):
            st.g["nullnext"] = X

    def on_root(self, st, T, order):
        if self.fn == "defer_retire":
            st.g["roots_after"] = st.g["roots_after"] + (T,)
        st.g["root"] = T
        if self.fn == "try_promote":
            st.g["rootseen"] = T

    def len(self, st):
        return simp(maskOf(self.source(st)) + 1)

    def source(self, st):
        """The table whose slots are copied."""
        if self.nt:
            return self.T
        return st.g.get("root", self.T)

    def on_meta(self, st, T, i, m, order):
        self.alone(st, T, i)

    def on_entry(self, st, T, i, hi, tag, order):
        self.alone(st, T, i)

    def alone(self, st, T, i):
        """Nobody else inserts the key of a slot that is being copied into a later table."""
        f = st.g["froze"]
        if f is None or st.g["ins"] is not None:
            return
        k = kcls(ekey(f[2]))
        if self.md.search(st, k, T):
            st.assume(z3.Implies(z3.And(KSET(T, i), skey(T, i) == k), MINE(T, i)))

    # ---- freezing and copying one slot ---------------------------------------------------
    def atomic_rmw(self, st, op, loc, v, o, dest, target):
        md, ex = self.md, self.md.ex
        k = loc[0]
        if k == "ENTRY":
            T, i = loc[1], loc[2]
            md.bounds(st, T, i)
            n = simp(ex.ptr_int(st, v)) if isinstance(v, Ptr) else v
            f = st.g["froze"]
            if op == "fetch_or" and f is not None and isval(n) and ival(n) == 2 and ex.entails(st, z3.And(T == f[0], i == f[1])):
                # the slot is frozen: it holds what it held
                self.store_entry(st, T, i, ("raw", f[2], simp(f[3] | bv(3, 3))), o)
                return ex.ret_to(st, H(z3.Concat(f[2], simp(f[3] | bv(1, 3)))), dest, target)
            if op == "swap":
                return None
            if op != "fetch_or":
                ex.violate(st, "C05", "a slot is frozen by setting its COPYING bit")
                raise Infeasible()
            md.ob(st, "C05", "a slot is frozen by setting its COPYING bit", n == bv(1))
            if not (md.acq(o) and md.rel(o)):
                ex.violate(st, "C13,C05", "a slot is frozen with acquire and release ordering")
            md.ob(st, "C05,C13", "a slot is frozen only once the next table is linked", HASNEXT(T))
            if self.fn.startswith("copy_at"):
                md.ob(st, "C05", "the slot that is frozen is the one that was claimed", z3.And(T == self.T, i == self.i))
            if st.g["froze"] is not None:
                ex.violate(st, "C05", "one slot is copied at a time")
                raise Infeasible()
            hi, tag = fresh("hi", BV61), fresh("tag", BV3)
            md.entry_facts(st, T, i, hi, tag)
            md.slot_known(st, T, i, hi, tag)
            st.assume(COPYINGS(T, i))
            st.assume(frozen(T, i) == hi)
            if md.inc:
                # only the thread that claimed a slot freezes it, once
                st.assume(z3.Extract(0, 0, tag) == bv(0, 1))
            st.assume(z3.Implies(hi == bv(0, 61), DEADS(T, i)))
            st.g["froze"] = (T, i, hi, tag)
            if T.eq(self.T):
                # the entry of a frozen slot is not in any later table yet
                st.assume(SEARCH(kcls(ekey(hi)), self.N))
            return ex.ret_to(st, H(z3.Concat(hi, tag)), dest, target)
        if k == "claim":
            N, c = loc[1], st.g["claim"]
            if op != "fetch_add":
                return None
            if c is not None:
                ex.violate(st, "C05,C08", "a claimed chunk is copied to its end and reported before another is claimed")
                raise Infeasible()
            T = self.source(st)
            md.check_table(st, N)
            L = self.len(st)
            md.ob(st, "C08,C05", "a claim takes at least one slot, and at most as many as bound the claim counter",
                  z3.And(v != bv(0), z3.Or(z3.ULE(v, L), z3.ULE(v, bv(4096)))))
            s = fresh("start", B64)
            # fewer than 2^4 times the table's length is claimed beyond its end
            st.assume(z3.ULT(s, bv(1 << 62)))
            self.target(st, N)
            st.g["claim"] = (N, s, v, bv(0))
            st.assume(z3.Implies(z3.UGE(s + v, L), ALLCLAIMED(N)))
            return ex.ret_to(st, s, dest, target)
        if k == "copied":
            N = loc[1]
            if op != "fetch_add":
                return None
            md.check_table(st, N)
            md.ob(st, "C05", "the slots that are reported as copied are counted for the table they were copied to", N == self.N)
            if st.g.get("counted"):
                ex.violate(st, "C05", "copied slots are counted once")
                raise Infeasible()
            md.ob(st, "C05,C08", "as many slots are counted as were copied", v == z3.Const("copied", B64))
            if not (md.acq(o) and md.rel(o)):
                ex.violate(st, "C13", "copied slots are counted with acquire and release ordering")
            st.g["counted"] = True
            c = fresh("ncopied", B64)
            return ex.ret_to(st, self.total(st, c, v, True), dest, target)
        return None

    def total(self, st, c, add, acq):
        """The number of copied slots read (before adding `add`): never more than there are."""
        L = self.len(st)
        st.assume(z3.ULE(c, L))
        st.assume(z3.ULE(add, L))
        st.assume(z3.ULE(c + add, L))
        st.g["total"] = simp(c + add)
        if acq:
            st.assume(z3.Implies(c + add == L, ALLCOPIED(self.T, self.N)))
        return c

    def target(self, st, N):
        """The table a copy goes to."""
        md = self.md
        T = self.source(st)
        if md.inc:
            md.ob(st, "C05", "entries are copied from the root table to its next table", z3.And(N == nextOf(T), HASNEXT(T)))
            return
        if not self.reach(st, N):
            md.ob(st, "C05", "entries are copied from a table to one that follows it", REACH(T, N))
        md.ob(st, "C05", "entries are copied from a table to one that follows it", N != T)

    def insert(self, st, T, i, nv):
        md, ex = self.md, self.md.ex
        f = st.g["froze"]
        if nv[0] != "raw" or f is None:
            ex.violate(st, "C05,C06", "a copy inserts the entry of the slot that was frozen")
            raise Infeasible()
        self.copy_ok(st, nv[1], nv[2])
        self.probe_pos(st, T, i, kcls(ekey(f[2])), "C05,C01,C02")
        st.assume(KSET(T, i))
        st.assume(skey(T, i) == kcls(ekey(f[2])))
        st.assume(MINE(T, i))
        md.duty(st, ("meta", T, i))
        st.g["ins"] = (T, i, nv[1])

    def copy_ok(self, st, hi, tag):
        md, ex = self.md, self.md.ex
        f = st.g["froze"]
        if f is None or st.g["ins"] is not None:
            ex.violate(st, "C05,C06", "an entry is copied once")
            raise Infeasible()
        md.ob(st, "C05,C01,C03", "a copy inserts the entry of the slot that was frozen", z3.And(hi == f[2], hi != bv(0, 61)))
        if md.inc:
            md.ob(st, "C06", "an entry that is copied incrementally is marked BORROWED in the new table, and nothing else", tag == bv(4, 3))
        else:
            md.ob(st, "C05,C06", "an entry is copied without tag bits", tag == bv(0, 3))

    def replace(self, st, T, i, eh, et, nv):
        self.md.ex.violate(st, "C05,C01,C02", "a copy only fills empty slots")
        raise Infeasible()

    def remove(self, st, T, i, eh, et):
        self.replace(st, T, i, eh, et, None)

    def swap_entry(self, st, T, i, eh, et, nv, order):
        if st.g["froze"] is not None and st.g["froze"][0].eq(T):
            return self.store_entry(st, T, i, nv, order)
        return OpCtx.swap_entry(self, st, T, i, eh, et, nv, order)

    def store_entry(self, st, T, i, nv, order):
        md, ex = self.md, self.md.ex
        f = st.g["froze"]
        if not md.inc or f is None or nv[0] != "raw":
            ex.violate(st, "C05,C01,C02,C03", "a slot is only changed by compare-exchange")
            raise Infeasible()
        md.ob(st, "C05", "the slot that is marked copied is the one that was frozen", z3.And(T == f[0], i == f[1]))
        md.ob(st, "C05,C06", "a slot is marked copied without changing its entry",
              z3.And(nv[1] == f[2], nv[2] == (f[3] | bv(3, 3))))
        if st.g["ins"] is None:
            ex.violate(st, "C05,C01,C02,C03", "a slot is marked copied only after its entry is in the next table")
            raise Infeasible()
        if order != "SeqCst":
            ex.violate(st, "C08", "a slot is marked copied with sequentially consistent ordering (a parking thread must see it or be seen)")
        if not md.rel(order):
            ex.violate(st, "C13", "a slot is marked copied with release ordering")
        st.assume(COPIEDS(T, i))
        md.duty(st, ("unpark", "ENTRY", T, i))

    # ---- status, parking -----------------------------------------------------------------
    def atomic_load(self, st, loc, o, dest, target):
        md, ex = self.md, self.md.ex
        k = loc[0]
        if k == "status":
            md.check_table(st, loc[1])
            return ex.ret_to(st, self.status(st, loc[1], md.acq(o)), dest, target)
        if k == "claim":
            md.check_table(st, loc[1])
            v = fresh("claimed", B64)
            st.assume(z3.Implies(z3.UGE(v, self.len(st)), ALLCLAIMED(loc[1])))
            return ex.ret_to(st, v, dest, target)
        if k == "copied":
            md.check_table(st, loc[1])
            md.ob(st, "C05", "the slots that are reported as copied are counted for the table they were copied to", loc[1] == self.N)
            c = fresh("ncopied", B64)
            return ex.ret_to(st, self.total(st, c, bv(0), md.acq(o)), dest, target)
        return None

    def status(self, st, N, acq):
        md = self.md
        v = fresh("status", B8)
        st.assume(z3.ULE(v, bv(2, 8)))
        self.reach(st, N)
        st.assume(z3.Implies(v == bv(ABORT, 8), ABORTED(N)))
        if md.inc:
            st.assume(v != bv(ABORT, 8))
        if acq:
            st.assume(z3.Implies(v == bv(PROMOTE, 8), z3.And(PROMOTED(N), ROOTED(N))))
        if md.ex.entails(st, DECIDED(N)):
            st.assume(v != bv(PENDING, 8))
        else:
            st.assume(z3.Implies(v != bv(PENDING, 8), DECIDED(N)))
        st.g["decided"] = None
        return v

    def atomic_store(self, st, loc, v, o, dest, target):
        md, ex = self.md, self.md.ex
        k = loc[0]
        z = ex.zst(ex.dty)
        if k == "status":
            N = loc[1]
            md.check_table(st, N)
            if not (isval(v) and ival(v) in (ABORT, PROMOTE)):
                ex.violate(st, "C08,C05", "a resize is only aborted or promoted")
                raise Infeasible()
            if o != "SeqCst":
                ex.violate(st, "C08", "the outcome of a resize is stored with sequentially consistent ordering (a parking thread must see it or be seen)")
            if not md.rel(o):
                ex.violate(st, "C13", "the outcome of a resize is stored with release ordering")
            if ival(v) == ABORT:
                f = st.g["full"]
                if f is None or md.inc:
                    ex.violate(st, "C05,C08", "a resize is aborted only if an entry does not fit")
                    raise Infeasible()
                md.ob(st, "C05,C08", "a resize is aborted only if an entry does not fit", N == f)
                st.assume(ABORTED(N))
                st.g["claim"] = None
                st.g["full"] = None
            else:
                c = st.g["cas"]
                if c is None:
                    ex.violate(st, "C05", "a table is marked promoted only once it is the root")
                    raise Infeasible()
                md.ob(st, "C05", "a table is marked promoted only once it is the root", N == c[1])
                st.g["duty"] = tuple(d for d in st.g["duty"] if d[0] != "promote")
            md.duty(st, ("unpark", "status", N, bv(0)))
            return ex.ret_to(st, z, dest, target)
        if k == "next":
            T = loc[1]
            l, nn, f = st.g["locked"], st.g["nullnext"], st.g["fresh"]
            if l is None:
                ex.violate(st, "C05,C08,C06", "a next table is linked while the allocation lock is held")
                raise Infeasible()
            md.ob(st, "C05,C08,C06", "a next table is linked while the allocation lock is held", l == T)
            if nn is None:
                ex.violate(st, "C05,C06", "a next table is linked only after next was seen null under the lock")
                raise Infeasible()
            md.ob(st, "C05,C06", "a next table is linked only after next was seen null under the lock", nn == T)
            n = simp(ex.ptr_int(st, v))
            if f is None:
                ex.violate(st, "C05,C06", "a new table is linked, once")
                raise Infeasible()
            md.ob(st, "C05,C06", "a new table is linked, once", n == f[0])
            self.sized(st, f[1])
            if not z3.is_true(simp(f[2] == bv(PENDING, 8))):
                ex.violate(st, "C05,C08", "a next table starts with its copy pending")
            if not md.rel(o):
                ex.violate(st, "C13", "a table is published with release ordering")
            st.g["fresh"] = None
            st.g["nullnext"] = None
            md.has_next(st, T)
            st.assume(TPROT(n))
            st.assume(nextOf(T) == n)
            return ex.ret_to(st, z, dest, target)
        return None

    def atomic_cas(self, st, loc, e, n, so, fo, prot, dest, target, dty):
        md, ex = self.md, self.md.ex
        if loc[0] != "table":
            return None
        e_, n_ = simp(ex.ptr_int(st, e)), simp(ex.ptr_int(st, n))
        s = st.copy()
        s.note("root compare-exchange succeeds")
        out = []
        try:
            if not md.rel(so):
                ex.violate(s, "C13", "a root table is published with release ordering")
            if z3.is_true(simp(e_ == bv(0))):
                f = s.g["fresh"]
                if f is None:
                    ex.violate(s, "C06,C05", "a new table becomes the first root")
                    raise Infeasible()
                md.ob(s, "C06,C05", "a new table becomes the first root", n_ == f[0])
                if not z3.is_true(simp(f[2] == bv(PROMOTE, 8))):
                    ex.violate(s, "C05,C08", "the first root is marked promoted")
                self.sized(s, f[1])
                s.g["fresh"] = None
            else:
                md.ob(s, "C05,C01,C02,C03", "a table is promoted only after every slot of the root was copied to it",
                      z3.And(e_ == self.T, n_ == self.N, ALLCOPIED(self.T, self.N)))
                s.g["cas"] = (self.T, self.N)
                s.g["rt"] = self.T
                md.duty(s, ("promote", self.N))
            s.assume(ROOTED(n_))
            s.assume(PROMOTED(n_))
            s.assume(TPROT(n_))
            s.assume(TACQ(n_))
            out += ex.ret_to(s, Agg(dty, 0, [H(e_)]), dest, target)
        except Infeasible:
            pass
        st.note("root compare-exchange fails")
        T = fresh("T", B64)
        st.assume(T != e_)
        st.assume(T != bv(0))
        st.assume(ROOTED(T))
        st.assume(PROMOTED(T))
        if md.acq(fo):
            st.assume(TACQ(T))
        if prot or "nullroot" in st.g:
            # a table that was published after the guard was entered is not reclaimed while it is active
            st.assume(TPROT(T))
        if self.fn == "try_promote":
            # T was the root and all of it is in N: only N can have replaced it
            if ex.entails(st, z3.And(ALLCOPIED(self.T, self.N), ROOTED(self.T))):
                st.assume(PROMOTED(self.N))
                st.assume(ROOTED(self.N))
        out += ex.ret_to(st, Agg(dty, 1, [H(T)]), dest, target)
        return out

    # ---- allocation ----------------------------------------------------------------------
    def lock(self, st, T):
        self.md.check_table(st, T)
        st.g["locked"] = T
        st.g["nullnext"] = None

    def lock_blocking(self, st, T):
        if st.g["locked"] is not None:
            self.md.ex.violate(st, "C08", "the allocation lock is not taken twice")
        self.waits(st)

    def waits(self, st):
        pass

    def drop_sym(self, st, v):
        d = self.md.m.t(v.ty).get("def", "")
        if d.endswith("MutexGuard"):
            st.g["locked"] = None
            st.g["nullnext"] = None
            return
        OpCtx.drop_sym(self, st, v)

    def table_alloc(self, st, cap):
        md, ex = self.md, self.md.ex
        if st.g["fresh"] is not None:
            ex.violate(st, "C06", "a table that was not published is freed")
            raise Infeasible()
        md.ob(st, "C11", "a table's capacity is a power of two", z3.And(cap != bv(0), (cap & (cap - 1)) == bv(0)))
        T = fresh("T", B64)
        st.assume(T != bv(0))
        st.assume(TPROT(T))
        st.assume(TACQ(T))
        st.assume(maskOf(T) == z3.If(z3.ULT(cap, bv(8)), bv(7), cap - 1))
        st.g["fresh"] = (T, cap, bv(PENDING, 8))
        return T

    def table_dealloc(self, st, T):
        md, ex = self.md, self.md.ex
        f = st.g["fresh"]
        if f is None:
            ex.violate(st, "C06", "only a table that was never published is freed directly")
            raise Infeasible()
        md.ob(st, "C06", "only a table that was never published is freed directly", f[0] == T)
        st.g["fresh"] = None

    def own_read(self, st, T, names, ty):
        f = st.g["fresh"]
        if f is not None and f[0].eq(T) and names == ["state", "status"]:
            return f[2]
        return None

    def own_write(self, st, T, names, v):
        f = st.g["fresh"]
        if f is not None and f[0].eq(T) and names == ["state", "status"]:
            st.g["fresh"] = (f[0], f[1], v)
            return True
        return False

    def sized(self, st, cap):
        """The capacity of a table that is published."""
        md = self.md
        if self.cap is not None:
            md.ob(st, "C11", "a table has the capacity that was asked for", z3.UGE(cap, self.cap))
            return
        if self.fn != "get_or_alloc_next":
            return
        L = simp(maskOf(self.T) + 1)
        a = st.g.get("active")
        if a is None:
            md.ob(st, "C08,C11", "a full table is followed by a larger one", z3.UGT(cap, L))
            return
        md.ob(st, "C08,C11", "a table that is at least half full is followed by one at least twice as large",
              z3.Implies(z3.UGE(a, z3.LShR(L, bv(1))), z3.UGE(cap, L << 1)))
        md.ob(st, "C05,C11", "a table has room for the entries of the table before it", z3.Implies(z3.ULT(a, L), z3.UGT(cap, a)))
        ic = z3.Function("initcap", Obj, B64)(self.map)
        md.ob(st, "C11", "a table shrinks only if it is at most an eighth full, and not below the initial capacity",
              z3.Or(z3.UGE(cap, L), z3.And(z3.ULE(a, z3.LShR(L, bv(3))), z3.UGE(cap, efor(ic)))))

    # ---- retirement of tables ------------------------------------------------------------
    def retire(self, st, p, fn, how):
        md, ex = self.md, self.md.ex
        if self.fn != "try_promote":
            return OpCtx.retire(self, st, p, fn, how)
        T = simp(ex.ptr_int(st, p))
        r = st.g["rt"]
        if r is None:
            ex.violate(st, "C06,C05", "a table is retired only after it was replaced as the root")
            raise Infeasible()
        md.ob(st, "C06", "the tables that were replaced are retired in order, each once", T == r)
        md.ob(st, "C06,C05", "the new root is not retired", T != self.N)
        x = md.m.insts[fn.inst] if isinstance(fn, FnV) else {}
        if not x.get("def", "").startswith("papaya::raw::"):
            ex.violate(st, "C06", "a table is retired with the function that frees tables")
        self.retired_with = fn
        md.has_next(st, r)
        st.g["rt"] = nextOf(r)
        self.on_next(st, r)

    # ---- contracts -----------------------------------------------------------------------
    def contract(self, st, inst):
        x = self.md.m.insts[inst]
        f = RC.get(x["def"])
        if f is not None and inst != self.inst:
            md = self.md

            def h(st, inst, args, dest, target):
                r = f(self, st, args, md.ex.dty, x, dest, target)
                self.used_contracts.add(x["def"])
                if r is None:
                    return None
                if isinstance(r, list):
                    out = []
                    for s, v in r:
                        out += md.ex.ret_to(s, v, dest, target)
                    return out
                return md.ex.ret_to(st, r, dest, target)
            return h
        return OpCtx.contract(self, st, inst)

    def claimed_slot(self, st, T, i, N):
        md, ex = self.md, self.md.ex
        c = st.g["claim"]
        if c is None:
            ex.violate(st, "C05", "a slot is copied only by the thread that claimed it")
            raise Infeasible()
        n = c[3]
        md.ob(st, "C05", "a slot is copied to the table it was claimed for", z3.And(T == self.source(st), N == c[0]))
        md.ob(st, "C05,C06", "a slot is copied only by the thread that claimed it, once", z3.And(i == c[1] + n, z3.ULT(n, c[2])))
        st.assume(z3.ULT(n, c[2]))
        return c

    # ---- results -------------------------------------------------------------------------
    def tabval(self, st, v, what):
        from contracts import tab
        return tab(self, st, v, what)

    def finish(self, ex, st, v):
        md = self.md
        f = self.fn
        if st.g["claim"] is not None:
            ex.violate(st, "C05,C08", "a claimed chunk is copied to its end and reported")
        for d in st.g["duty"]:
            if d[0] == "unpark":
                ex.violate(st, "C08", "waiting threads are woken before the function returns")
            elif d[0] == "meta":
                ex.violate(st, "C01,C02,C05", "the metadata of a copied entry is written before the function returns")
            elif d[0] == "promote":
                ex.violate(st, "C05,C08", "a table that became the root is marked promoted")
            elif d[0] == "retire":
                ex.violate(st, "C06", "an entry that was unlinked is retired before the operation returns")
        if st.g["fresh"] is not None:
            ex.violate(st, "C06", "a table that was not published is freed")
        if st.g["locked"] is not None:
            ex.violate(st, "C08", "the allocation lock is released")
        md.count_ok2(st, "C05,C06,C08", "nothing is owed when the function returns")
        getattr(self, "fin_" + f)(st, v)

    def isnone(self, v):
        return self.md.m.t(v.ty)["variants"][v.var]["name"] == "None"

    def fin_insert_copy(self, st, v):
        md, ex = self.md, self.md.ex
        ins = st.g["ins"]
        if self.isnone(v):
            if ins is not None or self.flags["flag"]:
                ex.violate(st, "C05", "a copy fails only if nothing was inserted and other tables are not allowed")
            T = self.T
            if not md.exhausted(st, self.keys(st)[0], T):
                ex.violate(st, "C08", "a copy fails only if the probe sequence has no empty slot")
            return
        if ins is None:
            ex.violate(st, "C05,C01,C03", "a copy that succeeds inserted the entry")
            raise Infeasible()
        md.count_ok2(st, "C05,C01,C03", "a copy that succeeds inserted the entry")
        if not self.flags["flag"]:
            md.ob(st, "C05", "the entry was inserted in the table that was asked for", ins[0] == self.T)

    def copied(self, st, inc):
        md, ex = self.md, self.md.ex
        fr = st.g["froze"]
        if fr is None:
            ex.violate(st, "C05", "a slot that is copied was frozen")
            raise Infeasible()
        if st.g["ins"] is None:
            md.ob(st, "C05,C01,C03", "a slot counts as copied only if it has no entry or its entry is in the new table", fr[2] == bv(0, 61))
        elif inc:
            md.ob(st, "C05,C08", "a slot whose entry is in the next table is marked copied", COPIEDS(fr[0], fr[1]))
        else:
            md.ob(st, "C05,C01,C03", "a slot counts as copied only if it has no entry or its entry is in the new table", st.g["ins"][0] == self.N)

    def fin_copy_at_blocking(self, st, v):
        if z3.is_true(v):
            return self.copied(st, False)
        if z3.is_false(v):
            if st.g["ins"] is not None or st.g["full"] is None:
                self.md.ex.violate(st, "C05,C08", "a copy fails only if the table is full")
            return
        raise Unsup("symbolic result")

    def fin_copy_at_incremental(self, st, v):
        self.copied(st, True)

    def fin_try_promote(self, st, v):
        md, ex = self.md, self.md.ex
        if st.g["rt"] is not None:
            md.ob(st, "C06", "every table that was replaced is retired", st.g["rt"] == self.N)
        cp = z3.Const("copied", B64)
        if not st.g.get("counted"):
            md.ob(st, "C05,C08", "copied slots are counted", cp == bv(0))
        if z3.is_true(v):
            return md.ob(st, "C05,C01,C02", "a copy is reported finished only once the new table is or was the root", PROMOTED(self.N))
        if not z3.is_false(v):
            raise Unsup("symbolic result")
        t, r = st.g.get("total"), st.g.get("rootseen")
        full = (t == self.len(st)) if t is not None else TRUE
        md.ob(st, "C08,C05", "the thread that counts the last slot of the root promotes the new table", z3.Not(z3.And(full, (r == self.T) if r is not None else TRUE)))

    def fin_help_copy_blocking(self, st, v):
        T = self.tabval(st, v, "the new root")
        self.md.ob(st, "C05,C01,C02,C03", "a blocking resize returns a table that is or was the root, after the copy", z3.And(PROMOTED(T), T != self.T))

    def fin_help_copy(self, st, v):
        T = self.tabval(st, v, "the table that is returned")
        if not self.md.inc:
            return self.md.ob(st, "C05,C01,C02,C03", "a blocking resize returns a table that is or was the root, after the copy", z3.And(PROMOTED(T), T != self.T))
        if self.flags["flag"]:
            return self.md.ob(st, "C05,C10", "completing a resize returns a root table", z3.And(PROMOTED(T), ROOTED(T)))
        self.md.ob(st, "C05,C01,C02", "helping a resize returns the next table", T == nextOf(self.T))

    def fin_help_copy_incremental(self, st, v):
        T = self.tabval(st, v, "the table that is returned")
        if self.flags["flag"]:
            self.md.ob(st, "C05,C10,C09", "completing a resize returns a table that is or was the root", z3.And(PROMOTED(T), ROOTED(T)))

    def fin_wait_copied(self, st, v):
        self.md.ob(st, "C05,C08", "a writer waits until the entry is in the next table", COPIEDS(self.T, self.i))

    def fin_get_or_alloc_next(self, st, v):
        T = self.tabval(st, v, "the next table")
        self.md.ob(st, "C05,C01", "the next table is returned", z3.And(HASNEXT(self.T), T == nextOf(self.T)))

    def fin_init(self, st, v):
        T = self.tabval(st, v, "the first table")
        self.md.ob(st, "C05,C01", "the first table that is returned is or was the root", ROOTED(T))

    def fin_defer_retire(self, st, v):
        pass


# ---- contracts used by these bodies --------------------------------------------------------
RC = {}
RAW = "papaya::raw::HashMap::<K, V, S>::"
TAB = "papaya::raw::alloc::Table::<T>::"


def rc(d):
    def w(f):
        RC[d] = f
        return f
    return w


def bool_fork(st, t, f):
    out = []
    for fn, v in ((t, TRUE), (f, FALSE)):
        s = st.copy()
        if fn(s) is not False:
            out.append((s, v))
    return out


@rc(RAW + "insert_copy")
def c_insert_copy(cx, st, args, dty, x, dest, target):
    from contracts import tab, mktab
    if len(args) != 5 or not isinstance(args[1], Agg) or not (z3.is_true(args[2]) or z3.is_false(args[2])):
        raise NotHandled()
    md, ex = cx.md, cx.md.ex
    names = [f[0] for f in md.m.t(args[1].ty)["variants"][0]["fields"]]
    raw, ptr = args[1].f[names.index("raw")], args[1].f[names.index("ptr")]
    rh, rt = md.entry_hi(st, raw)
    ph, pt = md.entry_hi(st, ptr)
    T = tab(cx, st, args[3], "insert_copy")
    cx.guard_used(st, md.obj_term(st, args[4]))
    md.ob(st, "C06", "insert_copy: tagged and untagged pointer agree", z3.And(ph == rh, pt == bv(0, 3)))
    cx.copy_ok(st, rh, rt)
    md.ob(st, "C05", "an entry is copied to the table it was claimed for", T == cx.N)
    out = []
    vs = md.m.t(dty)["variants"]
    some = [n for n, v in enumerate(vs) if v["name"] == "Some"][0]
    s = st.copy()
    X, i = fresh("T", B64), fresh("i", B64)
    s.assume(z3.And(X != bv(0), TPROT(X), TACQ(X), z3.ULE(i, maskOf(X)), KSET(X, i)))
    if z3.is_false(args[2]):
        s.assume(X == T)
    s.g["ins"] = (X, i, rh)
    pty = md.m.fields(dty, some)[0]
    tty = md.m.fields(pty)
    out.append((s, Agg(dty, some, [Agg(pty, 0, [mktab(cx, tty[0], X), i])])))
    if z3.is_false(args[2]):
        st.g["full"] = T
        out.append((st, Agg(dty, 1 - some, [])))
    return out


@rc(RAW + "copy_at_blocking")
def c_copy_blocking(cx, st, args, dty, x, dest, target):
    from contracts import tab
    if len(args) != 5:
        raise NotHandled()
    md = cx.md
    i = args[1]
    T, N = tab(cx, st, args[2], "copy_at"), tab(cx, st, args[3], "copy_at")
    cx.guard_used(st, md.obj_term(st, args[4]))
    md.bounds(st, T, i)
    c = cx.claimed_slot(st, T, i, N)
    s = st.copy()
    st.g["claim"] = (c[0], c[1], c[2], simp(c[3] + 1))
    s.g["full"] = N
    return [(st, TRUE), (s, FALSE)]


@rc(RAW + "copy_at_incremental")
def c_copy_incremental(cx, st, args, dty, x, dest, target):
    from contracts import tab
    if len(args) != 5:
        raise NotHandled()
    md = cx.md
    i = args[1]
    T, N = tab(cx, st, args[2], "copy_at"), tab(cx, st, args[3], "copy_at")
    cx.guard_used(st, md.obj_term(st, args[4]))
    md.bounds(st, T, i)
    c = cx.claimed_slot(st, T, i, N)
    st.g["claim"] = (c[0], c[1], c[2], simp(c[3] + 1))
    return md.ex.zst(dty)


@rc(RAW + "try_promote")
def c_try_promote(cx, st, args, dty, x, dest, target):
    from contracts import tab
    if len(args) != 5:
        raise NotHandled()
    md, ex = cx.md, cx.md.ex
    T, N = tab(cx, st, args[1], "try_promote"), tab(cx, st, args[2], "try_promote")
    n = args[3]
    cx.guard_used(st, md.obj_term(st, args[4]))
    md.ob(st, "C05", "the table that is replaced is the one that was copied", T == cx.source(st))
    cx.target(st, N)
    c = st.g["claim"]
    if c is None:
        md.ob(st, "C05", "only copied slots are reported as copied", n == bv(0))
    else:
        L = cx.len(st)
        md.ob(st, "C05", "slots are reported as copied for the table they were copied to", N == c[0])
        md.ob(st, "C05", "as many slots are reported as copied as were copied", n == c[3])
        md.ob(st, "C08", "a claimed chunk is copied to its end before it is reported",
              z3.Or(c[3] == c[2], z3.UGE(c[1] + c[3], L)))
        st.g["claim"] = None

    def yes(s):
        s.assume(PROMOTED(N))
        s.assume(ROOTED(N))
    return bool_fork(st, yes, lambda s: None)


@rc(RAW + "help_copy_blocking")
def c_help_blocking(cx, st, args, dty, x, dest, target):
    from contracts import tab, copied_root
    if cx.fn != "help_copy" or len(args) != 3:
        raise NotHandled()
    T = tab(cx, st, args[1], "help_copy_blocking")
    cx.guard_used(st, cx.md.obj_term(st, args[2]))
    if cx.md.inc:
        cx.md.ex.violate(st, "C05", "a blocking resize happens only in blocking mode")
        raise Infeasible()
    return copied_root(cx, st, T, dty)


@rc(RAW + "help_copy_incremental")
def c_help_incremental(cx, st, args, dty, x, dest, target):
    from contracts import inc_root, mktab, known
    if cx.fn != "help_copy" or len(args) != 4:
        raise NotHandled()
    md = cx.md
    cx.guard_used(st, md.obj_term(st, args[3]))
    if not md.inc:
        md.ex.violate(st, "C05", "an incremental resize happens only in incremental mode")
        raise Infeasible()
    md.ob(st, "C08,C05", "the chunk size is the map's", args[1] == z3.Const("chunk", B64))
    if z3.is_true(args[2]):
        return inc_root(cx, st, dty)
    N = fresh("T", B64)
    known(st, N)
    return mktab(cx, dty, N)


@rc(RAW + "help_copy")
def c_help_copy(cx, st, args, dty, x, dest, target):
    raise NotHandled()


@rc(RAW + "get_or_alloc_next")
def c_alloc_next(cx, st, args, dty, x, dest, target):
    from contracts import tab, mktab
    if len(args) != 3:
        raise NotHandled()
    md = cx.md
    T = tab(cx, st, args[2], "get_or_alloc_next")
    md.has_next(st, T)
    st.assume(TPROT(nextOf(T)))
    cx.on_next(st, T)
    return mktab(cx, dty, nextOf(T))


@rc(RAW + "wait_copied")
def c_wait(cx, st, args, dty, x, dest, target):
    raise NotHandled()


@rc(RAW + "len")
def c_len(cx, st, args, dty, x, dest, target):
    if len(args) != 1:
        raise NotHandled()
    n = fresh("len", B64)
    st.assume(z3.ULE(n, bv(1 << 61)))
    st.g["active"] = n
    return n


@rc(TAB + "alloc")
def c_alloc(cx, st, args, dty, x, dest, target):
    from contracts import mktab
    return mktab(cx, dty, cx.table_alloc(st, args[0]))


@rc(TAB + "dealloc")
def c_dealloc(cx, st, args, dty, x, dest, target):
    v = args[0]
    names = [f[0] for f in cx.md.m.t(v.ty)["variants"][0]["fields"]]
    cx.table_dealloc(st, simp(cx.md.ex.ptr_int(st, v.f[names.index("raw")])))
    return cx.md.ex.zst(dty)


@rc("papaya::raw::probe::entries_for")
def c_entries_for(cx, st, args, dty, x, dest, target):
    r = efor(args[0])
    # verified against the body: a power of two whose load factor admits the capacity
    st.assume(z3.And(r != bv(0), (r & (r - 1)) == bv(0), z3.ULE(args[0], r)))
    return r


@rc("papaya::raw::utils::stack::Stack::<T>::push")
def c_push(cx, st, args, dty, x, dest, target):
    md, ex = cx.md, cx.md.ex
    q = ex.resolve(st, args[0])
    names = md.path_names(q.path)
    if q.root[0] != "H" or names != ["state", "deferred"]:
        raise Unsup("push to %r" % (q,))
    P = simp(q.root[1] + q.root[2])
    md.check_table(st, P)
    hi, lo = md.entry_hi(st, args[1])
    d = cx.take_retire(st, hi, lo, None, None)
    md.ob(st, "C06", "an entry is deferred to the table that the table it was removed from is copied from",
          z3.And(HASNEXT(P), nextOf(P) == d[1]))
    ok = [z3.And(REACH(R, P)) for R in st.g["roots_after"]]
    md.ob(st, "C06", "an entry is deferred to a table that has not been retired", z3.Or([BEFORE(P, d[1])] + ok))
    return ex.zst(dty)


def parker_loc(cx, st, p, a):
    """(kind, table, index) of the location threads wait on, checked against the parker."""
    import externs
    md, ex = cx.md, cx.md.ex
    q = ex.resolve(st, p)
    names = md.path_names(q.path) if q.root[0] == "H" else None
    if names != ["state", "parker"]:
        raise Unsup("parker %r" % (q,))
    PT = simp(q.root[1] + q.root[2])
    md.check_table(st, PT)
    r = ex.resolve(st, a)
    w = 1 if md.path_names(r.path or ()) and (md.path_names(r.path) or [""])[-1] == "status" else 8
    loc = externs.classify(md, st, a, w)
    if loc[0] not in ("status", "ENTRY"):
        raise Unsup("waiting on %s" % loc[0])
    md.ob(st, "C08", "threads wait for a location at the parker of its table", PT == loc[1])
    return loc


PARK = "papaya::raw::utils::parker::Parker::"


@rc(PARK + "unpark")
def c_unpark(cx, st, args, dty, x, dest, target):
    md, ex = cx.md, cx.md.ex
    loc = parker_loc(cx, st, args[0], args[1])
    out = []
    for d in st.g["duty"]:
        if d[0] == "unpark" and d[1] == loc[0] and ex.entails(st, z3.And(d[2] == loc[1], d[3] == (loc[2] if loc[2] is not None else bv(0)))):
            continue
        out.append(d)
    st.g["duty"] = tuple(out)
    return ex.zst(dty)


@rc(PARK + "park")
def c_park(cx, st, args, dty, x, dest, target):
    """park(location, condition): returns only after the condition was seen to be false."""
    md, ex = cx.md, cx.md.ex
    m = md.m
    loc = parker_loc(cx, st, args[0], args[1])
    if st.g["claim"] is not None:
        ex.violate(st, "C08", "a thread does not wait while it holds a claimed chunk")
    if any(d[0] in ("unpark", "promote") for d in st.g["duty"]):
        ex.violate(st, "C08", "a thread does not wait while it owes a wake-up")
    if st.g["locked"] is not None:
        ex.violate(st, "C08", "a thread does not wait while it holds the allocation lock")
    inst = ex.closure_inst(x["body"]["locals"][3])
    r = ("I", "park%d" % len(st.frames))
    st.mem[r] = args[2]
    if loc[0] == "status":
        v = cx.status(st, loc[1], True)
        wake = z3.And(v == bv(PENDING, 8), ALLCLAIMED(loc[1]))
        arg = v
    else:
        p = md.load_entry(st, loc[1], loc[2], "Acquire", False)
        n = simp(ex.ptr_int(st, p))
        wake = z3.And(z3.Extract(0, 0, n) == bv(1, 1), z3.Extract(1, 1, n) == bv(0, 1), z3.Extract(63, 3, n) != bv(0, 61))
        arg = p
    cls = loc[0]
    dt = dty

    class Cont:
        def __init__(self, vals):
            self.vals = vals

        def key(self):
            return "park"

        def remap(self, v):
            return Cont(v)

        def __call__(self, ex_, s, v, f):
            w = s.copy()
            w.assume(simp(v))
            if ex_.feasible(w):
                md.ob(w, "C08", "a thread waits only for a change that another thread owes it (%s)" % cls, self.vals[1])
            s.assume(simp(z3.Not(v)))
            if not ex_.feasible(s):
                return []
            if cls == "status" and ex_.entails(s, DECIDED(self.vals[2])):
                s.g["decided"] = True
                s.assume(DECIDED(self.vals[2]))
            return ex_.ret_to(s, ex_.zst(dt), self.vals[0], f.target)

    l1 = m.insts[inst]["body"]["locals"][1]
    self_arg = Ptr(("R", r)) if m.t(l1).get("k") in ("ref", "ptr") else args[2]
    ex.push_frame(st, inst, [self_arg, arg], dest, target, Cont((dest, wake, loc[1])))
    return None

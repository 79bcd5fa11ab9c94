"""Verification contexts: what is specified for a function (contract), and the ghost state and
guarantee obligations of one operation."""
import z3
from core import *
from model import *


class Ctx:
    """Base: an operation on a shared map with a verified guard."""
    props = ""
    panic_props = "C11"

    def __init__(self, md):
        self.md = md
        self.weak = False
        self.opkeys = []
        self.used_contracts = set()

    # -- hooks with default meaning --
    def keys(self, st):
        return self.opkeys

    def roots(self, st):
        return []

    def owns_table(self, st, T):
        return False

    def owns_entry(self, st, hi):
        return False

    def own_read(self, st, T, names, ty):
        return None

    def own_write(self, st, T, names, v):
        return False

    def obj_field(self, st, t, n, path, ty):
        return None

    def heap_read(self, st, p, ty):
        raise Unsup("plain read of shared memory %r" % (p,))

    def heap_write(self, st, p, v):
        return False

    def touch(self, st):
        pass

    def table_exists(self, st):
        return "table_exists" in st.g

    inline = None

    def on_null_root(self, st):
        st.g["nullroot"] = TRUE

    def alloc_next(self, st, T, cap):
        pass

    def on_help(self, st, T):
        pass

    def on_copied(self, st, T, N):
        pass

    def on_root(self, st, T, order):
        pass

    def on_null_next(self, st, T):
        pass

    def before_next(self, st, T):
        pass

    def on_next(self, st, T):
        pass

    def on_meta(self, st, T, i, m, order):
        pass

    def on_entry(self, st, T, i, hi, tag, order):
        pass

    def guard_used(self, st, g):
        pass

    def atomic_load(self, st, loc, o, dest, target):
        return None

    def atomic_store(self, st, loc, v, o, dest, target):
        return None

    def atomic_cas(self, st, loc, e, n, so, fo, prot, dest, target, dty):
        return None

    def atomic_rmw(self, st, op, loc, v, o, dest, target):
        return None

    def swap_entry(self, st, T, i, eh, et, nv, order):
        """An unconditional exchange replaced whatever the slot held."""
        self.md.commit(st, T, i, eh, et, nv, order)

    def panic_ok(self, st, what):
        return False

    def contract(self, st, inst):
        return None

    def at_header(self, ex, st):
        """Derive facts worth keeping in a loop invariant."""
        md = self.md
        terms = []
        import loops
        _, leaves = loops.skeleton(ex, st)
        for t in leaves:
            for p in subterms(t, "pidx"):
                if not any(p.eq(x) for x in terms):
                    terms.append(p)
        for p in terms:
            b, T, n = p.children()
            if isval(n) and ival(n) == 0:
                for k in self.keys(st):
                    if md.h1(md.hk(k)).eq(b):
                        st.assume(PASSED(k, T, n))
                continue
            n0 = simp(n - 1)
            q = pidx(b, T, n0)
            md.passed_next(st, b, T, n0, q, n)
        # facts about the key's slot and about entries that carry the key
        cands = []
        for f in list(st.pc):
            for p in subterms(f, "skey"):
                T, i = p.children()
                for k in self.keys(st):
                    cands += [z3.And(KSET(T, i), p == k), FOUNDAT(k, T, i)]
            for nm in ("FOUND", "FOUNDAT", "ABSENT", "HASNEXT", "COPYING", "COPIED", "KSET", "DEAD", "MNE", "PASSED", "SEARCH", "PROT", "ACQ"):
                cands += subterms(f, nm)
            for p in subterms(f, "ekey"):
                for k in self.keys(st):
                    cands.append(kcls(p) == k)
        seen = set()
        may = ex.refuter(st)
        for c in cands:
            c = simp(c)
            if c.get_id() in seen or c.get_id() in st.pcs:
                continue
            seen.add(c.get_id())
            if may(c) and ex.entails(st, c):
                st.assume(c)
        for t in leaves:
            if t.sort() == B64 and self.is_table(st, t):
                for k in self.keys(st):
                    md.search(st, k, t)

    def templates(self, ex, st):
        """Candidate facts for a generalised loop state."""
        return []

    def is_table(self, st, t):
        return TPROT(t).get_id() in st.pcs or (z3.is_app(t) and t.decl().name() == "next")

    # -- ownership --
    def drop_sym(self, st, v):
        d = st.g.get("dropped", ())
        if any(x.eq(v.t) for x in d):
            self.md.ex.violate(st, "C06", "a key or value is dropped once")
            raise Infeasible()
        st.g["dropped"] = d + (v.t,)

    def drop_box(self, st, p, inner):
        raise Unsup("drop of box %r" % (p,))

    def drop_ptr(self, st, v, ty):
        pass

    def drop_hook(self, st, p, ty, inst, target):
        return False

    def drop_special(self, st, p, ty, inst, target):
        return None

    def box_from_raw(self, st, p):
        return p

    def lock(self, st, T):
        pass

    def lock_blocking(self, st, T):
        pass

    def user_call(self, st, inst, args, dest, target):
        return None

    def event(self, st, e):
        st.log = st.log + (e,)


class KeyOp(Ctx):
    """An operation on one key."""

    def entry_of(self, st, kp, vp):
        """References to key and value of one entry -> ('sh', hi) or ('own', rid)."""
        ex = self.md.ex

        def one(p, f):
            if p is None:
                return None
            q = ex.resolve(st, p)
            if q.root[0] == "R" and q.root[1][0] == "B" and len(q.path) == 1 and q.path[0][1] == f:
                return ("own", q.root[1])
            if q.root[0] == "H" and len(q.path) == 1 and self.md.is_entry_ty(q.path[0][2]) and q.path[0][1] == f:
                hi, lo = self.md.entry_hi(st, q)
                return ("sh", hi)
            return None

        a, b = one(kp, 0), one(vp, 1)
        self._last = (kp and ex.resolve(st, kp), vp and ex.resolve(st, vp), {r: v for r, v in st.mem.items() if r[0] == "B"})
        if kp is not None and vp is not None:
            if a is None or b is None or a[0] != b[0]:
                return None
            if a[0] == "sh" and not a[1].eq(b[1]):
                return None
            if a[0] == "own" and a[1] != b[1]:
                return None
            return a
        return a if kp is not None else b

    def ret_entry(self, st, e, name="the returned reference"):
        """A returned reference: initialised, protected entry of the map."""
        md = self.md
        if e is None:
            if getattr(md.ex, "debug", False):
                print("NOENTRY", self._last)
            md.ex.violate(st, "C06,C01,C02,C03,C04", name + " points at the key and value of one entry of the map")
            raise Infeasible()
        if e[0] == "sh":
            md.ob(st, "C06", name + " stays protected by the guard", z3.And(PROT(e[1]), e[1] != bv(0, 61)))
            md.ob(st, "C13", name + " was obtained with acquire ordering", ACQ(e[1]))


class GetCtx(KeyOp):
    name = "get"
    props = "C01"

    def init(self, ex, inst):
        md = self.md
        q = z3.Const("q", Obj)
        self.k = kcls(q)
        self.opkeys = [self.k]
        st = State()
        ex.push_frame(st, inst, [Ptr(("O", z3.Const("map", Obj))), Ptr(("O", q)), Ptr(("O", z3.Const("guard", Obj)))], None, None)
        return st

    def finish(self, ex, st, v):
        md = self.md
        if v.var == 0:
            ok = md.absent(st, self.k)
            md.ob(st, "C01,C05", "a key is reported missing only if it was absent at an instant of the call", ABSENT(self.k))
            return
        t = v.f[0]
        e = self.entry_of(st, t.f[0], t.f[1])
        self.ret_entry(st, e)
        md.ob(st, "C01,C05", "the returned entry was the key's mapping at an instant of the call", FOUND(self.k, e[1]))

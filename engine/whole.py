"""Specifications of the operations on whole maps."""
import z3
from core import *
from model import *
from ctx import Ctx
from ops import OpCtx


class LenCtx(OpCtx):
    """len / is_empty: the sum of the map's counter shards, never negative."""

    def __init__(self, md, root, op, kind="m"):
        OpCtx.__init__(self, md, root, "get", kind)
        self.op = op
        self.P = "C07" if kind == "m" else "C14,C07"
        self.panic_props = self.P
        self.inline = {"papaya::raw::utils::counter::Counter::sum"}

    def keys(self, st):
        return []

    def touch(self, st):
        pass

    def atomic_load(self, st, loc, o, dest, target):
        if loc[0] != "count":
            return None
        t, off = loc[1], loc[2]
        v = fresh("shard", B64)
        st.assume(CSUM(t, simp(off + bv(1))) == CSUM(t, off) + v)
        return self.md.ex.ret_to(st, v, dest, target)

    def templates(self, ex, st):
        import loops
        _, leaves = loops.skeleton(ex, st)
        t, out = self.map, []
        ls = [l for l in leaves if l.sort() == B64 and loops.flex(l)]
        end = bv(SHARD) * nshards(t)
        for b in ls:
            out += [z3.ULE(b, end), z3.ULE(b, nshards(t)), z3.Extract(6, 0, b) == bv(0, 7)]
            for a in ls:
                if not a.eq(b):
                    out += [a == CSUM(t, simp(z3.LShR(b, bv(7)))), a == CSUM(t, b)]
        return out

    def at_header(self, ex, st):
        import loops
        _, leaves = loops.skeleton(ex, st)
        t = self.map
        offs = []
        for l in leaves:
            if l.sort() == B64 and not any(l.eq(x) for x in offs):
                offs.append(l)
        end = bv(SHARD) * nshards(t)
        for o in offs:
            for c in [z3.ULE(o, end), z3.ULE(o, nshards(t)), z3.Extract(6, 0, o) == bv(0, 7)]:
                if not z3.is_true(c) and ex.entails(st, c):
                    st.assume(c)
            for a in offs:
                for q in (o, simp(z3.LShR(o, bv(7)))):
                    c = a == CSUM(t, q)
                    if ex.entails(st, c):
                        st.assume(c)

    def finish(self, ex, st, v):
        md = self.md
        tot = CSUM(self.map, nshards(self.map))
        n = z3.If(tot < bv(0), bv(0), tot)
        if self.op == "is_empty":
            md.ob(st, self.P, "is_empty says whether the number of entries is zero", v == (n == bv(0)))
        else:
            md.ob(st, self.P, "len is the number of entries added minus the number removed", v == n)
        if st.log or ex.entails(st, FALSE):
            ex.violate(st, self.P, "len does not change the map")

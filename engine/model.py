"""Meaning of everything outside the verified bodies: the shared memory of the map (a
rely/guarantee protocol over tables, slots and entries), atomics, the standard library, seize and
user code.  See DESIGN.md, "Protocol"."""
import re
import z3
from core import *
import core

BV61, BV3, B8 = z3.BitVecSort(61), z3.BitVecSort(3), z3.BitVecSort(8)
Key = z3.DeclareSort("Key")
Bool = z3.BoolSort()


def F(name, *sorts):
    return z3.Function(name, *sorts)


# tables
maskOf, limitOf = F("mask", B64, B64), F("limit", B64, B64)
nextOf = F("next", B64, B64)
# slots: facts that never become false again
MNE = F("MNE", B64, B64, Bool)          # metadata is not EMPTY
DEADS = F("DEAD", B64, B64, Bool)       # tombstone or frozen null
MINE = F("MINE", B64, B64, Bool)        # the entry this copy inserts goes here
KSET = F("KSET", B64, B64, Bool)        # an entry was inserted here; its key is skey
skey = F("skey", B64, B64, Key)
COPYINGS = F("COPYING", B64, B64, Bool)  # frozen
COPIEDS = F("COPIED", B64, B64, Bool)   # entry is in a later table
frozen = F("frozen", B64, B64, BV61)    # the entry a frozen slot holds
COPYDONE = F("COPYDONE", B64, B64, Bool)  # the slot needs no further copying
# entries (hi = address / 8)
ekey, eval_ = F("ekey", BV61, Obj), F("eval", BV61, Obj)
kcls = F("kcls", Obj, Key)
hashOf = F("hash", Obj, Key, B64)
PROT = F("PROT", BV61, Bool)            # protected by the operation's guard
ACQ = F("ACQ", BV61, Bool)              # loaded with acquire ordering
TPROT, TACQ = F("TPROT", B64, Bool), F("TACQ", B64, Bool)
# probe sequences and searches
pidx = F("pidx", B64, B64, B64, B64)    # (start hash, table, step)
PASSED = F("PASSED", Key, B64, B64, Bool)  # steps < n of the key's probe sequence cannot hold the key
SEARCH = F("SEARCH", Key, B64, Bool)    # the key, if present, is in this table or a later one
FOUND = F("FOUND", Key, BV61, Bool)     # the key was mapped to the entry at an instant of the call
FOUNDAT = F("FOUNDAT", Key, B64, B64, Bool)
ABSENT = F("ABSENT", Key, Bool)         # the key was absent at an instant of the call
ROOTED = F("ROOTED", B64, Bool)         # was the root table at an instant of the call
PROMOTED = F("PROMOTED", B64, Bool)     # is or was the root table
ABORTED = F("ABORTED", B64, Bool)
NONEXT = F("NONEXT", B64, Bool)         # had no next table at an instant of the call after it was root
HASNEXT = F("HASNEXT", B64, Bool)
DONE = F("DONE", B64, B64, Bool)        # slots below n are dealt with (whole-table operations)
HANDLED = F("HANDLED", B64, B64, Bool)
REACH = F("REACH", B64, B64, Bool)      # second table reachable from the first through next
ROOTAFTER = F("ROOTAFTER", B64, B64, B64, Bool)  # table was root after slot (T, i) was emptied
STATUS = F("STATUS", B64, B8)
# the sharded counter
shards, nshards = F("shards", Obj, B64), F("nshards", Obj, B64)
CSUM = F("CSUM", Obj, B64, B64)         # sum of the shards below a byte offset
SHARD = 128

ORD = ["Relaxed", "Release", "Acquire", "AcqRel", "SeqCst"]
EMPTY, TOMB = 0x80, 0xFF


def lin(t):
    """Linear decomposition of a 64-bit term: ({id: (atom, coeff)}, const)."""
    atoms, c = {}, 0

    def go(t, k):
        nonlocal c
        if isval(t):
            c += k * ival(t)
            return
        d = t.decl().kind()
        if d == z3.Z3_OP_BADD:
            for x in t.children():
                go(x, k)
            return
        if d == z3.Z3_OP_BSUB:
            ch = t.children()
            go(ch[0], k)
            for x in ch[1:]:
                go(x, -k)
            return
        if d == z3.Z3_OP_BNEG:
            go(t.children()[0], -k)
            return
        if d == z3.Z3_OP_BMUL:
            ch = t.children()
            if isval(ch[0]):
                r = ch[1] if len(ch) == 2 else None
                if r is not None:
                    go(r, k * ival(ch[0]))
                    return
        if d == z3.Z3_OP_BSHL and isval(t.children()[1]):
            go(t.children()[0], k << ival(t.children()[1]))
            return
        if d == z3.Z3_OP_CONCAT and t.num_args() == 2 and isval(t.children()[1]) and ival(t.children()[1]) == 0:
            # Concat(Extract(60, 0, x), 000) is 8 * x
            e = t.children()[0]
            n = t.children()[1].size()
            if e.decl().kind() == z3.Z3_OP_EXTRACT and e.params()[1] == 0:
                go(e.children()[0], k << n)
                return
        if d == z3.Z3_OP_BNOT:
            go(t.children()[0], -k)
            c -= k
            return
        i = t.get_id()
        a, q = atoms.get(i, (t, 0))
        atoms[i] = (t, q + k)

    go(t, 1)
    M = 1 << 64
    return {i: (a, q % M) for i, (a, q) in atoms.items() if q % M}, c % M


def unlin(atoms, c):
    r = bv(c)
    for a, q in atoms.values():
        r = r + (a if q == 1 else bv(q) * a)
    return simp(r)


_sub = {}
_NONE = {}
_UNINT = z3.Z3_OP_UNINTERPRETED


def apps(t):
    """{name: applications of the uninterpreted function} inside t (memoised)."""
    i = t.get_id()
    r = _sub.get(i)
    if r is not None:
        return r[1]
    if z3.is_quantifier(t) or z3.is_var(t):
        d = _NONE
    else:
        cs = t.children()
        ds = []
        for c in cs:
            x = apps(c)
            if x and not any(x is y for y in ds):
                ds.append(x)
        own = cs and t.decl().kind() == _UNINT
        if not own and len(ds) <= 1:
            d = ds[0] if ds else _NONE
        else:
            d = {}
            if own:
                d[t.decl().name()] = [(i, t)]
            for x in ds:
                for n, l in x.items():
                    m = d.get(n)
                    if m is None:
                        d[n] = list(l)
                    else:
                        ids = {q[0] for q in m}
                        m += [q for q in l if q[0] not in ids]
    _sub[i] = (t, d)
    return d


def subterms(t, name):
    """All applications of the function `name` inside t."""
    l = apps(t).get(name)
    return [q[1] for q in l] if l else ()


class Model:
    def __init__(self, mir, inc):
        self.m = mir
        self.inc = inc
        self.ex = None
        self.map_t = self._ty("papaya::raw::HashMap<K, V, S>")
        self.layout = {}
        self.ok = {}
        self._axc = {}
        self.contracts = {}
        self.assumed = set()
        self.hd = {}
        for n in dir(type(self)):
            pass
        import externs
        externs.install(self)

    def _ty(self, s):
        return self.m.tindex.get(s)

    # ---- obligations ------------------------------------------------------------------------
    def ob(self, st, props, name, c):
        return self.ex.oblige(st, props, name, c)

    def count_ok(self, st, name):
        self.ex.record(st, "C11", name, True)

    def count_ok2(self, st, props, name):
        self.ex.record(st, props, name, True)

    def justify(self, st, T, hi, tag):
        """An unlinked entry of table T may be retired now."""
        if not self.inc:
            self.count_ok2(st, "C06", "an entry is retired only when no table refers to it")
            return
        rs = st.g.get("roots_after", ())
        self.ob(st, "C06", "an entry is retired only when no table refers to it",
                z3.Or([z3.Extract(2, 2, tag) == bv(0, 1)] + [REACH(T, R) for R in rs]))

    # ---- axioms -----------------------------------------------------------------------------
    def axioms(self, f):
        k = f.get_id()
        r = self._axc.get(k)
        if r is not None:
            return r[1]
        out = []
        for p in subterms(f, "CSUM"):
            if isval(p.children()[1]) and ival(p.children()[1]) == 0:
                out.append(p == bv(0))
            # fewer than 2^61 insertions and removals
            out += [p <= bv(1 << 61), p >= bv(-(1 << 61))]
        for p in subterms(f, "pidx"):
            T = p.children()[1]
            out.append(z3.ULE(p, maskOf(T)))
        ts = []
        for nm, ix in (("mask", 0), ("limit", 0), ("pidx", 1)):
            for p in subterms(f, nm):
                T = p.children()[ix]
                if not any(T.eq(x) for x in ts):
                    ts.append(T)
        for T in ts:
            mk = maskOf(T)
            out += [z3.UGE(mk, bv(7)), z3.ULT(mk, bv(1 << 58)), (mk & (mk + 1)) == bv(0),
                    z3.ULE(limitOf(T), bv(320))]
        for p in subterms(f, "PASSED"):
            k_, T, n = p.children()
            if isval(n) and ival(n) == 0:
                out.append(p)
        for p in subterms(f, "DONE"):
            T, n = p.children()
            if isval(n) and ival(n) == 0:
                out.append(p)
        for p in subterms(f, "REACH"):
            a, b = p.children()
            if a.eq(b):
                out.append(p)
        self._axc[k] = (f, out)
        return out

    # ---- terms ------------------------------------------------------------------------------
    def bvand(self, st, a, b):
        if isval(a):
            a, b = b, a
        w = a.size()
        if isval(b):
            n = ival(b)
            inv = (~n) & ((1 << w) - 1)
            if n and (n & (n + 1)) == 0:     # low bits
                k = n.bit_length()
                return simp(z3.ZeroExt(w - k, z3.Extract(k - 1, 0, a))) if k < w else a
            if inv and (inv & (inv + 1)) == 0:  # all but the low bits
                k = inv.bit_length()
                return simp(z3.Concat(z3.Extract(w - 1, k, a), bv(0, k)))
            return simp(a & b)
        for x, y in ((a, b), (b, a)):
            if y.decl().name() == "mask" and y.num_args() == 1:
                return self.index_of(st, x, y.children()[0])
        return simp(a & b)

    def index_of(self, st, x, T):
        """x & mask(T): recognised as a position of a probe sequence of T when it is one."""
        atoms, c = lin(x)
        ps = [a for a, q in atoms.values() if q == 1 and a.decl().name() == "pidx" and a.children()[1].eq(T)]
        for p in ps:
            rest = {i: v for i, v in atoms.items() if not v[0].eq(p)}
            n1 = unlin(rest, c)
            b, _, n = p.children()
            if simp(n1 - n - 1).eq(bv(0)):
                t = pidx(b, T, n1)
                self.passed_next(st, b, T, n, p, n1)
                return t
        t = pidx(simp(x), T, bv(0))
        return t

    def h1(self, h):
        return h

    def h2(self, h):
        return z3.ZeroExt(1, z3.Extract(63, 57, h))

    def hk(self, k):
        return hashOf(self.mhasher(), k)

    def mhasher(self):
        return z3.Const("map_hasher", Obj)

    def keys(self, st):
        return self.ex.ctx.keys(st)

    def passed_next(self, st, b, T, n, p, n1):
        for k in self.keys(st):
            if not self.h1(self.hk(k)).eq(b):
                continue
            if PASSED(k, T, n1).get_id() in st.pcs:
                continue
            if self.ex.entails(st, z3.And(PASSED(k, T, n), self.passi(k, T, p))):
                st.assume(PASSED(k, T, n1))

    def passi(self, k, T, i):
        ne = skey(T, i) != k
        if getattr(self.ex.ctx, "copies_one", False):
            # nobody else inserts the key of the slot that is copied, so a key that is set is another one
            ne = z3.Or(ne, MINE(T, i))
        return z3.And(MNE(T, i), z3.Or(DEADS(T, i), z3.And(KSET(T, i), ne)))

    # ---- searches ----------------------------------------------------------------------------
    def search(self, st, k, T):
        ex = self.ex
        a = SEARCH(k, T)
        if a.get_id() in st.pcs:
            return True
        ok = False
        if ex.entails(st, z3.Or(ROOTED(T), PROMOTED(T))):
            ok = True
        elif ex.entails(st, a):
            ok = True
        elif self.inc:
            for P in self.preds(st, T):
                if not self.search(st, k, P):
                    continue
                if self.exhausted(st, k, P) or self.moved(st, k, P):
                    ok = True
                    break
        if ok:
            st.assume(a)
        return ok

    def preds(self, st, T):
        if z3.is_app(T) and T.num_args() == 1 and T.decl().name() == "next":
            return [T.children()[0]]
        out = []
        for f in st.pc:
            if z3.is_eq(f):
                x, y = f.children()
                for u, v in ((x, y), (y, x)):
                    if u.eq(T) and z3.is_app(v) and v.num_args() == 1 and v.decl().name() == "next":
                        out.append(v.children()[0])
        return out

    def terms(self, st, name, T):
        out = []
        for f in st.pc:
            for p in subterms(f, name):
                if p.children()[0].eq(T) and not any(p.eq(x) for x in out):
                    out.append(p)
        return out

    def exhausted(self, st, k, T):
        """Every step of k's probe sequence up to the limit of T has been passed."""
        ns = []
        for f in st.pc:
            for p in subterms(f, "PASSED"):
                if p.children()[0].eq(k) and p.children()[1].eq(T):
                    ns.append(p)
        return any(self.ex.entails(st, z3.And(p, z3.UGT(p.children()[2], limitOf(T)))) for p in ns)

    def moved(self, st, k, T):
        return any(self.ex.entails(st, z3.And(p, KSET(T, p.children()[1]), skey(T, p.children()[1]) == k))
                   for p in self.terms(st, "COPIED", T))

    def absent(self, st, k):
        """Try to establish that k was absent at an instant of the call."""
        ex = self.ex
        if ex.entails(st, ABSENT(k)):
            return True
        if not self.inc:
            seen = []
            for f in st.pc:
                for p in subterms(f, "PASSED"):
                    T = p.children()[1]
                    if p.children()[0].eq(k) and not any(T.eq(x) for x in seen):
                        seen.append(T)
                        if self.exhausted(st, k, T) and self.search(st, k, T):
                            st.assume(ABSENT(k))
                            return True
        return False

    # ---- locations ---------------------------------------------------------------------------
    def shared_sym(self, v):
        if self.m.t(v.ty).get("def") in ("verif_harness::K", "verif_harness::V", "verif_harness::T", "verif_harness::KC", "verif_harness::VC"):
            return False
        return v.ty == self.map_t or self.m.opaque(v.ty) or self.m.ts(v.ty).startswith("papaya::raw::HashMap<")

    def layout_ty(self):
        """The header of a table of the verified map."""
        if getattr(self, "_lty", None) is None:
            l = [i for i, x in enumerate(self.m.types) if x.get("def", "") == "papaya::raw::alloc::TableLayout"]
            sz = {self.m.size(i) for i in l}
            if len(sz) != 1:
                raise Unsup("table headers of different sizes")
            self._lty = l[0]
        return self._lty

    def hdr(self):
        if getattr(self, "_hdr", None) is None:
            self._hdr = self.m.size(self.layout_ty())
        return self._hdr

    def table_of(self, base):
        return base

    def slot(self, st, p, width):
        """('META'|'ENTRY', T, i) for a pointer into the arrays of a table."""
        base, off = p.root[1], p.root[2]
        atoms, c = lin(off)
        c = (c - self.hdr()) % (1 << 64)
        mk = maskOf(base)
        if width == 1:
            return "META", base, unlin(atoms, c)
        # entries follow the metadata array: off = hdr + len + 8 i
        a = dict(atoms)
        cur = a.get(mk.get_id(), (mk, 0))[1]
        a[mk.get_id()] = (mk, (cur - 1) % (1 << 64))
        a = {i: v for i, v in a.items() if v[1]}
        c = (c - 1) % (1 << 64)
        sg = lambda q: q - (1 << 64) if q >> 63 else q
        if all(sg(q) % 8 == 0 for _, q in a.values()) and sg(c) % 8 == 0:
            return "ENTRY", base, unlin({i: (t, (sg(q) // 8) % (1 << 64)) for i, (t, q) in a.items()}, (sg(c) // 8) % (1 << 64))
        # the length may be written some other way: try the solver
        return "ENTRY", base, None

    def shard_box(self, st, t):
        """The counter shards of map t: a non-empty array (established by the constructor)."""
        n = nshards(t)
        st.assume(n != bv(0))
        st.assume(z3.ULT(n, bv(1 << 40)))
        return Ptr(("H", shards(t), bv(0)), (), n)

    def shard(self, st, p):
        """A counter shard: (count, map, byte offset)."""
        t = p.root[1].children()[0]
        i = self.divide(p.root[2], SHARD)
        self.ob(st, "C07,C11", "a counter shard lies inside the shard array", z3.And(z3.ULT(i, nshards(t)), z3.Extract(6, 0, p.root[2]) == bv(0, 7)))
        return ("count", t, i)

    def divide(self, d, n):
        """d / n; exact when the linear form of d is a multiple of n."""
        atoms, c = lin(d)
        if c % n == 0 and not any(q % n for _, q in atoms.values()):
            sg = lambda q: q - (1 << 64) if q >> 63 else q
            return unlin({k: (a, sg(q) // n % (1 << 64)) for k, (a, q) in atoms.items()}, sg(c) // n % (1 << 64))
        if n & (n - 1) == 0:
            return simp(z3.LShR(d, bv(n.bit_length() - 1)))
        return simp(z3.UDiv(d, bv(n)))

    def check_table(self, st, T, what="table"):
        """A table may be accessed: protected by the guard and acquired."""
        if self.ex.ctx.owns_table(st, T):
            return
        self.ob(st, "C06,C12", "the %s that is accessed is protected by the operation's guard" % what, TPROT(T))
        self.ob(st, "C13", "the %s that is accessed was loaded with acquire ordering" % what, TACQ(T))

    def bounds(self, st, T, i):
        self.check_table(st, T)
        if i is None:
            self.ex.violate(st, "C11,C01,C06", "slot access lies inside the table's arrays")
            raise Infeasible()
        self.ob(st, "C11,C06", "slot access lies inside the table's arrays", z3.ULE(i, maskOf(T)))

    def entry_hi(self, st, p):
        """hi of the shared entry a pointer points at, or None for null/other."""
        base = simp(p.root[1] + p.root[2])
        lo = simp(z3.Extract(2, 0, base))
        hi = simp(z3.Extract(63, 3, base))
        return hi, lo

    def check_entry(self, st, p):
        hi, lo = self.entry_hi(st, p)
        self.ob(st, "C06", "an entry pointer is untagged and non-null when it is dereferenced",
                z3.And(lo == bv(0, 3), hi != bv(0, 61)))
        if self.ex.ctx.owns_entry(st, hi):
            return hi
        self.ob(st, "C06", "an entry is protected by the operation's guard when it is dereferenced", PROT(hi))
        self.ob(st, "C13", "an entry was loaded with acquire ordering before it is dereferenced", ACQ(hi))
        return hi

    def is_entry_ty(self, ty):
        return self.m.t(ty).get("def", "") == "papaya::raw::Entry"

    def is_layout_ty(self, ty):
        return self.m.t(ty).get("def", "") == "papaya::raw::alloc::TableLayout"

    def path_names(self, path):
        """Field names along a path of struct fields."""
        out = []
        for e in path:
            if e[0] != "F":
                return None
            out.append(self.m.field_name(self.m.core(e[2]) if self.m.t(e[2]).get("k") != "union" else e[2], e[1]))
        return out

    FIELDS = {"papaya::raw::HashMap": {"table", "collector", "resize", "count", "initial_capacity", "hasher"},
              "papaya::raw::State": {"next", "allocating", "copied", "claim", "status", "parker", "deferred"},
              "papaya::raw::alloc::TableLayout": {"mask", "limit", "state", "meta", "entries"}}

    def extra_field(self, path):
        """A field that was added to a shared structure: the structure has every field of the protocol and this one."""
        for e in path:
            if e[0] != "F":
                return False
            i = self.m.core(e[2]) if self.m.t(e[2]).get("k") != "union" else e[2]
            k = self.FIELDS.get(self.m.t(i).get("def", ""))
            if k is None:
                continue
            names = {f[0] for f in self.m.t(i)["variants"][0]["fields"]}
            n = self.m.field_name(i, e[1])
            if n not in k:
                return k <= names
        return False

    def anyval(self, st, ty, name):
        """An arbitrary value of a scalar type."""
        m = self.m
        c = m.core(ty)
        k = m.t(c).get("k")
        if k == "bool":
            return fresh(name, z3.BoolSort())
        if k == "int":
            return fresh(name, z3.BitVecSort(m.bits(c)))
        if k in ("ptr",):
            return H(fresh(name, B64))
        raise Unsup("arbitrary value of " + m.ts(ty))

    def read(self, st, p, ty):
        m = self.m
        k = p.root[0]
        if k == "O":
            return self.obj_read(st, p, ty)
        if k == "C":
            return self.const_read(st, p, ty)
        if k == "H":
            if p.path and p.path[0][0] == "F" and self.is_layout_ty(p.path[0][2]):
                names = self.path_names(p.path)
                T = simp(p.root[1] + p.root[2])
                o = self.ex.ctx.own_read(st, T, names, ty)
                if o is not None:
                    return o
                self.check_table(st, T)
                if names == ["mask"]:
                    return maskOf(T)
                if names == ["limit"]:
                    return limitOf(T)
                raise Unsup("plain read of table field %s" % names)
            if p.path and p.path[0][0] == "F" and self.is_entry_ty(p.path[0][2]):
                hi = self.check_entry(st, p)
                if len(p.path) == 1:
                    return Sym(ty, (ekey if p.path[0][1] == 0 else eval_)(hi))
            if self.is_entry_ty(m.core(ty)):
                hi = self.check_entry(st, p)
                f = m.fields(m.core(ty))
                return Agg(m.core(ty), 0, [Sym(f[0], ekey(hi)), Sym(f[1], eval_(hi)) if m.size(f[1]) else self.ex.zst(f[1])])
            return self.ex.ctx.heap_read(st, p, ty)
        raise Unsup("read of %r" % (p,))

    def obj_read(self, st, p, ty):
        t = p.root[1]
        m = self.m
        if not p.path:
            return Sym(ty, t)
        e = p.path[0]
        if e[0] == "F":
            n = m.field_name(m.core(e[2]), e[1])
            o = self.ex.ctx.obj_field(st, t, n, p.path[1:], ty)
            if o is not None:
                return o
            if n == "resize":
                v = Agg(m.core(ty) if len(p.path) == 1 else None, 0 if self.inc else 1, [z3.Const("chunk", B64)] if self.inc else [])
                for e in p.path[1:]:
                    v = self.ex._step(v, e)
                return v
            if n == "hasher":
                return Sym(ty, self.mhasher())
            if n == "collector":
                return Sym(ty, z3.Function("collector", Obj, Obj)(t))
            if n == "initial_capacity":
                return z3.Function("initcap", Obj, B64)(t)
        raise Unsup("read of object field %r" % (p,))

    def const_read(self, st, p, ty):
        a = self.m.allocs[p.root[1]]
        if a["k"] != "mem":
            raise Unsup("constant memory")
        a = a.get("data", a)
        prov = {o: q for o, q in a.get("prov", [])}
        if not p.path:
            return self.ex.decode(ty, a["bytes"], prov, 0)
        if p.path[0][0] not in ("F", "V"):
            raise Unsup("constant memory")
        v = self.ex.decode(p.path[0][2], a["bytes"], prov, 0)
        for e in p.path:
            v = self.ex._step(v, e)
        return v

    def write(self, st, p, v):
        if p.root[0] == "H" and p.path and p.path[0][0] == "F" and self.is_layout_ty(p.path[0][2]):
            T = simp(p.root[1] + p.root[2])
            names = self.path_names(p.path)
            if self.ex.ctx.own_write(st, T, names, v):
                return
        if self.ex.ctx.heap_write(st, p, v):
            return
        self.ex.violate(st, "C13,C06", "shared memory is only written through atomics")
        raise Infeasible()

    def loc_addr(self, st, p):
        """Address of a location as an integer (used by the parker and in comparisons)."""
        if p.root[0] == "H":
            base = simp(p.root[1] + p.root[2])
            names = self.path_names(p.path)
            return simp(base + z3.BitVec("fieldoff_%s" % "_".join(names or ["?"]), 64)) if p.path else base
        if p.root[0] == "O":
            n = "_".join(self.path_names(p.path) or [])
            return z3.Function("addr_" + n, Obj, B64)(p.root[1])
        if p.root[0] == "R":
            return z3.BitVec("localaddr_%r_%r" % (p.root[1], len(p.path)), 64)
        raise Unsup("address of %r" % (p,))

    def obj_term(self, st, p, ty=None):
        """The abstract object a reference to an opaque value denotes."""
        q = self.ex.resolve(st, p)
        if q.root[0] == "O" and not q.path:
            return q.root[1]
        if q.root[0] == "O":
            v = self.obj_read(st, q, ty)
            return v.t
        if q.root[0] == "R":
            v = st.mem.get(q.root[1], UNINIT)
            if v is FREED:
                self.ob(st, "C06", "no access to freed memory", FALSE)
            for e in q.path:
                if not isinstance(v, Agg):
                    break
                v = self.ex._step(v, e)
            if isinstance(v, Sym):
                return v.t
            raise Unsup("object behind %r is %r" % (q, v))
        if q.root[0] == "H" and q.path and self.is_entry_ty(q.path[0][2]):
            hi = self.check_entry(st, q)
            return (ekey if q.path[0][1] == 0 else eval_)(hi)
        raise Unsup("object behind %r" % (q,))

    # ---- loads -------------------------------------------------------------------------------
    def acq(self, o):
        return o in ("Acquire", "AcqRel", "SeqCst")

    def rel(self, o):
        return o in ("Release", "AcqRel", "SeqCst")

    def load_meta(self, st, T, i, order):
        self.bounds(st, T, i)
        m = fresh("meta", B8)
        ex = self.ex
        known = ex.entails(st, MNE(T, i))
        st.assume(z3.Or(m == bv(EMPTY, 8), m == bv(TOMB, 8), z3.ULT(m, bv(0x80, 8))))
        e, t = m == bv(EMPTY, 8), m == bv(TOMB, 8)
        if known:
            st.assume(z3.Not(e))
        st.assume(z3.Or(e, MNE(T, i)))
        if self.acq(order):
            st.assume(z3.Implies(t, DEADS(T, i)))
            st.assume(z3.Implies(z3.ULT(m, bv(0x80, 8)), z3.And(KSET(T, i), m == self.h2(self.hk(skey(T, i))))))
            if i.decl().name() == "pidx":
                b, _, n = i.children()
                for k in self.keys(st):
                    if self.h1(self.hk(k)).eq(b) and self.search(st, k, T) and \
                            ex.entails(st, z3.And(PASSED(k, T, n), z3.ULE(n, limitOf(T)))):
                        st.assume(z3.Implies(e, ABSENT(k)))
        ex.ctx.on_meta(st, T, i, m, order)
        return m

    def entry_facts(self, st, T, i, hi, tag):
        """What any value of slot (T, i) implies."""
        null = hi == bv(0, 61)
        b = lambda n: z3.Extract(n, n, tag) == bv(1, 1)
        dead = z3.And(null, tag != bv(0, 3))
        f = [z3.Implies(null, z3.Not(b(2))),
             z3.Implies(dead, DEADS(T, i)),
             z3.Implies(z3.And(null, b(1)), KSET(T, i)),
             z3.Implies(b(0), z3.And(COPYINGS(T, i), frozen(T, i) == hi)),
             z3.Implies(z3.Not(null), z3.And(KSET(T, i), skey(T, i) == kcls(ekey(hi))))]
        if self.inc:
            f.append(z3.Implies(z3.And(z3.Not(null), b(1)), z3.And(COPIEDS(T, i), b(0))))
        else:
            f.append(z3.Implies(z3.Not(null), z3.And(z3.Not(b(1)), z3.Not(b(2)))))
        for x in f:
            st.assume(simp(x))

    def slot_known(self, st, T, i, hi, tag):
        """Restrict a value read now by the permanent facts already known about the slot."""
        ex = self.ex
        null = hi == bv(0, 61)
        if ex.entails(st, KSET(T, i)):
            st.assume(simp(z3.Not(z3.And(null, z3.Extract(1, 1, tag) == bv(0, 1)))))
        if ex.entails(st, DEADS(T, i)):
            st.assume(simp(z3.And(null, tag != bv(0, 3))))
        if ex.entails(st, COPYINGS(T, i)):
            st.assume(simp(z3.Extract(0, 0, tag) == bv(1, 1)))
        if ex.entails(st, COPIEDS(T, i)):
            st.assume(simp(z3.And(hi != bv(0, 61), z3.Extract(1, 1, tag) == bv(1, 1))))

    def observe_entry(self, st, T, i, hi, tag, order, prot):
        ex = self.ex
        null = hi == bv(0, 61)
        self.entry_facts(st, T, i, hi, tag)
        acq = self.acq(order)
        if acq:
            self.slot_known(st, T, i, hi, tag)
            # a slot is frozen only once the next table is linked
            st.assume(simp(z3.Implies(z3.Extract(0, 0, tag) == bv(1, 1), HASNEXT(T))))
        if prot:
            st.assume(PROT(hi))
        if acq:
            st.assume(ACQ(hi))
        for k in self.keys(st):
            cond = z3.And(z3.Not(null), kcls(ekey(hi)) == k)
            if not self.inc:
                pass
            else:
                cond = z3.And(cond, z3.Extract(1, 1, tag) == bv(0, 1))
            if acq and ex.entails(st, FOUNDAT(k, T, i)):
                st.assume(z3.Implies(null, ABSENT(k)))
            if self.search(st, k, T):
                st.assume(z3.Implies(cond, z3.And(FOUND(k, hi), FOUNDAT(k, T, i))))
        ex.ctx.on_entry(st, T, i, hi, tag, order)

    def load_entry(self, st, T, i, order, prot):
        self.bounds(st, T, i)
        hi, tag = fresh("hi", BV61), fresh("tag", BV3)
        self.observe_entry(st, T, i, hi, tag, order, prot)
        return H(z3.Concat(hi, tag))

    def fork_null(self, st, mk):
        """Fork into (state, None) and (state, non-null)."""
        a, b = st, st.copy()
        return a, b

    def load_root(self, st, order, prot, dest, target):
        """Load of the map's root pointer."""
        ex = self.ex
        ex.ctx.touch(st)
        out = []
        known = ex.ctx.table_exists(st)
        if not known:
            s = st.copy()
            s.note("root is null")
            for k in self.keys(s):
                s.assume(ABSENT(k))
            ex.ctx.on_null_root(s)
            out += ex.ret_to(s, H(bv(0)), dest, target)
        T = fresh("T", B64)
        st.assume(T != bv(0))
        st.assume(ROOTED(T))
        st.assume(PROMOTED(T))
        if prot:
            st.assume(TPROT(T))
        if self.acq(order):
            st.assume(TACQ(T))
        st.g["table_exists"] = TRUE
        ex.ctx.on_root(st, T, order)
        out += ex.ret_to(st, H(T), dest, target)
        return out

    def load_next(self, st, T, order, dest, target):
        ex = self.ex
        self.check_table(st, T)
        out = []
        N = nextOf(T)
        ex.ctx.before_next(st, T)
        if not ex.entails(st, HASNEXT(T)):
            s = st.copy()
            s.note("next is null")
            if self.acq(order):
                for k in self.keys(s):
                    if self.inc and self.search(s, k, T) and self.exhausted(s, k, T):
                        s.assume(ABSENT(k))
                s.assume(NONEXT(T))
            ex.ctx.on_null_next(s, T)
            out += ex.ret_to(s, H(bv(0)), dest, target)
        self.has_next(st, T, self.acq(order))
        ex.ctx.on_next(st, T)
        out += ex.ret_to(st, H(N), dest, target)
        return out

    def has_next(self, st, T, acq=True):
        N = nextOf(T)
        st.assume(HASNEXT(T))
        st.assume(N != bv(0))
        st.assume(N != T)
        if self.ex.entails(st, TPROT(T)):
            st.assume(TPROT(N))
        if acq:
            st.assume(TACQ(N))

    # ---- stores ------------------------------------------------------------------------------
    def store_meta(self, st, T, i, m, order):
        self.bounds(st, T, i)
        ex = self.ex
        k = fresh("x", B8)
        ok = z3.Or(z3.And(m == bv(TOMB, 8), DEADS(T, i)),
                   z3.And(KSET(T, i), m == self.h2(self.hk(skey(T, i)))))
        self.ob(st, "C01,C02,C03,C05,C09,C10", "metadata is written with the hash of the slot's key, or as a tombstone for a dead slot", ok)
        if not self.rel(order):
            if not (isval(m) and ival(m) == TOMB):
                ex.violate(st, "C01,C13", "metadata is written with release ordering")
            else:
                ex.violate(st, "C13", "metadata is written with release ordering")
        st.assume(MNE(T, i))
        d = st.g.get("duty", ())
        st.g["duty"] = tuple(x for x in d if not (x[0] == "meta" and x[1].eq(T) and x[2].eq(i)))

    def duty(self, st, d):
        st.g["duty"] = st.g.get("duty", ()) + (d,)

    def new_value(self, st, v):
        """('own', rid) / ('raw', hi, tag) for a value stored into a slot."""
        if isinstance(v, Ptr):
            q = self.ex.resolve(st, v)
            if q.root[0] == "R" and q.root[1][0] == "B" and not q.path:
                return ("own", q.root[1])
            n = self.ex.ptr_int(st, v)
        else:
            n = v
        n = simp(n)
        back = self.ex.int_ptr(st, n)
        if back.root[0] == "R":
            return ("own", back.root[1])
        return ("raw", simp(z3.Extract(63, 3, n)), simp(z3.Extract(2, 0, n)))

    def cas_entry(self, st, T, i, exp, new, so, fo, prot, dest, target, dty):
        ex = self.ex
        self.bounds(st, T, i)
        out = []
        e = simp(ex.ptr_int(st, exp))
        eh, et = simp(z3.Extract(63, 3, e)), simp(z3.Extract(2, 0, e))
        nv = self.new_value(st, new)
        # success
        s = st.copy()
        s.note("slot compare-exchange succeeds")
        self.slot_known(s, T, i, eh, et)
        if ex.feasible(s):
            try:
                self.entry_facts(s, T, i, eh, et)
                self.commit(s, T, i, eh, et, nv, so)
                v = Agg(dty, 0, [H(e) if exp.root[0] == "H" else exp])
                out += ex.ret_to(s, v, dest, target)
            except Infeasible:
                pass
        # failure
        st.note("slot compare-exchange fails")
        hi, tag = fresh("hi", BV61), fresh("tag", BV3)
        self.observe_entry(st, T, i, hi, tag, fo, prot)
        if not ex.ctx.weak:
            # a failed strong compare-exchange saw a different value
            st.assume(z3.Concat(hi, tag) != e)
        if z3.is_true(simp(eh == bv(0, 61))) and z3.is_true(simp(et == bv(0, 3))):
            pass
        v = Agg(dty, 1, [H(z3.Concat(hi, tag))])
        out += ex.ret_to(st, v, dest, target)
        return out

    def commit(self, st, T, i, eh, et, nv, order):
        """A slot changed from (eh, et) to nv by this thread: guarantee obligations."""
        ex = self.ex
        c = ex.ctx
        null = simp(z3.And(eh == bv(0, 61), et == bv(0, 3)))
        tomb = nv[0] == "raw" and z3.is_true(simp(nv[1] == bv(0, 61)))
        if tomb:
            self.ob(st, "C03,C05,C09,C01", "only a tombstone marks a removed slot", nv[2] == bv(2, 3))
        if not self.rel(order):
            ex.violate(st, "C13", "a slot is changed with release ordering")
        if ex.entails(st, null):
            if tomb:
                ex.violate(st, "C03,C09,C07", "an empty slot is not turned into a tombstone")
            c.insert(st, T, i, nv)
            return
        self.ob(st, "C02,C03,C04,C05,C09", "only a live entry is replaced or removed", eh != bv(0, 61))
        self.ob(st, "C05,C01,C02,C03", "a frozen slot is not changed", z3.Extract(0, 0, et) == bv(0, 1))
        self.active(st, T)
        if tomb:
            st.assume(DEADS(T, i))
            st.assume(KSET(T, i))
            c.remove(st, T, i, eh, et)
        else:
            c.replace(st, T, i, eh, et, nv)

    def active(self, st, T):
        if self.inc:
            return
        self.ob(st, "C01,C02,C03,C05", "entries are only written to the root table in blocking mode", z3.Or(ROOTED(T), PROMOTED(T)))

    # ---- panics ------------------------------------------------------------------------------
    def on_panic(self, st, what):
        if not self.ex.feasible(st):
            return
        if self.ex.ctx.panic_ok(st, what):
            return
        props = self.ex.ctx.panic_props
        self.ex.record(st, props, "no reachable panic: " + what, False)

    def on_unreachable(self, st):
        if not self.ex.feasible(st):
            return
        self.ex.record(st, "C01,C02,C03,C04,C11", "unreachable code is not reached", False)

    # ---- dispatch ----------------------------------------------------------------------------
    def handler(self, st, inst):
        x = self.m.insts[inst]
        d = x["def"]
        c = self.ex.ctx.contract(st, inst)
        if c is not None:
            return c
        h = self.hd.get(d)
        if h is not None:
            return h
        for rx, h in self.rx:
            if rx.search(d):
                return h
        return None

    def drop(self, st, p, ty, inst, target):
        import externs
        return externs.drop_value(self, st, p, ty, inst, target)

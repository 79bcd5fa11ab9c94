"""Specifications of the single-key operations, stated on the public functions."""
import z3
from core import *
from model import *
from ctx import Ctx, KeyOp

madefrom = F("madefrom", Obj, BV61)      # the entry (0: absence) a closure was shown when it made a value
PREDTRUE, PREDFALSE = F("PREDTRUE", BV61, Bool), F("PREDFALSE", BV61, Bool)
REMOVEOK = F("REMOVEOK", BV61, Bool)
K_, V_, T_ = "verif_harness::K", "verif_harness::V", "verif_harness::T"
TOKENS = (K_, V_, T_, "verif_harness::KC", "verif_harness::VC")

# operation -> property, value allowed for an insertion, value allowed for a replacement, may remove
OPS = {
    "contains": ("C01", None, None, False), "get": ("C01", None, None, False), "get_kv": ("C01", None, None, False),
    "insert": ("C02", "arg", "arg", False), "try_insert": ("C02", "arg", None, False),
    "get_or_insert": ("C02", "arg", None, False),
    "try_insert_with": ("C04", "made", None, False), "get_or_insert_with": ("C04", "made", None, False),
    "update": ("C04", None, "made", False), "update_or_insert": ("C04", "arg", "made", False),
    "update_or_insert_with": ("C04", "made", "made", False), "compute": ("C04", "made", "made", True),
    "remove": ("C03", None, None, True), "remove_entry": ("C03", None, None, True), "remove_if": ("C03", None, None, True),
}


class OpCtx(KeyOp):
    """One public single-key operation, run against a map shared with any other operations."""

    def __init__(self, md, root, op, kind="m"):
        super().__init__(md)
        self.root, self.op, self.kind = root, op, kind
        base, self.ins_from, self.rep_from, self.may_remove = OPS[op]
        self.isset = kind in ("s", "sr")
        # set and reference wrappers are checked against the contracts of the operations they call
        self.wrapper = kind != "m"
        self.P = "C14" if self.wrapper else base
        self.panic_props = self.P
        self.map = z3.Const("map", Obj)
        self.guard = z3.Const("guard", Obj)
        self.lock_table = None
        ent = "papaya::raw::Entry<K, %s>" % ("()" if self.isset else "V")
        self.ety = md.m.tindex.get(ent)
        self.coll = z3.Function("collector", Obj, Obj)

    # ---- entry state ---------------------------------------------------------------------
    def init(self, ex, inst):
        m = self.md.m
        st = State()
        st.g["cnt"] = bv(0)
        st.g["live"] = ()
        self.inst = inst
        b = m.insts[inst]["body"]
        args = []
        self.k = None
        self.vtok = None
        self.ktok = None
        for n, ty in enumerate(b["locals"][1:b["argc"] + 1]):
            args.append(self.arg(ex, st, ty, n))
        self.opkeys = [self.k]
        ex.push_frame(st, inst, args, None, None)
        return st

    def arg(self, ex, st, ty, n):
        m = self.md.m
        t = m.t(ty)
        el = m.t(t["elem"]) if t.get("k") in ("ref", "ptr") else None
        d = el.get("def", "") if el else ""
        if d in ("papaya::HashMap", "papaya::HashSet", "papaya::raw::HashMap"):
            return Ptr(("O", self.map))
        if d in ("papaya::HashMapRef", "papaya::HashSetRef"):
            r = ("I", n)
            core_t = m.core(t["elem"])
            fs = []
            for i, f in enumerate(m.fields(core_t)):
                ft = m.t(f)
                if ft.get("k") == "ref":
                    fs.append(Ptr(("O", self.map)))
                else:
                    fs.append(Sym(m.core(f), self.guard))
            st.mem[r] = Agg(core_t, 0, fs)
            # type invariant of the pinned reference (established by pin and pin_owned)
            st.assume(self.md.gcoll(self.guard) == self.coll(self.map))
            return Ptr(("R", r))
        if el and d == "verif_harness::Q":
            q = z3.Const("q", Obj)
            self.k = kcls(q)
            return Ptr(("O", q))
        if el and (d == "verif_harness::G" or "Guard" in d):
            return Ptr(("O", self.guard))
        if t.get("def") == K_:
            o = z3.Const("key", Obj)
            self.k = kcls(o)
            self.ktok = o
            st.g["live"] += (o,)
            return Sym(ty, o)
        if t.get("def") == V_:
            o = z3.Const("value", Obj)
            self.vtok = o
            st.g["live"] += (o,)
            return Sym(ty, o)
        raise Unsup("argument of type " + t["s"])

    # ---- guards --------------------------------------------------------------------------
    def touch(self, st):
        md = self.md
        md.ob(st, "C12" if not self.wrapper else "C12,C14",
              "the guard's collector is the map's before the map's contents are accessed",
              md.gcoll(self.guard) == self.coll(self.map))

    def guard_used(self, st, g):
        self.md.ob(st, "C12,C06", "the operation uses the guard it was given", g == self.guard)

    def panic_ok(self, st, what):
        md = self.md
        if md.ex.entails(st, md.gcoll(self.guard) != self.coll(self.map)):
            return True
        if md.ex.entails(st, FALSE):
            return True
        if st.g.get("removed_none") is not None and self.op == "compute":
            return True
        return False

    # ---- slot changes --------------------------------------------------------------------
    def own_box(self, st, nv, what):
        md = self.md
        if nv[0] != "own":
            md.ex.violate(st, self.P + ",C06", "an entry that is %s is a new box, without tag bits" % what)
            raise Infeasible()
        rid = nv[1]
        box = st.mem.get(rid)
        if rid in st.g.get("published", ()):
            md.ex.violate(st, "C06," + self.P, "an entry is published once")
            raise Infeasible()
        if not isinstance(box, Agg) or any(x is UNINIT for x in box.f) or box is FREED:
            md.ex.violate(st, "C13,C06", "an entry is fully initialised before it is published")
            raise Infeasible()
        return rid, box

    def publish(self, st, rid, box, origin, allowed):
        md = self.md
        key = box.f[0]
        md.ob(st, self.P, "the entry that is installed holds the operation's key", kcls(key.t) == self.k)
        v = box.f[1]
        toks = [key.t] + ([v.t] if isinstance(v, Sym) else [])
        for t in toks:
            self.consume(st, t, "an entry owns its key and value when it is published")
        if allowed is None:
            md.ex.violate(st, self.P, "the operation does not %s" % ("insert" if origin is None else "replace"))
            raise Infeasible()
        if isinstance(v, Sym):
            if allowed == "arg":
                md.ob(st, self.P, "the value that is installed is the one that was passed", v.t == self.vtok if self.vtok is not None else FALSE)
            else:
                md.ob(st, self.P, "a computed value is installed only in place of the state it was computed from",
                      madefrom(v.t) == (bv(0, 61) if origin is None else origin))
        st.g["published"] = st.g.get("published", ()) + (rid,)

    def consume(self, st, t, name):
        live = st.g["live"]
        for i, x in enumerate(live):
            if x.eq(t):
                st.g["live"] = live[:i] + live[i + 1:]
                return
        for i, x in enumerate(live):
            if self.md.ex.entails(st, x == t):
                st.g["live"] = live[:i] + live[i + 1:]
                return
        self.md.ex.violate(st, "C06," + self.P, name + " (each key and value is dropped or moved exactly once)")
        raise Infeasible()

    def single(self, st):
        if st.log:
            self.md.ex.violate(st, self.P, "an operation changes the map at most once")
            raise Infeasible()

    def probe_pos(self, st, T, i, k, props):
        md = self.md
        if i.decl().name() != "pidx" or not i.children()[0].eq(md.h1(md.hk(k))):
            md.ex.violate(st, props, "an entry is inserted on its key's probe sequence")
            raise Infeasible()
        n = i.children()[2]
        md.ob(st, props, "an entry is inserted within the probe limit", z3.ULE(n, limitOf(T)))
        md.ob(st, props, "an entry is inserted only after every earlier slot of its probe sequence was ruled out", PASSED(k, T, n))
        if not md.search(st, k, T):
            md.ex.violate(st, props, "an entry is inserted only in the table where its key's search has arrived")
            raise Infeasible()

    def insert(self, st, T, i, nv):
        md = self.md
        rid, box = self.own_box(st, nv, "inserted")
        self.probe_pos(st, T, i, self.k, "C01,C02,C04,C05")
        self.single(st)
        self.publish(st, rid, box, None, self.ins_from)
        st.assume(KSET(T, i))
        st.assume(skey(T, i) == self.k)
        st.assume(ABSENT(self.k))
        md.duty(st, ("meta", T, i))
        self.event(st, ("INS", self.k, rid))

    def replace(self, st, T, i, eh, et, nv):
        md = self.md
        md.ob(st, self.P + ",C01", "an entry is replaced only if it holds the operation's key", kcls(ekey(eh)) == self.k)
        rid, box = self.own_box(st, nv, "installed")
        self.single(st)
        self.publish(st, rid, box, eh, self.rep_from)
        md.duty(st, ("retire", T, eh, et))
        st.assume(FOUND(self.k, eh))
        self.event(st, ("REP", self.k, rid, eh))

    def remove(self, st, T, i, eh, et):
        md = self.md
        md.ob(st, self.P + ",C01", "an entry is removed only if it holds the operation's key", kcls(ekey(eh)) == self.k)
        if not self.may_remove:
            md.ex.violate(st, self.P, "the operation does not remove")
            raise Infeasible()
        if self.op == "compute":
            md.ob(st, self.P, "an entry is removed only if the closure asked for it when shown this entry", REMOVEOK(eh))
        if self.op == "remove_if":
            md.ob(st, self.P, "an entry is removed only if the predicate returned true for it", PREDTRUE(eh))
        self.single(st)
        md.duty(st, ("retire", T, eh, et))
        st.assume(FOUND(self.k, eh))
        self.event(st, ("REM", self.k, eh))

    def store_entry(self, st, T, i, nv, order):
        self.md.ex.violate(st, "C02,C03,C04,C05", "a slot is only changed by compare-exchange")
        raise Infeasible()

    # ---- retirement ----------------------------------------------------------------------
    def retire(self, st, p, fn, how):
        md = self.md
        name = md.m.insts[fn.inst]["name"] if isinstance(fn, FnV) else "?"
        if "reclaim::boxed" not in name or "raw::Entry<" not in name:
            raise Unsup("retirement with " + name)
        hi, lo = md.entry_hi(st, p)
        d = self.take_retire(st, hi, lo, None, None)
        md.justify(st, d[1], d[2], d[3])

    def take_retire(self, st, hi, lo, tag, T):
        md = self.md
        ds = st.g.get("duty", ())
        for n, d in enumerate(ds):
            if d[0] == "retire" and (d[2].eq(hi) or md.ex.entails(st, d[2] == hi)):
                md.ob(st, "C06", "an entry is retired by its untagged address", lo == bv(0, 3))
                if tag is not None:
                    md.ob(st, "C06", "an entry is retired with the BORROWED tag of the slot it was removed from",
                          z3.Extract(2, 2, tag) == z3.Extract(2, 2, d[3]))
                    md.ob(st, "C06", "an entry is retired for the table it was removed from", T == d[1])
                st.g["duty"] = ds[:n] + ds[n + 1:]
                return d
        md.ex.violate(st, "C06", "only an entry that this operation unlinked is retired, once")
        raise Infeasible()

    # ---- counts --------------------------------------------------------------------------
    def atomic_rmw(self, st, op, loc, v, o, dest, target):
        if loc[0] == "count":
            self.md.ob(st, "C07", "the operation changes its own map's count", loc[1] == self.map)
            if op not in ("fetch_add", "fetch_sub"):
                return None
            st.g["cnt"] = simp(st.g["cnt"] + v if op == "fetch_add" else st.g["cnt"] - v)
            return self.md.ex.ret_to(st, fresh("count", B64), dest, target)
        return None

    def obj_field(self, st, t, n, path, ty):
        if n == "count":
            return self.md.shard_box(st, t)
        return None

    # ---- user code -----------------------------------------------------------------------
    def user_call(self, st, inst, args, dest, target):
        md = self.md
        ex = md.ex
        m = md.m
        f = m.insts[inst]["name"].split("::")[-1]
        dty = ex.dty
        if f in ("f_mut_kv", "f_k"):
            e = self.entry_of(st, args[0], args[1] if f == "f_mut_kv" else None)
            self.ret_entry(st, e, "an entry shown to a closure")
            hi = e[1]
            s = st.copy()
            st.assume(PREDTRUE(hi))
            s.assume(PREDFALSE(hi))
            return ex.ret_to(st, TRUE, dest, target) + ex.ret_to(s, FALSE, dest, target)
        if f == "f_make":
            md.ob(st, self.P, "a value for an absent key is computed only if the key was absent at an instant of the call", ABSENT(self.k)) \
                if not md.absent(st, self.k) else None
            v = self.new_token(st, "made")
            st.assume(madefrom(v) == bv(0, 61))
            return ex.ret_to(st, Sym(dty, v), dest, target)
        if f == "f_upd":
            e = self.entry_of(st, None, args[0])
            self.shown(st, e)
            v = self.new_token(st, "made")
            st.assume(madefrom(v) == e[1])
            return ex.ret_to(st, Sym(dty, v), dest, target)
        if f == "f_comp":
            o = args[0]
            if o.var == 0:
                if not md.absent(st, self.k):
                    md.ob(st, self.P, "a closure is shown absence only if the key was absent at an instant of the call", ABSENT(self.k))
                hi = bv(0, 61)
            else:
                e = self.entry_of(st, o.f[0].f[0], o.f[0].f[1])
                self.shown(st, e)
                hi = e[1]
            out = []
            vs = [v["name"] for v in m.t(dty)["variants"]]
            for n, vn in enumerate(vs):
                s = st.copy()
                if vn == "Insert":
                    v = self.new_token(s, "made")
                    s.assume(madefrom(v) == hi)
                    r = Agg(dty, n, [Sym(m.fields(dty, n)[0], v)])
                elif vn == "Remove":
                    s.assume(REMOVEOK(hi))
                    if o.var == 0:
                        s.g["removed_none"] = TRUE
                    r = Agg(dty, n, [])
                else:
                    v = self.new_token(s, "abort")
                    s.assume(madefrom(v) == hi)
                    r = Agg(dty, n, [Sym(m.fields(dty, n)[0], v)])
                out += ex.ret_to(s, r, dest, target)
            return out
        return None

    def shown(self, st, e):
        md = self.md
        self.ret_entry(st, e, "an entry shown to a closure")
        if e[0] != "sh":
            md.ex.violate(st, self.P, "a closure is shown an entry of the map")
            raise Infeasible()
        md.ob(st, self.P, "a closure is shown only a mapping the key had at an instant of the call", FOUND(self.k, e[1]))

    def new_token(self, st, name):
        v = fresh(name, Obj)
        st.g["live"] = st.g["live"] + (v,)
        return v

    def drop_sym(self, st, v):
        if self.md.m.t(v.ty).get("def") in TOKENS:
            self.consume(st, v.t, "a key or value is dropped")

    # ---- contracts -----------------------------------------------------------------------
    def contract(self, st, inst):
        import contracts
        return contracts.lookup(self, inst)

    # ---- results -------------------------------------------------------------------------
    def vn(self, v):
        m = self.md.m
        return m.t(v.ty)["variants"][v.var]["name"]

    def refs(self, v, want):
        """The entry that a returned reference / pair of references denotes."""
        if isinstance(v, Agg):
            return (v.f[0], v.f[1])
        return (v, None) if want == "k" else (None, v)

    def entry(self, st, v, want="v"):
        kp, vp = self.refs(v, want)
        if vp is not None and self.isset:
            pass
        e = self.entry_of(st, kp, vp)
        self.ret_entry(st, e)
        return e

    def must_log(self, st, *kinds):
        got = tuple(e[0] for e in st.log)
        if got not in kinds:
            self.md.ex.violate(st, self.P, "the result %s matches what the operation did (%s)" % (" or ".join("+".join(k) or "no change" for k in kinds), "+".join(got) or "no change"))
            raise Infeasible()
        return got

    def r_absent(self, st):
        self.must_log(st, ())
        self.md.absent(st, self.k)
        self.md.ob(st, self.P + ",C05" if not self.wrapper else self.P, "a key is reported missing only if it was absent at an instant of the call", ABSENT(self.k))

    def r_found(self, st, e):
        self.must_log(st, ())
        if e[0] != "sh":
            self.md.ex.violate(st, self.P, "the entry that is returned is in the map")
            raise Infeasible()
        self.md.ob(st, self.P + ",C05" if not self.wrapper else self.P, "the entry that is returned was the key's mapping at an instant of the call", FOUND(self.k, e[1]))

    def r_old(self, st, e, kind):
        self.must_log(st, (kind,))
        if e[0] != "sh":
            self.md.ex.violate(st, self.P, "the entry that is returned is the one that was displaced")
            raise Infeasible()
        self.md.ob(st, self.P, "the entry that is returned is the one that was displaced", e[1] == st.log[0][-1])

    def r_new(self, st, e, *kinds):
        got = self.must_log(st, *[(k,) for k in kinds])
        if e != ("own", st.log[0][2]):
            self.md.ex.violate(st, self.P, "the entry that is returned is the one that was installed")
            raise Infeasible()
        self.md.count_ok2(st, self.P, "the entry that is returned is the one that was installed")

    def result(self, st, v):
        op = self.op
        w = "k" if self.isset else "v"
        if op in ("get", "get_kv"):
            if self.vn(v) == "None":
                return self.r_absent(st)
            return self.r_found(st, self.entry(st, v.f[0], w))
        if op == "contains" or (op == "remove" and self.isset) or (op == "insert" and self.isset):
            if not (z3.is_true(v) or z3.is_false(v)):
                raise Unsup("symbolic boolean result")
            b = z3.is_true(v)
            if op == "contains":
                if not b:
                    return self.r_absent(st)
                self.must_log(st, ())
                ws = []
                for f in st.pc:
                    for p in subterms(f, "FOUND"):
                        if p.children()[0].eq(self.k) and not any(p.eq(x) for x in ws):
                            ws.append(p)
                return self.md.ob(st, self.P + ",C01", "a key is reported present only if it was mapped at an instant of the call", z3.Or(ws) if ws else FALSE)
            if op == "remove":
                return self.must_log(st, ("REM",)) if b else self.r_absent(st)
            if b:
                return self.must_log(st, ("INS",))
            if st.log:
                return self.must_log(st, ("REP",))
            ws = [p for f in st.pc for p in subterms(f, "FOUND") if p.children()[0].eq(self.k)]
            return self.md.ob(st, self.P, "insert reports false only if the key was present", z3.Or(ws) if ws else FALSE)
        if op == "insert":
            if self.vn(v) == "None":
                return self.must_log(st, ("INS",))
            return self.r_old(st, self.entry(st, v.f[0]), "REP")
        if op == "try_insert":
            if self.vn(v) == "Ok":
                return self.r_new(st, self.entry(st, v.f[0]), "INS")
            err = v.f[0]
            cur = ni = None
            for n, x in enumerate(err.f):
                if isinstance(x, Ptr):
                    cur = x
                elif isinstance(x, Sym):
                    ni = x
            self.r_found(st, self.entry(st, cur))
            self.md.ob(st, self.P, "the value that was not inserted is handed back", ni.t == self.vtok)
            return self.consume(st, ni.t, "the value that was not inserted is handed back")
        if op in ("get_or_insert", "get_or_insert_with"):
            e = self.entry(st, v)
            return self.r_new(st, e, "INS") if e[0] == "own" else self.r_found(st, e)
        if op == "try_insert_with":
            e = self.entry(st, v.f[0])
            return self.r_new(st, e, "INS") if self.vn(v) == "Ok" else self.r_found(st, e)
        if op == "update":
            if self.vn(v) == "None":
                return self.r_absent(st)
            return self.r_new(st, self.entry(st, v.f[0]), "REP")
        if op in ("update_or_insert", "update_or_insert_with"):
            return self.r_new(st, self.entry(st, v), "INS", "REP")
        if op == "compute":
            n = self.vn(v)
            if n == "Inserted":
                return self.r_new(st, self.entry(st, Agg(v.ty, 0, v.f)), "INS")
            if n == "Updated":
                names = [f[0] for f in self.md.m.t(v.ty)["variants"][v.var]["fields"]]
                old, new = v.f[names.index("old")], v.f[names.index("new")]
                self.r_old(st, self.entry(st, old), "REP")
                return self.r_new(st, self.entry(st, new), "REP")
            if n == "Removed":
                return self.r_old(st, self.entry(st, Agg(v.ty, 0, v.f)), "REM")
            self.must_log(st, ())
            t = v.f[0].t
            self.consume(st, t, "the closure's value is handed back")
            hi = madefrom(t)
            return self.md.ob(st, self.P, "compute aborts only with the state its closure was shown",
                              z3.Or(z3.And(hi == bv(0, 61), ABSENT(self.k)), z3.And(hi != bv(0, 61), FOUND(self.k, hi))))
        if op in ("remove", "remove_entry"):
            if self.vn(v) == "None":
                return self.r_absent(st)
            return self.r_old(st, self.entry(st, v.f[0]), "REM")
        if op == "remove_if":
            if self.vn(v) == "Err":
                e = self.entry(st, v.f[0])
                self.r_found(st, e)
                return self.md.ob(st, self.P, "remove_if rejects only an entry the predicate returned false for", PREDFALSE(e[1]))
            if self.vn(v.f[0]) == "None":
                return self.r_absent(st)
            return self.r_old(st, self.entry(st, v.f[0].f[0]), "REM")
        raise Unsup("specification of " + op)

    def finish(self, ex, st, v):
        md = self.md
        # panics are the only way out for a guard of another collector
        md.ob(st, "C12" if not self.wrapper else "C14,C12", "an operation that returns was given a guard of the map's collector",
              md.gcoll(self.guard) == self.coll(self.map))
        self.result(st, v)
        delta = sum({"INS": 1, "REM": -1, "REP": 0}[e[0]] for e in st.log)
        md.ob(st, "C07" if not self.wrapper else "C14,C07", "the count changes by exactly the number of entries added or removed", st.g["cnt"] == bv(delta % (1 << 64)))
        for d in st.g.get("duty", ()):
            if d[0] == "meta":
                ex.violate(st, "C01,C02,C04,C05", "the metadata of an inserted entry is written before the operation returns")
            if d[0] == "retire":
                ex.violate(st, "C06", "an entry that was unlinked is retired before the operation returns")
        if not st.g.get("duty"):
            ex.record(st, "C06,C01", "no duty is left when the operation returns", True)
        if st.g["live"]:
            ex.violate(st, "C06," + self.P, "a key or value that the operation does not hand back is dropped or stored")
            if getattr(ex, "debug", False):
                print("LIVE", st.g["live"], st.log, {r: v for r, v in st.mem.items() if r[0] == "B"})
        else:
            ex.record(st, "C06", "every key and value is dropped, stored or handed back exactly once", True)
        pub = st.g.get("published", ())
        left = [r for r in st.mem if r[0] == "B" and st.mem[r] is not FREED and r not in pub]
        if left:
            ex.violate(st, "C06", "an allocation that was not published is freed before the operation returns")
        else:
            ex.record(st, "C06", "no allocation is leaked", True)

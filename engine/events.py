"""Specifications of whole-map operations, constructors, guards, pinned references and bulk
operations: stated on the public functions, verified against the contracts of papaya's raw map
(each raw operation is a contract here and is verified against its own body elsewhere)."""
import z3
import core
from core import *
from model import *
from ops import OpCtx, K_, V_, TOKENS

RAW = "papaya::raw::HashMap::<K, V, S>::"
S_ = "verif_harness::S"
hasherOf = F("hasherOf", Obj, Obj)
cloneS = F("cloneS", Obj, Obj)
cloneK, cloneV = F("cloneK", BV61, Obj), F("cloneV", BV61, Obj)
iterMap, iterGuard = F("iterMap", Obj, Obj), F("iterGuard", Obj, Obj)
veq = F("veq", Obj, Obj, Bool)
TRUEKEEP = F("KEEP", BV61, Bool)


class EvCtx(OpCtx):
    """An operation that is specified by the operations it performs on the raw map."""
    single_thread = False

    def __init__(self, md, root, op, P, kind="m"):
        OpCtx.__init__(self, md, root, "get", kind)
        self.op = op
        self.P = P
        self.panic_props = P
        md.hd = dict(md.hd)
        self.sets = kind in ("s", "sr")
        self.user()

    # ---- arguments -----------------------------------------------------------------------
    def init(self, ex, inst):
        st = State()
        st.g["live"] = ()
        st.g["ev"] = ()
        self.args = []
        self.inst = inst
        b = self.md.m.insts[inst]["body"]
        for n, ty in enumerate(b["locals"][1:b["argc"] + 1]):
            self.args.append(self.arg(ex, st, ty, n))
        ex.push_frame(st, inst, list(self.args), None, None)
        return st

    def arg(self, ex, st, ty, n):
        m = self.md.m
        t = m.t(ty)
        el = m.t(t["elem"]) if t.get("k") in ("ref", "ptr") else None
        d = el.get("def", "") if el else ""
        if d in ("papaya::HashMap", "papaya::HashSet") and n > 0:
            return Ptr(("O", z3.Const("map2", Obj)))
        if d in ("papaya::Iter", "papaya::Keys", "papaya::Values", "papaya::raw::Iter", "papaya::map::Iter"):
            r = ("I", n)
            st.mem[r] = Sym(m.core(t["elem"]), z3.Const("iter", Obj))
            st.assume(iterMap(z3.Const("iter", Obj)) == self.map)
            return Ptr(("R", r))
        if t.get("k") == "int":
            return z3.BitVec("arg%d" % n, t["bits"])
        if t.get("def", "").startswith("verif_harness::It") or t.get("def", "").startswith("verif_harness::sd::"):
            return Sym(ty, z3.Const("src%d" % n, Obj))
        if t.get("def") == S_:
            return Sym(ty, z3.Const("hasher", Obj))
        if t.get("def", "").endswith("seize::Collector"):
            return Sym(ty, z3.Const("coll", Obj))
        if t.get("def", "").endswith("ResizeMode"):
            return self.mode_arg(st, m.core(ty), n)
        if t.get("def", "") in ("papaya::HashMapBuilder", "papaya::HashSetBuilder"):
            c = m.core(ty)
            fs = []
            for i, f in enumerate(m.fields(c)):
                nm = m.field_name(c, i)
                ft = m.t(f)
                if nm == "capacity":
                    fs.append(z3.BitVec("b_capacity", 64))
                elif nm == "resize_mode":
                    fs.append(self.mode_arg(st, m.core(f), n))
                elif m.size(f) == 0:
                    fs.append(ex.zst(f))
                else:
                    fs.append(Sym(m.core(f), z3.Const("b_" + nm, Obj)))
            return Agg(c, 0, fs)
        if t.get("k") == "array":
            return Agg(ty, 0, [self.item(st, t["elem"], "a%d" % i, register=True) for i in range(t["len"])])
        if el and d == "verif_harness::Q":
            return Ptr(("O", z3.Const("q", Obj)))
        return OpCtx.arg(self, ex, st, ty, n)

    def mode_arg(self, st, ty, n):
        return Agg(ty, 0, [z3.BitVec("mode_chunk", 64)]) if self.md.inc else Agg(ty, 1, [])

    def item(self, st, ty, name, register=False):
        m = self.md.m
        t = m.t(ty)
        if t.get("k") == "tuple":
            return Agg(ty, 0, [self.item(st, f, name) for f in m.fields(ty)])
        if t.get("k") == "ref":
            # a reference to an item of the source
            r = st.new_region(self.item(st, t["elem"], name))
            return Ptr(("R", r))
        if t.get("def") in TOKENS:
            v = fresh(name, Obj)
            if t["def"] in (K_, V_):
                st.g["live"] = st.g["live"] + (v,)
            return Sym(ty, v)
        raise Unsup("item of type " + t["s"])

    def touch(self, st):
        raise core.NotHandled()

    def keys(self, st):
        return []

    def at_header(self, ex, st):
        pass

    def obj_field(self, st, t, n, path, ty):
        if n == "hasher":
            return Sym(ty, hasherOf(t))
        return None

    def panic_ok(self, st, what):
        ex = self.md.ex
        if ex.entails(st, FALSE):
            return True
        return bool(self.guard_arg()) and ex.entails(st, self.md.gcoll(self.guard) != self.coll(self.map))

    def guard_arg(self):
        return any(isinstance(a, Ptr) and a.root == ("O", self.guard) for a in self.args)

    def guard_used(self, st, g):
        pass

    def drop_hook(self, st, p, ty, inst, target):
        return self.md.m.t(ty).get("def", "") in ("papaya::HashMap", "papaya::HashSet")

    def drop_special(self, st, p, ty, inst, target):
        ex = self.md.ex
        st.g["ev"] = st.g["ev"] + (("DROPMAP", self.md.obj_term(st, p)),)
        q = ex.resolve(st, p)
        ex.goto(st, target)
        return [st]

    # ---- contracts of the raw map ---------------------------------------------------------
    def contract(self, st, inst):
        x = self.md.m.insts[inst]
        d = x["def"]
        f = None
        if d.startswith(RAW):
            f = getattr(self, "c_" + d[len(RAW):], None)
        elif d.startswith("<papaya::raw::Iter<") and d.endswith("::next"):
            f = self.c_next
        if f is None:
            return None

        def h(st, inst, args, dest, target):
            ex = self.md.ex
            r = f(st, args, ex.dty, x)
            self.used_contracts.add(d)
            if not isinstance(r, list):
                r = [(st, r)]
            out = []
            for s, v in r:
                out += ex.ret_to(s, v, dest, target)
            return out
        return h

    def on(self, st, args, g=None):
        """The map a raw operation is called on; the guard must be one of its collector."""
        md = self.md
        t = md.obj_term(st, args[0])
        if g is not None:
            gt = md.obj_term(st, g)
            md.ob(st, "C12," + self.P, "the guard handed to the map belongs to the map's collector", md.gcoll(gt) == self.coll(t))
            return t, gt
        return t

    def ev(self, st, *e):
        st.g["ev"] = st.g["ev"] + (e,)

    def entry_ref(self, st, x, which, hi=None):
        """References into a generic entry of the map."""
        m = self.md.m
        K, V = x["args"][0], x["args"][1]
        ety = m.tindex.get("papaya::raw::Entry<%s, %s>" % (m.ts(K), m.ts(V)))
        if hi is None:
            hi = fresh("hi", BV61)
        st.assume(hi != bv(0, 61))
        st.assume(PROT(hi))
        st.assume(ACQ(hi))
        base = z3.Concat(hi, bv(0, 3))
        return hi, [Ptr(("H", base, bv(0)), (("F", f, ety),)) for f in which]

    def c_new(self, st, args, dty, x):
        if len(args) != 4:
            raise core.NotHandled()
        md = self.md
        t = fresh("newmap", Obj)
        hs, co = args[1], args[2]
        st.assume(hasherOf(t) == hs.t)
        ct = co.t
        st.assume(self.coll(t) == ct)
        st.g["fresh"] = st.g.get("fresh", ()) + (t,)
        self.ev(st, "NEW", t, args[0], hs.t, ct, args[3])
        return Sym(dty, t)

    def c_len(self, st, args, dty, x):
        t = self.on(st, args)
        n = fresh("len", B64)
        st.assume(z3.ULE(n, bv(1 << 62)))
        self.ev(st, "LEN", t, n)
        return n

    def c_clear(self, st, args, dty, x):
        t, g = self.on(st, args, args[1])
        self.ev(st, "CLEAR", t, g)
        return self.md.ex.zst(dty)

    def c_reserve(self, st, args, dty, x):
        t, g = self.on(st, args, args[2])
        self.ev(st, "RESERVE", t, g, args[1])
        return self.md.ex.zst(dty)

    def c_iter(self, st, args, dty, x):
        t, g = self.on(st, args, args[1])
        o = fresh("iter", Obj)
        st.assume(iterMap(o) == t)
        st.assume(iterGuard(o) == g)
        self.ev(st, "ITER", t, g, o)
        return Sym(self.md.m.core(dty), o)

    def c_next(self, st, args, dty, x):
        md = self.md
        o = md.obj_term(st, args[0])
        s = st.copy()
        self.before_next(st)
        self.before_next(s)
        it = md.m.fields(dty, 1)[0]
        # args of the trait impl: K, V, G
        hi, (kp, vp) = self.entry_ref(st, x, (0, 1))
        self.yielded(st, o, hi)
        self.exhausted(s, o)
        return [(st, Agg(dty, 1, [Agg(it, 0, [kp, vp])])), (s, Agg(dty, 0, []))]

    def before_next(self, st):
        pass

    def yielded(self, st, o, hi):
        self.ev(st, "NEXT", o, hi)

    def exhausted(self, st, o):
        self.ev(st, "NEXT", o, None)


class MapEv(EvCtx):
    """Operations that forward to exactly one raw operation."""

    def __init__(self, md, root, op, P, kind):
        EvCtx.__init__(self, md, root, op, P, kind)

    def user(self):
        pass

    def contract(self, st, inst):
        if self.md.m.insts[inst]["def"] == RAW + "retain":
            return self.h_retain
        return EvCtx.contract(self, st, inst)

    def h_retain(self, st, inst, args, dest, target):
        ex, md = self.md.ex, self.md
        m = md.m
        x = m.insts[inst]
        dty = ex.dty
        t, g = self.on(st, args, args[2])
        self.used_contracts.add(x["def"])
        self.ev(st, "RETAIN", t, g)
        hi, (kp, vp) = self.entry_ref(st, x, (0, 1))
        st.g["pred"] = ()
        st.g["shown"] = hi
        fty = [a for a in x["args"] if m.t(a).get("k") in ("closure", "fndef")]
        if not fty:
            raise Unsup("predicate of retain")
        fty = fty[0]
        z = ex.zst(dty)
        cx = self

        class Cont:
            def __init__(self, vals):
                self.vals = vals

            def key(self):
                return "retain"

            def remap(self, v):
                return Cont(v)

            def __call__(self, ex_, st, v, f):
                cx.predicate_ran(st, v)
                return ex_.ret_to(st, z, self.vals[0], f.target)

        ft = m.t(fty)
        if ft["k"] == "fndef":
            i = [j for j, y in enumerate(m.insts) if y["def"] == ft["def"]][0]
            # the user's own predicate, passed through
            outs = self.user_call(st, i, [kp, vp], None, None, raw=True)
            out = []
            for s, v in outs:
                self.predicate_ran(s, v)
                out += ex.ret_to(s, z, dest, target)
            return out
        r = st.new_region(args[1])
        ex.push_frame(st, ex.closure_inst(fty), [Ptr(("R", r)), kp, vp], dest, target, Cont((dest,)))
        return None

    def predicate_ran(self, st, v):
        md = self.md
        p = st.g["pred"]
        hi = st.g["shown"]
        if len(p) != 1:
            md.ex.violate(st, self.P, "retain asks the user's predicate exactly once about an entry")
            raise Infeasible()
        md.ob(st, self.P, "retain asks the predicate about the entry itself", p[0][0] == hi)
        md.ob(st, self.P, "retain keeps an entry exactly if the predicate returned true", (v if z3.is_expr(v) else FALSE) == p[0][1])
        st.g["pred"] = ()

    def user_call(self, st, inst, args, dest, target, raw=False):
        ex = self.md.ex
        f = self.md.m.insts[inst]["name"].split("::")[-1]
        if f not in ("f_mut_kv", "f_k"):
            return None
        e = self.entry_of(st, args[0], args[1] if f == "f_mut_kv" else None)
        if e is None:
            ex.violate(st, self.P, "the predicate is shown the key and value of one entry")
            raise Infeasible()
        s = st.copy()
        st.g["pred"] = st.g["pred"] + ((e[1], TRUE),)
        s.g["pred"] = s.g["pred"] + ((e[1], FALSE),)
        if raw:
            return [(st, TRUE), (s, FALSE)]
        return ex.ret_to(st, TRUE, dest, target) + ex.ret_to(s, FALSE, dest, target)

    # ---- results -------------------------------------------------------------------------
    def expect(self, st, *kinds):
        ev = st.g["ev"]
        if tuple(e[0] for e in ev) != kinds:
            self.md.ex.violate(st, self.P, "the operation performs exactly: %s (it performed %s)" % (", ".join(kinds) or "nothing", ", ".join(e[0] for e in ev) or "nothing"))
            raise Infeasible()
        return ev

    def same(self, st, e, what):
        md = self.md
        md.ob(st, self.P, "%s acts on its own map" % what, e[1] == self.map)
        md.ob(st, self.P, "%s uses the guard it was given" % what, e[2] == self.guard)

    def finish(self, ex, st, v):
        md = self.md
        op = self.op
        P = self.P
        if op in ("clear", "retain", "reserve"):
            e = self.expect(st, op.upper())[0]
            self.same(st, e, op)
            if op == "reserve":
                n = self.args[1]
                md.ob(st, P, "reserve asks for the number of elements it was given", e[3] == n)
            return
        if op in ("iter", "keys", "values", "into_iter"):
            e = self.expect(st, "ITER")[0]
            self.same(st, e, op)
            md.ob(st, P, "the iterator that is returned is the map's", self.sym(v) == e[3])
            return
        if op == "next":
            e = self.expect(st, "NEXT")[0]
            md.ob(st, P, "next advances its own iterator", e[1] == z3.Const("iter", Obj))
            return self.item_result(st, v, e[2])
        if op == "iter_next":
            ev = self.expect(st, "ITER", "NEXT")
            self.same(st, ev[0], "iter")
            md.ob(st, P, "next advances the map's iterator", ev[1][1] == ev[0][3])
            return self.item_result(st, v, ev[1][2])
        if op in ("map", "set"):
            self.expect(st)
            md.ob(st, P, "the underlying map is returned", md.obj_term(st, v) == self.map)
            return
        if op in ("guard", "owned_guard"):
            self.expect(st)
            md.ob(st, "C12," + P, "a guard that the map hands out belongs to its collector", md.gcoll(self.sym(v)) == self.coll(self.map))
            return
        if op in ("pin", "pin_owned"):
            self.expect(st)
            m = md.m
            g = o = None
            for f, x in zip(m.fields(v.ty), v.f):
                if isinstance(x, Ptr):
                    o = md.obj_term(st, x)
                elif isinstance(x, Sym):
                    g = x.t
            if g is None or o is None:
                raise Unsup("pinned reference %r" % (v,))
            md.ob(st, "C12," + P, "a pinned reference holds a guard of the map's collector", md.gcoll(g) == self.coll(self.map))
            md.ob(st, "C12," + P, "a pinned reference refers to the map it was made from", o == self.map)
            return
        raise Unsup("specification of " + op)

    def sym(self, v):
        while isinstance(v, Agg) and len(v.f) == 1:
            v = v.f[0]
        if isinstance(v, Sym):
            return v.t
        if isinstance(v, Agg):
            s = [x for x in v.f if isinstance(x, Sym)]
            if len(s) == 1:
                return s[0].t
        raise Unsup("abstract object %r" % (v,))

    def item_result(self, st, v, hi):
        md = self.md
        name = md.m.t(v.ty)["variants"][v.var]["name"]
        if hi is None or name == "None":
            if not (hi is None and name == "None"):
                md.ex.violate(st, self.P, "an adaptor ends exactly when the map's iterator ends")
            else:
                md.ex.record(st, self.P, "an adaptor ends exactly when the map's iterator ends", True)
            return
        x = v.f[0]
        r = self.root
        if isinstance(x, Agg):
            e = self.entry_of(st, x.f[0], x.f[1])
        elif "values" in r:
            e = self.entry_of(st, None, x)
        else:
            e = self.entry_of(st, x, None)
        if e is None or e[0] != "sh":
            md.ex.violate(st, self.P, "an adaptor returns parts of the entry that the map's iterator yielded")
            raise Infeasible()
        md.ob(st, self.P, "an adaptor returns parts of the entry that the map's iterator yielded", e[1] == hi)


class BulkEv(EvCtx):
    """extend, from_iter, from, clone, eq, serialize, deserialize and the constructors."""

    def __init__(self, md, root, op, P, kind):
        EvCtx.__init__(self, md, root, op, P, kind)

    def init(self, ex, inst):
        st = EvCtx.init(self, ex, inst)
        st.g.update(pend=None, done=FALSE, colls=(), hashers=())
        return st

    # ---- source and user code --------------------------------------------------------------
    def user(self):
        md = self.md
        m = md.m
        hd = md.hd
        ret = lambda st, v, dest, target: md.ex.ret_to(st, v, dest, target)

        def src_next(st, inst, args, dest, target):
            ex = md.ex
            dty = ex.dty
            self.on_source(st)
            s = st.copy()
            it = m.fields(dty, 1)[0]
            v = self.item_at(st, it)
            st.g["pend"] = self.tokens(st, v)
            s.g["done"] = TRUE
            return ret(st, Agg(dty, 1, [v]), dest, target) + ret(s, Agg(dty, 0, []), dest, target)

        def hint(st, inst, args, dest, target):
            dty = md.ex.dty
            fs = m.fields(dty)
            lo = fresh("hint", B64)
            st.assume(z3.ULT(lo, bv(1 << 63)))
            s = st.copy()
            hi = fresh("hint", B64)
            return ret(st, Agg(dty, 0, [lo, Agg(fs[1], 0, [])]), dest, target) + ret(s, Agg(dty, 0, [lo, Agg(fs[1], 1, [hi])]), dest, target)

        for t in ("It", "ItK", "ItRef<'a>", "ItKRef<'a>"):
            hd["<verif_harness::%s as std::iter::Iterator>::next" % t] = src_next
            hd["<verif_harness::%s as std::iter::Iterator>::size_hint" % t] = hint

        def acc_hint(st, inst, args, dest, target):
            dty = md.ex.dty
            s = st.copy()
            return ret(st, Agg(dty, 0, []), dest, target) + ret(s, Agg(dty, 1, [fresh("hint", B64)]), dest, target)

        def acc_next(st, inst, args, dest, target):
            ex = md.ex
            dty = ex.dty
            self.on_source(st)
            s, e = st.copy(), st.copy()
            ot = m.fields(dty, 0)[0]
            v = self.item_at(st, m.fields(ot, 1)[0])
            st.g["pend"] = self.tokens(st, v)
            s.g["done"] = TRUE
            err = fresh("err", Obj)
            e.g["err"] = err
            e.g["done"] = TRUE
            return (ret(st, Agg(dty, 0, [Agg(ot, 1, [v])]), dest, target) + ret(s, Agg(dty, 0, [Agg(ot, 0, [])]), dest, target)
                    + ret(e, Agg(dty, 1, [Sym(m.fields(dty, 1)[0], err)]), dest, target))

        same = lambda st, i, a, d, t: ret(st, a[0], d, t)
        hd["<I as std::iter::IntoIterator>::into_iter"] = same
        hd["<T as std::convert::From<T>>::from"] = same
        hd["<verif_harness::sd::Acc as serde::de::MapAccess<'de>>::size_hint"] = acc_hint
        hd["<verif_harness::sd::AccS as serde::de::SeqAccess<'de>>::size_hint"] = acc_hint
        hd["<verif_harness::sd::Acc as serde::de::MapAccess<'de>>::next_entry"] = acc_next
        hd["<verif_harness::sd::AccS as serde::de::SeqAccess<'de>>::next_element"] = acc_next
        for n in ("mk_acc", "mk_accs"):
            hd["verif_harness::sd::" + n] = lambda st, i, a, d, t: ret(st, Sym(md.ex.dty, fresh("acc", Obj)), d, t)

        def collect(st, inst, args, dest, target):
            ex = md.ex
            dty = ex.dty
            self.collected(st, args[1])
            s = st.copy()
            a, b = fresh("ok", B64), fresh("err", Obj)
            st.g["res"] = ("Ok", a)
            s.g["res"] = ("Err", b)
            return ret(st, Agg(dty, 0, [a]), dest, target) + ret(s, Agg(dty, 1, [Sym(m.fields(dty, 1)[0], b)]), dest, target)

        hd["<verif_harness::sd::Ser as serde::Serializer>::collect_map"] = collect
        hd["<verif_harness::sd::Ser as serde::Serializer>::collect_seq"] = collect

        def err_of(st, i):
            b = fresh("err", Obj)
            st.g["res"] = ("Err", b)
            return Sym(m.fields(md.ex.dty, 1)[0], b)

        def ser_open(st, inst, args, dest, target):
            # the entries are presented one by one
            dty = md.ex.dty
            if st.g.get("serial"):
                md.ex.violate(st, self.P, "the map is serialized once")
                raise Infeasible()
            st.g["serial"] = TRUE
            s = st.copy()
            c = Sym(m.fields(dty, 0)[0], fresh("serc", Obj))
            return ret(st, Agg(dty, 0, [c]), dest, target) + ret(s, Agg(dty, 1, [err_of(s, 1)]), dest, target)

        def ser_item(st, inst, args, dest, target):
            dty = md.ex.dty
            if self.isset:
                e = self.entry_of(st, args[1], None)
            else:
                e = self.entry_of(st, args[1], args[2])
            p = st.g["pend"]
            if e is None or e[0] != "sh" or p is None:
                md.ex.violate(st, self.P, "the entries that the iteration yields are serialized, once each")
                raise Infeasible()
            md.ob(st, self.P, "serialization presents the iteration of the map itself", iterMap(p[0]) == self.map)
            md.ob(st, "C12," + self.P, "serialization iterates with a guard of the map", md.gcoll(iterGuard(p[0])) == self.coll(self.map))
            md.ob(st, self.P, "the entries that the iteration yields are serialized, once each", e[1] == p[1])
            st.g["pend"] = None
            s = st.copy()
            return ret(st, Agg(dty, 0, [md.ex.zst(m.fields(dty, 0)[0])]), dest, target) + ret(s, Agg(dty, 1, [err_of(s, 1)]), dest, target)

        def ser_end(st, inst, args, dest, target):
            dty = md.ex.dty
            self.before_next(st)
            md.ob(st, self.P, "serialization ends when the iteration does", st.g["done"])
            st.g["collected"] = TRUE
            s = st.copy()
            a = fresh("ok", B64)
            st.g["res"] = ("Ok", a)
            return ret(st, Agg(dty, 0, [a]), dest, target) + ret(s, Agg(dty, 1, [err_of(s, 1)]), dest, target)

        hd["<verif_harness::sd::Ser as serde::Serializer>::serialize_map"] = ser_open
        hd["<verif_harness::sd::Ser as serde::Serializer>::serialize_seq"] = ser_open
        for pre in ("serde::ser::", "serde::"):
            hd["<verif_harness::sd::SerC as %sSerializeMap>::serialize_entry" % pre] = ser_item
            hd["<verif_harness::sd::SerC as %sSerializeSeq>::serialize_element" % pre] = ser_item
            hd["<verif_harness::sd::SerC as %sSerializeMap>::end" % pre] = ser_end
            hd["<verif_harness::sd::SerC as %sSerializeSeq>::end" % pre] = ser_end

        def acc_key(st, inst, args, dest, target):
            dty = md.ex.dty
            self.on_source(st)
            s, e = st.copy(), st.copy()
            ot = m.fields(dty, 0)[0]
            v = self.item_at(st, m.fields(ot, 1)[0], "key")
            st.g["keyp"] = self.tokens(st, v)
            s.g["done"] = TRUE
            e.g["done"] = TRUE
            x = err_of(e, 1)
            e.g["err"] = x.t
            return (ret(st, Agg(dty, 0, [Agg(ot, 1, [v])]), dest, target) + ret(s, Agg(dty, 0, [Agg(ot, 0, [])]), dest, target)
                    + ret(e, Agg(dty, 1, [x]), dest, target))

        def acc_value(st, inst, args, dest, target):
            dty = md.ex.dty
            if not st.g.get("keyp"):
                md.ex.violate(st, self.P, "a value is read after its key")
                raise Infeasible()
            e = st.copy()
            v = self.item_at(st, m.fields(dty, 0)[0], "val")
            st.g["pend"] = st.g["keyp"] + self.tokens(st, v)
            st.g["keyp"] = e.g["keyp"] = None
            e.g["done"] = TRUE
            x = err_of(e, 1)
            e.g["err"] = x.t
            return ret(st, Agg(dty, 0, [v]), dest, target) + ret(e, Agg(dty, 1, [x]), dest, target)

        hd["<verif_harness::sd::Acc as serde::de::MapAccess<'de>>::next_key"] = acc_key
        hd["<verif_harness::sd::Acc as serde::de::MapAccess<'de>>::next_value"] = acc_value

        def s_new(kind):
            def h(st, inst, args, dest, target):
                t = fresh("hasher", Obj)
                st.g["hashers"] = st.g["hashers"] + ((kind, t),)
                return ret(st, Sym(md.ex.dty, t), dest, target)
            return h

        for n in ("<verif_harness::S as std::default::Default>::default", "std::hash::RandomState::new",
                  "<std::hash::RandomState as std::default::Default>::default"):
            hd[n] = s_new("default")

        def s_clone(st, inst, args, dest, target):
            return ret(st, Sym(md.ex.dty, cloneS(md.obj_term(st, args[0]))), dest, target)

        hd["<verif_harness::S as std::clone::Clone>::clone"] = s_clone

        def coll_new(st, inst, args, dest, target):
            t = fresh("coll", Obj)
            st.g["colls"] = st.g["colls"] + (t,)
            return ret(st, Sym(md.ex.dty, t), dest, target)

        hd["seize::Collector::new"] = coll_new
        hd["<seize::Collector as std::default::Default>::default"] = coll_new

        def kv_clone(fn, f):
            def h(st, inst, args, dest, target):
                e = self.entry_of(st, args[0] if f == 0 else None, args[0] if f == 1 else None)
                if e is None or e[0] != "sh":
                    raise Unsup("clone of something that is not in the map")
                t = fn(e[1])
                st.g["live"] = st.g["live"] + (t,)
                if f == 0:
                    st.assume(kcls(t) == kcls(ekey(e[1])))
                return ret(st, Sym(md.ex.dty, t), dest, target)
            return h

        hd["<verif_harness::K as std::clone::Clone>::clone"] = kv_clone(cloneK, 0)
        hd["<verif_harness::V as std::clone::Clone>::clone"] = kv_clone(cloneV, 1)

        def v_eq(st, inst, args, dest, target):
            a, b = md.obj_term(st, args[0]), md.obj_term(st, args[1])
            r = veq(a, b)
            if m.insts[inst]["def"].endswith("::ne"):
                r = z3.Not(r)
            return ret(st, r, dest, target)

        hd["<verif_harness::V as std::cmp::PartialEq>::eq"] = v_eq
        hd["<verif_harness::V as std::cmp::PartialEq>::ne"] = v_eq

    def item_at(self, st, ty, where="src"):
        m = self.md.m
        t = m.t(ty)
        if t.get("k") == "tuple":
            return Agg(ty, 0, [self.item_at(st, f, "%s%d" % (where, i)) for i, f in enumerate(m.fields(ty))])
        if t.get("k") == "ref":
            r = ("I", where)
            st.mem[r] = self.item(st, t["elem"], "item")
            return Ptr(("R", r))
        return self.item(st, ty, "item")

    def tokens(self, st, v):
        if isinstance(v, Agg):
            return tuple(y for x in v.f for y in self.tokens(st, x))
        if isinstance(v, Ptr):
            return self.tokens(st, st.mem[v.root[1]])
        return (v.t,)

    def on_source(self, st):
        if not z3.is_false(st.g["done"]):
            self.md.ex.violate(st, self.P, "the source is not read after its end")
            raise Infeasible()
        if st.g["pend"] is not None or st.g.get("keyp"):
            self.md.ex.violate(st, self.P, "every item of the source is inserted before the next one is read")
            raise Infeasible()

    def drop_sym(self, st, v):
        d = self.md.m.t(v.ty).get("def")
        if d in TOKENS:
            self.consume(st, v.t, "a key or value is dropped")
            p = st.g["pend"]
            if isinstance(p, tuple) and any(isinstance(x, z3.ExprRef) and x.eq(v.t) for x in p):
                self.md.ex.violate(st, self.P, "no item of the source is dropped")
                raise Infeasible()

    # ---- raw operations --------------------------------------------------------------------
    def target_map(self, st):
        f = st.g.get("fresh", ())
        if self.op in ("extend", "extend_ref"):
            return self.map
        if len(f) != 1:
            self.md.ex.violate(st, self.P, "items are inserted into the one new map")
            raise Infeasible()
        return f[0]

    def c_insert(self, st, args, dty, x):
        if len(args) != 5:
            raise core.NotHandled()
        md = self.md
        P = self.P
        t, g = self.on(st, args, args[4])
        if self.op not in ("extend", "extend_ref", "from_iter", "clone", "de"):
            md.ex.violate(st, P, "the operation does not insert")
            raise Infeasible()
        md.ob(st, P, "items are inserted into the right map", t == self.target_map(st))
        p = st.g["pend"]
        k, v, rep = args[1], args[2], args[3]
        toks = (k.t,) + ((v.t,) if isinstance(v, Sym) else ())
        if self.op == "clone":
            if p is None:
                md.ex.violate(st, P, "an entry is inserted once")
                raise Infeasible()
            md.ob(st, P, "a clone holds a clone of each key", k.t == cloneK(p))
            if isinstance(v, Sym):
                md.ob(st, P, "a clone holds a clone of each value", v.t == cloneV(p))
        else:
            if p is None or len(p) != len(toks):
                md.ex.violate(st, P, "an item is inserted once, with its value")
                raise Infeasible()
            for a, b in zip(p, toks):
                md.ob(st, P, "the key and value that are inserted are the source's item", a == b)
            md.ob(st, P, "a later item replaces an earlier one with an equal key", rep if z3.is_expr(rep) and not self.isset else TRUE)
        for a in toks:
            if any(a.eq(y) for y in st.g["live"]):
                self.consume(st, a, "an item is inserted")
        st.g["pend"] = None
        out = []
        vs = [y["name"] for y in md.m.t(dty)["variants"]]
        for n, nm in enumerate(vs):
            s = st.copy()
            if nm in ("Inserted", "Replaced"):
                hi, (vp,) = self.entry_ref(s, x, (1,))
                out.append((s, Agg(dty, n, [vp])))
            elif not z3.is_true(rep):
                s.assume(z3.Not(rep))
                if not md.ex.feasible(s):
                    continue
                hi, (vp,) = self.entry_ref(s, x, (1,))
                names = [f[0] for f in md.m.t(dty)["variants"][n]["fields"]]
                fs = [vp if nn == "current" else v for nn in names]
                if isinstance(v, Sym):
                    s.g["live"] = s.g["live"] + (v.t,)
                out.append((s, Agg(dty, n, fs)))
        return out

    def c_get(self, st, args, dty, x):
        if self.op != "eq" or len(args) != 3:
            raise core.NotHandled()
        md = self.md
        t, g = self.on(st, args, args[2])
        k = kcls(md.obj_term(st, args[1]))
        s = st.copy()
        it = md.m.fields(dty, 1)[0]
        hi, (kp, vp) = self.entry_ref(st, x, (0, 1))
        st.assume(kcls(ekey(hi)) == k)
        p = st.g["pend"]
        if p is not None:
            o, e = p
            md.ob(st, self.P, "an entry is looked up in the other map",
                  z3.Or(z3.And(iterMap(o) == self.map, t == z3.Const("map2", Obj)), z3.And(iterMap(o) == z3.Const("map2", Obj), t == self.map)))
            md.ob(st, self.P, "an entry is looked up by its own key", kcls(ekey(e)) == k)
        st.g["got"] = hi
        s.g["got"] = None
        s.g["missing"] = TRUE
        return [(st, Agg(dty, 1, [Agg(it, 0, [kp, vp])])), (s, Agg(dty, 0, []))]

    def before_next(self, st):
        md = self.md
        if self.op in ("clone", "ser") and st.g["pend"] is not None:
            md.ex.violate(st, self.P, "every entry is %s before the next one is read" % ("inserted" if self.op == "clone" else "serialized"))
            raise Infeasible()
        if self.op == "eq" and st.g["pend"] is not None:
            md.ob(st, self.P, "the comparison goes on only while the entries agree", self.matched(st))
            st.g["pend"] = None
            st.g["got"] = None

    def matched(self, st):
        p = st.g["pend"]
        h2 = st.g.get("got")
        if p is None:
            return TRUE
        if h2 is None:
            return FALSE
        c = kcls(ekey(h2)) == kcls(ekey(p[1]))
        return c if self.isset else z3.And(c, veq(eval_(p[1]), eval_(h2)))

    def yielded(self, st, o, hi):
        md = self.md
        if self.op == "clone":
            md.ob(st, self.P, "a clone is made from the entries of the original", iterMap(o) == self.map)
            st.g["pend"] = hi
        elif self.op == "eq":
            st.g["pend"] = (o, hi)
            st.g["got"] = None
        elif self.op == "ser":
            st.g["pend"] = (o, hi)
        else:
            self.ev(st, "NEXT", o, hi)

    def exhausted(self, st, o):
        st.g["done"] = TRUE

    def c_from_iter(self, st, args, dty, x):
        self.ev(st, "FROM", args[0])
        t = fresh("newmap", Obj)
        st.g["fresh"] = st.g.get("fresh", ()) + (t,)
        return Sym(self.md.m.core(dty), t)

    def contract(self, st, inst):
        d = self.md.m.insts[inst]["def"]
        if self.op == "from_array" and d.endswith("::from_iter") and d.startswith("<papaya::"):
            def h(st, inst, args, dest, target):
                return self.md.ex.ret_to(st, self.c_from_iter(st, args, self.md.ex.dty, None), dest, target)
            return h
        return EvCtx.contract(self, st, inst)

    def collected(self, st, v):
        """The serializer is handed the iteration of the map itself."""
        md = self.md
        ex = md.ex
        if st.g.get("collected"):
            ex.violate(st, self.P, "the map is serialized once")
            raise Infeasible()
        st.g["collected"] = TRUE
        t = g = None
        if isinstance(v, Ptr):
            q = ex.resolve(st, v)
            if q.root[0] == "R":
                v = st.mem[q.root[1]]
                for e in q.path:
                    v = ex._step(v, e)
            elif q.root[0] == "O" and not q.path:
                t = q.root[1]
        if isinstance(v, Agg):
            # a pinned reference: its iteration is the iteration of its map (verified for into_iter)
            for x in v.f:
                if isinstance(x, Ptr):
                    t = md.obj_term(st, x)
                elif isinstance(x, Sym):
                    g = x.t
        elif isinstance(v, Sym):
            t, g = iterMap(v.t), iterGuard(v.t)
        if t is None or g is None:
            raise Unsup("serialization of %r" % (v,))
        md.ob(st, self.P, "serialization presents the iteration of the map itself", t == self.map)
        md.ob(st, "C12," + self.P, "serialization iterates with a guard of the map", md.gcoll(g) == self.coll(self.map))

    # ---- result ----------------------------------------------------------------------------
    def find_map(self, v):
        while isinstance(v, Agg) and len(v.f) == 1:
            v = v.f[0]
        if not isinstance(v, Sym):
            raise Unsup("resulting map %r" % (v,))
        return v.t

    def built(self, st, v, hkind):
        md = self.md
        P = self.P
        ex = md.ex
        t = self.find_map(v)
        n = [e for e in st.g["ev"] if e[0] == "NEW"]
        if len(n) != 1 or not n[0][1].eq(t):
            ex.violate(st, P, "the one map that was built is returned")
            raise Infeasible()
        n = n[0]
        if hkind == "clone":
            md.ob(st, P, "a clone has a clone of the original's hasher", n[3] == cloneS(hasherOf(self.map)))
        elif hkind == "default":
            if not any(h[1].eq(n[3]) for h in st.g["hashers"]):
                ex.violate(st, P, "the new map uses the default hasher")
                raise Infeasible()
        if not any(c.eq(n[4]) for c in st.g["colls"]):
            ex.violate(st, P + ",C12", "a new map has a collector of its own")
            raise Infeasible()
        md.count_ok2(st, P, "a new map has a collector of its own")
        return n

    def complete(self, st):
        md = self.md
        if z3.is_false(st.g["done"]):
            md.ex.violate(st, self.P, "the source is read to its end")
            raise Infeasible()
        if st.g["pend"] is not None or st.g["live"]:
            md.ex.violate(st, self.P, "every item of the source is inserted")
            raise Infeasible()
        md.count_ok2(st, self.P, "every item of the source is inserted")

    def finish(self, ex, st, v):
        md = self.md
        P = self.P
        op = self.op
        if op in ("extend", "extend_ref"):
            return self.complete(st)
        if op == "from_iter":
            self.complete(st)
            self.built(st, v, "default")
            return
        if op == "clone":
            self.complete(st)
            self.built(st, v, "clone")
            return
        if op == "from_array":
            e = [x for x in st.g["ev"] if x[0] == "FROM"]
            if len(e) != 1 or not st.g["fresh"][0].eq(self.find_map(v)):
                ex.violate(st, P, "from(array) is the map collected from the array")
                raise Infeasible()
            a, b = self.tokens(st, e[0][1]), self.tokens(st, self.args[0])
            if len(a) != len(b):
                ex.violate(st, P, "from(array) collects every item")
                raise Infeasible()
            for x, y in zip(a, b):
                md.ob(st, P, "from(array) collects the items in order", x == y)
            return
        if op == "eq":
            ls = [e for e in st.g["ev"] if e[0] == "LEN"]
            m2 = z3.Const("map2", Obj)
            leneq = FALSE
            for a in ls:
                for b in ls:
                    if a[1].eq(self.map) and b[1].eq(m2):
                        leneq = a[2] == b[2]
            lenne = z3.Or([a[2] != b[2] for a in ls for b in ls if a[1].eq(self.map) and b[1].eq(m2)] or [FALSE])
            v = v if z3.is_expr(v) else FALSE
            if z3.is_true(v) or ex.entails(st, v):
                # a set always equals itself (keys are Eq); a map need not (values are only PartialEq)
                own = self.map == m2 if self.isset else FALSE
                md.ob(st, P, "maps are equal only if their lengths are", z3.Or(own, leneq))
                md.ob(st, P, "maps are equal only if every entry was compared", z3.Or(own, st.g["done"]))
                md.ob(st, P, "maps are equal only if every entry has its counterpart", z3.Or(own, self.matched(st)))
            elif z3.is_false(v) or ex.entails(st, z3.Not(v)):
                md.ob(st, P, "maps are unequal only if their lengths or an entry differ", z3.Or(lenne, z3.Not(self.matched(st))))
            else:
                raise Unsup("symbolic result")
            return
        if op == "ser":
            if not st.g.get("collected") and (st.g.get("res") or "?")[0] != "Err":
                ex.violate(st, P, "the map is serialized")
                raise Infeasible()
            k, x = st.g["res"]
            nm = md.m.t(v.ty)["variants"][v.var]["name"]
            y = v.f[0].t if isinstance(v.f[0], Sym) else v.f[0]
            if nm != k:
                ex.violate(st, P, "the serializer's result is returned")
                raise Infeasible()
            md.ob(st, P, "the serializer's result is returned", x == y)
            return
        if op == "de":
            nm = md.m.t(v.ty)["variants"][v.var]["name"]
            err = st.g.get("err")
            if err is not None:
                if nm != "Err":
                    ex.violate(st, P, "an error of the input is propagated")
                    raise Infeasible()
                md.ob(st, P, "an error of the input is propagated", v.f[0].t == err)
                return
            if nm != "Ok":
                ex.violate(st, P, "deserialization fails only if the input does")
                raise Infeasible()
            self.complete(st)
            self.built(st, v.f[0], "default")
            return
        if op == "ctor":
            return self.ctor(st, v)
        raise Unsup("specification of " + op)

    def ctor(self, st, v):
        """Constructors and builders: capacity, hasher, collector and resize mode are passed on."""
        md = self.md
        ex = md.ex
        P = self.P
        m = md.m
        r = self.root[2:]
        want = {"capacity": None, "hasher": "default", "collector": "new", "resize_mode": None}
        for a, ty in zip(self.args, m.insts[self.inst]["body"]["locals"][1:]):
            d = m.t(ty).get("def", "")
            if d.endswith("Builder"):
                c = m.core(ty)
                for i, f in enumerate(m.fields(c)):
                    want[m.field_name(c, i)] = a.f[i]
        for a, ty in zip(self.args, m.insts[self.inst]["body"]["locals"][1:]):
            t = m.t(ty)
            if t.get("k") == "int":
                want["capacity"] = a
            elif t.get("def") == S_:
                want["hasher"] = a
            elif t.get("def", "").endswith("Collector"):
                want["collector"] = a
            elif t.get("def", "").endswith("ResizeMode"):
                want["resize_mode"] = a
        if isinstance(v, Agg) and m.t(v.ty).get("def", "").endswith("Builder"):
            got = {m.field_name(v.ty, i): x for i, x in enumerate(v.f)}
        else:
            t = self.find_map(v)
            n = [e for e in st.g["ev"] if e[0] == "NEW"]
            if len(n) != 1 or not n[0][1].eq(t):
                ex.violate(st, P, "the one map that was built is returned")
                raise Infeasible()
            n = n[0]
            got = {"capacity": n[2], "hasher": n[3], "collector": n[4], "resize_mode": n[5]}
        term = lambda x: x.t if isinstance(x, Sym) else x
        c = want["capacity"]
        md.ob(st, P, "the capacity that was asked for is passed on", got["capacity"] == (bv(0) if c is None else c))
        w, g = want["hasher"], term(got["hasher"])
        if w == "default":
            md.ob(st, P, "the default hasher is used", z3.Or([g == h[1] for h in st.g["hashers"]] or [FALSE]))
        else:
            md.ob(st, P, "the given hasher is used", g == term(w))
        w, g = want["collector"], term(got["collector"])
        if isinstance(w, str):
            md.ob(st, P + ",C12", "a new map has a collector of its own", z3.Or([g == h for h in st.g["colls"]] or [FALSE]))
        else:
            md.ob(st, P + ",C12", "the given collector is used", g == term(w))
        w, g = want["resize_mode"], got["resize_mode"]
        if w is not None:
            if not isinstance(g, Agg) or g.var != w.var or len(g.f) != len(w.f):
                ex.violate(st, P, "the given resize mode is used")
                raise Infeasible()
            for a, b in zip(w.f, g.f):
                md.ob(st, P, "the given resize mode is used", a == b)
            md.count_ok2(st, P, "the given resize mode is used")

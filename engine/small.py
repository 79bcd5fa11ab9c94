"""The functions below the map's operations, verified against their own bodies: the parker, the stack
of deferred entries, table allocation, the counter, the constructor and the destructor of the map.

Their callers use the contracts of contracts.py and resize.py; here the bodies are shown to meet them."""
import re
import z3
from core import *
import core
from model import *
from ctx import Ctx
import externs

U = z3.BoolSort()


class Small(Ctx):
    """A function that is verified on its own: specifications by definition path."""
    specs = ()

    def __init__(self, md):
        Ctx.__init__(self, md)
        self.table = [(re.compile(p), getattr(self, n)) for p, n in self.specs]
        self.memo = {}

    def contract(self, st, inst):
        h = self.memo.get(inst, 0)
        if h == 0:
            d = self.md.m.insts[inst]["def"]
            h = next((f for r, f in self.table if r.search(d)), None)
            self.memo[inst] = h
        return h

    def begin(self, ex, inst, args, **g):
        st = State()
        st.g.update(g)
        self.inst = inst
        ex.push_frame(st, inst, args, None, None)
        return st

    def argtys(self, inst):
        b = self.md.m.insts[inst]["body"]
        return b["locals"][1:b["argc"] + 1]

    def ret(self, st, v, dest, target):
        return self.md.ex.ret_to(st, v, dest, target)

    def unit(self, st, inst, args, dest, target):
        return self.ret(st, self.md.ex.zst(self.md.ex.dty), dest, target)

    def none(self, dty):
        return Agg(dty, 0, [])

    def some(self, dty, v):
        return Agg(dty, 1, [v])

    def sym(self, ty, name):
        return Sym(ty, fresh(name, Obj))

    def fork(self, st, dest, target, *alts):
        """Alternatives (state update, result)."""
        out = []
        for f, v in alts:
            s = st.copy()
            f(s)
            out += self.ret(s, v, dest, target)
        return out

    def drop_sym(self, st, v):
        pass

    def must(self, st, props, name, ok):
        """An obligation decided by ghost state."""
        md = self.md
        if ok is True:
            md.count_ok2(st, props, name)
        elif ok is False:
            md.ex.violate(st, props, name)
            raise Infeasible()
        else:
            md.ob(st, props, name, ok)

    def deref_key(self, st, p):
        v = self.md.ex.read(st, p, self.md._ty("usize"))
        return v


# ---- the parker ---------------------------------------------------------------------------
SP = z3.Function("should_park", B64, U)
LEN = z3.Function("waiters", Obj, B64)
MAP = r"^std::collections::(hash::map::)?HashMap::<K, V, S(, A)?>::"


class ParkerCtx(Small):
    """State of the parker: a count of announced waiters (atomic) and, under a lock, the last id given out
    and a map from addresses to the waiters registered for them."""
    props = "C08"
    panic_props = "C08"
    specs = (
        (r"^std::sync::Mutex::<T>::lock$", "lock"),
        (r"^<std::sync::MutexGuard<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$", "deref"),
        (MAP + "entry$", "m_entry"),
        (r"hash_map::Entry::<'a, K, V(, A)?>::(or_default|or_insert_with|or_insert)$", "e_default"),
        (MAP + "insert$", "m_insert"),
        (MAP + "get(_mut)?$", "m_get"),
        (MAP + "contains_key$", "m_contains"),
        (MAP + "remove$", "m_remove"),
        (MAP + "len$", "m_len"),
        (MAP + "is_empty$", "m_empty"),
        (r"^<std::collections::HashMap<K, V, S(, A)?> as std::iter::IntoIterator>::into_iter$", "m_iter"),
        (MAP + "(into_values|values|drain|iter)$", "m_iter"),
        (r"^<std::collections::hash_map::\w+<.*> as std::iter::Iterator>::next$", "i_next"),
        (r"^<std::collections::hash_map::\w+<.*> as std::iter::IntoIterator>::into_iter$", "same"),
        (r"^<I as std::iter::IntoIterator>::into_iter$", "same"),
        (r"^<std::thread::Thread as std::clone::Clone>::clone$", "t_clone"),
        (r"^std::thread::current$", "current"),
        (r"^std::thread::park$", "t_park"),
        (r"^std::thread::Thread::unpark$", "t_unpark"),
        (r"^std::mem::drop$", "mem_drop"),
    )

    def setup(self, ex, inst, extra):
        self.parker, self.atomic = z3.Const("parker", Obj), z3.Const("atomic", Obj)
        self.key = z3.Function("addr_", Obj, B64)(self.atomic)
        st = self.begin(ex, inst, [Ptr(("O", self.parker)), Ptr(("O", self.atomic))] + extra,
                        lock=False, ann=False, reg="no", cond=None, order=None, cur=None, exhausted=True, done=None, round=False)
        # fields of the state behind the lock
        t = [i for i, x in enumerate(self.md.m.types) if x.get("def") == "papaya::raw::utils::parker::State"]
        if len(t) != 1:
            raise Unsup("the parker's state")
        self.sty = t[0]
        return st

    # lock
    def lock(self, st, inst, args, dest, target):
        ex, m = self.md.ex, self.md.m
        self.must(st, "C08", "the parker's lock is not taken while it is held", not st.g["lock"])
        st.g["lock"] = True
        # other threads may have handed out ids and removed waiters in the meantime
        c = fresh("count", B64)
        st.assume(z3.ULT(c, bv(1 << 62)))
        last = st.g.get("last")
        if last is not None:
            st.assume(z3.UGE(c, last))
        st.g["last"] = c
        fs = []
        for k, f in enumerate(m.fields(self.sty)):
            n = m.field_name(self.sty, k)
            if n == "count":
                fs.append(c)
                self.countidx = k
            elif n == "threads":
                fs.append(Sym(f, z3.Const("threads", Obj)))
            else:
                raise Unsup("parker state field " + n)
        st.mem[("I", "pstate")] = Agg(self.sty, 0, fs)
        dty = ex.dty
        return self.ret(st, Agg(dty, 0, [Sym(m.fields(dty, 0)[0], z3.Const("lock_guard", Obj))]), dest, target)

    def deref(self, st, inst, args, dest, target):
        self.held(st)
        return self.ret(st, Ptr(("R", ("I", "pstate"))), dest, target)

    def held(self, st):
        self.must(st, "C08", "the waiters are only touched under the parker's lock", st.g["lock"])

    def unlock(self, st):
        v = st.mem[("I", "pstate")]
        c = v.f[self.countidx]
        self.must(st, "C08", "ids are never handed out twice (the last id only grows)", z3.UGE(c, st.g["last"]))
        if st.g.get("id") is not None:
            self.must(st, "C08", "ids are never handed out twice (the last id is stored)", z3.UGE(c, st.g["id"]))
        st.g["last"] = c
        st.g["lock"] = False
        st.mem[("I", "pstate")] = UNINIT

    def mem_drop(self, st, inst, args, dest, target):
        self.drop_any(st, args[0])
        return self.unit(st, inst, args, dest, target)

    def drop_any(self, st, v):
        if isinstance(v, Sym):
            self.drop_sym(st, v)
        elif isinstance(v, Agg):
            for x in v.f:
                self.drop_any(st, x)

    def drop_hook(self, st, p, ty, inst, target):
        return False

    def drop_sym(self, st, v):
        d = self.md.m.t(v.ty).get("def", "")
        if d.endswith("MutexGuard"):
            self.must(st, "C08", "the parker's lock is released once", st.g["lock"])
            self.unlock(st)
        elif v.t.decl().name().startswith("waiterset"):
            self.must(st, "C08", "every waiter that was removed is woken", st.g["exhausted"] and st.g["cur"] is None)

    # maps
    def keyed(self, st, p):
        """A key passed by reference or by value."""
        return self.md.ex.read(st, p, self.md._ty("usize")) if isinstance(p, Ptr) else p

    def outer(self, st, p):
        q = self.md.ex.resolve(st, p)
        return q.root[0] == "O" and q.root[1].eq(z3.Const("threads", Obj))

    def is_inner(self, st, p):
        q = self.md.ex.resolve(st, p)
        return q.root[0] == "O" and q.root[1].decl().name() == "inner"

    def right_key(self, st, k):
        self.must(st, "C08", "waiters are registered and looked up under the address they wait for", simp(k == self.key))

    def inner_ptr(self, ty):
        return Ptr(("O", z3.Const("inner", Obj)))

    def m_entry(self, st, inst, args, dest, target):
        self.held(st)
        if not self.outer(st, args[0]):
            raise Unsup("entry of an inner map")
        self.right_key(st, args[1])
        return self.ret(st, Sym(self.md.ex.dty, z3.Const("inner_entry", Obj)), dest, target)

    def e_default(self, st, inst, args, dest, target):
        self.held(st)
        return self.ret(st, self.inner_ptr(None), dest, target)

    def m_insert(self, st, inst, args, dest, target):
        self.held(st)
        if not self.is_inner(st, args[0]):
            raise Unsup("insertion into the map of addresses")
        i = args[1]
        self.must(st, "C08", "a waiter registers under an id that no other waiter has", z3.UGT(i, st.g["last"]))
        self.must(st, "C08", "a waiter is announced before it is registered", st.g["ann"])
        self.must(st, "C08", "a waiter is registered once per announcement", st.g["reg"] in ("no", "gone", "own"))
        self.must(st, "C08", "a waiter registers the thread that waits", isinstance(args[2], Sym) and args[2].t.eq(z3.Const("current", Obj)))
        st.g["id"] = i
        st.g["reg"] = "yes"
        st.g["cond"] = None
        return self.ret(st, self.none(self.md.ex.dty), dest, target)

    def gone(self, s):
        """Our waiter is not registered any more: it was removed by an unparker, which also decremented
        the count of announced waiters."""
        if s.g["reg"] == "yes":
            s.g["reg"] = "gone"
            s.g["ann"] = False

    def m_get(self, st, inst, args, dest, target):
        self.held(st)
        dty = self.md.ex.dty
        if not self.outer(st, args[0]):
            self.our(st, args[1])
            alts = [(self.gone, self.none(dty))]
            if st.g["reg"] == "yes":
                alts.append((lambda s: None, self.some(dty, Ptr(("O", z3.Const("current", Obj))))))
            return self.fork(st, dest, target, *alts)
        self.right_key(st, self.keyed(st, args[1]))
        return self.fork(st, dest, target, (self.gone, self.none(dty)), (lambda s: None, self.some(dty, self.inner_ptr(None))))

    def our(self, st, p):
        k = self.keyed(st, p)
        i = st.g.get("id")
        self.must(st, "C08", "a waiter looks for the id it registered", simp(k == i) if i is not None else False)

    def m_contains(self, st, inst, args, dest, target):
        self.held(st)
        if self.outer(st, args[0]):
            # some waiters for the address, or none
            self.right_key(st, self.keyed(st, args[1]))
            return self.fork(st, dest, target, (self.gone, FALSE), (lambda s: None, TRUE))
        self.our(st, args[1])
        alts = [(self.gone, FALSE)]
        if st.g["reg"] == "yes":
            alts.append((lambda s: None, TRUE))
        return self.fork(st, dest, target, *alts)

    def m_remove(self, st, inst, args, dest, target):
        self.held(st)
        m, dty = self.md.m, self.md.ex.dty
        el = m.fields(dty, 1)[0]
        if self.outer(st, args[0]):
            self.right_key(st, self.keyed(st, args[1]))
            if self.op != "unpark":
                raise Unsup("a waiter removes all waiters")
            self.must(st, "C08", "all waiters for the address are removed once", st.g["done"] is None)
            ws = fresh("waiterset", Obj)

            def got(s):
                s.g["done"] = "removed"
                s.g["exhausted"] = False
                s.g["owed"] = LEN(ws)

            def nothing(s):
                s.g["done"] = "none"
            return self.fork(st, dest, target, (nothing, self.none(dty)), (got, self.some(dty, Sym(el, ws))))
        self.our(st, args[1])

        def own(s):
            s.g["reg"] = "own"
        alts = [(self.gone, self.none(dty))]
        if st.g["reg"] == "yes":
            alts.append((own, self.some(dty, self.sym(el, "thread"))))
        return self.fork(st, dest, target, *alts)

    def wset(self, st, p):
        t = p.t if isinstance(p, Sym) else self.md.obj_term(st, p)
        if not t.decl().name().startswith("waiterset"):
            raise Unsup("waiters of %s" % t)
        return t

    def m_len(self, st, inst, args, dest, target):
        return self.ret(st, LEN(self.wset(st, args[0])), dest, target)

    def m_empty(self, st, inst, args, dest, target):
        return self.ret(st, LEN(self.wset(st, args[0])) == bv(0), dest, target)

    def m_iter(self, st, inst, args, dest, target):
        t = self.wset(st, args[0])
        return self.ret(st, Sym(self.md.ex.dty, t), dest, target)

    def i_next(self, st, inst, args, dest, target):
        m, dty = self.md.m, self.md.ex.dty
        self.wset(st, args[0])
        self.must(st, "C08", "every waiter that was removed is woken", st.g["cur"] is None)

        def end(s):
            s.g["exhausted"] = True

        def more(s):
            s.g["cur"] = "thread"
        el = m.fields(dty, 1)[0]
        th = Sym(None, z3.Const("waiter", Obj))
        if m.t(el).get("k") == "tuple":
            fs = m.fields(el)
            a = [None] * len(fs)
            for k, f in enumerate(fs):
                a[k] = fresh("id", B64) if m.t(f).get("k") == "int" else \
                    Sym(f, z3.Const("waiter", Obj)) if m.t(f).get("k") != "ref" else Ptr(("O", z3.Const("waiter", Obj)))
            v = Agg(el, 0, a)
        else:
            v = Sym(el, th.t) if m.t(el).get("k") != "ref" else Ptr(("O", th.t))
        alts = [(end, self.none(dty))]
        if not st.g["exhausted"]:
            alts.append((more, self.some(dty, v)))
        return self.fork(st, dest, target, *alts)

    def same(self, st, inst, args, dest, target):
        return self.ret(st, args[0], dest, target)

    # threads
    def t_clone(self, st, inst, args, dest, target):
        return self.ret(st, Sym(self.md.ex.dty, self.md.obj_term(st, args[0])), dest, target)

    def current(self, st, inst, args, dest, target):
        return self.ret(st, Sym(self.md.ex.dty, z3.Const("current", Obj)), dest, target)

    def t_park(self, st, inst, args, dest, target):
        g = st.g
        self.must(st, "C08", "a thread does not sleep while it holds the parker's lock", not g["lock"])
        self.must(st, "C08", "a thread sleeps only while it is registered as a waiter", g["reg"] == "yes")
        self.must(st, "C08", "a thread sleeps only after it saw the condition to wait hold while it was registered, in the total order of "
                             "sequentially consistent operations", g["cond"] is not None and g["order"] == "SeqCst")
        self.must(st, "C08", "a thread sleeps only while the condition to wait holds", SP(g["cond"]))
        return self.unit(st, inst, args, dest, target)

    def t_unpark(self, st, inst, args, dest, target):
        t = self.md.obj_term(st, args[0])
        self.must(st, "C08", "a thread that is woken was waiting", t.eq(z3.Const("waiter", Obj)) and st.g["cur"] is not None)
        st.g["cur"] = None
        return self.unit(st, inst, args, dest, target)

    # atomics
    def atomic_rmw(self, st, op, loc, v, o, dest, target):
        if loc[0] != "pending":
            return None
        if op == "fetch_add":
            self.must(st, "C08", "a waiter is announced in the total order of sequentially consistent operations", o == "SeqCst")
            self.must(st, "C08", "a waiter is counted once", simp(v == bv(1)))
            self.must(st, "C08", "a waiter is announced once", not st.g["ann"] and self.op == "park")
            st.g["ann"] = True
        elif op == "fetch_sub":
            if self.op == "park":
                self.must(st, "C08", "a waiter is uncounted by whoever removed it", st.g["reg"] != "yes" and st.g["ann"])
                self.must(st, "C08", "a waiter is uncounted once", simp(v == bv(1)))
                st.g["ann"] = False
            else:
                owed = st.g.get("owed")
                self.must(st, "C08", "the waiters that were removed are uncounted once", owed is not None)
                self.must(st, "C08", "as many waiters are uncounted as were removed", simp(v == owed))
                st.g["owed"] = None
        else:
            return None
        return self.ret(st, fresh("pending", B64), dest, target)

    def atomic_load(self, st, loc, o, dest, target):
        if loc[0] == "pending":
            v = fresh("pending", B64)
            if o == "SeqCst":
                st.g["pend"] = v
            return self.ret(st, v, dest, target)
        if loc[0] == "?" and loc[1].eq(self.atomic):
            w = 8 if self.md.m.t(self.md.ex.dty).get("k") == "int" else 64
            v = fresh("value", z3.BitVecSort(w))
            n = v if w == 64 else simp(z3.ZeroExt(56, v))
            st.g["val"], st.g["vorder"] = n, o
            st.g["vreg"] = st.g["reg"]
            return self.ret(st, H(v) if w == 64 else v, dest, target)
        return None


class ParkCtx(ParkerCtx):
    op = "park"

    def init(self, ex, inst):
        tys = self.argtys(inst)
        ct = tys[2]
        m = self.md.m
        cl = Agg(ct, 0, [Ptr(("O", z3.Const("capture%d" % n, Obj))) for n, f in enumerate(m.fields(ct))])
        self.cinst = ex.closure_inst(ct, never=True)
        return self.setup(ex, inst, [cl])

    def contract(self, st, inst):
        if inst == self.cinst:
            return self.cond
        return ParkerCtx.contract(self, st, inst)

    def cond(self, st, inst, args, dest, target):
        """The condition: any function of the value."""
        v = args[-1]
        if isinstance(v, Agg):
            v = v.f[0]
        n = self.md.ex.ptr_int(st, v) if isinstance(v, Ptr) else z3.ZeroExt(56, v) if v.size() == 8 else v
        n = simp(n)
        g = st.g
        if g.get("val") is not None and g["val"].eq(n):
            g["cond"], g["order"] = n, g["vorder"] if g["vreg"] == "yes" or g["vorder"] != "SeqCst" else "early"
        return self.ret(st, SP(n), dest, target)

    def finish(self, ex, st, v):
        g = st.g
        self.must(st, "C08", "the parker's lock is released", not g["lock"])
        self.must(st, "C08", "a waiter that stops waiting is not registered any more", g["reg"] != "yes")
        self.must(st, "C08", "a waiter that stops waiting is not counted any more", not g["ann"])
        self.must(st, "C08", "a thread stops waiting only after it looked at the value it waits for", g["cond"] is not None)
        self.must(st, "C08,C13", "a thread stops waiting only after it saw the condition fail, with acquire ordering",
                  z3.And(z3.Not(SP(g["cond"])), z3.BoolVal(g["order"] in ("SeqCst", "Acquire", "AcqRel", "early"))))


class UnparkCtx(ParkerCtx):
    op = "unpark"

    def init(self, ex, inst):
        return self.setup(ex, inst, [])

    def finish(self, ex, st, v):
        g = st.g
        self.must(st, "C08", "the parker's lock is released", not g["lock"])
        if g["done"] is None:
            p = g.get("pend")
            self.must(st, "C08", "nobody is woken only if no waiter was announced, in the total order of sequentially consistent operations",
                      (p == bv(0)) if p is not None else False)
            return
        self.must(st, "C08", "every waiter that was removed is woken", g["exhausted"] and g["cur"] is None)
        if g["done"] == "removed":
            o = g.get("owed")
            self.must(st, "C08", "the waiters that were removed are uncounted", True if o is None else simp(o == bv(0)))


def insts(m, pat):
    r = re.compile(pat)
    return [i for i, x in enumerate(m.insts) if "body" in x and r.search(x["name"])]


def one(pat, n=0):
    def find(m):
        l = insts(m, pat)
        return l[n] if len(l) > n else None
    return find


def parks(pat, n):
    """The n-th instance, ordered by name, for one type of guard."""
    def find(m):
        l = sorted((i for i in insts(m, pat) if "LocalGuard" not in m.insts[i]["name"]), key=lambda i: m.insts[i]["name"])
        return l[n] if len(l) > n else None
    return find


# ---- the stack of deferred entries ----------------------------------------------------------
NVAL = z3.Function("node_value", B64, B64)
NNEXT = z3.Function("node_next", B64, B64)


def boxes_freed(st, props, cx, what):
    for r, v in st.mem.items():
        if r[0] == "B":
            cx.must(st, props, what, v is FREED)


class PushCtx(Small):
    props = "C06"
    panic_props = "C06"

    def init(self, ex, inst):
        self.v = z3.Const("value", B64)
        self.stack = z3.Const("stack", Obj)
        return self.begin(ex, inst, [Ptr(("O", self.stack)), H(self.v)], pushed=False)

    def atomic_load(self, st, loc, o, dest, target):
        if not self.head(loc):
            return None
        return self.ret(st, H(fresh("head", B64)), dest, target)

    def head(self, loc):
        return loc[0] == "head" or loc[0] == "?" and isinstance(loc[1], z3.ExprRef) and loc[1].eq(self.stack)

    def atomic_cas(self, st, loc, e, n, so, fo, prot, dest, target, dty):
        if not self.head(loc):
            return None
        ex, m = self.md.ex, self.md.m
        q = ex.resolve(st, n)
        P = "C06"
        self.must(st, P, "a deferred entry is pushed once", not st.g["pushed"])
        if q.root[0] != "R" or q.root[1][0] != "B" or q.path:
            ex.violate(st, P, "the new head of the stack is a new node")
            raise Infeasible()
        v = st.mem[q.root[1]]
        f = {m.field_name(v.ty, k): x for k, x in enumerate(v.f)}
        self.must(st, P, "the pushed node carries the deferred entry", simp(ex.ptr_int(st, f["value"]) == self.v))
        self.must(st, P, "the pushed node links to the head it replaces", simp(ex.ptr_int(st, f["next"]) == ex.ptr_int(st, e)))
        s = st.copy()
        out = self.ret(s, Agg(dty, 1, [H(fresh("head", B64))]), dest, target)
        st.g["pushed"] = True
        st.g["published"] = (q.root[1],)
        return out + self.ret(st, Agg(dty, 0, [e]), dest, target)

    def finish(self, ex, st, v):
        self.must(st, "C06", "a deferred entry is pushed", st.g["pushed"])


class DrainCtx(Small):
    props = "C06"
    panic_props = "C06"

    def init(self, ex, inst):
        m = self.md.m
        self.stack = z3.Const("stack", Obj)
        self.h0 = z3.Const("head0", B64)
        ct = self.argtys(inst)[1]
        cl = Agg(ct, 0, [Ptr(("O", z3.Const("capture%d" % n, Obj))) for n, f in enumerate(m.fields(ct))])
        self.cinst = ex.closure_inst(ct, never=True)
        st = self.begin(ex, inst, [Ptr(("R", ("I", "stack"))), cl], cur=self.h0, owe=None)
        sty = m.t(self.argtys(inst)[0])["elem"]
        if m.t(m.core(sty)).get("k") != "ptr":
            raise Unsup("layout of the stack")
        st.mem[("I", "stack")] = H(self.h0)
        return st

    def contract(self, st, inst):
        if inst == self.cinst:
            return self.call
        return Small.contract(self, st, inst)

    def obj_field(self, st, t, n, path, ty):
        if n == "head" and t.eq(self.stack):
            return H(self.h0)
        return None

    def box_from_raw(self, st, p):
        ex, m = self.md.ex, self.md.m
        a = simp(ex.ptr_int(st, p))
        self.must(st, "C06", "every deferred entry is handed out before the next", st.g["owe"] is None)
        boxes_freed(st, "C06", self, "every node is freed")
        self.must(st, "C06", "the nodes are visited in order, each once", a == st.g["cur"])
        self.must(st, "C06", "the end of the stack is not freed", a != bv(0))
        nt = m.t(ex.dty)["args"][0]
        f = []
        for k, ft in enumerate(m.fields(nt)):
            f.append(H(NVAL(a)) if m.field_name(nt, k) == "value" else H(NNEXT(a)))
        st.g["cur"], st.g["owe"] = NNEXT(a), NVAL(a)
        return Ptr(("R", st.new_region(Agg(nt, 0, f))))

    def heap_read(self, st, p, ty):
        n = self.md.path_names(p.path)
        a = simp(p.root[1] + p.root[2])
        if n not in (["value"], ["next"]):
            raise Unsup("read of %r" % (p,))
        self.must(st, "C06", "a node is read before it is freed", z3.And(a == st.g["cur"], a != bv(0)))
        return H(NVAL(a) if n == ["value"] else NNEXT(a))

    def call(self, st, inst, args, dest, target):
        v = args[-1]
        if isinstance(v, Agg):
            v = v.f[0]
        o = st.g["owe"]
        self.must(st, "C06", "every deferred entry is handed out once", o is not None)
        self.must(st, "C06", "the entry that is handed out is the one that was deferred", simp(self.md.ex.ptr_int(st, v) == o))
        st.g["owe"] = None
        return self.unit(st, inst, args, dest, target)

    def finish(self, ex, st, v):
        self.must(st, "C06", "every deferred entry is handed out", st.g["owe"] is None)
        self.must(st, "C06", "the whole stack is drained", st.g["cur"] == bv(0))
        boxes_freed(st, "C06", self, "every node is freed")


# ---- tables ------------------------------------------------------------------------------------
LSIZE = z3.Function("layout_size", Obj, B64)
LALIGN = z3.Function("layout_align", Obj, B64)


def pow2(t):
    return z3.And(t != bv(0), (t & (t - 1)) == bv(0))


class AllocCtx(Small):
    """Table::alloc: the layout that every access to a table relies on."""
    props = "C11"
    panic_props = "C11"
    specs = (
        (r"^std::alloc::Layout::from_size_align$", "mklayout"),
        (r"^std::alloc::Layout::from_size_align_unchecked$", "mklayout_u"),
        (r"^std::alloc::Layout::size$", "l_size"),
        (r"^std::alloc::Layout::align$", "l_align"),
        (r"^std::alloc::alloc_zeroed$", "zalloc"),
        (r"^std::alloc::alloc$", "ualloc"),
        (r"^std::intrinsics::write_bytes$", "fill"),
        (r"^std::alloc::dealloc$", "dealloc"),
        (r"^std::ptr::drop_in_place$", "drop_in_place"),
        (r"HashMap<K, V, S(, A)?> as std::default::Default>::default$", "defmap"),
        (r"^std::sync::Mutex::<T>::new$", "mutex"),
    )

    def init(self, ex, inst):
        self.len = z3.Const("len", B64)
        st = self.begin(ex, inst, [self.len], base=None, zero=False, hdr=None, fill=None)
        st.assume(pow2(self.len))
        m = self.md.m
        self.rty = m.insts[inst]["body"]["locals"][0]
        return st

    def panic_ok(self, st, what):
        # a table whose size cannot be represented
        return self.md.ex.entails(st, z3.UGE(self.len, bv(1 << 60)))

    def mklayout(self, st, inst, args, dest, target):
        m, dty = self.md.m, self.md.ex.dty
        n, a = args
        bad = z3.Or(z3.Not(pow2(a)), z3.UGT(n, bv((1 << 63)) - a))
        out = []
        s = st.copy()
        s.assume(simp(bad))
        if self.md.ex.feasible(s):
            e = m.fields(dty, 1)[0]
            out += self.ret(s, Agg(dty, 1, [self.sym(e, "layouterr") if m.opaque(e) else self.md.ex.zst(e)]), dest, target)
        st.assume(simp(z3.Not(bad)))
        if self.md.ex.feasible(st):
            out += self.ret(st, Agg(dty, 0, [self.layout(st, m.fields(dty, 0)[0], n, a)]), dest, target)
        return out

    def mklayout_u(self, st, inst, args, dest, target):
        return self.ret(st, self.layout(st, self.md.ex.dty, *args), dest, target)

    def layout(self, st, ty, n, a):
        t = fresh("layout", Obj)
        st.assume(LSIZE(t) == n)
        st.assume(LALIGN(t) == a)
        return Sym(ty, t)

    def l_size(self, st, inst, args, dest, target):
        return self.ret(st, LSIZE(self.md.obj_term(st, args[0])), dest, target)

    def l_align(self, st, inst, args, dest, target):
        return self.ret(st, LALIGN(self.md.obj_term(st, args[0])), dest, target)

    def zalloc(self, st, inst, args, dest, target):
        st.g["zero"] = True
        return self.ualloc(st, inst, args, dest, target)

    def ualloc(self, st, inst, args, dest, target):
        l = args[0].t
        self.must(st, "C11,C06", "an allocation has a size", LSIZE(l) != bv(0))
        self.must(st, "C11,C06", "a table is one allocation", st.g["base"] is None)
        s = st.copy()
        out = self.ret(s, H(bv(0)), dest, target)
        b = z3.Const("base", B64)
        st.assume(b != bv(0))
        st.g["base"], st.g["size"], st.g["align"] = b, LSIZE(l), LALIGN(l)
        return out + self.ret(st, H(b), dest, target)

    def heap_write(self, st, p, v):
        if p.root[0] != "H" or p.path or st.g["base"] is None:
            return False
        self.must(st, "C11,C06", "the header is written at the start of the allocation", simp(p.root[1] + p.root[2]) == st.g["base"])
        if not isinstance(v, Agg):
            return False
        st.g["hdr"] = True
        st.mem[("I", "hdr")] = v
        return True

    def fill(self, st, inst, args, dest, target):
        p, v, n = args
        st.g["fill"] = (simp(self.md.ex.ptr_int(st, p) - st.g["base"]), v, n)
        return self.unit(st, inst, args, dest, target)

    def dealloc(self, st, inst, args, dest, target):
        raise Unsup("deallocation")

    drop_in_place = dealloc

    def defmap(self, st, inst, args, dest, target):
        return self.ret(st, Sym(self.md.ex.dty, z3.Const("empty_map", Obj)), dest, target)

    def mutex(self, st, inst, args, dest, target):
        st.g["mutexes"] = st.g.get("mutexes", 0) + 1
        return self.ret(st, args[0], dest, target)

    def field(self, v, *names):
        m = self.md.m
        for n in names:
            if not isinstance(v, Agg):
                return v
            c = m.core(v.ty) if not isinstance(v.ty, tuple) else v.ty
            k = [k for k in range(len(v.f)) if m.field_name(c, k) == n]
            if not k:
                raise Unsup("field " + n)
            v = v.f[k[0]]
        return v

    def finish(self, ex, st, v):
        md, m = self.md, self.md.m
        P = "C11,C06"
        b = st.g["base"]
        self.must(st, P, "the table is allocated", b is not None)
        mask = self.field(v, "mask")
        ln = simp(mask + 1)
        hdr = bv(md.hdr())
        self.must(st, P, "a table has at least the requested length", z3.UGE(ln, self.len))
        self.must(st, P, "the length of a table is a power of two", pow2(ln))
        self.must(st, P, "the entries of a table are aligned", z3.And((ln & bv(7)) == bv(0), bv(md.hdr() % 8) == bv(0), z3.UGE(st.g["align"], bv(8))))
        self.must(st, P, "the allocation holds the header, the metadata and the entries",
                  z3.And(z3.ULT(ln, bv(1 << 60)), z3.UGE(st.g["size"], hdr + ln + (ln << 3))))
        self.must(st, P, "the table points at its allocation", simp(ex.ptr_int(st, self.field(v, "raw")) == b))
        self.must(st, "C01,C11,C13", "the entries of a new table are null", st.g["zero"])
        f = st.g["fill"]
        self.must(st, "C01,C05,C11,C13", "the metadata of a new table is initialised", f is not None)
        self.must(st, "C01,C05,C11,C13", "the metadata of a new table says that every slot is empty",
                  z3.And(f[0] == hdr, f[1] == bv(EMPTY, 8), f[2] == ln))
        self.must(st, P + ",C13", "the header of a new table is written", st.g["hdr"] is not None)
        h = st.mem[("I", "hdr")]
        self.must(st, P, "the header stores the mask", self.field(h, "mask") == mask)
        self.must(st, P, "the header stores the probe limit", self.field(h, "limit") == self.field(v, "limit"))
        s = self.field(h, "state")
        z = lambda x: simp(ex.ptr_int(st, x) == bv(0)) if isinstance(x, Ptr) else simp(x == bv(0, x.size()))
        for n, P2 in (("next", "C05"), ("copied", "C05"), ("claim", "C05"), ("status", "C05,C08"), ("deferred", "C06")):
            self.must(st, P2, "the resize state of a new table is its initial state (%s)" % n, z(self.field(s, n)))
        p = self.field(s, "parker")
        self.must(st, "C08", "nobody waits at a new table", z(self.field(p, "pending")))


class DeallocCtx(AllocCtx):
    """Table::dealloc frees the allocation with the layout it was made with."""
    props = "C06,C11"

    def init(self, ex, inst):
        from contracts import mktab
        ty = self.argtys(inst)[0]
        self.T = z3.Const("T", B64)
        self.len = simp(maskOf(self.T) + 1)
        st = self.begin(ex, inst, [mktab(self, ty, self.T)], base=None, hdrdrop=False, freed=False)
        st.assume(z3.And(pow2(self.len), z3.UGE(self.len, bv(8)), z3.ULT(self.len, bv(1 << 60))))
        st.assume(self.T != bv(0))
        self.alloc_align = self.md.m.t(self.md.layout_ty()).get("align", 8)
        return st

    def panic_ok(self, st, what):
        # the same layout was computed when the table was allocated; size + alignment fits
        return self.md.ex.entails(st, z3.UGE(bv(self.md.hdr()) + (self.len << 3) + self.len, bv((1 << 63) - 16)))

    def owns_table(self, st, T):
        return T.eq(self.T)

    def own_read(self, st, T, names, ty):
        self.must(st, "C06", "a table is not accessed after it was freed", not st.g["freed"])
        return None

    def drop_in_place(self, st, inst, args, dest, target):
        a = simp(self.md.ex.ptr_int(st, args[0]))
        self.must(st, "C06", "the state of the freed table is dropped", a == self.T)
        self.must(st, "C06", "the state of the freed table is dropped once, before the allocation is freed", not st.g["hdrdrop"] and not st.g["freed"])
        ty = self.md.m.insts[inst]["args"][0]
        self.must(st, "C06", "the state of the freed table is dropped as what it is", self.md.is_layout_ty(ty))
        st.g["hdrdrop"] = True
        return self.unit(st, inst, args, dest, target)

    def dealloc(self, st, inst, args, dest, target):
        a = simp(self.md.ex.ptr_int(st, args[0]))
        l = args[1].t
        self.must(st, "C06", "the table that is freed is the one that was given up", a == self.T)
        self.must(st, "C06", "a table is freed once", not st.g["freed"])
        self.must(st, "C06,C11", "a table is freed with the layout it was allocated with",
                  z3.And(LSIZE(l) == bv(self.md.hdr()) + self.len + (self.len << 3), LALIGN(l) == bv(self.alloc_align)))
        st.g["freed"] = True
        return self.unit(st, inst, args, dest, target)

    def finish(self, ex, st, v):
        self.must(st, "C06", "the table is freed", st.g["freed"])
        self.must(st, "C06", "the state of the freed table is dropped", st.g["hdrdrop"])


class EntriesForCtx(Small):
    props = "C11"
    panic_props = "C11"

    def init(self, ex, inst):
        self.c = z3.Const("capacity", B64)
        return self.begin(ex, inst, [self.c])

    def panic_ok(self, st, what):
        return self.md.ex.entails(st, z3.UGE(self.c, bv(1 << 61)))

    def finish(self, ex, st, v):
        self.must(st, "C11", "a table length is a power of two", pow2(v))
        self.must(st, "C11", "a capacity whose size cannot be represented is rejected", z3.ULT(self.c, bv(1 << 61)))
        self.must(st, "C11", "a table for a capacity has room for it at the documented load factor (75 percent)", z3.UGE(z3.ZeroExt(8, v) * bv(6, 72) + bv(5, 72), z3.ZeroExt(8, self.c) * bv(8, 72)))
        self.must(st, "C11", "a table for a capacity has at least that many slots", z3.UGE(v, self.c))


class LimitCtx(Small):
    props = "C11"
    panic_props = "C11"

    def init(self, ex, inst):
        self.c = z3.Const("capacity", B64)
        st = self.begin(ex, inst, [self.c])
        st.assume(z3.And(pow2(self.c), z3.UGE(self.c, bv(8))))
        return st

    def finish(self, ex, st, v):
        self.must(st, "C11", "a probe sequence visits more than one slot", z3.UGE(v, bv(1)))
        self.must(st, "C11", "the probe limit is logarithmic in the length", z3.ULE(v, bv(5 * 64)))


class H2Ctx(Small):
    props = "C01"
    panic_props = "C01"

    def init(self, ex, inst):
        return self.begin(ex, inst, [z3.Const("hash", B64)])

    def finish(self, ex, st, v):
        self.must(st, "C01,C05", "the metadata of a hash differs from the markers of empty and deleted slots", z3.ULT(v, bv(0x80, 8)))


class CounterCtx(Small):
    props = "C07"
    panic_props = "C07,C11"
    specs = (
        (r"^std::thread::available_parallelism$", "cpus"),
        (r"^std::boxed::iter::<impl std::iter::FromIterator<T> for std::boxed::Box<\[T\]>>::from_iter$", "collect"),
    )

    def init(self, ex, inst):
        return self.begin(ex, inst, [], n=None)

    def cpus(self, st, inst, args, dest, target):
        m, dty = self.md.m, self.md.ex.dty
        s = st.copy()
        out = self.ret(s, Agg(dty, 1, [self.sym(m.fields(dty, 1)[0], "ioerr")]), dest, target)
        n = z3.Const("cpus", B64)
        st.assume(z3.And(n != bv(0), z3.ULT(n, bv(1 << 39))))
        return out + self.ret(st, Agg(dty, 0, [n]), dest, target)

    def collect(self, st, inst, args, dest, target):
        """collect() of an iterator Range.map(f): as many elements as the range has, each f(index)."""
        m, ex = self.md.m, self.md.ex
        it = args[0]
        rng = cl = None
        mt = [t for t in m.insts[inst]["args"] if m.t(t).get("def", "").endswith("adapters::map::Map") or m.t(t).get("def", "") == "std::iter::Map"]
        if mt and isinstance(it, Agg) and it.ty != mt[0]:
            # the adaptor holds nothing but the range
            rng, cl = it, (ex.zst(m.fields(mt[0])[1]), m.fields(mt[0])[1])
            it = None
        for k, x in enumerate(it.f if isinstance(it, Agg) else ()):
            n = m.field_name(it.ty, k)
            if n == "iter":
                rng = x
            elif n == "f":
                cl = (x, m.fields(it.ty)[k])
        if rng is None or cl is None or not m.t(rng.ty).get("def", "").endswith("Range"):
            raise Unsup("collect of " + repr(it)[:80])
        a, b = rng.f
        n = simp(z3.If(z3.ULE(a, b), b - a, bv(0)))
        cx, dty = self, ex.dty
        ci = ex.closure_inst(cl[1])
        r = ("I", "shardf")
        st.mem[r] = cl[0]
        l1 = m.t(m.insts[ci]["body"]["locals"][1])

        class Cont:
            def __init__(self, vals):
                self.vals = vals

            def key(self):
                return "collect"

            def remap(self, v):
                return Cont(v)

            def __call__(self, ex_, s, v, f):
                cx.must(s, "C07", "a counter shard starts at zero", simp(v == bv(0)))
                s.g["n"] = self.vals[1]
                return ex_.ret_to(s, Ptr(("H", z3.Const("newshards", B64), bv(0)), (), self.vals[1]), self.vals[0], f.target)
        ex.push_frame(st, ci, [Ptr(("R", r)) if l1.get("k") in ("ref", "ptr") else cl[0], fresh("index", B64)], dest, target, Cont((dest, n)))
        return None

    def finish(self, ex, st, v):
        n = st.g["n"]
        self.must(st, "C07,C11", "a counter has a non-zero power of two of shards", pow2(n) if n is not None else False)


EFOR = z3.Function("entries_for", B64, B64)
TALLOC = r"^papaya::raw::alloc::Table::<T>::alloc$"


class NewCtx(Small):
    """raw::HashMap::new."""
    props = "C11"
    panic_props = "C11"
    specs = (
        (r"^papaya::raw::probe::entries_for$", "efor"),
        (TALLOC, "talloc"),
        (r"^<papaya::raw::utils::counter::Counter as std::default::Default>::default$", "counter"),
    )

    def init(self, ex, inst):
        m = self.md.m
        self.cap = z3.Const("capacity", B64)
        args = []
        for n, ty in enumerate(self.argtys(inst)):
            t = m.t(ty)
            if t.get("k") == "int":
                args.append(self.cap)
            elif t.get("def", "") == "papaya::ResizeMode":
                self.mode = Agg(ty, 0 if self.md.inc else 1, [z3.Const("chunk", B64)] if self.md.inc else [])
                args.append(self.mode)
            elif t.get("def", "").endswith("Collector"):
                args.append(Sym(ty, z3.Const("collector", Obj)))
            else:
                args.append(Sym(ty, z3.Const("hasher", Obj)))
        self.rty = m.insts[inst]["body"]["locals"][0]
        return self.begin(ex, inst, args, len=None, status=None, counter=0)

    def efor(self, st, inst, args, dest, target):
        c = args[0]
        r = EFOR(c)
        st.assume(z3.And(pow2(r), z3.UGE(r, c), z3.ULT(c, bv(1 << 61))))
        return self.ret(st, r, dest, target)

    def talloc(self, st, inst, args, dest, target):
        from contracts import mktab
        self.must(st, "C11", "the length of a table is a power of two", pow2(args[0]))
        self.must(st, "C11,C06", "a new map has one table", st.g["len"] is None)
        T = z3.Const("newtable", B64)
        st.assume(T != bv(0))
        st.assume(z3.UGE(maskOf(T) + 1, args[0]))
        st.g["len"], st.g["status"] = args[0], bv(0, 8)
        return self.ret(st, mktab(self, self.md.ex.dty, T), dest, target)

    def owns_table(self, st, T):
        return T.eq(z3.Const("newtable", B64))

    def own_read(self, st, T, names, ty):
        if names == ["state", "status"]:
            return st.g["status"]
        return None

    def own_write(self, st, T, names, v):
        if names == ["state", "status"]:
            st.g["status"] = v
            return True
        return False

    def atomic_store(self, st, loc, v, o, dest, target):
        if loc[0] == "status":
            st.g["status"] = v
            return self.unit(st, None, None, dest, target)
        return None

    def counter(self, st, inst, args, dest, target):
        st.g["counter"] += 1
        return self.ret(st, Sym(self.md.ex.dty, z3.Const("counter", Obj)), dest, target)

    def panic_ok(self, st, what):
        return False

    def finish(self, ex, st, v):
        m = self.md.m
        f = {m.field_name(v.ty, k): x for k, x in enumerate(v.f)}
        t = simp(ex.ptr_int(st, f["table"]))
        self.must(st, "C11", "a map never shrinks below its initial capacity: it is remembered",
                  z3.And(z3.UGE(f["initial_capacity"], self.cap), z3.Implies(self.cap != bv(0), f["initial_capacity"] == self.cap)))
        if st.g["len"] is None:
            self.must(st, "C11,C06", "without a table, the table is null and the capacity zero", z3.And(t == bv(0), self.cap == bv(0)))
        else:
            self.must(st, "C11", "a map is created with room for the requested capacity", z3.UGE(st.g["len"], EFOR(self.cap)))
            self.must(st, "C11,C06,C01", "the new table is the map's root", t == z3.Const("newtable", B64))
            self.must(st, "C05,C08,C10", "the first table of a map is promoted", st.g["status"] == bv(PROMOTED_STATUS, 8))
        self.must(st, "C15,C11", "a map uses the hasher it was given", isinstance(f["hasher"], Sym) and f["hasher"].t.eq(z3.Const("hasher", Obj)))
        self.must(st, "C12", "a map uses the collector it was given", isinstance(f["collector"], Sym) and f["collector"].t.eq(z3.Const("collector", Obj)))
        r = f["resize"]
        self.must(st, "C05,C11", "a map uses the resize mode it was given", isinstance(r, Agg) and r.var == self.mode.var and all(a.eq(b) for a, b in zip(r.f, self.mode.f)))
        self.must(st, "C07", "a map starts with a counter of zero", isinstance(f["count"], Sym) and f["count"].t.eq(z3.Const("counter", Obj)))


PROMOTED_STATUS = 2


# ---- destructors -------------------------------------------------------------------------------
class MapDropCtx(Small):
    """Drop for raw::HashMap: every table of the list, its entries first."""
    props = "C06"
    panic_props = "C06"
    specs = (
        (r"^papaya::raw::drop_entries$", "d_entries"),
        (r"^papaya::raw::drop_table$", "d_table"),
        (r"Collector::reclaim_all$", "reclaim"),
    )

    def init(self, ex, inst):
        self.map = z3.Const("map", Obj)
        self.root = z3.Const("root", B64)
        return self.begin(ex, inst, [Ptr(("O", self.map))], cur=self.root, ent=False, reclaimed=False, table=self.root, next=None)

    def obj_field(self, st, t, n, path, ty):
        if n == "table":
            return H(st.g["table"])
        return None

    def heap_write(self, st, p, v):
        """The map is not shared any more: its root, and the link of the table at hand, may be overwritten."""
        if p.root[0] == "O" and p.root[1].eq(self.map) and self.md.path_names(p.path) == ["table"]:
            st.g["table"] = simp(self.md.ex.ptr_int(st, v))
            return True
        return False

    def own_write(self, st, T, names, v):
        if names == ["state", "next"]:
            self.must(st, "C06", "a table is accessed before it is freed", T == st.g["cur"])
            st.g["next"] = simp(self.md.ex.ptr_int(st, v))
            return True
        return False

    def owns_table(self, st, T):
        return True

    def own_read(self, st, T, names, ty):
        self.must(st, "C06", "a table is accessed before it is freed", T == st.g["cur"])
        self.must(st, "C06", "the end of the list of tables is not accessed", T != bv(0))
        if names == ["state", "next"]:
            return H(nextOf(T) if st.g["next"] is None else st.g["next"])
        return None

    def tab(self, v):
        m = self.md.m
        return simp(self.md.ex.ptr_int(None, [x for k, x in enumerate(v.f) if m.field_name(v.ty, k) == "raw"][0]))

    def d_entries(self, st, inst, args, dest, target):
        T = self.tab(args[0])
        self.must(st, "C06", "the entries of every table are dropped, table by table", T == st.g["cur"])
        self.must(st, "C06", "the entries of a table are dropped once", not st.g["ent"])
        st.g["ent"] = True
        return self.unit(st, inst, args, dest, target)

    def d_table(self, st, inst, args, dest, target):
        T = self.tab(args[0])
        self.must(st, "C06", "every table is dropped, once", z3.And(T == st.g["cur"], T != bv(0)))
        self.must(st, "C06", "the entries of a table are dropped before the table", st.g["ent"])
        st.g["ent"] = False
        st.g["next"] = None
        st.g["cur"] = nextOf(T)
        return self.unit(st, inst, args, dest, target)

    def reclaim(self, st, inst, args, dest, target):
        st.g["reclaimed"] = True
        return self.unit(st, inst, args, dest, target)

    def finish(self, ex, st, v):
        self.must(st, "C06", "every table of the map is dropped", st.g["cur"] == bv(0))
        self.must(st, "C06", "retired memory is reclaimed before the collector is dropped", st.g["reclaimed"])


nextOf = z3.Function("next", B64, B64)
DHI = z3.Function("slot_hi", B64, z3.BitVecSort(61))
DTAG = z3.Function("slot_tag", B64, z3.BitVecSort(3))


class DropEntriesCtx(Small):
    """drop_entries: every entry that is not being copied is freed once; slot j is arbitrary."""
    props = "C06"
    panic_props = "C06,C11"

    def init(self, ex, inst):
        from contracts import mktab
        self.T = z3.Const("T", B64)
        self.j = z3.Const("j", B64)
        st = self.begin(ex, inst, [mktab(self, self.argtys(inst)[0], self.T)], freed=False, cur=None)
        st.assume(z3.And(self.T != bv(0), z3.ULE(self.j, maskOf(self.T)), z3.ULT(maskOf(self.T), bv(1 << 59))))
        self.need = z3.And(DHI(self.j) != bv(0, 61), z3.Extract(0, 0, DTAG(self.j)) == bv(0, 1))
        return st

    def owns_table(self, st, T):
        return True

    def own_read(self, st, T, names, ty):
        return None

    def heap_read(self, st, p, ty):
        kind, T, i = self.md.slot(st, p, 8)
        if kind != "ENTRY":
            raise Unsup("read of " + kind)
        self.md.bounds(st, T, i)
        st.g["cur"] = i
        return H(z3.Concat(DHI(i), DTAG(i)))

    def atomic_load(self, st, loc, o, dest, target):
        return None

    def at(self, st, i):
        ex = self.md.ex
        if ex.entails(st, i == self.j):
            return True
        if ex.entails(st, i != self.j):
            return False
        raise core.Split(simp(i == self.j))

    def box_from_raw(self, st, p):
        ex, m = self.md.ex, self.md.m
        i = st.g["cur"]
        if i is None:
            ex.violate(st, "C06", "an entry that is freed was read from the table")
            raise Infeasible()
        at = self.at(st, i)
        a = simp(ex.ptr_int(st, p))
        self.must(st, "C06", "an entry is freed by its untagged address", a == z3.Concat(DHI(i), bv(0, 3)))
        self.must(st, "C06", "a null slot is not freed", DHI(i) != bv(0, 61))
        self.must(st, "C06", "an entry that was copied is not freed with the old table", z3.Extract(0, 0, DTAG(i)) == bv(0, 1))
        boxes_freed(st, "C06", self, "an entry is freed")
        if at:
            self.must(st, "C06", "an entry is freed once", not st.g["freed"])
            st.g["freed"] = True
        et = m.t(ex.dty)["args"][0]
        fs = [Sym(f, fresh("field", Obj)) if m.size(f) else ex.zst(f) for f in m.fields(et)]
        return Ptr(("R", st.new_region(Agg(et, 0, fs))))

    def at_header(self, ex, st):
        st.g["cur"] = None
        boxes_freed(st, "C06", self, "an entry is freed")
        for r in [r for r, v in st.mem.items() if r[0] == "B" and v is FREED]:
            del st.mem[r]
        if not st.g["freed"] and ex.entails(st, z3.Not(self.need)):
            st.assume(simp(z3.Not(self.need)))
        elif not st.g["freed"] and ex.feasible(st, z3.Not(self.need)):
            pass
        Ctx.at_header(self, ex, st)

    def templates(self, ex, st):
        import loops
        import resize
        _, leaves = loops.skeleton(ex, st)
        j, out = self.j, []
        for t in leaves:
            if t.sort() == B64 and resize.is_flex(t):
                out += [z3.ULE(t, maskOf(self.T) + 1), z3.ULE(t, j), z3.UGT(t, j), z3.UGE(t, j), z3.ULT(t, j),
                        z3.Implies(z3.UGT(t, j), z3.Not(self.need))]
        return out

    def finish(self, ex, st, v):
        boxes_freed(st, "C06", self, "an entry is freed")
        if not st.g["freed"]:
            self.must(st, "C06", "every entry that was not copied is freed", z3.Not(self.need))


class DropTableCtx(Small):
    """drop_table: the deferred entries are retired, then the table is freed."""
    props = "C06"
    panic_props = "C06"
    specs = (
        (r"^papaya::raw::utils::stack::Stack::<T>::drain$", "drain"),
        (r"Collector::retire$", "c_retire"),
        (r"^papaya::raw::alloc::Table::<T>::dealloc$", "t_dealloc"),
    )

    def init(self, ex, inst):
        from contracts import mktab
        tys = self.argtys(inst)
        self.T = z3.Const("T", B64)
        st = self.begin(ex, inst, [mktab(self, tys[0], self.T), Ptr(("O", z3.Const("collector", Obj)))], drained=False, freed=False, owe=None)
        st.assume(self.T != bv(0))
        return st

    def owns_table(self, st, T):
        return True

    def own_read(self, st, T, names, ty):
        self.must(st, "C06", "a table is not accessed after it was freed", z3.And(T == self.T) if not st.g["freed"] else False)
        return None

    def drain(self, st, inst, args, dest, target):
        ex, m = self.md.ex, self.md.m
        q = ex.resolve(st, args[0])
        self.must(st, "C06", "the deferred entries of the table are drained",
                  q.root[0] == "H" and md_names(self.md, q) == ["state", "deferred"] and ex.entails(st, simp(q.root[1] + q.root[2]) == self.T))
        self.must(st, "C06", "the deferred entries are drained once, before the table is freed", not st.g["drained"] and not st.g["freed"])
        st.g["drained"] = True
        s = st.copy()
        out = self.ret(s, ex.zst(ex.dty), dest, target)
        ct = m.insts[inst]["body"]["locals"][2]
        ci = ex.closure_inst(ct)
        r = ("I", "drainf")
        st.mem[r] = args[1]
        v = z3.Const("deferred_entry", B64)
        st.g["owe"] = v
        cx, z = self, ex.zst(ex.dty)

        class Cont:
            def __init__(self, vals):
                self.vals = vals

            def key(self):
                return "drain"

            def remap(self, v):
                return Cont(v)

            def __call__(self, ex_, s, v, f):
                cx.must(s, "C06", "every deferred entry is retired", s.g["owe"] is None)
                return ex_.ret_to(s, z, self.vals[0], f.target)
        l1 = m.t(m.insts[ci]["body"]["locals"][1])
        ex.push_frame(st, ci, [Ptr(("R", r)) if l1.get("k") in ("ref", "ptr") else args[1], H(v)], dest, target, Cont((dest,)))
        return out + [st]

    def c_retire(self, st, inst, args, dest, target):
        ex = self.md.ex
        o = st.g["owe"]
        self.must(st, "C06", "a deferred entry is retired once", o is not None)
        self.must(st, "C06", "the entry that is retired is the one that was deferred", simp(ex.ptr_int(st, args[1]) == o))
        name = self.md.m.insts[args[2].inst]["name"] if isinstance(args[2], FnV) else "?"
        if "reclaim::boxed" not in name or "raw::Entry<" not in name:
            raise Unsup("retirement with " + name)
        self.must(st, "C06", "a deferred entry is retired to the map's collector", self.md.obj_term(st, args[0]).eq(z3.Const("collector", Obj)))
        st.g["owe"] = None
        return self.unit(st, inst, args, dest, target)

    def t_dealloc(self, st, inst, args, dest, target):
        v = args[0]
        m = self.md.m
        T = simp(self.md.ex.ptr_int(st, [x for k, x in enumerate(v.f) if m.field_name(v.ty, k) == "raw"][0]))
        self.must(st, "C06", "the table that is freed is the one that was given up", T == self.T)
        self.must(st, "C06", "a table is freed once, after its deferred entries were retired", st.g["drained"] and not st.g["freed"])
        mk = [x for k, x in enumerate(v.f) if m.field_name(v.ty, k) == "mask"][0]
        self.must(st, "C06,C11", "a table is freed with its length", mk == maskOf(self.T))
        st.g["freed"] = True
        return self.unit(st, inst, args, dest, target)

    def finish(self, ex, st, v):
        self.must(st, "C06", "the table is freed", st.g["freed"])


def md_names(md, q):
    return md.path_names(q.path)


class ReclaimCtx(Small):
    """The function a replaced table is retired with: frees the table, not its entries."""
    props = "C06"
    panic_props = "C06"
    specs = (
        (r"^papaya::raw::drop_entries$", "d_entries"),
        (r"^papaya::raw::drop_table$", "d_table"),
    )

    def init(self, ex, inst):
        self.T = z3.Const("T", B64)
        x = self.md.m.insts[inst]
        a = [H(self.T), Ptr(("O", z3.Const("collector", Obj)))]
        if len(self.argtys(inst)) == 3:
            a = [Ptr(("S", "capture-free closure"))] + a
        st = self.begin(ex, inst, a, freed=False)
        st.assume(self.T != bv(0))
        return st

    def owns_table(self, st, T):
        return True

    def own_read(self, st, T, names, ty):
        self.must(st, "C06", "a table is not accessed after it was freed", (T == self.T) if not st.g["freed"] else False)
        return None

    tab = MapDropCtx.tab

    def d_entries(self, st, inst, args, dest, target):
        self.md.ex.violate(st, "C06", "the entries of a replaced table live on in its successor and are not freed with it")
        raise Infeasible()

    def d_table(self, st, inst, args, dest, target):
        self.must(st, "C06", "the table that is freed is the one that was retired", self.tab(args[0]) == self.T)
        self.must(st, "C06", "a retired table is freed once", not st.g["freed"])
        m = self.md.m
        mk = [x for k, x in enumerate(args[0].f) if m.field_name(args[0].ty, k) == "mask"][0]
        self.must(st, "C06,C11", "a table is freed with its length", mk == maskOf(self.T))
        self.must(st, "C06", "the deferred entries of a table are retired to the map's collector", self.md.obj_term(st, args[1]).eq(z3.Const("collector", Obj)))
        st.g["freed"] = True
        return self.unit(st, inst, args, dest, target)

    def finish(self, ex, st, v):
        self.must(st, "C06", "a retired table is freed", st.g["freed"])


def reclaimers(m):
    """Functions with the signature of a reclaimer of tables."""
    out = []
    for i, x in enumerate(m.insts):
        if "body" not in x or not x["def"].startswith("papaya::"):
            continue
        b = x["body"]
        l = [m.t(t) for t in b["locals"][1:b["argc"] + 1]]
        if len(l) == 3 and x.get("closure"):
            l = l[1:]
        if len(l) == 2 and l[0]["s"] == "*mut papaya::raw::alloc::RawTable<papaya::raw::Entry<K, V>>" and l[1]["s"].endswith("seize::Collector"):
            out.append(i)
    return out

"""Symbolic executor for monomorphic MIR.

Values    z3 bit-vectors / booleans, Agg (struct, tuple, enum variant, array, closure), Ptr, Sym
          (abstract object of an opaque type), FnV (function pointer), UNINIT.
Newtypes  (structs with one non-zero-sized field, MaybeUninit, ManuallyDrop, atomics, Box) are
          erased: their value is the value of that field.
Loops     are cut at their headers; the invariant is computed by anti-unification of the arriving
          states plus Houdini filtering of the facts (see loops.py) and checked to be inductive.
"""
import time, sys
import z3


def _fast():
    """Cheaper z3 bindings: no error check after calls that cannot fail on a valid term, cached ids."""
    from z3 import z3core
    for n in ("get_ast_id", "get_ast_kind", "inc_ref", "dec_ref", "get_sort", "get_app_num_args", "get_app_arg", "get_app_decl",
              "get_decl_kind", "is_eq_ast", "get_sort_kind", "is_finite_sort", "to_app", "func_decl_to_ast", "sort_to_ast", "get_bool_value",
              "get_bv_sort_size", "get_decl_name", "get_symbol_string", "get_symbol_kind", "get_ast_hash"):
        f = getattr(z3core, "Z3_" + n, None)
        if f is not None and f.__defaults__:
            f.__defaults__[-1].Check = lambda ctx: None
    gid = z3core.Z3_get_ast_id

    def get_id(self):
        try:
            return self._id
        except AttributeError:
            self._id = r = gid(self.ctx.ref(), self.ast)
            return r
    z3.AstRef.get_id = get_id
    z3.ExprRef.get_id = get_id
    z3.AstRef.eq = lambda a, b: a is b or get_id(a) == get_id(b)


_fast()


Obj = z3.DeclareSort("Obj")
B64 = z3.BitVecSort(64)


class Unsup(Exception):
    """A construct outside the verifier's reach."""


class Infeasible(Exception):
    pass


class Agg:
    __slots__ = ("ty", "var", "f")

    def __init__(self, ty, var, f):
        self.ty, self.var, self.f = ty, var, tuple(f)

    def __repr__(self):
        return "Agg(%s,%s,%r)" % (self.ty, self.var, self.f)


class Ptr:
    __slots__ = ("root", "path", "meta")

    def __init__(self, root, path=(), meta=None):
        self.root, self.path, self.meta = root, tuple(path), meta

    def __repr__(self):
        return "Ptr(%r,%r%s)" % (self.root, self.path, "" if self.meta is None else ",meta=%r" % self.meta)

    def sub(self, e):
        return Ptr(self.root, self.path + (e,), None)


class Sym:
    __slots__ = ("ty", "t")

    def __init__(self, ty, t):
        self.ty, self.t = ty, t

    def __repr__(self):
        return "Sym(%s)" % (self.t,)


class FnV:
    __slots__ = ("inst",)

    def __init__(self, inst):
        self.inst = inst

    def __repr__(self):
        return "FnV(%s)" % self.inst


class _U:
    def __repr__(self):
        return "UNINIT"


UNINIT = _U()


def H(base, off=None):
    return Ptr(("H", base, bv(0) if off is None else off))


def bv(n, w=64):
    return z3.BitVecVal(n, w)


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def simp(t):
    return z3.simplify(t)


def isval(t):
    return z3.is_bv_value(t)


def ival(t):
    return t.as_long()


class Frame:
    __slots__ = ("inst", "bb", "si", "dest", "target", "cont", "line")

    def __init__(self, inst, dest, target, cont=None):
        self.inst, self.bb, self.si, self.dest, self.target, self.cont, self.line = inst, 0, 0, dest, target, cont, 0

    def copy(self):
        f = Frame(self.inst, self.dest, self.target, self.cont)
        f.bb, f.si, f.line = self.bb, self.si, self.line
        return f


class State:
    def __init__(self):
        self.frames, self.mem, self.pc, self.pcs, self.g, self.log, self.anc, self.trace = [], {}, [], set(), {}, (), {}, None
        self.nreg = 0
        self.dead = False

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.pcs = set(self.pcs)
        s.g = dict(self.g)
        s.log = self.log
        s.anc = dict(self.anc)
        s.trace = self.trace
        s.nreg = self.nreg
        s.dead = False
        return s

    def note(self, txt):
        self.trace = (self.trace, txt)

    def assume(self, c):
        if z3.is_true(c):
            return
        if z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return
        i = c.get_id()
        if i in self.pcs:
            return
        self.pcs.add(i)
        self.pc.append(c)

    def new_region(self, v):
        r = ("B", self.nreg)
        self.nreg += 1
        self.mem[r] = v
        return r


_fresh = [0]


def fresh(name, sort):
    _fresh[0] += 1
    return z3.Const("%s!%d" % (name, _fresh[0]), sort)


class Solver:
    """Incremental solver that follows the fact list of the state being queried."""
    want_model = False

    def __init__(self, axioms):
        self.axioms = axioms
        self.s = None
        self.reset()
        self.n = 0
        self.time = 0.0
        self.cache = {}
        self.keep = []

    def reset(self):
        self.s = z3.SolverFor("QF_UFBV") if False else z3.Solver()
        self.s.set("timeout", 20000)
        self.stack = []  # list of (fact id, seen axiom ids added at this level)
        self.seen = [set()]

    def sync(self, pc):
        i = 0
        st = self.stack
        while i < len(st) and i < len(pc) and st[i] == pc[i].get_id():
            i += 1
        k = len(st) - i
        if k:
            self.s.pop(k)
            del st[i:]
            del self.seen[i + 1:]
        for f in pc[i:]:
            self.s.push()
            st.append(f.get_id())
            self.keep.append(f)
            new = set()
            self.s.add(f)
            self._ax(f, new)
            self.seen.append(new)

    def _ax(self, f, new):
        for a in self.axioms(f):
            i = a.get_id()
            if i in new or any(i in x for x in self.seen):
                continue
            new.add(i)
            self.s.add(a)

    def sat(self, pc, extra):
        """z3.sat / z3.unsat / z3.unknown for pc and extra."""
        key = (tuple(f.get_id() for f in pc), tuple(e.get_id() for e in extra))
        r = self.cache.get(key)
        if r is not None:
            return r
        t0 = time.time()
        self.sync(pc)
        self.s.push()
        new = set()
        for e in extra:
            self.keep.append(e)
            self.s.add(e)
            self._ax(e, new)
        r = self.s.check()
        self.model = self.s.model() if r == z3.sat and self.want_model else None
        self.s.pop()
        self.n += 1
        self.time += time.time() - t0
        self.cache[key] = r
        return r


    def patient(self, pc, c):
        """A second attempt without the incremental stack."""
        s = z3.Solver()
        s.set("timeout", 60000)
        for f in list(pc) + [c]:
            s.add(f)
            for a in self.axioms(f):
                s.add(a)
        return s.check()


class Engine:
    """Executes MIR; `model` supplies externals, shared memory and contracts."""

    def __init__(self, mir, model):
        self.m, self.model = mir, model
        self.solver = Solver(model.axioms)
        self.obl = []          # (props, name, ok, detail)
        self.unsup = []
        self.loops = {}
        self.work = []
        self.steps = 0
        self.paths = self.vacuous = 0
        self.ctx = None
        self.deadline = None
        self.funcs = set()     # functions whose bodies were executed
        self.trusted = set()   # functions replaced by a model or a contract
        self.unknown = 0
        model.ex = self

    # ---- logic -------------------------------------------------------------------------------
    def feasible(self, st, c=None):
        extra = []
        if c is not None:
            c = simp(c)
            if z3.is_false(c):
                return False
            if z3.is_true(c) or c.get_id() in st.pcs:
                return True
            extra = [c]
        return self.solver.sat(st.pc, extra) != z3.unsat

    def entails(self, st, c):
        c = simp(c)
        if z3.is_true(c) or c.get_id() in st.pcs:
            return True
        if z3.is_and(c):
            return all(self.entails(st, x) for x in c.children())
        return self.solver.sat(st.pc, [simp(z3.Not(c))]) == z3.unsat

    def refuter(self, st):
        """A test that says False for formulas refuted by one model of the state's facts (such a
        formula is not entailed); True means unknown."""
        sv = self.solver
        sv.sync(st.pc)
        if sv.s.check() != z3.sat:
            return lambda c: True
        mdl = sv.s.model()
        def may(c):
            if not z3.is_false(mdl.eval(c, model_completion=True)):
                return True
            # a model that breaks an axiom about a term of c refutes nothing
            return any(z3.is_false(mdl.eval(a, model_completion=True)) for a in sv.axioms(c))
        return may

    def oblige(self, st, props, name, c):
        """Proof obligation: c must follow from the facts of the state; assumed afterwards."""
        ok = self.entails(st, c)
        if not ok and self.solver.sat(st.pc, [simp(z3.Not(c))]) == z3.unknown:
            r = self.solver.patient(st.pc, simp(z3.Not(c)))
            if r == z3.unknown:
                self.unknown += 1
                raise Unsup("no answer from the solver for: " + name)
            ok = r == z3.unsat
        self.record(st, props, name, ok, c)
        if not ok:
            if z3.is_false(simp(c)) or not self.feasible(st, c):
                raise Infeasible()
        st.assume(simp(c))
        return ok

    def record(self, st, props, name, ok, c=None):
        if isinstance(props, str):
            props = tuple(props.split(","))
        f = st.frames[-1] if st.frames else None
        where = ""
        if f is not None:
            for fr in reversed(st.frames):
                x = self.m.insts[fr.inst]
                if "papaya" in x["def"] and "body" in x:
                    where = "%s line %s" % (x["def"], fr.line)
                    break
        d = None
        if not ok:
            d = self.describe(st, name, where, c)
        self.obl.append((tuple(sorted(set(props))), name, ok, where, d))

    def violate(self, st, props, name):
        """An obligation that is false in this (feasible) state."""
        if not self.feasible(st):
            raise Infeasible()
        self.record(st, props, name, False)

    def describe(self, st, name, where, c):
        out = ["obligation: " + name, "at: " + where]
        if c is not None:
            out.append("formula: %s" % str(c)[:600])
        t, tr = st.trace, []
        while t and len(tr) < 60:
            tr.append(t[1])
            t = t[0]
        out.append("path:")
        out += ["  " + x for x in reversed(tr)]
        out.append("facts:")
        out += ["  " + str(f).replace("\n", " ")[:220] for f in st.pc[-60:]]
        try:
            self.solver.cache.clear()
            self.solver.want_model = True
            r = self.solver.sat(st.pc, [simp(z3.Not(c))] if c is not None else [])
            out.append("solver: %s" % r)
            if r == z3.sat and self.solver.model is not None:
                out.append("counterexample: " + str(self.solver.model)[:1500])
        except z3.Z3Exception:
            pass
        return "\n".join(out)

    # ---- memory ------------------------------------------------------------------------------
    def resolve(self, st, p):
        """Normalise a pointer: a region pointer that passes through an abstract object becomes a
        pointer to that object."""
        if p.root[0] != "R":
            return p
        v = st.mem.get(p.root[1], UNINIT)
        for n, e in enumerate(p.path):
            if isinstance(v, Sym):
                return Ptr(("O", v.t), p.path[n:], p.meta)
            if isinstance(v, Agg):
                v = self._step(v, e)
            elif e[0] == "Z":
                continue
            else:
                return p
        if isinstance(v, Sym) and self.model.shared_sym(v):
            return Ptr(("O", v.t), (), p.meta)
        return p

    def _step(self, v, e):
        if e[0] == "V":
            if v.var != e[1]:
                raise Unsup("variant mismatch in projection")
            return v
        if e[0] == "F":
            return v.f[e[1]]
        if e[0] == "I":
            i = e[1]
            if not isval(i):
                raise Unsup("symbolic array index")
            return v.f[ival(i)]
        if e[0] == "Z":
            return v
        raise Unsup("projection %r" % (e,))

    def read(self, st, p, ty):
        if self.m.size(ty) == 0 and self.m.t(ty).get("k") not in ("array",) and not self.m.opaque(self.m.core(ty)):
            return self.zst(ty)
        p = self.resolve(st, p)
        if p.root[0] == "R":
            if p.root[1] not in st.mem:
                raise Unsup("read of unknown region %r" % (p,))
            v = st.mem[p.root[1]]
            if v is FREED:
                self.oblige(st, "C06", "no access to freed memory", FALSE)
            for e in p.path:
                if e[0] == "Z":
                    return self.zst(ty)
                if v is UNINIT:
                    break
                if not isinstance(v, Agg):
                    raise Unsup("projection into %r by %r" % (v, e))
                v = self._step(v, e)
            return v
        return self.model.read(st, p, ty)

    def write(self, st, p, v):
        p = self.resolve(st, p)
        if p.root[0] == "R":
            rid = p.root[1]
            if st.mem.get(rid) is FREED:
                self.oblige(st, "C06", "no access to freed memory", FALSE)
            if rid in st.g.get("published", ()):
                self.oblige(st, "C13,C06", "published entry is not written", FALSE)
            if not p.path:
                st.mem[rid] = v
            else:
                st.mem[rid] = self._upd(st.mem.get(rid, UNINIT), p.path, v)
            return
        self.model.write(st, p, v)

    def _upd(self, old, path, v):
        if not path:
            return v
        e = path[0]
        if e[0] == "Z":
            return old
        if e[0] == "V":
            if isinstance(old, Agg) and old.var == e[1]:
                return self._upd(old, path[1:], v)
            # building a variant field by field
            n = len(self.m.fields(e[2], e[1]))
            return self._upd(Agg(e[2], e[1], [UNINIT] * n), path[1:], v)
        if old is UNINIT and e[0] == "F":
            old = Agg(e[2], 0, [UNINIT] * max(len(self.m.fields(e[2])), e[1] + 1))
        if not isinstance(old, Agg):
            raise Unsup("write into %r at %r" % (old, path))
        if e[0] == "F":
            i = e[1]
        elif e[0] == "I" and isval(e[1]):
            i = ival(e[1])
        else:
            raise Unsup("write at %r" % (e,))
        f = list(old.f)
        f[i] = self._upd(f[i], path[1:], v)
        return Agg(old.ty, old.var, f)

    def zst(self, ty):
        t = self.m.t(ty)
        k = t.get("k")
        if k in ("struct", "tuple", "closure"):
            return Agg(ty, 0, [self.zst(f) for f in self.m.fields(ty)])
        if k == "enum":
            return Agg(ty, 0, [])
        return Agg(ty, 0, ())

    # ---- places and operands -----------------------------------------------------------------
    def local(self, st, l):
        return Ptr(("R", ("L", len(st.frames) - 1, l)))

    def place(self, st, pl):
        """-> (pointer, type id)"""
        m = self.m
        f = st.frames[-1]
        ty = m.insts[f.inst]["body"]["locals"][pl[0]]
        p = self.local(st, pl[0])
        variant = 0
        for e in pl[1]:
            if e[0] == "D":
                v = self.read(st, p, ty)
                c = m.t(ty)
                if c.get("box"):
                    ty = c["args"][0]
                else:
                    ty = m.t(m.core(ty))["elem"]
                if v is UNINIT:
                    raise Unsup("dereference of uninitialised pointer")
                if not isinstance(v, Ptr):
                    raise Unsup("dereference of %r" % (v,))
                p = self.deref(st, v, ty)
                variant = 0
            elif e[0] == "F":
                t = m.t(ty)
                mf = m.main_field(ty) if t.get("k") in ("struct", "union") else None
                if t.get("k") == "pat":
                    pass
                elif mf is not None:
                    if mf != e[1]:
                        p = p.sub(("Z",))
                elif t.get("k") == "union":
                    raise Unsup("union field of " + t["s"])
                else:
                    p = p.sub(("F", e[1], ty))
                ty = e[2]
                variant = 0
            elif e[0] == "V":
                p = p.sub(("V", e[1], ty))
            elif e[0] == "I":
                i = self.read(st, self.local(st, e[1]), m.insts[f.inst]["body"]["locals"][e[1]])
                ety = m.t(ty)["elem"]
                p = self.index(st, p, i, ty)
                ty = ety
            elif e[0] == "C":
                ety = m.t(ty)["elem"]
                if e[3]:
                    raise Unsup("constant index from end")
                p = self.index(st, p, bv(e[1]), ty)
                ty = ety
            else:
                raise Unsup("projection " + e[0])
        return p, ty

    def deref(self, st, v, ty):
        return v

    def index(self, st, p, i, ty):
        if p.root[0] == "H" and not p.path:
            return Ptr(("H", p.root[1], simp(p.root[2] + i * bv(self.m.size(self.m.t(ty)["elem"])))), ())
        return Ptr(p.root, p.path + (("I", i),), None)

    def operand(self, st, o):
        k = o[0]
        if k in ("cp", "mv"):
            p, ty = self.place(st, o[1])
            v = self.read(st, p, ty)
            if v is UNINIT and k == "cp" and self.m.size(ty) != 0:
                raise Unsup("copy of uninitialised value %s" % (o,))
            return v
        if k == "const":
            return self.const(o[1], o[2])
        if k == "rc":
            return FALSE
        raise Unsup("operand " + k)

    def optype(self, st, o):
        if o[0] in ("cp", "mv"):
            m = self.m
            ty = m.insts[st.frames[-1].inst]["body"]["locals"][o[1][0]]
            for e in o[1][1]:
                if e[0] == "D":
                    c = m.t(ty)
                    ty = c["args"][0] if c.get("box") else m.t(m.core(ty))["elem"]
                elif e[0] == "F":
                    ty = e[2]
                elif e[0] in ("I", "C"):
                    ty = m.t(ty)["elem"]
            return ty
        return o[1]

    def const(self, ty, a):
        if a is None:
            return self.zst(ty)
        if a.get("unk"):
            raise Unsup("constant")
        return self.decode(ty, a["bytes"], {o: p for o, p in a["prov"]}, 0)

    def variant(self, t, hx, prov, off):
        """the variant a constant of an enum type encodes, from its layout"""
        tag = t.get("tag")
        if not tag:
            return t.get("single")
        o, n, niche = off + tag[0], tag[1], tag[2]
        if o in prov:
            return niche[0] if niche else None
        raw = hx[2 * o: 2 * (o + n)]
        if not raw or "_" in raw:
            return None
        v = int.from_bytes(bytes.fromhex(raw), "little")
        if niche:
            d = (v - int(niche[3])) % (1 << (8 * n)) + niche[1]
            return d if niche[1] <= d <= niche[2] else niche[0]
        for i, w in enumerate(t["variants"]):
            if int(w["discr"]) % (1 << (8 * n)) == v:
                return i
        return None

    def decode(self, ty, hx, prov, off):
        m = self.m
        ty0 = ty
        ty = m.core(ty)
        t = m.t(ty)
        k = t.get("k")
        raw = hx[2 * off: 2 * (off + (t.get("size") or 0))]
        if k in ("int", "char"):
            if "_" in raw:
                return UNINIT
            return bv(int.from_bytes(bytes.fromhex(raw), "little"), m.bits(ty))
        if k == "bool":
            return z3.BoolVal(raw != "00")
        if k in ("ptr", "ref", "fnptr"):
            if off in prov:
                a = m.allocs[prov[off]]
                if a["k"] == "fn":
                    return FnV(a["inst"])
                meta = None
                if t.get("size") == 16:
                    meta = bv(int.from_bytes(bytes.fromhex(raw[16:32]), "little"))
                return Ptr(("C", prov[off]), (), meta)
            n = int.from_bytes(bytes.fromhex(raw[:16]), "little")
            return H(bv(n))
        if k in ("struct", "tuple", "closure"):
            fs = m.fields(ty)
            offs = t.get("offsets") or [0] * len(fs)
            return Agg(ty, 0, [self.zst(f) if m.size(f) == 0 else self.decode(f, hx, prov, off + offs[i]) for i, f in enumerate(fs)])
        if k == "array":
            es = m.size(t["elem"])
            return Agg(ty, 0, [self.decode(t["elem"], hx, prov, off + i * es) for i in range(t["len"])])
        if k == "enum":
            if all(not v["fields"] for v in t["variants"]):
                n = int.from_bytes(bytes.fromhex(raw), "little") if raw else 0
                bits = 8 * (t.get("size") or 0)
                for i, v in enumerate(t["variants"]):
                    if int(v["discr"]) % (1 << bits if bits else 1) == n:
                        return Agg(ty, i, [])
            i = self.variant(t, hx, prov, off)
            if i is not None:
                vo = t["voffs"][i] if t.get("voffs") else t.get("offsets") or [0] * 64
                return Agg(ty, i, [self.zst(f[1]) if m.size(f[1]) == 0 else self.decode(f[1], hx, prov, off + vo[j])
                                   for j, f in enumerate(t["variants"][i]["fields"])])
        if m.opaque(ty):
            return Sym(ty, z3.Const("const_%s_%s" % (ty, raw), Obj))
        raise Unsup("constant of type " + m.ts(ty0))

    # ---- pointers as integers ----------------------------------------------------------------
    def ptr_int(self, st, p):
        if p.root[0] == "H":
            if p.path:
                return self.model.loc_addr(st, p)
            return simp(p.root[1] + p.root[2])
        q = self.resolve(st, p)
        if q.root[0] == "R" and not q.path and q.root[1][0] == "B":
            return self.region_addr(st, q.root[1])
        return self.model.loc_addr(st, q)

    def region_addr(self, st, rid):
        a = st.g.get(("addr", rid))
        if a is None:
            hi = fresh("own", z3.BitVecSort(61))
            a = z3.Concat(hi, bv(0, 3))
            st.g[("addr", rid)] = a
            st.assume(hi != bv(0, 61))
        return a

    def int_ptr(self, st, n):
        n = simp(n)
        for k, a in list(st.g.items()):
            if isinstance(k, tuple) and k[0] == "addr" and a.eq(n):
                return Ptr(("R", k[1]))
        return H(n)

    # ---- statements --------------------------------------------------------------------------
    def rvalue(self, st, rv, dty):
        m = self.m
        k = rv[0]
        if k == "use":
            return self.operand(st, rv[1])
        if k in ("ref", "addr"):
            p, _ = self.place(st, rv[1])
            return p
        if k == "agg":
            return self.aggregate(st, rv)
        if k in ("bin", "chk"):
            a, b = self.operand(st, rv[2]), self.operand(st, rv[3])
            return self.binop(st, k, rv[1], a, b, self.optype(st, rv[2]), dty)
        if k == "un":
            a = self.operand(st, rv[2])
            if rv[1] == "Not":
                return simp(z3.Not(a)) if z3.is_bool(a) else simp(~a)
            if rv[1] == "Neg":
                return simp(-a)
            if rv[1] == "PtrMetadata":
                if a.meta is None:
                    return self.zst(dty)
                return a.meta
            raise Unsup("unary " + rv[1])
        if k == "cast":
            if len(rv) > 4 and rv[4] is not None:
                return FnV(rv[4])  # a function item or closure as a function pointer
            return self.cast(st, rv[1], self.operand(st, rv[2]), self.optype(st, rv[2]), rv[3])
        if k == "discr":
            p, ty = self.place(st, rv[1])
            v = self.read(st, p, ty)
            return self.discr(st, v, ty, dty)
        if k == "len":
            p, ty = self.place(st, rv[1])
            t = m.t(ty)
            if t["k"] == "array":
                return bv(t["len"])
            if p.meta is not None:
                return p.meta
            raise Unsup("len")
        if k == "repeat":
            v = self.operand(st, rv[1])
            return Agg(dty, 0, [v] * rv[2])
        raise Unsup("rvalue " + k)

    def discr(self, st, v, ty, dty):
        m = self.m
        if isinstance(v, Sym):
            raise NeedFork(v)
        if not isinstance(v, Agg):
            raise Unsup("discriminant of %r" % (v,))
        n = m.discr_of(m.core(ty), v.var)
        return bv(n, m.bits(dty) if m.is_int(dty) else 64)

    def aggregate(self, st, rv):
        m = self.m
        kd = rv[1]
        ops = [self.operand(st, o) for o in rv[2]]
        if kd[0] == "tuple":
            return Agg(("tuple", tuple(self.optype(st, o) for o in rv[2])), 0, ops)
        if kd[0] == "array":
            return Agg(("array", kd[1]), 0, ops)
        if kd[0] == "closure":
            return Agg(kd[1], 0, ops)
        if kd[0] == "rawptr":
            p = ops[0]
            return Ptr(p.root, p.path, ops[1] if not isinstance(ops[1], Agg) else None)
        if kd[0] == "adt":
            ty = kd[1]
            t = m.t(ty)
            if t["k"] == "union":
                if kd[3] is not None and m.main_field(ty) == kd[3]:
                    return ops[0]
                return UNINIT
            mf = m.main_field(ty)
            if mf is not None:
                return ops[mf]
            return Agg(ty, kd[2], ops)
        raise Unsup("aggregate " + str(kd))

    def binop(self, st, k, op, a, b, ty, dty):
        m = self.m
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, FnV):
            return self.ptrop(st, op, a, b, ty)
        if op in ("Eq", "Ne") and isinstance(a, Agg):
            raise Unsup("comparison of aggregates")
        if z3.is_bool(a):
            r = {"Eq": lambda: a == b, "Ne": lambda: z3.Xor(a, b), "BitAnd": lambda: z3.And(a, b), "BitOr": lambda: z3.Or(a, b),
                 "BitXor": lambda: z3.Xor(a, b), "Lt": lambda: z3.And(z3.Not(a), b), "Gt": lambda: z3.And(a, z3.Not(b)),
                 "Le": lambda: z3.Or(z3.Not(a), b), "Ge": lambda: z3.Or(a, z3.Not(b))}[op]()
            return simp(r)
        if not z3.is_bv(a) or not z3.is_bv(b):
            raise Unsup("operator %s on %r, %r" % (op, a, b))
        sg = m.signed(m.core(ty)) if m.is_int(m.core(ty)) else False
        w = a.size()
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked") and b.size() != w:
            b = z3.ZeroExt(w - b.size(), b) if b.size() < w else z3.Extract(w - 1, 0, b)
        if op.startswith("Shl") or op.startswith("Shr"):
            b = b & bv(w - 1, w)
        f = {
            "Eq": lambda: a == b, "Ne": lambda: z3.Not(a == b),
            "Lt": lambda: (a < b) if sg else z3.ULT(a, b), "Le": lambda: (a <= b) if sg else z3.ULE(a, b),
            "Gt": lambda: (a > b) if sg else z3.UGT(a, b), "Ge": lambda: (a >= b) if sg else z3.UGE(a, b),
            "BitAnd": lambda: self.model.bvand(st, a, b), "BitOr": lambda: a | b, "BitXor": lambda: a ^ b,
            "Shl": lambda: a << b, "Shr": lambda: (a >> b) if sg else z3.LShR(a, b),
            "ShlUnchecked": lambda: a << b, "ShrUnchecked": lambda: (a >> b) if sg else z3.LShR(a, b),
            "Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b,
            "AddUnchecked": lambda: a + b, "SubUnchecked": lambda: a - b, "MulUnchecked": lambda: a * b,
            "Div": lambda: (a / b) if sg else z3.UDiv(a, b), "Rem": lambda: z3.SRem(a, b) if sg else z3.URem(a, b),
            "Cmp": None,
        }.get(op)
        if f is None:
            raise Unsup("operator " + op)
        r = simp(f())
        if k == "chk":
            ov = self.overflow(op, a, b, sg)
            return Agg(("tuple", None), 0, [r, simp(ov)])
        return r

    def overflow(self, op, a, b, sg):
        if op == "Add":
            return z3.Not(z3.And(z3.BVAddNoOverflow(a, b, sg), z3.BVAddNoUnderflow(a, b) if sg else TRUE))
        if op == "Sub":
            return z3.Not(z3.And(z3.BVSubNoUnderflow(a, b, sg), z3.BVSubNoOverflow(a, b) if sg else TRUE))
        if op == "Mul":
            return z3.Not(z3.And(z3.BVMulNoOverflow(a, b, sg), z3.BVMulNoUnderflow(a, b) if sg else TRUE))
        raise Unsup("checked " + op)

    def ptrop(self, st, op, a, b, ty):
        if op == "Offset":
            el = self.m.t(self.m.core(ty))["elem"]
            sz = self.m.size(el)
            if a.root[0] == "H" and not a.path:
                off = simp(a.root[2] + b * bv(sz))
                return Ptr(("H", a.root[1], off), (), a.meta)
            if a.path and a.path[-1][0] == "I":
                return Ptr(a.root, a.path[:-1] + (("I", simp(a.path[-1][1] + b)),), a.meta)
            raise Unsup("pointer arithmetic on %r" % (a,))
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, FnV):
                raise Unsup("function pointer comparison")
            if op in ("Eq", "Ne") and a.root[0] == b.root[0] == "R" and a.root == b.root and repr(a.path) == repr(b.path):
                return TRUE if op == "Eq" else FALSE
            x, y = self.ptr_int(st, a), self.ptr_int(st, b)
            r = {"Eq": lambda: x == y, "Ne": lambda: z3.Not(x == y), "Lt": lambda: z3.ULT(x, y), "Le": lambda: z3.ULE(x, y),
                 "Gt": lambda: z3.UGT(x, y), "Ge": lambda: z3.UGE(x, y)}[op]()
            return simp(r)
        raise Unsup("pointer operator " + op)

    def cast(self, st, kind, v, fty, tty):
        m = self.m
        fc, tc = m.core(fty), m.core(tty)
        ft, tt = m.t(fc), m.t(tc)
        if kind == "IntToInt":
            if z3.is_bool(v):
                return z3.simplify(z3.If(v, bv(1, m.bits(tc)), bv(0, m.bits(tc))))
            if isinstance(v, Agg):
                v = bv(m.discr_of(fc, v.var) % (1 << m.bits(tc)), m.bits(tc))
                return v
            w, n = v.size(), m.bits(tc)
            if n == w:
                return v
            if n < w:
                return simp(z3.Extract(n - 1, 0, v))
            return simp(z3.SignExt(n - w, v) if m.signed(fc) else z3.ZeroExt(n - w, v))
        if kind == "PointerExposeAddress":
            return self.ptr_int(st, v)
        if kind == "PointerWithExposedProvenance":
            return self.int_ptr(st, v)
        if kind in ("PtrToPtr", "BoxDerefTransmute") or kind.startswith("PointerCoercion(MutToConstPointer") or kind.startswith("PointerCoercion(ArrayToPointer"):
            if isinstance(v, Ptr) and v.meta is not None and m.size(tc) == 8:
                if v.root[0] == "S":
                    return Ptr(v.root, v.path + (("I", bv(0)),))
                return Ptr(v.root, v.path)
            return v
        if kind.startswith("PointerCoercion(ReifyFnPointer"):
            return FnV(self.fn_inst(fty))
        if kind.startswith("PointerCoercion(ClosureFnPointer"):
            return FnV(self.closure_inst(fty))
        if kind.startswith("PointerCoercion(UnsafeFnPointer"):
            return v
        if kind.startswith("PointerCoercion(Unsize"):
            et = m.t(m.t(fc)["elem"]) if "elem" in m.t(fc) else {}
            if et.get("k") == "array":
                return Ptr(v.root, v.path, bv(et["len"]))
            return v
        if kind.startswith("Transmute"):
            if fc == tc or (ft.get("k") == tt.get("k") and isinstance(v, (Agg, Sym))):
                return v
            if isinstance(v, Ptr) and tt.get("k") in ("ptr", "ref"):
                return v
            if isinstance(v, Ptr) and tt.get("k") == "int":
                return self.ptr_int(st, v)
            if not isinstance(v, (Agg, Ptr, Sym, FnV)) and v is not UNINIT and tt.get("k") in ("ptr", "ref"):
                return self.int_ptr(st, v)
            if not isinstance(v, (Agg, Ptr, Sym, FnV)) and tt.get("k") == "int":
                return v
            if isinstance(v, FnV):
                return v
            if z3.is_bv(v) and tt.get("def") == "std::option::Option" and m.t(m.core(tt["args"][0])).get("k") == "int" and m.size(tc) * 8 == v.size():
                # an optional non-zero integer, where it is known whether it is zero
                if self.entails(st, v != 0):
                    return Agg(tc, 1, (v,))
                if self.entails(st, v == 0):
                    return Agg(tc, 0, ())
            raise Unsup("transmute %s -> %s" % (m.ts(fty), m.ts(tty)))
        raise Unsup("cast " + kind)

    def fn_inst(self, ty):
        """Instance behind a function item type: matched by the type's printed path."""
        m = self.m
        if not hasattr(self, "_fnmap"):
            self._fnmap = {}
            for i, x in enumerate(m.insts):
                self._fnmap.setdefault((x["def"], tuple(x["args"])), i)
        t = m.t(ty)
        i = self._fnmap.get((t["def"], tuple(t.get("args", []))))
        if i is None:
            c = m.by_def.get(t["def"], [])
            if len(c) == 1:
                return c[0]
            raise Unsup("function item " + t["s"])
        return i

    def closure_inst(self, ty, never=False):
        """The body of a closure; with `never`, None if the program never calls it (the compiler made no instance)."""
        m = self.m
        t = m.t(ty)
        c = [i for i in m.by_def.get(t["def"], [])]
        ok = []
        for i in c:
            b = m.insts[i].get("body")
            if not b or not m.insts[i].get("closure"):
                continue
            l1 = b["locals"][1]
            if l1 == ty or m.t(l1).get("elem") == ty:
                ok.append(i)
        if len(ok) == 1:
            return ok[0]
        if len(c) == 1:
            return c[0]
        if never and not c:
            return None
        raise Unsup("closure instance " + t["s"])

    # ---- control -----------------------------------------------------------------------------
    def push_frame(self, st, inst, args, dest, target, cont=None):
        x = self.m.insts[inst]
        b = x["body"]
        if len(st.frames) > 60:
            raise Unsup("call depth")
        st.frames.append(Frame(inst, dest, target, cont))
        d = len(st.frames) - 1
        if b["spread"] is not None:
            # last argument is a tuple to be spread over the remaining locals: it stays a tuple local
            pass
        n = b["argc"]
        if x.get("closure") and len(args) == 2 and isinstance(args[1], Agg) and isinstance(args[1].ty, tuple) or \
                x.get("closure") and len(args) == 2 and isinstance(args[1], Agg) and not isinstance(args[1].ty, tuple) and \
                self.m.t(args[1].ty).get("k") == "tuple":
            args = [args[0]] + list(args[1].f)
        if len(args) != n:
            if args and isinstance(args[-1], Agg) and len(args) - 1 + len(args[-1].f) == n:
                args = list(args[:-1]) + list(args[-1].f)
            else:
                raise Unsup("argument count for " + x["name"])
        for l in range(len(b["locals"])):
            st.mem[("L", d, l)] = UNINIT
        for i, a in enumerate(args):
            st.mem[("L", d, i + 1)] = a

    def pop_frame(self, st):
        d = len(st.frames) - 1
        f = st.frames[-1]
        v = st.mem.get(("L", d, 0), UNINIT)
        rty = self.m.insts[f.inst]["body"]["locals"][0]
        if v is UNINIT and self.m.size(rty) == 0:
            v = self.zst(rty)
        for k in [k for k in st.mem if k[0] == "L" and k[1] == d]:
            del st.mem[k]
        st.frames.pop()
        return f, v

    def ret_to(self, st, v, dest, target):
        """Deliver a call result to the current top frame."""
        if target is None:
            raise Infeasible()
        if dest is not None:
            self.write(st, dest, v)
        f = st.frames[-1]
        self.goto(st, target)
        return [st]

    def goto(self, st, bb):
        f = st.frames[-1]
        f.bb, f.si = bb, 0

    def run(self, init):
        import loops
        self.work = [init] if isinstance(init, State) else list(init)
        while self.work:
            if self.deadline and time.time() > self.deadline:
                self.unsup.append("time limit reached")
                return
            # deepest loops first, so that invariants settle before code after the loop is explored
            st = self.work.pop()
            if loops.superseded(self, st):
                continue
            try:
                self.explore(st)
            except Infeasible:
                pass
            except Unsup as e:
                if self.feasible_safe(st):
                    fr = st.frames[-1] if st.frames else None
                    w = "%s line %s" % (self.m.insts[fr.inst]["name"][:90], fr.line) if fr else ""
                    self.unsup.append("%s (%s)" % (e, w))
                    if getattr(self, "debug", False):
                        import traceback
                        traceback.print_exc()

    def feasible_safe(self, st):
        try:
            return self.feasible(st)
        except Exception:
            return True

    def explore(self, st):
        import loops
        m = self.m
        while True:
            self.steps += 1
            if self.steps % 5000 == 0 and self.deadline and time.time() > self.deadline:
                raise Unsup("time limit reached")
            f = st.frames[-1]
            bl = m.insts[f.inst]["body"]["blocks"][f.bb]
            if f.si == 0 and f.bb in m.loop_headers(f.inst):
                if not loops.arrive(self, st):
                    return
                f = st.frames[-1]
            stmts, term, tline = bl[0], bl[1], bl[2]
            while f.si < len(stmts):
                s = stmts[f.si]
                if s[0] == "=":
                    if s[3]:
                        f.line = s[3]
                    p, ty = self.place(st, s[1])
                    v = self.rvalue(st, s[2], ty)
                    self.write(st, p, v)
                elif s[0] in ("live", "dead"):
                    k = ("L", len(st.frames) - 1, s[1])
                    st.mem[k] = UNINIT
                elif s[0] == "assume":
                    pass
                elif s[0] == "sd":
                    raise Unsup("set discriminant")
                elif s[0] == "cno":
                    raise Unsup("copy_nonoverlapping")
                f.si += 1
            if tline:
                f.line = tline
            out = self.terminator(st, term)
            if out is None:
                continue
            out = [s for s in out if not s.dead]
            if not out:
                return
            for s in out[:-1]:
                self.work.append(s)
            if len(out) > 1:
                self.work.append(out[-1])
                return
            st = out[0]

    def terminator(self, st, t):
        m = self.m
        k = t[0]
        if k == "goto":
            self.goto(st, t[1])
            return None
        if k == "switch":
            v = self.operand(st, t[1])
            return self.switch(st, v, t)
        if k == "ret":
            f, v = self.pop_frame(st)
            if f.cont is not None:
                return f.cont(self, st, v, f)
            if not st.frames:
                self.finish(st, v)
                return []
            return self.ret_to(st, v, f.dest, f.target)
        if k == "unreachable":
            self.model.on_unreachable(st)
            return []
        if k == "assert":
            c = self.operand(st, t[1])
            if not t[2]:
                c = simp(z3.Not(c))
            if not self.entails(st, c):
                bad = st.copy()
                bad.assume(simp(z3.Not(c)))
                if self.feasible(bad):
                    self.model.on_panic(bad, "assert " + t[3])
                st.assume(c)
            else:
                self.model.count_ok(st, "no panic: " + t[3])
            self.goto(st, t[4])
            return None
        if k == "drop":
            p, ty = self.place(st, t[1])
            if t[3] is None:
                self.goto(st, t[4])
                return None
            return self.model.drop(st, p, t[2], t[3], t[4])
        if k == "call":
            return self.call(st, t)
        if k in ("resume", "abort"):
            raise Infeasible()
        raise Unsup("terminator " + k)

    def switch(self, st, v, t):
        if z3.is_bool(v):
            ty_bool = True
        else:
            ty_bool = False
        if z3.is_true(v) or z3.is_false(v) or (not ty_bool and isval(v)):
            n = (1 if z3.is_true(v) else 0) if ty_bool else ival(v)
            for val, bb in t[3]:
                w = 1 if ty_bool else v.size()
                if int(val) % (1 << max(w, 1)) == n:
                    self.goto(st, bb)
                    return None
            self.goto(st, t[4])
            return None
        out = []
        rest = []
        for val, bb in t[3]:
            c = (v if int(val) else z3.Not(v)) if ty_bool else (v == bv(int(val) % (1 << v.size()), v.size()))
            c = simp(c)
            rest.append(c)
            if self.feasible(st, c):
                s = st.copy()
                s.assume(c)
                self.goto(s, bb)
                out.append(s)
        c = simp(z3.And([z3.Not(x) for x in rest]))
        if self.feasible(st, c):
            s = st.copy()
            s.assume(c)
            self.goto(s, t[4])
            out.append(s)
        if len(out) == 1:
            # a single feasible branch: continue without queueing
            return out
        return out

    def call(self, st, t):
        m = self.m
        fn = t[1]
        args = [self.operand(st, a) for a in t[2]]
        dest, self.dty = self.place(st, t[3])
        if fn[0] == "i":
            inst = fn[1]
        elif fn[0] == "ptr":
            v = self.operand(st, fn[1])
            if not isinstance(v, FnV):
                raise Unsup("call of %r" % (v,))
            inst = v.inst
            if m.insts[inst].get("closure"):
                args = [Ptr(("S", "capture-free closure"))] + args
        else:
            raise Unsup("unresolved call " + str(fn))
        return self.invoke(st, inst, args, dest, t[4])

    def finish(self, st, v):
        """The verified function returns v; a boolean result is decided before its postcondition is checked."""
        pre = st.copy()
        try:
            if z3.is_expr(v) and z3.is_bool(v) and not (z3.is_true(v) or z3.is_false(v)):
                raise Split(v)
            self.paths += 1
            if not self.feasible(st):
                # the facts a specification assumed exclude this path: nothing is proved on it
                self.vacuous += 1
                return
            self.ctx.finish(self, st, v)
        except Split as e:
            for c, b in ((e.c, TRUE), (simp(z3.Not(e.c)), FALSE)):
                s = pre.copy()
                s.assume(c)
                if self.feasible(s):
                    try:
                        self.finish(s, b if e.c is v else v)
                    except Infeasible:
                        pass

    def invoke(self, st, inst, args, dest, target, cont=None):
        pre = st.copy()
        d = self.dty
        try:
            return self.invoke1(st, inst, args, dest, target, cont)
        except Split as e:
            out = []
            for c in (e.c, simp(z3.Not(e.c))):
                s = pre.copy()
                s.assume(c)
                if not self.feasible(s):
                    continue
                self.dty = d
                r = self.invoke(s, inst, args, dest, target, cont)
                out += [s] if r is None else r
            return out

    def invoke1(self, st, inst, args, dest, target, cont=None):
        x = self.m.insts[inst]
        h = self.model.handler(st, inst)
        if h is not None:
            try:
                r = h(st, inst, args, dest, target)
                self.trusted.add(x["def"])
                return r
            except NotHandled:
                pass
        if "body" not in x:
            raise Unsup("no model for " + x["name"])
        self.funcs.add(x["def"])
        self.push_frame(st, inst, args, dest, target, cont)
        return None


class NotHandled(Exception):
    pass


class Split(Exception):
    """Raised by a specification that has to distinguish whether a condition holds."""
    def __init__(self, c):
        self.c = c


class NeedFork(Exception):
    def __init__(self, v):
        self.v = v


class _F:
    def __repr__(self):
        return "FREED"


FREED = _F()

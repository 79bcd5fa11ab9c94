"""Loop invariants: cut points at loop headers, anti-unification and Houdini filtering.

A state arriving at a header is normalised (only what is live is kept), split into a discrete
skeleton and a list of z3 leaves.  States with equal skeletons share one invariant:
  (leaves with variables, facts), meaning every state obtained by instantiating the variables so
that the facts hold.  An arriving state is dropped only if it is proved to be an instance; else the
invariant is generalised (anti-unification of the leaves; the facts that both states entail) and the
loop body is verified again from the generalised state.  The result is an inductive invariant.
"""
import itertools
import z3
from core import *
import core

MAXITER = 14


class Inv:
    __slots__ = ("version", "leaves", "st", "anc", "count", "hint", "old")


def consts(t, memo):
    """Free constants of a term (names with '!' are flexible)."""
    i = t.get_id()
    r = memo.get(i)
    if r is None:
        if z3.is_const(t):
            r = frozenset([t.decl().name()]) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
        else:
            r = frozenset().union(*[consts(c, memo) for c in t.children()])
        memo[i] = r
        _keep.append(t)
    return r


_keep = []
_cm = {}


def flex(t):
    return frozenset(n for n in consts(t, _cm) if "!" in n)


# ---- walking state values --------------------------------------------------------------------
def walk(v, f, g=None):
    """Rebuild a value applying f to every z3 term and g to every region id."""
    if isinstance(v, z3.ExprRef):
        return f(v)
    if isinstance(v, Agg):
        return Agg(v.ty, v.var, [walk(x, f, g) for x in v.f])
    if isinstance(v, Ptr):
        return Ptr(walk_root(v.root, f, g), tuple(walk(e, f, g) for e in v.path), walk(v.meta, f, g))
    if isinstance(v, Sym):
        return Sym(v.ty, f(v.t))
    if isinstance(v, tuple):
        if len(v) == 2 and isinstance(v[0], str) and v[0] == "B" and isinstance(v[1], int):
            return g(v) if g else v
        return tuple(walk(x, f, g) for x in v)
    if isinstance(v, list):
        return [walk(x, f, g) for x in v]
    if isinstance(v, dict):
        return {walk(k, f, g): walk(x, f, g) for k, x in v.items()}
    if isinstance(v, frozenset):
        return frozenset(walk(x, f, g) for x in v)
    return v


def walk_root(r, f, g):
    return tuple(walk(x, f, g) for x in r)


def collect(v, out):
    """Region ids (heap boxes and locals) mentioned by a value."""
    if isinstance(v, Agg):
        for x in v.f:
            collect(x, out)
    elif isinstance(v, Ptr):
        if v.root[0] == "R":
            out.append(v.root[1])
        for e in v.path:
            collect(e, out)
        if v.meta is not None:
            collect(v.meta, out)
    elif isinstance(v, (tuple, list, frozenset)):
        if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and v[0] == "B" and isinstance(v[1], int):
            out.append(v)
            return
        for x in v:
            collect(x, out)
    elif isinstance(v, dict):
        for k, x in v.items():
            collect(k, out)
            collect(x, out)


# ---- normalisation ---------------------------------------------------------------------------
def normalise(ex, st):
    m = ex.m
    keep = set()
    work = []
    nf = len(st.frames)
    for d, f in enumerate(st.frames):
        body = m.insts[f.inst]["body"]
        if d == nf - 1:
            live = m.live_in(f.inst)[f.bb]
        else:
            tgt = st.frames[d + 1].target
            live = m.live_in(f.inst)[tgt] if tgt is not None else set()
        for l in live:
            work.append(("L", d, l))
        if f.dest is not None:
            collect(f.dest, work)
        if f.cont is not None:
            collect(getattr(f.cont, "vals", ()), work)
    collect(st.g, work)
    collect(st.log, work)
    for r in ex.ctx.roots(st):
        work.append(r)
    boxes = []
    while work:
        r = work.pop(0)
        if r in keep:
            continue
        keep.add(r)
        if r not in st.mem:
            continue
        if r[0] == "B":
            boxes.append(r)
        out = []
        collect(st.mem[r], out)
        work += out
    for r in st.mem:
        if r[0] == "B" and r not in keep and st.mem[r] is not FREED:
            boxes.append(r)
            keep.add(r)
            out = []
            collect(st.mem[r], out)
            for x in out:
                if x not in keep:
                    keep.add(x)
                    if x[0] == "B":
                        boxes.append(x)
    ren = {r: ("B", 1000 + i) for i, r in enumerate(boxes)}
    ren = {r: ("B", i) for i, r in enumerate(boxes)}
    g = lambda r: ren.get(r, r)
    ident = lambda t: t
    mem = {}
    for r, v in st.mem.items():
        if r in keep:
            mem[g(r) if r[0] == "B" else r] = walk(v, ident, g)
        elif r[0] == "L":
            mem[r] = UNINIT
    st.mem = mem
    st.g = walk(st.g, ident, g)
    st.log = walk(st.log, ident, g)
    for f in st.frames:
        if f.dest is not None:
            f.dest = walk(f.dest, ident, g)
        if f.cont is not None and hasattr(f.cont, "vals"):
            f.cont = f.cont.remap(walk(f.cont.vals, ident, g))
    st.nreg = len(boxes)


def skeleton(ex, st):
    """-> (hashable key, leaves)"""
    leaves = []

    def sk(v):
        if isinstance(v, z3.ExprRef):
            if z3.is_true(v) or z3.is_false(v):
                return ("b", z3.is_true(v))
            leaves.append(v)
            return ("t", str(v.sort()))
        if isinstance(v, Agg):
            return ("A", v.ty if not isinstance(v.ty, list) else tuple(v.ty), v.var, tuple(sk(x) for x in v.f))
        if isinstance(v, Ptr):
            return ("P", tuple(sk(x) for x in v.root), tuple(sk(e) for e in v.path), sk(v.meta))
        if isinstance(v, Sym):
            leaves.append(v.t)
            return ("S", v.ty)
        if isinstance(v, FnV):
            return ("F", v.inst)
        if isinstance(v, tuple):
            return ("T",) + tuple(sk(x) for x in v)
        if isinstance(v, list):
            return ("T",) + tuple(sk(x) for x in v)
        if isinstance(v, dict):
            return ("D",) + tuple((sk(k), sk(v[k])) for k in sorted(v, key=repr))
        if isinstance(v, frozenset):
            return ("D",) + tuple(sk(x) for x in sorted(v, key=repr))
        if v is UNINIT or v is FREED:
            return repr(v)
        return v

    key = (
        tuple((f.inst, f.bb if d == len(st.frames) - 1 else f.target, sk(f.dest) if f.dest is not None else None,
               f.cont.key() if f.cont is not None and hasattr(f.cont, "key") else None) for d, f in enumerate(st.frames)),
        tuple((r if r[0] != "B" else r, sk(st.mem[r])) for r in sorted(st.mem, key=repr) if st.mem[r] is not UNINIT),
        sk(st.g), sk(st.log))
    # targets of frames below decide where control resumes
    key = key + (tuple(f.target for f in st.frames),)
    return key, leaves


def rebuild(ex, st, new):
    """State with the i-th leaf (skeleton order) replaced by new[i]."""
    it = iter(new)

    def sk(v):
        if isinstance(v, z3.ExprRef):
            if z3.is_true(v) or z3.is_false(v):
                return v
            return next(it)
        if isinstance(v, Agg):
            return Agg(v.ty, v.var, [sk(x) for x in v.f])
        if isinstance(v, Ptr):
            root = tuple(sk(x) for x in v.root)
            path = tuple(sk(e) for e in v.path)
            return Ptr(root, path, sk(v.meta))
        if isinstance(v, Sym):
            return Sym(v.ty, next(it))
        if isinstance(v, tuple):
            return tuple(sk(x) for x in v)
        if isinstance(v, list):
            return [sk(x) for x in v]
        if isinstance(v, dict):
            o = {}
            for k in sorted(v, key=repr):
                kk = sk(k)
                o[kk] = sk(v[k])
            return o
        if isinstance(v, frozenset):
            return frozenset(sk(x) for x in sorted(v, key=repr))
        return v

    s = st.copy()
    for f in s.frames:
        if f.dest is not None:
            f.dest = sk(f.dest)
        if f.cont is not None and hasattr(f.cont, "vals"):
            pass
    mem = dict(s.mem)
    for r in sorted(s.mem, key=repr):
        if s.mem[r] is not UNINIT:
            mem[r] = sk(s.mem[r])
    s.mem = mem
    s.g = sk(s.g)
    s.log = sk(s.log)
    return s


# ---- matching and anti-unification -----------------------------------------------------------
class NoMatch(Exception):
    pass


def is_flex_const(t):
    return z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in t.decl().name()


def match(p, t, sub):
    if is_flex_const(p):
        n = p.decl().name()
        if n in sub:
            if not sub[n][1].eq(t):
                raise NoMatch()
            return
        if p.sort() != t.sort():
            raise NoMatch()
        sub[n] = (p, t)
        return
    if p.eq(t):
        # flexible constants inside an identical term bind to themselves
        for n in flex(p):
            c = find_const(p, n)
            if n in sub:
                if not sub[n][1].eq(c):
                    raise NoMatch()
            else:
                sub[n] = (c, c)
        return
    if z3.is_app(p) and z3.is_app(t) and p.num_args() and p.decl().eq(t.decl()) and p.num_args() == t.num_args():
        for a, b in zip(p.children(), t.children()):
            match(a, b, sub)
        return
    raise NoMatch()


def find_const(t, n):
    if z3.is_const(t):
        return t if t.decl().name() == n else None
    for c in t.children():
        if n in consts(c, _cm):
            return find_const(c, n)
    return None


def subst(f, sub):
    if not sub:
        return f
    return z3.substitute(f, *sub)


def au(a, b, memo):
    if a.eq(b):
        return a
    k = (a.get_id(), b.get_id())
    r = memo.get(k)
    if r is not None:
        return r[0]
    if (z3.is_app(a) and z3.is_app(b) and a.num_args() and a.decl().eq(b.decl()) and a.num_args() == b.num_args()
            and a.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_CONCAT)):
        return a.decl()(*[au(x, y, memo) for x, y in zip(a.children(), b.children())])
    v = fresh("v", a.sort())
    memo[k] = (v, a, b)
    return v


def relevant(facts, live):
    return [f for f in facts if flex(f) <= live]


def order_live(ex, st, leaves, inv):
    """Order the ledger of owned tokens like the invariant does: tokens correspond when memory holds
    them at the same places."""
    old, new = inv.st.g.get("live"), st.g.get("live")
    if not new or len(new) < 2 or len(old) != len(new):
        return leaves
    best = None
    la, lb = [], []
    for s_, l_ in ((inv.st, la), (st, lb)):
        for r in sorted(s_.mem, key=repr):
            if s_.mem[r] is not UNINIT and s_.mem[r] is not FREED:
                walk(s_.mem[r], lambda t, l_=l_: l_.append(t))
    for p in itertools.permutations(new):
        sc = []
        for a, b in zip(old, p):
            sc.append(sum(1 for x, y in zip(la, lb) if x.eq(a) and y.eq(b)))
        q = (min(sc), sum(sc))
        if best is None or q > best[0]:
            best = (q, p)
    if tuple(x.get_id() for x in best[1]) == tuple(x.get_id() for x in new):
        return leaves
    st.g["live"] = best[1]
    return skeleton(ex, st)[1]


def eliminate(st, live):
    """Replace dead constants by live terms they are known to equal."""
    for _ in range(4):
        sub = None
        for f in st.pc:
            if not z3.is_eq(f):
                continue
            x, y = f.children()
            for a, b in ((x, y), (y, x)):
                if is_flex_const(a) and a.decl().name() not in live and flex(b) <= live:
                    sub = (a, b)
                    break
            if sub:
                break
        if sub is None:
            return
        n = sub[0].decl().name()
        old = st.pc
        st.pc, st.pcs = [], set()
        for f in old:
            st.assume(simp(z3.substitute(f, sub)) if n in flex(f) else f)


def live_consts(leaves):
    s = frozenset()
    for t in leaves:
        s |= flex(t)
    return s


def rewrites(f, pairs):
    """Versions of fact f with the terms of `pairs` [(old, [new...])] replaced; constants optionally."""
    dyn = [(o, ns) for o, ns in pairs if not z3.is_bv_value(o)]
    con = [(o, ns) for o, ns in pairs if z3.is_bv_value(o)]
    outs = {}
    opts = []
    for o, ns in dyn:
        if occurs(f, o):
            opts.append([(o, n) for n in ns])
    for o, ns in con:
        if occurs(f, o):
            opts.append([None] + [(o, n) for n in ns])
    n = 1
    for o in opts:
        n *= len(o)
    if n > 64:
        opts = [o[-1:] for o in opts]
    for combo in itertools.product(*opts):
        sub = sorted([c for c in combo if c is not None], key=lambda c: -size(c[0]))
        g = f
        # larger terms first, so that a term is not broken by the replacement of its parts
        for c in sub:
            g = z3.substitute(g, c)
        outs[g.get_id()] = g
    return outs.values()


_sz = {}


def size(t):
    i = t.get_id()
    r = _sz.get(i)
    if r is None:
        r = 1 + sum(size(c) for c in t.children())
        _sz[i] = r
        _keep.append(t)
    return r


_occ = {}


def occurs(f, o):
    k = (f.get_id(), o.get_id())
    r = _occ.get(k)
    if r is None:
        r = f.eq(o) or any(occurs(c, o) for c in f.children())
        _occ[k] = r
        _keep.append(f)
        _keep.append(o)
    return r


def scaled(memo, old):
    """Values generalised for the first time that are affine in another generalised value (an offset and its
    index): {var id: (var, term)}.  old: variables of this loop's earlier generalisations; a relation given up
    once is not looked for again."""
    from model import lin, unlin
    W = 1 << 64
    ls = []
    xs = {}
    for v, x, y in memo.values():
        if v.sort() != B64:
            continue
        xs[v.get_id()] = x
        ax, cx = lin(x)
        ay, cy = lin(y)
        d = {k: q for k, (_, q) in ay.items()}
        for k, (_, q) in ax.items():
            d[k] = (d.get(k, 0) - q) % W
        d = {k: q for k, q in d.items() if q}
        ls.append((v, ax, cx, d, (cy - cx) % W))
    out = {}

    def given_up(n):
        x = xs[ls[n][0].get_id()]
        return any(x.eq(o) for o in old)

    def sgn(c):
        return c - W if c >> 63 else c

    # values that stay a constant apart, then values that stay a multiple of another one
    ls.sort(key=lambda e: (len(e[1]), abs(sgn(e[2]))))
    for scales in ((1,), (8, 128)):
        for n, (v, ax, cx, d, dc) in enumerate(ls):
            if v.get_id() in out or not d and not dc or given_up(n):
                continue
            for m, (v2, ax2, cx2, d2, dc2) in enumerate(ls):
                if m == n or v2.get_id() in out or scales == (1,) and m > n:
                    continue
                c = next((c for c in scales if dc == c * dc2 % W and d == {k: c * q % W for k, q in d2.items() if c * q % W}), None)
                if c is None:
                    continue
                base = dict(ax)
                for k, (t, q) in ax2.items():
                    base[k] = (t, (base.get(k, (t, 0))[1] - c * q) % W)
                base = {k: e for k, e in base.items() if e[1]}
                if c == 1 and base:
                    continue
                out[v.get_id()] = (v, simp(bv(c) * v2 + unlin(base, (cx - c * cx2) % W)))
                break
    return out


def generalise(ex, a, la, b, lb, old):
    """a: invariant state, b: arriving state; same skeleton."""
    memo = {}
    new = [au(x, y, memo) for x, y in zip(la, lb)]
    sc = scaled(memo, old)
    old = old + [v for v, _, _ in memo.values()]
    for _ in range(2):
        if sc:
            new = [simp(z3.substitute(t, *sc.values())) if any(occurs(t, v) for v, _ in sc.values()) else t for t in new]
    memo = {k: e for k, e in memo.items() if e[0].get_id() not in sc}
    s = rebuild(ex, b, new)
    pa, pb = {}, {}
    for (_, _), (v, x, y) in memo.items():
        pa.setdefault(x.get_id(), (x, []))[1].append(v)
        pb.setdefault(y.get_id(), (y, []))[1].append(v)
    suba = [(v, x) for (v, x, y) in memo.values()]
    subb = [(v, y) for (v, x, y) in memo.values()]
    live = live_consts(new)
    facts = {}
    pairs_a = list(pa.values())
    pairs_b = list(pb.values())
    bids = b.pcs

    def consider(facts_src, pairs, other, sub, skip_same):
        may = ex.refuter(other)
        for f in facts_src:
            for g in rewrites(f, pairs):
                if g.get_id() in facts or not (flex(g) <= live):
                    continue
                h = subst(g, sub)
                if h.get_id() in other.pcs or may(h) and ex.entails(other, h):
                    facts[g.get_id()] = g

    consider(a.pc, pairs_a, b, subb, False)
    consider(b.pc, pairs_b, a, suba, False)
    for g in ex.ctx.templates(ex, s):
        if g.get_id() not in facts and flex(g) <= live and ex.entails(a, subst(g, suba)) and ex.entails(b, subst(g, subb)):
            facts[g.get_id()] = g
    s.pc, s.pcs = [], set()
    for g in facts.values():
        s.assume(simp(g) if not z3.is_true(simp(g)) else g)
    return s, new, old


def decide_flags(ex, st, leaves):
    """Flags whose value is known on this path are constants: the loop is entered once per value."""
    new = []
    hit = False
    for l in leaves:
        if z3.is_bool(l) and z3.is_expr(l):
            if ex.entails(st, l):
                l, hit = z3.BoolVal(True), True
            elif ex.entails(st, z3.Not(l)):
                l, hit = z3.BoolVal(False), True
        new.append(l)
    if not hit:
        return False
    s = rebuild(ex, st, new)
    st.mem, st.g, st.log = s.mem, s.g, s.log
    for f, f2 in zip(st.frames, s.frames):
        f.dest = f2.dest
    return True


def arrive(ex, st):
    fr = st.frames[-1]
    ex.ctx.at_header(ex, st)
    normalise(ex, st)
    key, leaves = skeleton(ex, st)
    if decide_flags(ex, st, leaves):
        key, leaves = skeleton(ex, st)
    inv = ex.loops.get(key)
    if inv is not None:
        live = live_consts(leaves)
        eliminate(st, live)
        st.pc = relevant(st.pc, live)
        st.pcs = {f.get_id() for f in st.pc}
    if inv is not None:
        leaves = order_live(ex, st, leaves, inv)
    if inv is not None and superseded(ex, inv):
        hint = inv
        inv = None
    else:
        hint = None
    if inv is None:
        inv = Inv()
        inv.version, inv.old = 1, []
        inv.count = 1
        if hint is not None:
            s, new, inv.old = generalise(ex, hint.st, hint.leaves, st, leaves, hint.old)
            st.mem, st.g, st.log, st.pc, st.pcs = s.mem, s.g, s.log, s.pc, s.pcs
            for f, f2 in zip(st.frames, s.frames):
                f.dest = f2.dest
            leaves = new
            inv.version = hint.version + 1
            inv.count = hint.count
        st.anc[key] = inv.version
        inv.leaves, inv.anc = leaves, dict(st.anc)
        inv.st = st.copy()
        ex.loops[key] = inv
        return True
    # is the arriving state an instance of the invariant?
    if subsumed(ex, inv, st, leaves):
        ex.loop_ok = getattr(ex, "loop_ok", 0) + 1
        return False
    inv.count += 1
    if inv.count > MAXITER:
        raise Unsup("loop invariant does not converge")
    s, new, old = generalise(ex, inv.st, inv.leaves, st, leaves, inv.old)
    if getattr(ex, "trace_loops", False):
        print("GEN", ex.m.insts[fr.inst]["name"][:60], fr.bb, "it", inv.count, "facts", len(inv.st.pc), "->", len(s.pc))
    n = Inv()
    n.version, n.count, n.old = inv.version + 1, inv.count, old
    st.mem, st.g, st.log, st.pc, st.pcs = s.mem, s.g, s.log, s.pc, s.pcs
    for f, f2 in zip(st.frames, s.frames):
        f.dest = f2.dest
    # the generalised state belongs to the ancestry of the invariant, not of the arriving path
    st.anc = {k: v for k, v in inv.anc.items() if k in st.anc or k == key}
    st.anc[key] = n.version
    n.leaves, n.anc = new, dict(st.anc)
    n.st = st.copy()
    ex.loops[key] = n
    return True


def same_sum(p, t):
    """Equal as sums modulo 2^64."""
    from model import lin
    if p.sort() != B64 or t.sort() != B64:
        return False
    (a, c), (b, d) = lin(p), lin(t)
    return c == d and {k: q for k, (_, q) in a.items()} == {k: q for k, (_, q) in b.items()}


def subsumed(ex, inv, st, leaves):
    sub = {}
    try:
        rest = []
        for p, t in zip(inv.leaves, leaves):
            if is_flex_const(p):
                match(p, t, sub)
            else:
                rest.append((p, t))
        for p, t in rest:
            names = flex(p)
            if names and all(n in sub for n in names):
                q = subst(p, list(sub.values()))
                if not q.eq(t) and not simp(q).eq(simp(t)) and not same_sum(q, t):
                    raise NoMatch()
            else:
                match(p, t, sub)
    except NoMatch:
        return False
    pairs = [(p, t) for p, t in sub.values() if not p.eq(t)]
    for f in inv.st.pc:
        g = subst(f, pairs)
        if g.get_id() in st.pcs:
            continue
        if not ex.entails(st, g):
            if getattr(ex, "trace_loops", False):
                print("  not entailed:", str(g).replace("\n", " ")[:200])
            return False
    return True


def superseded(ex, st):
    for k, v in st.anc.items():
        i = ex.loops.get(k)
        if i is None or i.version != v:
            return True
    return False

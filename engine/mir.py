"""Loads the compiler's monomorphic MIR (written by driver/main.rs) and answers questions about
types: field offsets, newtype erasure, opaque (user supplied / external) types, CFG loops, liveness."""
import json, re

# Types the verifier treats as opaque abstract objects: the harness's stand-ins for user types,
# and external library types whose insides are never looked at.
OPAQUE = re.compile(
    r"^(verif_harness::|seize::|papaya::(LocalGuard|OwnedGuard|Collector|Guard)|std::sync::Mutex|std::sync::MutexGuard|"
    r"std::sync::poison|std::sync::nonpoison|std::thread::|std::collections::|hashbrown::|std::alloc::Layout|"
    r"std::hash::RandomState|std::sync::Arc|std::any::|std::sync::OnceLock|std::vec::|std::string::|std::fmt::|"
    r"serde|std::hash::random)")
NOERASE = re.compile(r"papaya::raw::(Entry|alloc::RawTable|alloc::TableLayout|State)$")


class Mir:
    def __init__(self, path):
        d = json.load(open(path))
        self.insts, self.types, self.allocs, self.roots = d["insts"], d["types"], d["allocs"], d["roots"]
        self.by_name = {}
        for i, x in enumerate(self.insts):
            self.by_name.setdefault(x["name"], i)
        self.by_def = {}
        for i, x in enumerate(self.insts):
            self.by_def.setdefault(x["def"], []).append(i)
        self._core = {}
        self._loops = {}
        self._live = {}
        self.tindex = {}
        for i, t in enumerate(self.types):
            self.tindex.setdefault(t["s"], i)

    # ---- types -------------------------------------------------------------------------------
    def t(self, i):
        return self.types[i]

    def ts(self, i):
        return self.types[i]["s"]

    def opaque(self, i):
        t = self.types[i]
        d = t.get("def")
        if d is None or t.get("k") in ("fndef", "closure"):
            return False
        return bool(OPAQUE.match(d))

    def size(self, i):
        return self.types[i].get("size")

    def main_field(self, i):
        """Index of the only non-zero-sized field of a newtype-like struct, or None."""
        t = self.types[i]
        k = t.get("k")
        if k == "union":
            if t["def"].endswith("MaybeUninit"):
                for n, f in enumerate(t["variants"][0]["fields"]):
                    if f[0] == "value":
                        return n
            return None
        if k != "struct" or self.opaque(i) or NOERASE.search(t["def"]):
            return None
        fs = t["variants"][0]["fields"]
        if not fs:
            return None
        nz = [n for n, f in enumerate(fs) if self.size(f[1]) != 0]
        if len(nz) == 1 and self.size(i):
            return nz[0]
        if t["def"].endswith("ManuallyDrop") and len(fs) == 1:
            return 0
        return None

    def core(self, i):
        r = self._core.get(i)
        if r is None:
            j = i
            while True:
                t = self.types[j]
                if t.get("k") == "pat":
                    j = t["elem"]
                    continue
                f = self.main_field(j)
                if f is None:
                    break
                j = t["variants"][0]["fields"][f][1]
            r = self._core[i] = j
        return r

    def fields(self, i, variant=0):
        """Field types of a (core) aggregate type."""
        t = self.types[i]
        k = t.get("k")
        if k in ("struct", "enum", "union"):
            return [f[1] for f in t["variants"][variant]["fields"]]
        if k in ("tuple", "closure"):
            return list(t.get("fields", []))
        if k == "array":
            return [t["elem"]] * t["len"]
        return []

    def field_name(self, i, n, variant=0):
        t = self.types[i]
        if t.get("k") in ("struct", "enum", "union"):
            return t["variants"][variant]["fields"][n][0]
        return str(n)

    def is_int(self, i):
        return self.types[i].get("k") in ("int", "char")

    def bits(self, i):
        t = self.types[i]
        if t.get("k") == "char":
            return 32
        return t["bits"]

    def signed(self, i):
        return bool(self.types[i].get("signed"))

    def discr_of(self, i, variant):
        return int(self.types[i]["variants"][variant]["discr"])

    def discr_bits(self, i):
        return 64

    # ---- control flow ------------------------------------------------------------------------
    @staticmethod
    def succs(term):
        k = term[0]
        if k == "goto":
            return [term[1]]
        if k == "switch":
            return [b for _, b in term[3]] + [term[4]]
        if k == "drop":
            return [term[4]]
        if k == "call":
            return [] if term[4] is None else [term[4]]
        if k == "assert":
            return [term[4]]
        return []

    def loop_headers(self, inst):
        if inst in self._loops:
            return self._loops[inst]
        bl = self.insts[inst]["body"]["blocks"]
        n = len(bl)
        color = [0] * n
        heads = set()
        stack = [(0, iter(self.succs(bl[0][1])))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color[s] == 1:
                    heads.add(s)
                elif color[s] == 0:
                    color[s] = 1
                    stack.append((s, iter(self.succs(bl[s][1]))))
                    break
            else:
                color[b] = 2
                stack.pop()
        self._loops[inst] = heads
        return heads

    def _uses(self, x, out):
        # every local mentioned in an operand / rvalue / place structure
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ("cp", "mv") and isinstance(x[1], list):
                self._place_use(x[1], out)
                return
            if x and x[0] in ("ref", "addr", "discr", "len") and len(x) >= 2 and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
                self._place_use(x[1], out)
                return
            for y in x:
                self._uses(y, out)

    def _place_use(self, p, out):
        out.add(p[0])
        for e in p[1]:
            if e[0] == "I":
                out.add(e[1])

    def live_in(self, inst):
        """Block -> set of locals live on entry (dataflow; address-taken handled by reachability)."""
        if inst in self._live:
            return self._live[inst]
        body = self.insts[inst]["body"]
        bl = body["blocks"]
        n = len(bl)
        gen, kill = [set() for _ in range(n)], [set() for _ in range(n)]
        for b in range(n):
            g, k = set(), set()
            def use(s):
                for l in s:
                    if l not in k:
                        g.add(l)
            def define(p):
                if p[1]:
                    u = set()
                    self._place_use(p, u)
                    use(u)
                else:
                    k.add(p[0])
            for st in bl[b][0]:
                if st[0] == "=":
                    u = set()
                    self._uses(st[2], u)
                    use(u)
                    define(st[1])
                elif st[0] in ("live", "dead"):
                    k.add(st[1])
                elif st[0] == "sd":
                    use({st[1][0]})
                else:
                    u = set()
                    self._uses(st[1:], u)
                    use(u)
            t = bl[b][1]
            if t[0] == "switch":
                u = set(); self._uses(t[1], u); use(u)
            elif t[0] == "call":
                u = set(); self._uses(t[1], u); self._uses(t[2], u); use(u)
                define(t[3])
            elif t[0] == "drop":
                u = set(); self._place_use(t[1], u); use(u)
            elif t[0] == "assert":
                u = set(); self._uses(t[1], u); use(u)
            elif t[0] == "ret":
                use({0})
            gen[b], kill[b] = g, k
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set()
                for s in self.succs(bl[b][1]):
                    o |= live[s]
                i = gen[b] | (o - kill[b])
                if i != live[b]:
                    live[b] = i
                    ch = True
        self._live[inst] = live
        return live

"""C17: the compiler's trait solver decides, for all types at once, which Send and Sync facts the
crate's auto traits and unsafe impls grant.

For every public type T, auto trait A and requirement `P: B` (a type parameter and a bound that
sharing or sending T needs), the obligation is that `T: A` is *not* provable in the environment
that assumes everything about the parameters except `P: B`.  The environment also grants the
parameters the common library traits, so that an impl guarded by such a trait is seen as well.
A function whose body demands `T: A` in that environment must be rejected by the compiler."""
import json
import os
import subprocess

E = {"K": "Clone + Copy + std::hash::Hash + Eq + Ord + std::fmt::Debug + Default + Unpin + 'static",
     "V": "Clone + Copy + std::hash::Hash + Eq + Ord + std::fmt::Debug + Default + Unpin + 'static",
     "S": "Clone + std::hash::BuildHasher + Default + std::fmt::Debug + Unpin + 'static",
     "G": "papaya::Guard + Unpin"}
SS = ("Send", "Sync")
MAP = [("K", "Send"), ("K", "Sync"), ("V", "Send"), ("V", "Sync"), ("S", "Sync")]
SET = [("K", "Send"), ("K", "Sync"), ("S", "Sync")]
# (type, parameters, {trait: [(parameter, bound, why)]})
TYPES = [
    ("papaya::HashMap<K, V, S>", "KVS", {"Send": [("K", "Send"), ("V", "Send"), ("S", "Send")], "Sync": MAP}),
    ("papaya::HashSet<K, S>", "KS", {"Send": [("K", "Send"), ("S", "Send")], "Sync": SET}),
    ("papaya::HashMapRef<'a, K, V, S, G>", "KVSG", {"Send": MAP + [("G", "Send")], "Sync": MAP + [("G", "Sync")]}),
    ("papaya::HashSetRef<'a, K, S, G>", "KSG", {"Send": SET + [("G", "Send")], "Sync": SET + [("G", "Sync")]}),
    ("papaya::Iter<'a, K, V, G>", "KVG", {t: [("K", "Sync"), ("V", "Sync"), ("G", "Sync")] for t in SS}),
    ("papaya::Keys<'a, K, V, G>", "KVG", {t: [("K", "Sync"), ("G", "Sync")] for t in SS}),
    ("papaya::Values<'a, K, V, G>", "KVG", {t: [("V", "Sync"), ("G", "Sync")] for t in SS}),
    ("<&'a papaya::HashSetRef<'a, K, S, G> as IntoIterator>::IntoIter", "KSG", {t: [("K", "Sync"), ("G", "Sync")] for t in SS}),
    ("<&'a papaya::HashMapRef<'a, K, V, S, G> as IntoIterator>::IntoIter", "KVSG", {t: [("K", "Sync"), ("V", "Sync"), ("G", "Sync")] for t in SS}),
    ("papaya::HashMapBuilder<K, V, S>", "KVS", {"Send": [("S", "Send")], "Sync": [("S", "Sync")]}),
    ("papaya::HashSetBuilder<K, S>", "KS", {"Send": [("S", "Send")], "Sync": [("S", "Sync")]}),
    ("papaya::OccupiedError<'a, V>", "V", {"Send": [("V", "Send"), ("V", "Sync")], "Sync": [("V", "Sync")]}),
    ("papaya::Compute<'a, K, V, S>", "KVS", {t: [("K", "Sync"), ("V", "Sync"), ("S", t)] for t in SS}),
    ("papaya::Operation<V, S>", "VS", {t: [("V", t), ("S", t)] for t in SS}),
]
# A reference that is pinned with a thread-bound guard stays on its thread.
FIXED = [("papaya::HashMapRef<'a, u8, u8, std::hash::RandomState, papaya::LocalGuard<'a>>", "Send"),
         ("papaya::HashSetRef<'a, u8, std::hash::RandomState, papaya::LocalGuard<'a>>", "Send"),
         ("papaya::Iter<'a, u8, u8, papaya::LocalGuard<'a>>", "Send"),
         ("papaya::HashMapRef<'a, u8, u8, std::hash::RandomState, papaya::LocalGuard<'a>>", "Sync")]


def program():
    """The text of the program and, per line, the obligation it stands for."""
    lines = ["#![allow(unused)]", "fn need_send<T: Send + ?Sized>() {}", "fn need_sync<T: Sync + ?Sized>() {}"]
    obl = {}

    def fn(name, params, skip, ty, tr):
        g = ["'a"] + ["%s: 'a + %s%s" % (p, E[p], "".join(" + " + b for b in SS if (p, b) != skip)) for p in params]
        lines.append("fn o%d<%s>() { need_%s::<%s>() }" % (len(lines), ", ".join(g), tr.lower(), ty))
        obl[len(lines)] = name

    for ty, params, req in TYPES:
        for tr in SS:
            fn(("control", ty, tr, None), params, None, ty, tr)
            for r in req[tr]:
                fn(("required", ty, tr, r), params, r, ty, tr)
    for ty, tr in FIXED:
        lines.append("fn o%d<'a>() { need_%s::<%s>() }" % (len(lines), tr.lower(), ty))
        obl[len(lines)] = ("never", ty, tr, None)
    return "\n".join(lines) + "\n", obl


def run(D, B):
    """[(kind, type, trait, requirement, outcome, text)]; outcome: accepted, rejected or an error text."""
    src, obl = program()
    w = os.path.join(B, "sendsync")
    os.makedirs(os.path.join(w, "src"), exist_ok=True)
    for f in ("Cargo.toml", "Cargo.lock"):
        with open(os.path.join(D, "sendsync", f)) as i, open(os.path.join(w, f), "w") as o:
            o.write(i.read())
    with open(os.path.join(w, "src", "lib.rs"), "w") as f:
        f.write(src)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(B, "tgt17"), RUSTUP_TOOLCHAIN="stable",
               RUSTFLAGS="--cap-lints warn -Awarnings")
    env.pop("RUSTC_WRAPPER", None)
    p = subprocess.run(["cargo", "check", "--offline", "-q", "-p", "papaya"], cwd=w, env=env, capture_output=True, text=True)
    if p.returncode:
        return None, p.stdout + p.stderr
    p = subprocess.run(["cargo", "check", "--offline", "--message-format=json"], cwd=w, env=env, capture_output=True, text=True)
    errs = {}
    for l in p.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message":
            continue
        m = m["message"]
        if m["level"] != "error" or not m["spans"]:
            continue
        for s in m["spans"]:
            if s["is_primary"]:
                errs.setdefault(s["line_start"], []).append(((m["code"] or {}).get("code"), m["rendered"]))
    out = []
    for n, o in sorted(obl.items()):
        es = errs.get(n, [])
        codes = {c for c, _ in es}
        r = "accepted" if not es else "rejected" if codes == {"E0277"} else "error"
        out.append(o + (r, "".join(t for _, t in es)[:1500] or src.split("\n")[n - 1]))
    return out, ""

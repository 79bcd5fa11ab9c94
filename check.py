#!/usr/bin/env python3-vt
"""check.py PROPERTY: verifies the property against /repo's current source (see DESIGN.md)."""
import fcntl, hashlib, json, multiprocessing, os, shutil, subprocess, sys, time, traceback

D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(D, "engine"))
T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUDGET = 780 if TIER == "quick" else 3000
B = os.path.join(D, "build")


def build():
    """The MIR of /repo's current source."""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        exe = os.path.join(B, "mirdump")
        if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(os.path.join(D, "driver", "main.rs")):
            subprocess.run(["bash", os.path.join(D, "setup.sh")], check=True)
        out = os.path.join(B, "mir-%d.json" % os.getpid())
        r = subprocess.run(["bash", os.path.join(D, "dump.sh"), out, os.path.join(B, "tgt")], capture_output=True, text=True)
        if r.returncode or not os.path.exists(out):
            print("the tree does not build:\n" + (r.stdout + r.stderr)[-3000:])
            sys.exit(2)
    from mir import Mir
    try:
        m = Mir(out)
    finally:
        os.unlink(out)
    return m


MIR = None
TASKS = None


def work(n):
    import core, model, loops
    t = TASKS[n]
    t0 = time.time()
    res = {"id": t.id, "ok": True, "obl": [], "unsup": []}
    try:
        md = model.Model(MIR, bool(t.inc))
        ex = core.Engine(MIR, md)
        ex.deadline = min(T0 + BUDGET, time.time() + (500 if TIER == "quick" else 1500))
        cx = t.make(md)
        ex.ctx = cx
        i = t.inst(MIR)
        if i is None and t.find is not None:
            # the internal function does not exist any more: its callers were verified with its body inlined
            res["absent"] = True
            return dict(res, wall_s=0.0, paths=0)
        if t.root and i is None:
            raise core.Unsup("function %s not found" % t.root)
        st = cx.init(ex, i)
        ex.run(st)
        res.update(obl=ex.obl, unsup=sorted(set(ex.unsup)), paths=ex.paths, vacuous=ex.vacuous, steps=ex.steps, queries=ex.solver.n,
                   solver_s=ex.solver.time, funcs=sorted(ex.funcs), trusted=sorted(ex.trusted),
                   contracts=sorted(cx.used_contracts), covers=sorted(getattr(cx, "covers", ())), loops=len(ex.loops))
    except core.Unsup as e:
        res["unsup"] = [str(e)]
    except Exception:
        res["unsup"] = ["internal error: " + traceback.format_exc()[-900:]]
    res["wall_s"] = time.time() - t0
    return res


def main():
    global MIR, TASKS
    prop = sys.argv[1]
    if prop == "C17":
        return auto_traits(prop)
    MIR = build()
    import tasks
    TASKS = tasks.tasks_for(prop, TIER)
    order = sorted(range(len(TASKS)), key=lambda n: -TASKS[n].cost)
    with multiprocessing.Pool(8, maxtasksperchild=1) as pool:
        results = list(pool.imap_unordered(work, order, chunksize=1))
    report(prop, results)


def auto_traits(prop):
    """The obligations on Send and Sync are decided by the compiler's trait solver."""
    import autotraits
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock17"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        out, err = autotraits.run(D, B)
    if out is None:
        print("the tree does not build:\n" + err[-3000:])
        sys.exit(2)
    text = {"required": "%s is %s only if %s", "never": "%s is not %s%s"}
    obl = [o for o in out if o[0] != "control"]
    show = lambda o: text[o[0]] % (o[1], o[2], "%s: %s" % o[3] if o[3] else "")
    undecided = [show(o) for o in obl if o[4] == "error"]
    bad = [o for o in obl if o[4] == "accepted"]
    # a type that is never Send (Sync) satisfies its obligations vacuously
    vacuous = ["%s: %s" % (o[1], o[2]) for o in out if o[0] == "control" and o[4] != "accepted"]
    cov = {
        "obligations": len(obl), "discharged": sum(o[4] == "rejected" for o in obl),
        "checker_cmd": "python3-vt check.py C17",
        "back_end": "rustc's trait solver (generic environments)",
        "functions_under_contract": ["auto traits and unsafe impls of " + t[0] for t in autotraits.TYPES],
        "trusted_base": ["rustc's trait solver", "the table of bounds that sending and sharing each type needs (engine/autotraits.py)",
                         "seize's own Send and Sync impls (Collector, LocalGuard, OwnedGuard)"],
        "discharged_obligations": [show(o) for o in obl if o[4] == "rejected"],
        "never_granted_at_all": vacuous, "undecided": undecided, "failed": [show(o) for o in bad],
    }
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "proof", "coverage": cov, "wall_s": round(time.time() - T0, 1)}
    os.makedirs(os.path.join(D, "evidence"), exist_ok=True)
    with open(os.path.join(D, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for u in undecided:
        print("UNDECIDED", u)
    print("%s: %d obligations, %d discharged, %.0f s" % (prop, len(obl), cov["discharged"], time.time() - T0))
    if bad:
        rp = os.path.join(D, "evidence", "replay-%s.rs" % prop)
        with open(rp, "w") as f:
            f.write("// The compiler accepts the functions below and must not.\n#![allow(unused)]\n"
                    "fn need_send<T: Send + ?Sized>() {}\nfn need_sync<T: Sync + ?Sized>() {}\n")
            for o in bad:
                f.write("// %s\n%s\n" % (show(o), o[5]))
        for o in bad[:10]:
            print("FAILED obligation: %s" % show(o))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)


def report(prop, results):
    import tasks
    obl = {}
    failed = []
    undecided = []
    for r in results:
        n = 0
        for props, name, ok, where, detail in r["obl"]:
            if prop not in props:
                continue
            n += 1
            if not ok:
                failed.append((r["id"], name, where, detail))
        r["n"] = n
        for u in r["unsup"]:
            undecided.append("%s: %s" % (r["id"], u))
        if r.get("absent"):
            continue
        if not r["unsup"] and r.get("paths", 0) <= r.get("vacuous", 0):
            undecided.append("%s: no execution reaches the end" % r["id"])
    total = sum(r["n"] for r in results)
    dis = total - len(failed)
    known = [l.strip() for l in open(os.path.join(D, "known_findings.txt"))]
    listed = [l for l in known if l.startswith("known: property=%s " % prop)]
    new = []
    for f in failed:
        e = [l for l in listed if l.split(" | ")[0].split(" ", 2)[2] == f[1] and (len(l.split(" | ")) < 2 or l.split(" | ")[1] in f[0] + " " + f[2])]
        if e:
            continue
        new.append(f)
    for l in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, l.split(" ", 2)[2]))
    os.makedirs(os.path.join(D, "evidence"), exist_ok=True)
    tb = sorted({x for r in results for x in r.get("trusted", [])})
    con = sorted({x for r in results for x in r.get("contracts", [])})
    fn = sorted({x for r in results for x in r.get("funcs", []) if x.startswith(("papaya::", "<papaya::"))})
    cov = {
        "obligations": total, "discharged": dis,
        "checker_cmd": "python3-vt check.py %s" % prop,
        "trusted_base": [x for x in tb if x not in con] + tasks.ASSUMPTIONS,
        "functions_under_contract": [r["id"] for r in sorted(results, key=lambda r: r["id"])],
        "functions_executed_symbolically": fn,
        "internal_contracts_assumed_at_call_sites": con,
        "per_function": [{"function": r["id"], "obligations": r["n"], "paths": r.get("paths", 0) - r.get("vacuous", 0), "loop_invariants": r.get("loops", 0),
                          "solver_queries": r.get("queries", 0), "solver_s": round(r.get("solver_s", 0), 1), "wall_s": round(r["wall_s"], 1)}
                         for r in sorted(results, key=lambda r: r["id"])],
        "obligation_kinds": sorted({o[1] for r in results for o in r["obl"] if prop in o[0]}),
        "back_end": "symbolic execution of rustc's MIR, verification conditions discharged by z3 (Python API)",
        "solver_s": round(sum(r.get("solver_s", 0) for r in results), 1),
        "undecided": undecided,
        "failed": [{"function": f[0], "obligation": f[1], "at": f[2]} for f in failed][:50],
    }
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "proof", "coverage": cov, "wall_s": round(time.time() - T0, 1)}
    with open(os.path.join(D, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for u in undecided:
        print("UNDECIDED", u[:300])
    print("%s: %d obligations, %d discharged, %d functions, %.0f s" % (prop, total, dis, len(results), time.time() - T0))
    if new:
        rp = os.path.join(D, "evidence", "replay-%s.txt" % prop)
        seen = []
        with open(rp, "w") as f:
            for i, name, where, detail in new:
                if (name, where) in seen:
                    continue
                seen.append((name, where))
                f.write("function: %s\n%s\n\n" % (i, detail))
        for name, where in seen[:10]:
            print("FAILED obligation: %s (%s)" % (name, where))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()

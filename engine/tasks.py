"""What is verified for which property: (function, resize mode) pairs and their specifications."""
import events
import ops
import resize
import scan
import small
import whole

SINGLE = {
    "C01": ["contains", "get", "get_kv"],
    "C02": ["insert", "try_insert", "get_or_insert"],
    "C03": ["remove", "remove_entry", "remove_if"],
    "C04": ["try_insert_with", "get_or_insert_with", "update", "update_or_insert", "update_or_insert_with", "compute"],
}
COST = {"compute": 215, "update_or_insert_with": 75, "update_or_insert": 65, "insert": 32, "try_insert": 25, "get_or_insert": 25,
        "try_insert_with": 17, "get_or_insert_with": 17}
ALL = [o for v in SINGLE.values() for o in v]


class Task:
    def __init__(self, name, root, inc, make, cost=5, find=None):
        self.name, self.root, self.inc, self.make, self.cost, self.find = name, root, inc, make, cost, find

    def inst(self, m):
        """The function that is verified; None: nothing to verify (an internal function that does not exist)."""
        return self.find(m) if self.find else m.by_name.get(self.root)

    @property
    def id(self):
        return "%s [%s]" % (self.name, "incremental" if self.inc else "blocking" if self.inc is not None else "any mode")


NAMES = {"m": "HashMap", "r": "HashMapRef", "s": "HashSet", "sr": "HashSetRef"}
SETOPS = ["contains", "get", "insert", "remove"]


def op_task(op, inc, kind="m"):
    return Task("%s::%s" % (NAMES[kind], op), "verif_harness::%s_%s" % (kind, op), inc,
                lambda md: ops.OpCtx(md, "%s_%s" % (kind, op), op, kind), COST.get(op, 3))


def ops_tasks(names):
    return [op_task(o, inc) for o in names for inc in (True, False)]


def len_tasks(kinds):
    return [Task("%s::%s" % (NAMES[k], o), "verif_harness::%s_%s" % (k, o), None, lambda md, k=k, o=o: whole.LenCtx(md, k + "_" + o, o, k), 2)
            for k in kinds for o in ("len", "is_empty")]


def ev_task(kind, op, P, root=None, inc=None):
    r = root or "%s_%s" % (kind, op)
    spec = "next" if op.endswith("_next") and kind == "m" else "iter_next" if op.endswith("_next") else op
    return Task("%s::%s" % (NAMES[kind], op), "verif_harness::" + r, inc, lambda md: events.MapEv(md, r, spec, P, kind), 1)


EVENTS = {"clear": "C09", "retain": "C09", "reserve": "C11", "iter": "C10", "keys": "C10", "values": "C10",
          "iter_next": "C10", "keys_next": "C10", "values_next": "C10", "pin": "C12", "pin_owned": "C12", "guard": "C12", "owned_guard": "C12"}


def ev_tasks():
    """(property, task) of the operations that forward to the raw map."""
    out = []
    for op, p in EVENTS.items():
        out.append((p, ev_task("m", op, p + ",C14" if p == "C12" or op in ("keys", "values", "keys_next", "values_next") else p)))
    for op in ("clear", "retain", "reserve", "iter", "keys", "values", "into_iter", "map"):
        out.append((EVENTS.get(op, "C10"), ev_task("r", op, EVENTS.get(op, "C10") + ",C14" if op != "map" else "C14")))
    for k, l in (("s", ("clear", "retain", "reserve", "iter_next", "pin", "pin_owned", "guard", "owned_guard")),
                 ("sr", ("clear", "retain", "reserve", "iter_next", "into_iter_next", "set"))):
        for op in l:
            p = EVENTS.get(op, "C10")
            out.append((p, ev_task(k, op, p + ",C14" if op != "set" else "C14")))
    return out


def bulk_tasks():
    out = []

    def add(prop, kind, name, op, P, root=None, incs=(None,)):
        r = root or "%s_%s" % (kind, name)
        for inc in incs:
            out.append((prop, Task("%s::%s" % (NAMES[kind], name), "verif_harness::" + r, inc,
                                   lambda md: events.BulkEv(md, r, op, P, kind), 2)))
    for k in ("m", "s"):
        for o in ("extend", "extend_ref", "from_iter", "from_array", "clone", "eq"):
            add("C15", k, o, o, "C15")
        add("C16", k, "deserialize", "de", "C16", "sd::%s_de" % k)
        for o in ("new", "with_capacity", "builder", "b_hasher", "b_capacity", "b_resize", "b_collector", "b_build", "default", "with_hasher", "with_cap_hasher"):
            add("C11", k, o, "ctor", "C11,C15" if o == "default" else "C11", None, (True, False))
    for k in ("m", "r", "s", "sr"):
        add("C16", k, "serialize", "ser", "C16", "sd::%s_ser" % k)
    return out


def rtask(fn, inc, props, label="", cost=3, **flags):
    return (props.split(","), Task("raw::%s%s" % (fn, label), None, inc, lambda md: resize.ResizeCtx(md, fn, props, **flags), cost,
                                   lambda m: resize.find(m, fn)))


def resize_tasks():
    R = "C05,C06,C08,C13,C01,C02,C03,C11"
    out = []
    out.append(rtask("insert_copy", True, R, flag=True))
    out.append(rtask("insert_copy", False, R, flag=False))
    out.append(rtask("copy_at_incremental", True, R))
    out.append(rtask("copy_at_blocking", False, R))
    for inc in (True, False):
        out.append(rtask("try_promote", inc, R))
        for b in (True, False):
            out.append(rtask("help_copy", inc, R, "(copy_all = %s)" % b, flag=b))
        for b in (True, False):
            out.append(rtask("init", inc, R, "(Some)" if b else "(None)", some=b))
            out.append(rtask("get_or_alloc_next", inc, R, "(Some)" if b else "(None)", some=b))
        out.append(rtask("defer_retire", inc, R))
    out.append(rtask("help_copy_blocking", False, R))
    for b in (True, False):
        out.append(rtask("help_copy_incremental", True, R, "(block = %s)" % b, flag=b))
    out.append(rtask("wait_copied", True, R))
    return out


def scan_tasks():
    out = []
    for op, ps in (("clear", "C09,C05,C06,C07,C12,C13"), ("retain", "C09,C05,C06,C07,C12,C13"), ("iter", "C10,C12,C13,C06"), ("reserve", "C11,C12")):
        for inc in (True, False):
            out.append((ps.split(","), Task("HashMap::%s (every slot)" % op, "verif_harness::m_" + op, inc,
                                            lambda md, op=op: scan.ScanCtx(md, "m_" + op, op), 3)))
    for inc in (True, False):
        out.append((["C10", "C13", "C06"], Task("raw::Iter::next", None, inc, lambda md: scan.ScanCtx(md, None, "next"), 3, scan.find_next)))
    return out


def stask(name, find, props, make, inc=None):
    return (props.split(","), Task(name, None, inc, make, 2, find))


def small_tasks():
    P = "papaya::raw::utils::"
    out = []
    for what, ty, n in (("entry", r"\*mut papaya::raw::Entry<verif_harness::K, verif_harness::V>", 0), ("entry, 2", r"\*mut papaya::raw::Entry<verif_harness::K, verif_harness::V>", 1),
                        ("status", "u8", 0), ("status, 2", "u8", 1), ("status, 3", "u8", 2)):
        # the calls differ in the (symbolic) condition only
        out.append(stask("Parker::park (%s)" % what, small.parks(r"^%sparker::Parker::park::<%s, .*verif_harness::K, verif_harness::V, verif_harness::S>.*>$" % (P, ty), n),
                         "C08,C13", lambda md: small.ParkCtx(md)))
    out.append(stask("Parker::unpark (status)", small.one(r"^%sparker::Parker::unpark::<u8, " % P), "C08", lambda md: small.UnparkCtx(md)))
    out.append(stask("Parker::unpark (entry)", small.one(r"^%sparker::Parker::unpark::<\*mut papaya::raw::Entry<verif_harness::K, verif_harness::V>, " % P), "C08",
                     lambda md: small.UnparkCtx(md)))
    KV = "verif_harness::K, verif_harness::V"
    E, HM = r"papaya::raw::Entry<%s>" % KV, r"papaya::raw::HashMap<%s, verif_harness::S>" % KV
    out.append(stask("Stack::push", small.one(r"^%sstack::Stack::<\*mut %s>::push$" % (P, E)), "C06", small.PushCtx))
    out.append(stask("Stack::drain", small.one(r"^%sstack::Stack::<\*mut %s>::drain::<" % (P, E)), "C06", small.DrainCtx))
    out.append(stask("Table::alloc", small.one(r"^papaya::raw::alloc::Table::<%s>::alloc$" % E), "C11,C06,C05,C13,C08,C01", small.AllocCtx))
    out.append(stask("Table::dealloc", small.one(r"^papaya::raw::alloc::Table::<%s>::dealloc$" % E), "C06,C11", small.DeallocCtx))
    out.append(stask("probe::entries_for", small.one(r"^papaya::raw::probe::entries_for$"), "C11", small.EntriesForCtx))
    out.append(stask("probe::limit", small.one(r"^papaya::raw::probe::limit$"), "C11", small.LimitCtx))
    out.append(stask("meta::h2", small.one(r"^papaya::raw::meta::h2$"), "C01,C05", small.H2Ctx))
    out.append(stask("Counter::default", small.one(r"^<%scounter::Counter as std::default::Default>::default$" % P), "C07,C11", small.CounterCtx))
    for inc in (True, False):
        out.append(stask("raw::HashMap::new", small.one(r"^papaya::raw::HashMap::<%s, verif_harness::S>::new$" % KV), "C11,C05,C06,C07,C10,C12,C15", small.NewCtx, inc))
    out.append(stask("raw::HashMap::drop", small.one(r"^<%s as std::ops::Drop>::drop$" % HM), "C06", small.MapDropCtx))
    out.append(stask("drop_entries", small.one(r"^papaya::raw::drop_entries::<%s>$" % KV), "C06,C11", small.DropEntriesCtx))
    out.append(stask("drop_table", small.one(r"^papaya::raw::drop_table::<%s>$" % KV), "C06", small.DropTableCtx))
    out.append(stask("reclaimer of tables", lambda m: (small.reclaimers(m) or [None])[0], "C06", small.ReclaimCtx))
    return out


def everything():
    seen, out = set(), []
    for p in range(1, 20):
        for t in tasks_for("C%02d" % p, "thorough"):
            if t.id not in seen:
                seen.add(t.id)
                out.append(t)
    return out


def tasks_for(prop, tier):
    t = []
    if prop == "C07":
        t += len_tasks(["m"])
    if prop == "C14":
        t += len_tasks(["r", "s", "sr"])
        t += [op_task(o, inc, "r") for o in ALL for inc in (True, False)]
        t += [op_task(o, inc, k) for k in ("s", "sr") for o in SETOPS for inc in (True, False)]
    t += [k for p, k in ev_tasks() if p == prop or prop == "C12" or (prop == "C14" and not (k.name.startswith("HashMap::") and p not in ("C12",) and "keys" not in k.name and "values" not in k.name))]
    t += [k for p, k in bulk_tasks() if p == prop]
    if prop in SINGLE:
        t += ops_tasks(SINGLE[prop])
    if prop in ("C05", "C06", "C07", "C12", "C13"):
        t += ops_tasks(ALL)
    t += [k for p, k in resize_tasks() + scan_tasks() + small_tasks() if prop in p]
    return t


ASSUMPTIONS = [
    "user Eq/Hash/Equivalent/closures are lawful and do not unwind; unwinding is not modelled",
    "rustc's MIR construction (nightly, mir-opt-level 0) and z3 are correct",
    "seize: memory retired through a guard or collector is not freed while a guard that could have loaded it is active",
    "the rely of every access (DESIGN.md, Protocol) is the guarantee proved of every write; its composition over threads is a paper argument",
]

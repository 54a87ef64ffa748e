"""Which analyses decide which property.

Most properties are decided by the abstract interpretation of the entries of the harness: PLAN names
the entries of a property and the kinds of mismatch that break it there."""
import multiprocessing as mp, os, re, sys, time, traceback
from . import build

LINKS = {"parent", "first", "next", "prevc", "root"}
STATE = LINKS | {"count", "tree", "agg", "locks", "ref", "strong", "leak", "uaf", "flag", "data"}
FAILED = {"failed-" + c for c in STATE}
CRASH = {"panic", "abort", "endless", "recursion"}
K = r"(node|frozen|hot)_"
QUERY = K + (r"(is_root|has_\w+|num_children|count_\w+|parent|prev_sibling|next_sibling|first_child|last_child|root|first_sibling|last_sibling|"
             r"first_last_sibling|first_last_child|tree|ptr_eq|ptr_eq_plain|belongs_to|belongs_to_same_tree(_self)?)")
TREEQ = r"tree_(root|ptr_eq)"
EDIT = r"(node|hot)_((try_)?create_\w+|detach_subtree|(try_)?replace_with_children|(try_)?detach_insert_subtree)"
NEW = r"(node|hot)_new_tree"
REFS = K + r"(clone|drop|plain|into|extract|downgrade|tree)|tree_(clone|drop|downgrade|root)|(weak|treeweak)_(upgrade|clone)|dftevent_\w+|insertas_\w+"
LOCKS = (r"node_bundle_\w+|tree_(grant|prohibit)|(grant|prohibition)_\w+|(frozen|hot)_(clone|drop|plain|into|extract)")
DATA = K + r"(try_)?borrow_data(_mut)?"
WALK1 = K + (r"(children|children_reverse|ancestors|ancestors_or_self|siblings|siblings_reverse|preceding_siblings_reverse|"
             r"preceding_siblings_or_self_reverse|following_siblings|following_siblings_or_self)")
STABLE = r"frozen_(children|siblings|preceding_siblings|preceding_siblings_or_self|following_siblings|following_siblings_or_self)_stable"
DFT = K + r"depth_first_(reverse_)?traverse"
SDFT = r"frozen_depth_first_traverse_stable"
ALLWALK = K + r"(children|ancestors|siblings|preceding|following|depth_first|shallow_depth_first)\w*(?<!_cloned)"
CLONED = K + r"\w+_cloned|bfs_clone"
BFS = r"frozen_(non_)?allocating_breadth_first_traverse_stable(_max)?|bfs_\w+"
SHALLOW = r"frozen_shallow_depth_first_traverse_stable"
EVENT = K + r"event_(next|prev|close_current)"
EQ = r"eq_\w+|(node|tree)_(try_)?eq"
BUILD = r"b_\w+|event_from_\w+"
SERIAL = K + "to_events"
PRINT = K + r"(debug\w*|display_pretty_print)|tree_(debug\w*|display_pretty_print)|print_\w+"
SHOWS = K + r"(shows_\w+|debug|debug_print_\w+)|tree_(shows_\w+|debug_print)"
CLONE = K + r"(try_)?clone_(insert_)?subtree|tree_(try_clone|clone_tree)"
CLONE1 = K + r"(try_)?clone_subtree|tree_(try_clone|clone_tree)|frozen_try_clone_insert_subtree"
MORE = BFS + "|" + EVENT + "|" + BUILD + "|" + SERIAL + "|" + CLONE1

def alt(*a): return "(?:%s)" % "|".join(a)

class Rule:
    """Entries (a regular expression), the mismatches that count, and a condition on the violation."""
    def __init__(self, rx, cats, when=None):
        self.rx, self.cats, self.when = re.compile("(?:%s)$" % rx), cats, when

def grants_differ(v): return any(k[0] == "g" and x != "same" for k, x in v["config"].items())

PLAN = {
 "C01": [Rule(alt(EDIT, NEW), {"inconsistent"})],
 "C02": [Rule(alt(EDIT, NEW), {"count", "failed-count"}), Rule(K + r"(num_children|has_children|has_one_child|has_multiple_children|count_children)", {"result"})],
 "C03": [Rule(alt(EDIT, NEW), LINKS | {"result", "inconsistent", "endless", "abort"})],
 "C04": [Rule(alt(EDIT, NEW), {"tree", "root", "failed-tree", "failed-root"}), Rule(alt(K + "tree", K + "belongs_to", K + "belongs_to_same_tree(_self)?", K + "root", "tree_root"), {"result"})],
 "C05": [Rule(alt(EDIT, CLONE1), {"error"} | FAILED), Rule(EDIT, {"panic", "nopanic", "endless", "abort"}, lambda v: not grants_differ(v))],
 "C06": [Rule(alt(LOCKS), {"lock", "result"} | {"failed-locks", "failed-agg"})],
 "C07": [Rule(alt(LOCKS, EDIT, NEW, QUERY, ALLWALK, CLONED, DATA, REFS, MORE), {"agg", "locks", "failed-agg", "failed-locks", "lock"})],
 "C08": [Rule(EDIT, CRASH | STATE | {"nopanic", "result", "error", "inconsistent"}, grants_differ), Rule(alt(QUERY, TREEQ, LOCKS, REFS, DATA, ALLWALK, EVENT, SERIAL, EQ), LINKS | {"count", "tree"})],
 "C09": [Rule(alt(EDIT, NEW, QUERY, TREEQ, REFS, LOCKS, DATA, ALLWALK, CLONED, MORE, PRINT), {"ref", "strong", "leak", "uaf", "failed-ref", "failed-strong", "failed-leak", "failed-uaf"})],
 "C10": [Rule(K + r"drop|tree_drop|\w*detach\w*|\w*replace\w*", {"recursion"})],
 "C11": [Rule(r"(weak|treeweak)_upgrade", {"upgrade", "result", "panic", "abort", "uaf", "strong", "ref"}), Rule(r"node_downgrade|tree_downgrade|(weak|treeweak)_clone", {"result"})],
 "C12": [Rule(alt(DFT, DFT + "_peek", DFT + "_skip", SDFT + "_(fwd|back|skip)"), {"sequence", "after-end", "skip", "endless", "panic", "abort"}), Rule(r"walk_from(_reverse)?", {"sequence", "after-end", "endless", "panic", "abort"}), Rule(EVENT, {"event", "endless", "panic", "abort"})],
 "C13": [Rule(alt(STABLE, STABLE + "_fwd", SDFT, SDFT + "_(fwd|back)", STABLE + "_peek_back", SHALLOW, r"walk_between(_fwd|_back)?"), {"sequence", "after-end", "endless", "panic", "abort"})],
 "C14": [Rule(BFS, {"sequence", "depth", "result", "after-end", "endless", "panic", "abort", "inconsistent"})],
 "C16": [Rule(r"frozen_non_allocating_breadth_first_traverse_stable_hint|bfs_(peek|hint)", {"hint", "peek", "sequence", "result", "panic", "abort"}), Rule(BFS, {"after-end"}),
         Rule(ALLWALK + "_(peek|peek_back|hint|mix)", {"peek", "hint", "sequence", "panic", "abort"}), Rule(ALLWALK, {"after-end"})],
 "C15": [Rule(SHALLOW + r"(_fwd|_back|_skip|_limit|_peek|_peek_back)?", {"sequence", "depth", "skip", "after-end", "endless", "panic", "abort"})],
 "C18": [Rule(BUILD, {"builder", "position", "result", "error", "inconsistent", "nopanic"} | CRASH | STATE | FAILED)],
 "C19": [Rule(EQ, {"equality", "sequence", "result", "nopanic", "panic", "endless", "abort"})],
 "C20": [Rule(CLONE, {"clone", "events", "result", "error", "position", "nopanic", "inconsistent"} | CRASH | STATE | FAILED),
         Rule(BUILD, {"builder", "position", "nopanic"} | CRASH | STATE | FAILED), Rule(SERIAL, {"events", "endless", "panic", "abort"})],
 "C21": [Rule(alt(EDIT, NEW, REFS, LOCKS, DATA, QUERY, ALLWALK, MORE, EQ, PRINT), {"flag", "midway", "unwound", "uaf", "abort"})],
 "C23": [Rule(PRINT, {"printing", "result", "nopanic", "inconsistent", "lock", "borrow"} | CRASH | STATE)],
 "C32": [Rule(SHOWS, {"content", "printing"})],
 "C26": [Rule(r"lit_\w+", {"literal", "result", "data", "inconsistent", "nopanic"} | CRASH | STATE)],
 "C27": [Rule(alt(WALK1, WALK1 + "_peek", STABLE + r"\w*"), {"sequence", "after-end", "endless", "panic", "abort"})],
 "C30": [Rule(SERIAL, {"events", "result", "endless", "panic", "abort"}), Rule(r"event_from_\w+", {"builder", "panic", "abort"})],
 "C31": [Rule(CLONED, {"sequence", "depth", "result", "after-end", "endless", "panic", "abort", "inconsistent"} | STATE)],
 "C28": [Rule(alt(QUERY, TREEQ), {"result"} | STATE | CRASH)],
 "C29": [Rule(DATA, {"borrow", "result", "data", "flag", "panic", "nopanic"}), Rule(alt(EDIT, NEW, QUERY, REFS, LOCKS, ALLWALK, MORE), {"data", "flag"})],
}
# Pairs of entries that must not differ: (pattern, name of the twin, mismatches looked at).
TWINS = {
 "C17": [(re.compile(r"^h_(frozen|hot)_(.*)$"), lambda m: "h_node_" + m.group(2)), (re.compile(r"^h_node_(.*)$"), lambda m: "h_hot_" + m.group(1)), (re.compile(r"^h_node_(.*)$"), lambda m: "h_frozen_" + m.group(1))],
 "C22": [(re.compile(r"^h_(\w+?)_try_(.*)$"), lambda m: "h_%s_%s" % m.groups()), (re.compile(r"^h_(node|hot|frozen|grant)_((?!try_).*)$"), lambda m: "h_%s_try_%s" % m.groups())],
 "C25": [(re.compile(r"^h_(node|hot)_((?:try_)?)create_node_as$"), lambda m: "h_%s_%screate_as_*" % m.groups()),],
}
BOTH = alt(CLONE1, EDIT, NEW, EVENT, SERIAL, QUERY, DATA, WALK1, WALK1 + "_peek", DFT, DFT + "_(peek|skip)", K + "clone", K + "drop")

# Analysed by the thorough checks only.
DEEP = re.compile(r"h_walk_between$")

_eng = _by = None

def task(a):
    name, i, limit, states = a
    from .cases import run_entry
    from .entry import configs
    f = _by[name]
    try:
        cfgs = configs(_eng.prog, f)
        r = run_entry(_eng, f, time.time() + limit, states, only=cfgs[i])
        r["fns"] = sorted(_eng.prog.fns[x].name for x in r["fns"])
        r["cfg"] = cfgs[i]
        return name, r, None
    except Exception:
        return name, None, traceback.format_exc()[-1500:]

COST = [(re.compile("detach_insert|clone_insert"), 100), (re.compile("stable$|_skip|_drop"), 60), (re.compile("replace|detach"), 20), (re.compile("create|stable|depth"), 10)]
def cost(n): return next((c for r, c in COST if r.search(n)), 1)

def analyse(names, tier, budget, relevant=None, features=()):
    """Runs every configuration of the entries in parallel; once violations are known, only for a little longer."""
    global _eng, _by
    from .prog import Prog
    from .engine import Engine
    from .entry import configs
    from . import spec
    sys.setrecursionlimit(6000)
    t0 = time.time()
    P = Prog(build.dump(features))
    _eng = Engine(P)
    _by = {f.name.split("::")[-1]: f for f in P.fns.values() if re.match("h_(?!aux_)", f.name.split("::")[-1])}
    unspec = sorted(n for n in _by if spec.find(n)[0] is None)
    todo = [n for n in sorted(_by) if n not in unspec and names(n[2:]) and not (tier == "quick" and DEEP.match(n))]
    limit, states = (120, 120000) if tier == "quick" else (600, 1000000)
    tasks = [(n, i, limit, states) for n in todo for i in range(len(configs(P, _by[n])))]
    tasks.sort(key=lambda t: -cost(t[0]))
    res, errors = {}, []
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        it = pool.imap_unordered(task, tasks, 1)
        while True:
            try: n, r, e = it.next(timeout=max(1, budget - (time.time() - t0)))
            except StopIteration: break
            except mp.TimeoutError:
                errors.append(("*", "time budget exhausted"))
                pool.terminate()
                break
            if r is None: errors.append((n, e))
            else:
                res.setdefault(n, []).append(r)
                if relevant and budget > 0 and tier == "quick" and any(relevant(n, v) for v in r["viol"]):
                    budget, relevant = min(budget, time.time() - t0 + 45), None
    return P, todo, res, errors

def harness_names():
    """All entries the harness has (from its source; the dump is checked against it)."""
    from .build import HERE
    s = "".join(open(os.path.join(HERE, "harness", "src", f)).read() for f in ("lib.rs", "literals.rs"))
    return set(re.findall(r"^pub fn (h_(?!aux_)\w+)", s, re.M))

def norm_text(v):
    return (v["cat"], re.sub(r"^\S+ \([^)]*\): ", "", v["what"]).replace("frozen", "node").replace("hot", "node"))

def interp_property(pid, tier):
    rules = PLAN.get(pid, [])
    if pid in TWINS:
        rx = {"C17": re.compile("(?:%s)$" % BOTH), "C22": re.compile("(?:%s)$" % alt(EDIT, CLONE1, QUERY, DATA, "grant_(try_)?clone", r"tree_\w+", "node_(try_)?eq")),
              "C25": re.compile(r"(?:(node|hot)_(try_)?create_(node_)?as\w*|insertas_\w+)$")}[pid]
        want = lambda n: bool(rx.match(n))
    else: want = lambda n: any(r.rx.match(n) for r in rules)
    def hit(n, v): return any(r.rx.match(n[2:]) and v["cat"] in r.cats and (r.when is None or r.when(v)) for r in rules)
    try: P, todo, res, errors = analyse(want, tier, 500 if tier == "quick" else 840, None if pid in TWINS else hit, ("literals",) if pid == "C26" else ())
    except build.BuildError as e:
        # The literals are valid by the macro's documentation: when only they fail to compile, the macro is at fault.
        if pid != "C26": raise
        build.dump()
        m = re.search(r"error(?:.|\n)*", str(e))
        return {"explanation": "The harness compiles, the tree literals do not."}, [{"key": "literal/compile", "what": "a tree literal does not compile: %s" % (m.group(0) if m else str(e))[:1500]}], []
    viol, incon = [], []
    for n, e in errors: incon.append({"entry": n, "why": "analysis error: " + e.strip().splitlines()[-1]})
    tot = {k: 0 for k in ("states", "exits", "obligations", "observed", "usercode", "configs", "blocks")}
    fns, outcomes = set(), {}
    for n, rs in res.items():
        for r in rs:
            for k in tot: tot[k] += r[k]
            fns.update(r["fns"])
            for k, c in r["outcomes"].items(): outcomes[k] = outcomes.get(k, 0) + c
            for c, why in r["incon"]: incon.append({"entry": n, "config": c, "why": why})
    allv = {n: [v for r in rs for v in r["viol"]] for n, rs in res.items()}
    if pid in TWINS: viol = twins(pid, allv, res)
    else:
        for n, vs in allv.items():
            for v in vs:
                if hit(n, v): viol.append(v)
    missing = sorted(n for n in harness_names() if want(n[2:]) and n not in res and n in todo)
    decided = sum(1 for rs in res.values() for r in rs if r["configs"] and not r["incon"])
    allc = sum(1 for rs in res.values() for r in rs if r["configs"] or r["incon"])
    cov = {
        "explanation": "Abstract interpretation, to a fixpoint, of the MIR of %d entry functions (%d with all their configurations decided) and of everything they call in /repo: "
                       "%d abstract states, %d outcomes compared with the expected hierarchy, counts, locks and results." % (len(todo), len([n for n in res if not any(r["incon"] for r in res[n])]), tot["states"], tot["exits"]),
        "rule": "an obligation is one comparison of a link, count, membership, lock, reference count or result of an outcome with the specification; "
                "violations are those of the kinds listed for this property in vf/props.py",
        "entries": sorted(n[2:] for n in todo), "entries_analysed": len(res), "configurations": tot["configs"],
        "abstract_states": tot["states"], "outcomes": tot["exits"], "outcome_kinds": outcomes, "obligations": tot["obligations"],
        "discharged": tot["obligations"] if not viol else tot["obligations"] - sum(v["n"] for v in viol), "items_observed": tot["observed"], "points_of_user_code": tot["usercode"],
        "functions_analysed": sorted(fns), "inconclusive": incon[:200], "configurations_decided": decided,
        "samples": [{"entry": n, "config": r["cfg"], "outcomes": r["outcomes"], "states": r["states"]} for n, rs in sorted(res.items())[:: max(1, len(res) // 5)] for r in rs[:1]],
    }
    for i in incon[:10]: print("INCONCLUSIVE property=%s %s: %s" % (pid, i["entry"], i["why"]))
    if not viol and (not res or missing or decided * 2 < allc):
        print("the analysis of %s is not conclusive: %d of %d configurations decided; missing: %s" % (pid, decided, allc, missing[:5]))
        cov["not_conclusive"] = True
        return cov, viol, None
    return cov, viol, ["rustc's MIR of the harness and of the crate in /repo is what is compiled",
                       "the models in vf/natives.py and vf/interp.py of the core and alloc functions used (Rc, Weak, Cell, RefCell, Option, mem)",
                       "hierarchies in the initial states are consistent, as every operation is shown to leave them (C01-C09)"]

def twins(pid, allv, res):
    out = {}
    cats = {"clone", "events", "result", "error", "panic", "nopanic", "sequence", "peek", "hint", "after-end", "skip", "borrow", "upgrade"} | LINKS | {"count", "tree", "inconsistent"}
    if pid == "C17": cats |= {"agg", "locks"}
    if pid == "C22": cats |= {"abort", "endless"}
    def have(n): return {norm_text(v) for v in allv.get(n, ()) if v["cat"] in cats}
    for n, vs in allv.items():
        for v in vs:
            if v["cat"] not in cats: continue
            if pid == "C22" and v["cat"] == "panic" or pid == "C25" and n.startswith("h_insertas"):
                out[(v["key"], v["what"])] = v
                continue
            for rx, tw in TWINS[pid]:
                m = rx.match(n)
                if not m: continue
                t = tw(m)
                if "*" in t: ts = [x for x in allv if x.startswith(t[:-1])]
                else: ts = [t] if t in allv else []
                if not ts: continue
                k = norm_text(v)
                if pid == "C22":
                    # A twin fails with an error where the other panics.
                    other = {norm_text(x)[1] for x in allv[ts[0]]}
                    if any(similar(k[1], o) for o in other): continue
                elif any(k in have(x) for x in ts): continue
                if pid == "C17" and v["cat"] in ("agg", "locks") and n.startswith("h_node"): continue
                v = dict(v, what=v["what"] + " (%s does not)" % ", ".join(x[2:] for x in ts))
                out[(v["key"], v["what"])] = v
    return list(out.values())

def similar(a, b):
    if a == b: return True
    f = lambda s: "fail" if "err" in s or "panic" in s else s
    return f(a) == f(b)

def decide(pid, tier):
    if pid == "C24":
        from . import witness
        cov, viol = witness.run()
        return cov, viol, ["rustc's type checker is correct"]
    if pid in PLAN or pid in TWINS: return interp_property(pid, tier)
    raise SystemExit("no check for " + pid)

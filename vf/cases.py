"""Runs one entry function under one configuration and checks every outcome against its specification."""
import re, time
from .num import Infeasible, add, Lin
from .shape import Split, Stop, DEAD
from .entry import build, configs, Decoder, handles, Exp, Compare, Restart
from .engine import Budget
from . import spec as S

class Case:
    """The events of one run: user code, observations, exits."""
    def __init__(self, eng, f, cfg):
        self.eng, self.f, self.cfg = eng, f, cfg
        self.name = f.name.split("::")[-1]
        self.dec = Decoder(eng.prog, eng.lay)
        self.viol = {}
        self.incon = {}
        self.exits = self.obligations = self.observed = self.usercode = 0
        self.outcomes = {}
        self.spec, self.sargs = S.find(self.name)
        self.world = None
        self.released = 0
        self.inline = bool(re.search(r"_drop$", self.name))
        self.pin_place = bool(re.search(r"_count_(preceding|following)_siblings$", self.name))
        self.pad = isinstance(self.spec, (S.Walk, S.Equality, S.Builder)) or getattr(self.spec, "printing", False)
        self.cfg_dying = 'dying' in cfg.values()

    # ---- reporting ----
    def report(self, st, cat, text, site=None, extra=""):
        s = site or st.site()
        key = "%s/%s/%s" % (self.name, cat, s[0] if s else "?")
        v = self.viol.get((key, text))
        if v is None:
            self.viol[(key, text)] = {
                "key": key, "cat": cat, "entry": self.name, "what": "%s (%s): %s" % (self.name, ", ".join("%s=%s" % kv for kv in sorted(self.cfg.items())) or "-", text),
                "site": s, "config": self.cfg, "path": ["%s: %s" % (l[0], l[1]) for l in st.log][-60:], "n": 1}
        else: v["n"] += 1

    def on_stop(self, st, e):
        if e.kind == "done": return
        if e.kind == "internal":
            self.incon[e.text] = self.incon.get(e.text, 0) + 1
            return
        cat = {"uaf": "uaf", "endless": "endless", "recursion": "recursion", "abort": "abort", "unreachable": "abort"}[e.kind]
        self.report(st, cat, "%s: %s" % (e.kind, e.text))

    def initial(self, st):
        """The initial states, with everything the specification needs to know about the shape decided."""
        out, work = [], [st]
        while work:
            s = work.pop()
            c = s.copy()
            try:
                self.spec.setup(self, c)
                out.append(c)
            except Split as e:
                for label, f in reversed(e.alts):
                    n = s.copy()
                    try: f(n)
                    except Infeasible: continue
                    n.log = n.log + (("case", label),)
                    work.append(n)
        return out

    # ---- events of the interpreter ----
    def on_new(self, st, o): pass

    def on_head(self, st):
        if self.spec.head is None: return
        st.checking = True
        self.spec.head(self, st)
        st.checking = False

    def on_last_drop(self, st, o):
        if st.objty[o] in ("node", "nnode") and not st.panicking:
            for fr in st.frames:
                for c in fr.cont:
                    if c[0] == "free" and st.objty.get(c[1]) in ("node", "nnode"):
                        self.report(st, "recursion", "a node is released from within the release of another node")

    def release(self, st, t):
        """The last owner of a tree is gone. What releasing a tree of a proper shape does is decided by the
        entries that only release something; the others rely on it: all its nodes are released, except
        those that are held elsewhere, which keep no links."""
        if self.inline: return False
        st.checking = True
        E = None
        for X in S.shapes(self, st):
            if t not in X.trees: continue
            c = Compare(st, X, None)
            if not c.run_tree(t):
                E = X
                break
        if E is None:
            # Not one of the shapes the summary is about: the release is analysed like anything else.
            st.checking = False
            return False
        self.consistent(st, "release of a tree")
        c = Compare(st, E, None)
        ns = [n for n in E.kids if st.objty.get(n) in ("node", "nnode") and c.etree(n) == t]
        stay = [n for n in ns if not st.is_zero(add(st.owners(n), -1), "other owners of node %d" % n)]
        st.checking = False
        self.usercode += 1
        self.released += 1
        for n in stay:
            P = st.lay.paths
            p = E_parent = c.par[n]
            for role in ("next", "prevc", "memb", "parent"):
                if st.peek(-n, P[role])[0] == "Z":
                    st._put(-n, P[role], {"next": ("A", 0, ()), "prevc": st.lay.weak_link(DEAD), "memb": st.lay.memb_weak(DEAD), "parent": st.lay.weak_link(p if p in stay else DEAD)}[role])
            st._put(-n, P["next"], ("A", 0, ()))
            st._put(-n, P["first"], ("A", 0, ()))
            st.strong[n] = add(st.owners(n), -1)
        for n in ns:
            if n not in stay:
                st.strong[n] = 0
                st.freed = st.freed | {n}
                st.mem.pop(-n, None)
        st.strong[t] = 0
        st.freed = st.freed | {t}
        st.mem.pop(-t, None)
        st.cfg_set(("released", t), True)
        return True

    def on_leak(self, st, o): st.freed = st.freed | {o}

    def on_cont(self, st, c, unwinding): pass

    def fresh_data(self, st):
        n = ("new", st.nextoid)
        st.nextoid += 1
        return ("data", n)

    def user_code(self, st, kind, args, ptr=None):
        self.usercode += 1
        st.checking = True
        self.consistent(st, "user %s" % kind, [d[1] for d in args] if kind in ("clone", "fmt") else ())
        st.checking = False
        h = getattr(self.spec, "user", None)
        if h: h(self, st, kind, args)
        if st.panicking: return False
        # A panic while a whole tree is released concerns nothing that is still reachable.
        if kind == "drop" and any(c[0] == "free" and st.objty.get(c[1]) in ("tree", "ntree") for fr in st.frames for c in fr.cont): return False
        if getattr(self.spec, "nopanic", False): return False
        return st.choose("user %s panics" % kind, (False, True))

    def consistent(self, st, what, lent=()):
        """No internal borrow is outstanding and every live tree is as before or as after the operation."""
        best = None
        for E in S.shapes(self, st):
            c = Compare(st, E, None)
            c.lent = lent
            mis = c.run(live_only=True)
            self.obligations += c.obligations
            if not mis: return
            if best is None or len(mis) < len(best): best = mis
        for cat, text, site in best:
            self.report(st, "flag" if cat == "flag" else "midway", "%s runs while %s" % (what, text), site)

    def vec(self, st, op, v):
        h = getattr(self.spec, "vec", None)
        if h is None: raise Stop("internal", "no model for Vec")
        st.checking = True
        r = h(self, st, op, v)
        st.checking = False
        return r

    def compare(self, st, a, b):
        self.usercode += 1
        st.checking = True
        self.consistent(st, "user comparison", [d[1] for d in (a, b)])
        r = self.spec.compare(self, st, a, b)
        st.checking = False
        return r

    def observe(self, st, kind, v):
        self.observed += 1
        st.checking = True
        g = st.ghost
        if kind in ("peeking", "peeking_back"): st.ghost = ("pk", kind, g)
        elif g.__class__ is tuple and g[0] == "pk":
            # What comes was only looked at.
            sp = self.spec
            old, st.ghost = sp.peek, g[2]
            b = g[1] == "peeking_back"
            sp.peek = (("back" if b else "node" if kind == "node" else "front"), "b" if b else "f")
            try:
                sp.observe(self, st, kind, v)
                if kind == "depth": st.ghost = ("pk", g[1], st.ghost)
            except Split:
                st.ghost = g
                raise
            finally: sp.peek = old
        else: self.spec.observe(self, st, kind, v)
        st.checking = False

    def on_exit(self, st):
        st.checking = True
        c = S.Exit(self, st)
        c.check()
        self.exits += 1
        k = c.label
        self.outcomes[k] = self.outcomes.get(k, 0) + 1

UNFOLD = 15

def run_entry(eng, f, deadline=None, max_states=60000, only=None):
    """All configurations of an entry; returns a summary."""
    tot = {"entry": f.name.split("::")[-1], "configs": 0, "states": 0, "exits": 0, "obligations": 0, "observed": 0, "usercode": 0,
           "viol": [], "incon": [], "outcomes": {}, "fns": set(), "blocks": 0, "time": 0.0}
    t0 = time.time()
    for cfg in configs(eng.prog, f):
        if only is not None and cfg != only: continue
        case = Case(eng, f, cfg)
        if case.spec is None:
            tot["incon"].append((cfg, "no specification"))
            continue
        try:
            b = build(eng, f, cfg, case)
        except Infeasible:
            continue
        except Stop as e:
            tot["incon"].append((cfg, e.text))
            continue
        if b is None: continue
        st, case.world = b
        tot["configs"] += 1
        if isinstance(case.spec, S.Walk) and not isinstance(case.spec, S.Clone) or getattr(case.spec, "printing", False):
            # Traversals return nothing: their exits are joined like loops.
            eng.comp.fn_code(f)
            f.heads |= {i for i, b in enumerate(f.blocks) if b[1][0] == "ret"}
        t1 = time.time()
        try:
            eng.run(case.initial(st), deadline, max_states)
        except Budget as e:
            case.incon["budget: %s" % e] = 1
        except Infeasible:
            continue
        if case.incon and not case.viol:
            eng.unfold(case.initial(st), time.time() + min(UNFOLD, 3 + (time.time() - t1) / 2), max_states)
        tot["states"] += eng.nstates
        for k in ("exits", "obligations", "observed", "usercode"): tot[k] += getattr(case, k)
        tot["viol"].extend(case.viol.values())
        tot["incon"].extend((cfg, t) for t in case.incon)
        for k, n in case.outcomes.items(): tot["outcomes"][k] = tot["outcomes"].get(k, 0) + n
        tot["fns"] |= {i for i, _ in eng.visited}
        tot["blocks"] += len(eng.visited)
    tot["time"] = time.time() - t0
    return tot

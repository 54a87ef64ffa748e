"""Entry functions: initial abstract worlds, and comparison of the final heap with the expected one."""
from .num import Num, Lin, Infeasible, add, scale
from .shape import State, Frame, Split, Stop, UNIT, NONE, DEAD, MOVED, some
from .interp import leaves
from .loops import peek

class Restart(Split):
    def __init__(self): Split.__init__(self, [("", lambda s: None)])

LINK = ("parent", "first", "next", "prevc", "root")

# ---- decoding of values by type ----
class Decoder:
    def __init__(self, prog, lay):
        self.T, self.L = prog.types, lay

    def dec(self, st, ty, v, refs=True):
        t = self.T[ty]
        k = t["k"]
        if k in ("bool", "int", "uint", "char"): return st.num.norm(v) if v.__class__ is not bool else v
        if k == "ref" or k == "ptr":
            if v[0] == "str": return ("str", v[1])
            if not refs: return ("ref", v)
            x = st.load(v[1], v[2])
            if x[0] == "data": return ("dataref", v[1], x[1])
            return ("&", self.dec(st, t["e"], x))
        if k in ("tuple", "closure"):
            return tuple([self.dec(st, ft, v[2][i] if i < len(v[2]) else UNIT) for i, ft in enumerate(t["f"])])
        if k in ("struct", "enum"):
            n = t["n"].rsplit("::", 1)[-1]
            if t["n"].startswith("dendron"):
                h = {"Node": "node", "HotNode": "hot", "FrozenNode": "frozen", "Tree": "tree", "NodeWeak": "nodeweak", "TreeWeak": "treeweak",
                     "HierarchyEditGrant": "grant", "HierarchyEditProhibition": "prohibition", "NodeCoreLink": "link", "NodeLink": "node"}.get(n)
                if h:
                    l = [x for x in leaves(v, []) if x.__class__ is tuple and x[0] in ("rc", "wk")]
                    if len(l) != 1: raise Stop("internal", "handle %r" % (v,))
                    o = l[0][1]
                    return (h, 0 if o in st.freed else o)
            if n in ("Ref", "RefMut") and "cell" in t["n"]:
                r = [x for x in leaves(v, []) if x.__class__ is tuple and x[0] == "R"]
                return (n, r[0][1] if r else None)
            if v[0] != "A": return v
            if n == "VecDeque":
                return ("queue", tuple([self.dec(st, t["a"][0], x) for x in v[2][0][2]]), st.num.norm(v[2][1]))
            fs = t["v"][v[1]]["f"]
            sub = tuple([self.dec(st, ft, v[2][i] if i < len(v[2]) else UNIT) for i, (_, ft) in enumerate(fs)])
            if k == "enum":
                if n == "Option": return None if v[1] == 0 else ("some", sub[0])
                if n == "Result": return ("ok" if v[1] == 0 else "err", sub[0])
                return (t["v"][v[1]]["n"],) + sub
            return (n,) + sub
        return v

def handles(d, out):
    if d.__class__ is tuple and d:
        if d[0] in ("node", "hot", "frozen", "tree", "grant", "prohibition", "link", "Ref", "RefMut") and len(d) == 2: out.append(d)
        elif d[0] == "&" or d[0] == "ref": return out
        else:
            for x in d: handles(x, out)
    return out

# ---- worlds ----
class World:
    """Builds the initial abstract state for one configuration of an entry function."""
    def __init__(self, eng, st):
        self.eng, self.st, self.L = eng, st, eng.lay
        self.next = 1
        self.named = {}
        self.consumed = []       # handles given by value
        self.cells = []          # storage whose handles are counted anew at the end

    def tree(self, name):
        st = self.st
        t = st.new_oid()
        st.objty[t] = "tree"
        st.D.kids[t] = ()
        st.D.trees = st.D.trees + (t,)
        self.named[name] = t
        st.keep = st.keep + ((name, t),)
        return t

    def node(self, name):
        n = self.st.add_node()
        self.named[name] = n
        self.st.keep = self.st.keep + ((name, n),)
        return n

    def finish_tree(self, t, handles=0, locks=0, dying=False):
        st, N = self.st, self.st.num
        X, E = N.fresh(locks), N.fresh(handles)
        lk, u = 0, 0
        for it in st.D.kids[t]:
            lk, u = add(lk, st.item_sum(it, 0)), add(u, st.item_sum(it, 1))
        st.cfg_set(("ext", t), E)
        st.cfg_set(("locks", t), X)
        st.strong[t] = add(add(lk, u), E)

    def place_one(self, t, n):
        """Node n anywhere in tree t, with any subtree."""
        st = self.st
        st.D.kids[t] = (st.add_spine(t, n),)
        st.D.kids[n] = (st.add_gap(n),)

    def place_two(self, t, x, y, rel):
        st = self.st
        if rel == "anc":                      # x is a proper ancestor of y
            st.D.kids[t] = (st.add_spine(t, x),)
            st.D.kids[x] = (st.add_gap(x), st.add_spine(x, y), st.add_gap(x))
            st.D.kids[y] = (st.add_gap(y),)
        else:                                 # neither is an ancestor of the other; x comes first
            z = st.add_node()
            st.D.kids[t] = (st.add_spine(t, z),)
            st.D.kids[z] = (st.add_gap(z), st.add_spine(z, x), st.add_gap(z), st.add_spine(z, y), st.add_gap(z))
            st.D.kids[x] = (st.add_gap(x),)
            st.D.kids[y] = (st.add_gap(y),)

    def storage(self, v):
        k = self.next
        self.next += 1
        self.st.mem[k] = v
        return ("R", k, ())

KINDN = {"Node": "node", "FrozenNode": "frozen", "HotNode": "hot"}

def arg_shape(prog, ty):
    """(kind, by reference?) of an argument; enums around a handle give ('enum', ...)."""
    t = prog.types[ty]
    byref = False
    if t["k"] == "ref":
        byref, ty = True, t["e"]
        t = prog.types[ty]
    n = t.get("n", t["s"]).rsplit("::", 1)[-1]
    return n, byref, ty

def configs(prog, f):
    """All configurations (lists of per-argument choices plus the relation of the nodes)."""
    args = [arg_shape(prog, t) for t in f.locals[1:1 + f.argc]]
    nodes, trees, grants, enums = [], [], [], []
    for i, (n, r, ty) in enumerate(args):
        if n in KINDN: nodes.append((i, KINDN[n]))
        elif n in ("InsertAs", "DftEvent"): nodes.append((i, KINDN[handle_in(prog, ty)]))
        elif n == "NodeWeak": nodes.append((i, "weak"))
    out = [{}]
    def times(key, opts):
        nonlocal out
        out = [dict(c, **{key: o}) for c in out for o in opts]
    for i, (n, r, ty) in enumerate(args):
        if n in ("InsertAs", "AdoptAs", "DftEvent"):
            times("v%d" % i, list(range(len(prog.types[ty]["v"]))))
        if n in ("HierarchyEditGrant", "HierarchyEditProhibition"):
            if nodes: times("g%d" % i, ["same", "other", "dead"])
            else: times("g%d" % i, ["same", "dead"])
        if n == "Tree" and nodes: times("t%d" % i, ["same", "other"])
        if n == "TreeWeak": times("t%d" % i, ["same", "dead", "dying"])
        if n == "NodeWeak": times("w%d" % i, ["live", "weak", "dead", "dying"])
        if n.startswith("Option"): times("o%d" % i, ["None", "Some", "max"])
        if n.startswith("TreeBuilder"): times("b%d" % i, ["none", "closed", "same", "below"])
        if n.startswith("AllocatingBreadth"): times("q%d" % i, ["empty", "mark", "mark, node", "node"])
    if len(nodes) == 2: times("rel", ["same", "anc", "desc", "before", "after", "other"])
    if sum(1 for a in args if a[0] == "Tree") == 2: times("trees", ["same", "other"])
    n = f.name.split("::")[-1]
    if n.startswith("h_walk_"):
        from .spec import From
        out = [c for c in out if not From.skip_config(n, c)]
    return out

def handle_in(prog, ty):
    t = prog.types[ty]
    if t["k"] == "ref": return handle_in(prog, t["e"])
    for v in t["v"]:
        for _, ft in v["f"]:
            u = prog.types[ft]
            while u["k"] == "ref":
                ft = u["e"]; u = prog.types[ft]
            n = u.get("n", "").rsplit("::", 1)[-1]
            if n in KINDN or n == "NodeWeak": return n
    return None

def build(eng, f, cfg, events):
    """Initial state and the world of a configuration; None when it makes no sense."""
    prog, L = eng.prog, eng.lay
    st = eng.fresh_state(events)
    w = World(eng, st)
    args = [(i,) + arg_shape(prog, t) for i, t in enumerate(f.locals[1:1 + f.argc])]
    N, D = st.num, st.D
    nargs = []
    for i, n, r, ty in args:
        if n in KINDN: nargs.append((i, KINDN[n], r))
        elif n in ("InsertAs", "DftEvent"): nargs.append((i, KINDN[handle_in(prog, ty)], r or n == "InsertAs" and prog.types[ty]["v"][0]["f"] and prog.types[prog.types[ty]["v"][0]["f"][0][1]]["k"] == "ref"))
        elif n == "NodeWeak": nargs.append((i, "weak", r))
        elif n.startswith("AllocatingBreadth") and cfg["q%d" % i].endswith("node"): nargs.append((i, "frozen", r))
    T = w.tree("T")
    ids = {}
    dead_node = any(cfg.get("w%d" % i) == "dead" for i, k, r in nargs)
    dying = "dying" in cfg.values()
    rel = cfg.get("rel")
    if len(nargs) == 1 and not dead_node:
        x = w.node("x")
        w.place_one(T, x)
        ids[nargs[0][0]] = x
    elif len(nargs) == 2:
        a, b = nargs[0][0], nargs[1][0]
        x = w.node("x")
        if rel == "same":
            w.place_one(T, x)
            ids[a] = ids[b] = x
        else:
            y = w.node("y")
            ids[a], ids[b] = x, y
            if rel == "anc": w.place_two(T, x, y, "anc")
            elif rel == "desc": w.place_two(T, y, x, "anc")
            elif rel == "before": w.place_two(T, x, y, "un")
            elif rel == "after": w.place_two(T, y, x, "un")
            else:
                w.place_one(T, x)
                U = w.tree("U")
                w.place_one(U, y)
    bs = [(i, n, r, ty, cfg["b%d" % i]) for i, n, r, ty in args if n.startswith("TreeBuilder")]
    if len(nargs) == 0 or len(nargs) == 1 and dead_node:
        if bs and bs[0][4] != "none": pass
        elif "trees" in cfg or not nargs:
            r0 = w.node("r")
            st.D.kids[T] = (r0,)
            D.par[r0] = T
            st.D.kids[r0] = (st.add_gap(r0),)
    need_u = any(v == "other" for k, v in cfg.items() if k[0] in "gt")
    if need_u and "U" not in w.named:
        U = w.tree("U")
        r1 = w.node("r1")
        st.D.kids[U] = (r1,)
        D.par[r1] = U
        st.D.kids[r1] = (st.add_gap(r1),)
    # Handles: at least as many as the arguments are.
    cnt = {}
    modes = {}
    for i, k, r in nargs:
        if i not in ids: continue
        n = ids[i]
        c = cnt.setdefault(n, [0, 0])
        if k == "weak": continue
        c[1 if k in ("hot", "frozen") else 0] += 1
        if k in ("hot", "frozen"):
            t = st.tree_of(n)
            m = "G" if k == "hot" else "P"
            if modes.setdefault(t, m) != m: return None
    for i, n, r, ty, kind in bs:
        if kind == "none": continue
        B = w.tree("B") if nargs else T
        top = cur = w.node("top")
        if kind == "below":
            cur = w.node("cur")
            w.place_two(B, top, cur, "anc")
        else: w.place_one(B, top)
        cnt[top] = [1, 0]
        if kind != "closed":
            cnt.setdefault(cur, [0, 0])[1] += 1
            modes[B] = "G"
        ids[i] = (top, None if kind == "closed" else cur)
    for n, (p, a) in cnt.items():
        N.assume_ge(add(D.ph[n], -p))
        N.assume_ge(add(D.agg[n], -a))
        if a:
            N.assume_eq(D.lk[n], 1); N.assume_eq(D.u[n], 0)
        elif p:
            N.assume_eq(add(D.lk[n], D.u[n]), 1)
    if any(cfg.get("w%d" % i) == "weak" for i, k, r in nargs): pass
    th, tl = {t: 0 for t in D.trees}, {t: 0 for t in D.trees}
    vals = []
    spec_args = []
    for i, n, r, ty in args:
        leaf = None
        if n in KINDN:
            v, d = L.handle(ty, ("rc", ids[i])), (KINDN[n], ids[i])
        elif n in ("InsertAs", "DftEvent"):
            vi = cfg["v%d" % i]
            ft = prog.types[ty]["v"][vi]["f"][0][1]
            hk = KINDN[handle_in(prog, ty)]
            if prog.types[ft]["k"] == "ref":
                h = w.storage(L.handle(prog.types[ft]["e"], ("rc", ids[i])))
            else: h = L.handle(ft, ("rc", ids[i]))
            v, d = ("A", vi, (h,)), (prog.types[ty]["v"][vi]["n"], (hk, ids[i]))
        elif n == "AdoptAs":
            vi = cfg["v%d" % i]
            v, d = ("A", vi, ()), (prog.types[ty]["v"][vi]["n"],)
        elif n == "NodeWeak":
            o = DEAD if cfg["w%d" % i] == "dead" else ids[i]
            v, d = L.handle(ty, ("wk", o)), ("nodeweak", o)
        elif n == "Tree":
            t = w.named["U"] if cfg.get("t%d" % i) == "other" else T
            if cfg.get("trees") == "other" and i == 1:
                if "U" not in w.named:
                    U = w.tree("U"); r1 = w.node("r1")
                    st.D.kids[U] = (r1,); D.par[r1] = U
                    st.D.kids[r1] = (st.add_gap(r1),)
                    th[U] = tl[U] = 0
                t = w.named["U"]
            th[t] += 1
            v, d = L.handle(ty, ("rc", t)), ("tree", t)
        elif n == "TreeWeak":
            t = DEAD if cfg["t%d" % i] == "dead" else T
            v, d = L.handle(ty, ("wk", t)), ("treeweak", t)
        elif n in ("HierarchyEditGrant", "HierarchyEditProhibition"):
            g = cfg["g%d" % i]
            t = DEAD if g == "dead" else w.named["U"] if g == "other" else T
            m = "G" if n == "HierarchyEditGrant" else "P"
            if t != DEAD:
                tl[t] += 1
                if modes.setdefault(t, m) != m: return None
            v, d = L.handle(ty, ("wk", t)), ("grant" if m == "G" else "prohibition", t)
        elif n.startswith("TreeBuilder"):
            v, d = builder(prog, L, ty, *ids.get(i, (None, None)))
        elif n.startswith("AllocatingBreadth"):
            v, d = queued(prog, L, st, ty, cfg["q%d" % i], ids.get(i))
        elif prog.types[ty]["k"] in ("uint",):
            v = N.fresh(0); d = v
            st.cfg_set(("arg", i), v)
        elif prog.types[ty]["k"] == "enum" and n.startswith("Option"):
            o = cfg["o%d" % i]
            d = None if o == "None" else N.fresh(0) if o == "Some" else (1 << 64) - 1
            v = NONE if d is None else some(d)
        else:
            v, d = ("op", n), ("op", n)
        if not r and n not in ("InsertAs", "AdoptAs"): w.consumed.extend(handles(d, []))
        if r:
            v = w.storage(v)
            if n.startswith(("TreeBuilder", "AllocatingBreadth")):
                # What is behind the reference belongs to the caller before and after.
                w.consumed.extend(handles(d, []))
                w.cells.append((v[1], ty))
        vals.append(v)
        spec_args.append(d)
    for t in D.trees: w.finish_tree(t, th[t], tl[t])
    for t in D.trees:
        if t in modes:
            st.num.assume_ge(add(st.locks_total(t), -1))
            st.cfg_set(("mode", t), modes[t])
    if dying:
        # The tree is being released: nothing refers to it, its counter is 0.
        N.assume_eq(st.strong[T], 0)
        N.assume_eq(st.locks_total(T), 0)
        st.cfg_set(("mode", T), "0")
        for n, i in [(n, 0) for n in D.agg]:
            N.assume_eq(D.agg[n], 0); N.assume_eq(D.ph[n], 0)
    else:
        # Something keeps each tree alive.
        for t in D.trees:
            N.assume_ge(add(st.strong[t], -1))
    for i, k, r in nargs:
        if cfg.get("w%d" % i) == "live":
            n = ids[i]
            N.assume_eq(add(D.lk[n], D.u[n]), 1)
            N.assume_ge(add(add(D.agg[n], D.ph[n]), -1))
        elif cfg.get("w%d" % i) == "weak":
            st.set_strong(ids[i], False)
    eng.enter(st, f, vals)
    w.args = spec_args
    w.cfg = cfg
    st.ghost = ()
    return st, w

def builder(prog, L, ty, top, cur):
    """A tree builder: its fields are found by their types."""
    fs = prog.types[ty]["v"][0]["f"]
    vals = []
    seen = set()
    for _, ft in fs:
        t = prog.types[ft]
        inner = t["v"][1]["f"][0][1] if t["k"] == "enum" and len(t["v"]) == 2 and len(t["v"][1]["f"]) == 1 else None
        n = prog.types[inner].get("n", "").rsplit("::", 1)[-1] if inner is not None else None
        if n not in ("Node", "HotNode") or n in seen: raise Stop("internal", "a tree builder holds %s" % t["s"])
        seen.add(n)
        o = top if n == "Node" else cur
        vals.append(NONE if o is None else some(L.handle(inner, ("rc", o))))
    if len(seen) != 2: raise Stop("internal", "a tree builder holds only %s" % sorted(seen))
    return ("A", 0, tuple(vals)), ("builder", top and ("node", top), cur and ("hot", cur))

def queued(prog, L, st, ty, conf, x):
    """A breadth-first traverser with a queue: the first one or two elements and the length are known."""
    from . import queues
    fs = prog.types[ty]["v"][0]["f"]
    vals, depth, n = [], None, 0
    for _, ft in fs:
        t = prog.types[ft]
        if t["k"] == "uint" and depth is None:
            depth = st.num.fresh(0)
            vals.append(depth)
        elif t.get("n", "").endswith("::VecDeque"):
            e = prog.types[t["a"][0]]
            if e["k"] != "enum" or sorted(len(a["f"]) for a in e["v"]) != [0, 1]: raise Stop("internal", "a queue of %s" % e["s"])
            m = next(j for j, a in enumerate(e["v"]) if not a["f"])
            es = []
            if conf.startswith("mark"): es.append(("A", m, ()))
            if conf.endswith("node"): es.append(("A", 1 - m, (L.handle(e["v"][1 - m]["f"][0][1], ("rc", x)),)))
            n = 0 if conf == "empty" else 1 if conf == "mark" else st.num.fresh(2)
            vals.append(queues.queue(es, n))
        else: raise Stop("internal", "a traverser holds %s" % t["s"])
    if len(vals) != 2 or depth is None: raise Stop("internal", "a traverser holds %d fields" % len(vals))
    return ("A", 0, tuple(vals)), ("bfs", conf, x and ("frozen", x), depth, n)

# ---- expected final shape ----
class Exp:
    def __init__(self, st):
        self.st = st
        self.kids = dict(st.D.kids)
        self.trees = list(st.D.trees)
        self.own = None
        self.newtree_of = {}
        self.roots = {}

    def owner(self, n):
        for c, k in self.kids.items():
            if n in k: return c
        return None

    def remove(self, n):
        if n not in self.st.D.par: return None, 0
        c = self.st.owner(n)
        k = self.kids[c]
        i = k.index(n)
        self.kids[c] = k[:i] + k[i + 1:]
        return c, i

    def insert(self, c, i, *items):
        if c is None: return
        k = self.kids[c]
        if i is None: i = len(k)
        self.kids[c] = k[:i] + tuple(items) + k[i:]

    def index(self, n):
        if n not in self.st.D.par: return None, 0
        c = self.st.owner(n)
        return c, self.kids[c].index(n)

def is_gap(it): return it.__class__ is tuple and it[0] == "G"
def is_sp(it): return it.__class__ is tuple and it[0] == "S"

def upto(items):
    out = []
    for it in items:
        out.append(it)
        if it.__class__ is int: break
    return tuple(out)

class Compare:
    """Compares the heap of a state with an expected shape; collects mismatches."""
    def __init__(self, st, E, deltas=None, trees=None, skip=()):
        self.st, self.E, self.D = st, E, st.D
        self.mis = []
        self.dl = deltas if deltas is not None else {}
        self.par = {}
        self.skip = skip
        for c, k in E.kids.items():
            for it in k:
                self.par[it] = c
                if is_sp(it): self.par[st.D.spines[it[1]][0]] = it
        self.obligations = 0
        self.noleak = False
        self.lent = ()

    def site(self, n, role):
        w = self.st.writers.get((n, self.st.lay.paths.get(role)))
        if w: return w
        for (o, p), v in self.st.writers.items():
            if o == n and p[:1] == self.st.lay.paths.get(role, ())[:1]: return v
        return None

    def bad(self, cat, text, n=None, role=None):
        s = self.site(n, role) if n is not None else None
        self.mis.append((cat, text, s))

    def etree(self, n):
        x = n
        while True:
            p = self.par.get(x)
            if p is None: return None
            if p.__class__ is int and self.st.objty.get(p) in ("tree", "ntree"): return p
            x = p

    def name(self, o):
        for nm, i in self.st.keep:
            if i == o: return nm
        return {"nnode": "new", "ntree": "newtree"}.get(self.st.objty.get(o), "n%d" % o if o.__class__ is int else str(o))

    def first_of(self, items, side):
        """The first node of a sequence of items (materialising it)."""
        st = self.st
        for it in items:
            if it.__class__ is int: return it
            if is_gap(it):
                n = st.num.norm(self.D.gaps[it[1]][0])
                if n == 0: continue
                st.split_gap(it, side)
                raise Restart()
            st.split_spine(it, "top")
            raise Restart()
        return None

    def same_seq(self, a, b):
        def cut(s):
            out = []
            for it in s:
                if is_gap(it) and self.st.num.norm(self.D.gaps[it[1]][0]) == 0: continue
                out.append(it)
                if not is_gap(it): break
                if self.st.num.min(self.D.gaps[it[1]][0]) > 0: break
            return out
        return cut(a) == cut(b)

    def seqs(self, kids, it, role):
        i = kids.index(it)
        if role == "next": return kids[i + 1:]
        return tuple(reversed(kids[:i]))

    def run(self, live_only=False):
        st, D, E = self.st, self.D, self.E
        nodes = [n for n in E.kids if st.objty.get(n) in ("node", "nnode")]
        self.dead = set()
        for t in E.trees:
            if live_only:
                if t in st.freed or st.is_zero(st.strong[t], "references to tree %s" % self.name(t)): self.dead.add(t)
                continue
            s = self.tree_strong(t)
            if st.is_zero(s, "references to tree %s" % self.name(t)): self.dead.add(t)
        for t in E.trees:
            if t in self.dead:
                if t not in st.freed and not live_only and not self.noleak:
                    self.bad("leak", "tree %s is not released although nothing refers to it" % self.name(t))
                continue
            if t in st.freed or st.num.norm(st.strong[t]) == 0:
                self.bad("uaf", "tree %s is released although it is referred to" % self.name(t))
                continue
            self.root(t)
            if not live_only: self.tree_counts(t)
        for n in nodes:
            t = self.etree(n)
            if t is None:
                if st.cfg_get(("gone", n)) is not None and n not in st.freed and not live_only and not self.noleak: self.bad("leak", "node %s is not released with its tree" % self.name(n))
                continue
            if t in self.dead:
                if n not in st.freed and not live_only and not self.noleak: self.bad("leak", "node %s is not released with its tree" % self.name(n))
                continue
            if n in st.freed:
                self.bad("uaf", "node %s is released although its tree is alive" % self.name(n))
                continue
            self.node(n, t, live_only)
        for c, k in E.kids.items():
            t = c if st.objty.get(c) in ("tree", "ntree") else self.etree(c)
            for it in k:
                if it.__class__ is int: continue
                if t in self.dead:
                    if live_only or self.noleak or st.cfg_get(("released", t)): continue
                    n = D.gaps[it[1]][0] if is_gap(it) else D.spines[it[1]][1]
                    if not st.is_zero(n, "unreleased"): self.bad("leak", "nodes are not released with their tree")
                    continue
                self.item(c, it, t)
        if not live_only and not self.noleak: self.strays()
        return self.mis

    def run_tree(self, t):
        """Only tree t: links, counts of children and membership, whatever refers to it."""
        st, E = self.st, self.E
        self.root(t)
        for n in list(E.kids):
            if st.objty.get(n) in ("node", "nnode") and self.etree(n) == t:
                if n in st.freed: self.bad("uaf", "node %s is released before its tree" % self.name(n))
                else: self.node(n, t, True)
        for c, k in E.kids.items():
            if c == t or self.etree(c) == t:
                for it in k:
                    if it.__class__ is not int: self.item(c, it, t)
        return self.mis

    def strays(self):
        st = self.st
        for o, k in st.objty.items():
            if k in ("nnode", "ntree") and o not in st.freed and o not in self.E.kids and o not in self.E.trees:
                self.bad("leak", "an object allocated by the operation is neither released nor part of the result")

    def flags(self, o, kind):
        st = self.st
        if -o not in st.mem: return
        for fk, path in st.lay.flagpaths.items():
            if fk[0] != kind: continue
            v = peek(st, -o, path)
            if v.__class__ is tuple: continue
            if fk[1] == st.lay.data_field:
                exp = st.cfg_get(("dflag", o)) or 0
                if st.objty[o] == "nnode": exp = 0
                exp = add(exp, self.dl.get(("flag", o), 0))
                self.obligations += 1
                # Data handed to user code may be borrowed shared meanwhile, what is being printed as well.
                if (o in self.lent or self.lent and getattr(st.events.spec, "printing", False)) and self.st.ge(v, exp, "borrow") and self.st.ge(v, 0, "borrow"): continue
                if not self.num_eq(v, exp): self.bad("flag", "data of node %s is left borrowed (or its borrow is lost)" % self.name(o), o)
            else:
                self.obligations += 1
                if not self.num_eq(v, 0): self.bad("flag", "internal %s of %s is left borrowed" % (fk[1], self.name(o)), o)

    def num_eq(self, a, b):
        return self.st.same_num(a, b)

    def field(self, o, role):
        st = self.st
        if -o in st.mem: return peek(st, -o, st.lay.paths[role])
        return ("Z", o, role)

    def lazy(self, v): return v.__class__ is tuple and v[0] == "Z"

    def actual(self, o, role):
        """Actual target of a link field: node id, None or DEAD."""
        st = self.st
        v = self.field(o, role)
        if self.lazy(v): v = st.force(v)
        while v.__class__ is tuple and v[0] == "A":
            if role in ("first", "next"):
                if v[1] == 0 and not v[2]: return None
            v = v[2][0]
        if v[0] in ("rc", "wk"):
            return 0 if v[1] in st.freed else v[1]
        if v[0] == "X": return None
        raise Stop("internal", "link %r" % (v,))

    def root(self, t):
        st = self.st
        exp = self.E.kids[t]
        v = self.field(t, "root")
        self.obligations += 1
        if self.lazy(v) and self.same_seq(self.D.kids.get(t, ()), exp):
            pass
        else:
            e = self.first_of(exp, "L")
            a = self.actual(t, "root")
            if a != e: self.bad("root", "root of tree %s is %s, expected %s" % (self.name(t), self.name(a), self.name(e)), t, "root")
        self.flags(t, "tree")

    def node(self, n, t, live_only):
        st, D, E = self.st, self.D, self.E
        p = self.par[n]
        new = st.objty[n] == "nnode"
        owner = p if p.__class__ is int else None
        top = owner is not None and st.objty.get(owner) in ("tree", "ntree")
        self.obligations += 6
        # parent
        v = self.field(n, "parent")
        if not (self.lazy(v) and D.par.get(n) == p and "parent" not in D.over.get(n, {})):
            if owner is None:
                st.owner(n)
                raise Restart()
            a = self.actual(n, "parent")
            e = None if top else owner
            if a != e: self.bad("parent", "parent of %s is %s, expected %s" % (self.name(n), self.name(a), self.name(e)), n, "parent")
        # children
        v = self.field(n, "first")
        ek = E.kids[n]
        if not (self.lazy(v) and self.same_seq(D.kids.get(n, ()), ek)):
            e = self.first_of(ek, "L")
            a = self.actual(n, "first")
            if a != e: self.bad("first", "first child of %s is %s, expected %s" % (self.name(n), self.name(a), self.name(e)), n, "first")
        # siblings
        if owner is not None:
            ks = E.kids[owner]
            dk = D.kids.get(D.par[n], ()) if D.par.get(n).__class__ is int else None
            for role, side in (("next", "L"), ("prevc", "R")):
                v = self.field(n, role)
                if top:
                    e = None if role == "next" else n
                    if self.lazy(v) and st.objty.get(D.par.get(n)) == "tree": continue
                    a = self.actual(n, role)
                    if a != e: self.bad(role, "%s of root %s is %s" % (NAME[role], self.name(n), self.name(a)), n, role)
                    continue
                es = self.seqs(ks, n, role)
                if self.lazy(v) and dk is not None and n in dk and st.objty.get(D.par[n]) != "tree" and D.par[n] not in D.dirty:
                    ds = self.seqs(dk, n, role)
                    if self.same_seq(es, ds) and (role == "next" or any(self.sure(i) for i in es)): continue
                    if role == "prevc" and self.same_seq(es, ds) and self.same_seq(tuple(reversed(ks)), tuple(reversed(dk))): continue
                e = self.first_of(es, side)
                if role == "prevc" and e is None: e = self.first_of(tuple(reversed(ks)), side)
                a = self.actual(n, role)
                if a != e: self.bad(role, "%s of %s is %s, expected %s" % (NAME[role], self.name(n), self.name(a), self.name(e)), n, role)
        else:
            for role in ("next", "prevc"):
                v = self.field(n, role)
                if not self.lazy(v) or D.par.get(n) != p:
                    st.owner(n)
                    raise Restart()
        # count
        v = self.field(n, "nch")
        if self.lazy(v): v = st.kid_count(n)
        e = 0
        for it in ek: e = add(e, D.gaps[it[1]][0] if is_gap(it) else 1)
        if not self.num_eq(v, e): self.bad("count", "number of children of %s is %s, expected %s" % (self.name(n), st.num.norm(v), st.num.norm(e)), n, "nch")
        # membership
        v = self.field(n, "memb")
        if not new: st.imply(n)
        d_agg, d_ref = self.dl.get(("agg", n), 0), self.dl.get(("ref", n), 0)
        ra, rp = (D.agg[n], D.ph[n]) if not new else (0, 0)
        e_ref, e_agg = add(add(ra, rp), d_ref), add(ra, d_agg)
        if self.lazy(v) and (d_agg or d_ref): v = st.force(v)
        if self.lazy(v):
            if st.cur_tree(n) != t: self.bad("tree", "%s belongs to tree %s, expected %s" % (self.name(n), self.name(st.cur_tree(n)), self.name(t)), n, "memb")
        else:
            s, at, rc, agg = st.lay.memb_parts(v)
            if at in st.freed: at = 0
            if at != t: self.bad("tree", "%s belongs to tree %s, expected %s" % (self.name(n), self.name(at), self.name(t)), n, "memb")
            if not live_only:
                if agg.__class__ is tuple: agg = e_agg if not d_agg else st.force(agg)
                if s:
                    if not self.num_eq(rc, e_ref): self.bad("ref", "node %s counts %s references, expected %s" % (self.name(n), st.num.norm(rc), st.num.norm(e_ref)), n, "memb")
                    if not self.num_eq(agg, e_agg): self.bad("agg", "node %s counts %s locks, expected %s" % (self.name(n), st.num.norm(agg), st.num.norm(e_agg)), n, "memb")
                elif not self.num_eq(e_ref, 0):
                    self.bad("ref", "node %s does not count its %s references" % (self.name(n), st.num.norm(e_ref)), n, "memb")
        # allocation count
        if not live_only:
            e = add(add(1, e_ref), self.dl.get(("raw", n), 0))
            if not self.num_eq(st.strong[n], e): self.bad("strong", "allocation of node %s has %s owners, expected %s" % (self.name(n), st.num.norm(st.strong[n]), st.num.norm(e)), n)
        v = self.field(n, "data") if -n in st.mem else ("data", n)
        if not self.lazy(v) and not new and v != ("data", n): self.bad("data", "data of node %s was replaced" % self.name(n), n, "data")
        self.flags(n, "node")

    def sure(self, it):
        if not is_gap(it): return True
        return (self.st.num.min(self.D.gaps[it[1]][0]) or 0) > 0

    def item(self, c, it, t):
        """A gap or spine of the expected shape: nothing of it was touched except as noted."""
        st, D, E = self.st, self.D, self.E
        self.obligations += 4
        if is_gap(it):
            n, lk, u, sh, dp = D.gaps[it[1]]
            if st.num.norm(n) == 0: return
            dc = D.par[it]
            at = dp if dp is not None else st.tree_of(dc) if st.objty[dc] == "node" else dc
            ap = sh if sh is not None else dc
            if at != t or ap != c:
                if st.is_zero(n, "nodes below %s" % self.name(c)): return
                if at != t: self.bad("tree", "nodes below %s belong to tree %s, expected %s" % (self.name(c), self.name(0 if at in st.freed else at), self.name(t)))
                else: self.bad("parent", "parent of children of %s is %s" % (self.name(c), self.name(0 if ap in st.freed else ap)))
                return
            if not self.around(c, dc, it):
                st.split_gap(it, "L")
                raise Restart()
        else:
            tgt, ln = D.spines[it[1]][:2]
            sd, ld, rd = D.spines[it[1]][8:]
            if st.num.norm(ln) == 0:
                st.spine_end(it)
                raise Restart()
            dc = D.par[it]
            dt = st.tree_of(tgt)
            at = sd if sd is not None else dt
            if at != t:
                if st.is_zero(ln, "nodes between %s and %s" % (self.name(c), self.name(tgt))): return
                self.bad("tree", "nodes above %s belong to tree %s, expected %s" % (self.name(tgt), self.name(0 if at in st.freed else at), self.name(t)))
                return
            ok = dc == c and all((x if x is not None else dt) == t for x in (ld, rd) if x != "-") and self.around(c, dc, it)
            if not ok:
                st.split_spine(it, "top")
                raise Restart()

    def around(self, c, dc, it):
        if self.st.objty.get(c) in ("tree", "ntree"): return True
        if dc in self.D.dirty: return False
        ek, dk = self.E.kids[c], self.D.kids[dc]
        if ek == dk: return True
        el, dl = self.seqs(ek, it, "prevc"), self.seqs(dk, it, "prevc")
        er, dr = self.seqs(ek, it, "next"), self.seqs(dk, it, "next")
        if not self.same_seq(er, dr): return False
        if not self.same_seq(el, dl): return False
        if any(self.sure(i) for i in el): return True
        return self.same_seq(tuple(reversed(ek)), tuple(reversed(dk)))

    # ---- references to and locks of trees ----
    def sums(self, t):
        """(nodes with references, nodes with locks) expected in tree t."""
        st, D = self.st, self.D
        s = l = 0
        work = list(self.E.kids.get(t, ()))
        while work:
            it = work.pop()
            if is_gap(it):
                g = D.gaps[it[1]]
                s, l = add(s, add(g[1], g[2])), add(l, g[1])
                continue
            if is_sp(it):
                g = D.spines[it[1]]
                for j in (2, 4, 6): s, l = add(s, add(g[j], g[j + 1])), add(l, g[j])
                it = g[0]
            new = st.objty[it] == "nnode"
            if not new: st.imply(it)
            ra, rp, lk, u = (0, 0, 0, 0) if new else (D.agg[it], D.ph[it], D.lk[it], D.u[it])
            dr, da = self.dl.get(("ref", it), 0), self.dl.get(("agg", it), 0)
            if dr: s = add(s, 0 if st.is_zero(add(add(ra, rp), dr), "references") else 1)
            else: s = add(s, add(lk, u))
            if da: l = add(l, 0 if st.is_zero(add(ra, da), "locks") else 1)
            else: l = add(l, lk)
            work.extend(self.E.kids.get(it, ()))
        return s, l

    def tree_strong(self, t):
        s, l = self.sums(t)
        e = self.st.cfg_get(("ext", t)) or 0
        return self.st.num.norm(add(add(s, e), self.dl.get(("ext", t), 0)))

    def tree_counts(self, t):
        st = self.st
        self.obligations += 2
        e = self.tree_strong(t)
        if not self.num_eq(st.strong[t], e): self.bad("strong", "allocation of tree %s has %s owners, expected %s" % (self.name(t), st.num.norm(st.strong[t]), e), t)
        s, l = self.sums(t)
        new = st.objty[t] == "ntree"
        v = self.field(t, "grants")
        if new: e, mode = l, self.dl.get(("mode", t), "0")
        else:
            s0, l0 = self.old_locks(t)
            e = add(add(st.locks_total(t), l), l0, -1)
            mode = None
        e = st.num.norm(add(e, self.dl.get(("locks", t), 0)))
        if self.lazy(v):
            if st.is_zero(add(e, st.locks_total(t), -1), "locks of tree"): return
            v = st.force(v)
        if st.is_zero(e, "locks of tree %s" % self.name(t)):
            if not self.num_eq(v, 0): self.bad("locks", "tree %s counts %s locks, expected none" % (self.name(t), st.num.norm(v)), t, "grants")
            return
        if mode is None:
            mode = st.cfg_get(("mode", t))
            if mode is None:
                st.grants(t)
                raise Restart()
            if mode == "0": mode = self.dl.get(("mode", t), "0")
        if mode == "0": mode = self.dl.get(("mode", t), "?")
        want = e if mode == "G" else scale(e, -1)
        if not self.num_eq(v, want): self.bad("locks", "tree %s counts %s, expected %s" % (self.name(t), st.num.norm(v), st.num.norm(want)), t, "grants")

    def old_locks(self, t):
        E = self.E
        class O: pass
        o = O()
        o.kids = self.st.D.kids
        c = Compare.__new__(Compare)
        c.st, c.E, c.D, c.dl, c.par = self.st, o, self.D, {}, {}
        return c.sums(t)

NAME = {"parent": "parent", "first": "first child", "next": "next sibling", "prevc": "previous (cyclic) sibling", "root": "root", "nch": "number of children"}

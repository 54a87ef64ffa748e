"""What every public operation does, stated on the abstract shape: results, errors, panics, the
hierarchy afterwards, references and locks. Nothing here looks at the code."""
import re
from .num import Lin, add, scale
from .shape import Split, Stop, DEAD
from .entry import Exp, Compare, handles, Restart, is_gap, is_sp

class _Any:
    def __repr__(self): return "*"
ANY = _Any()

OKV = ("ok", ())
def err(v): return ("err", (v,))
def panic(): return ("panic",)
def ret(x): return ("ret", x)

# ---------------------------------------------------------------- shape queries
def parent(st, n):
    p = st.owner(n)
    return None if st.is_tree(p) else p
def opt(k, n): return None if n is None else ("some", (k, n))
def root(st, n): return st.first(st.tree_of(n))
def is_root(st, n):
    g = st.cfg_get(("gone", n))
    if g is not None: return g[2]
    return st.is_tree(st.owner(n))
def place_of(st, n):
    """Materialises the place of a node, if it still has one in the original hierarchy."""
    if n in st.D.par: st.owner(n)
def nxt(st, n): return None if is_root(st, n) else st.after(n)
def prv(st, n): return None if is_root(st, n) else st.before(n)
def fsib(st, n): return n if is_root(st, n) else st.first(st.owner(n))
def lsib(st, n): return n if is_root(st, n) else st.last(st.owner(n))

def items_len(st, items):
    r = 0
    for it in items: r = add(r, st.D.gaps[it[1]][0] if is_gap(it) else 1)
    return st.num.norm(r)

def kid_at_least(st, n, k):
    return st.ge(st.kid_count(n), k, "number of children")

def depth(st, n):
    D, r, x = st.D, 0, n
    while True:
        p = D.par[x]
        if p.__class__ is tuple:
            r = add(r, D.spines[p[1]][1])
            p = D.par[p]
        if st.is_tree(p): return st.num.norm(r)
        r = add(r, 1)
        x = p

def doc_next(st, top, ev):
    k, n = ev
    if k == "open":
        f = st.first(n)
        return ("close", n) if f is None else ("open", f)
    if n == top: return None
    f = nxt(st, n)
    return ("close", parent(st, n)) if f is None else ("open", f)

def doc_prev(st, top, ev):
    k, n = ev
    if k == "close":
        f = st.last(n)
        return ("open", n) if f is None else ("close", f)
    if n == top: return None
    f = prv(st, n)
    return ("open", parent(st, n)) if f is None else ("close", f)

def dft_event(kind, what):
    """A single step from an event, wherever the traversal started."""
    def fn(x):
        st, (e, (_, n)) = x.st, x.a[0]
        ev = (e.lower(), n)
        if what == "close_current":
            if e == "Open": return ret(("some", (kind, n)))
            return ret(opt(kind, parent(st, n)))
        r = (doc_next if what == "next" else doc_prev)(st, None, ev)
        if r is None or r[1] is None: return ret(None)
        return ret(("some", (r[0].capitalize(), (kind, r[1]))))
    return fn

# ---------------------------------------------------------------- exits
class Exit:
    def __init__(self, case, st):
        self.case, self.st, self.w = case, st, case.world
        self.a = case.world.args
        self.E = Exp(st)
        self.label = st.outcome[0]
        self.deltas = {}
        self.news = sorted(o for o, k in st.objty.items() if k == "nnode" and o not in st.freed)
        self.newtrees = sorted(o for o, k in st.objty.items() if k == "ntree" and o not in st.freed)
        self.noleak = False
        self.retval = None

    def dl(self, key, n):
        self.deltas[key] = add(self.deltas.get(key, 0), n)

    def count(self, hs, k):
        st = self.st
        for h in hs:
            kind, o = h
            if kind == "node": self.dl(("ref", o), k)
            elif kind in ("hot", "frozen"):
                self.dl(("ref", o), k); self.dl(("agg", o), k)
                self.mode(o, "G" if kind == "hot" else "P")
            elif kind == "tree": self.dl(("ext", o), k)
            elif kind in ("grant", "prohibition"):
                if o == DEAD or o is None: continue
                self.dl(("locks", o), k)
                self.deltas[("mode", o)] = "G" if kind == "grant" else "P"
            elif kind == "link": self.dl(("raw", o), k)
            elif kind == "Ref": self.dl(("flag", -o if o.__class__ is int else o), k)
            elif kind == "RefMut": self.dl(("flag", -o), -k)

    def mode(self, n, m):
        self.modes = getattr(self, "modes", [])
        self.modes.append((n, m))

    def cells(self):
        self.held = [handles(self.case.dec.dec(self.st, ty, self.st.mem[k]), []) for k, ty in self.w.cells]
        for h in self.held: self.count(h, 1)

    def bad(self, cat, text, site=None): self.case.report(self.st, cat, text, site or ("result", ""))

    def check(self):
        st, case = self.st, self.case
        out = st.outcome
        if out[0] == "panic" and out[1][0].startswith("user"):
            self.label = "user panic"
            self.noleak = True
            self.count(self.w.consumed, -1)
            self.cells()
            best = None
            for E in shapes(case, st):
                c = Compare(st, E, self.deltas)
                c.noleak = True
                mis = c.run()
                case.obligations += c.obligations
                if not mis: return
                if best is None or len(mis) < len(best): best = mis
            for cat, text, site in best: case.report(st, cat if cat == "flag" else "unwound", "after a panic of user code, " + text, site)
            return
        self.cells()
        exp = case.spec.expect(self)
        if exp is None: return
        if out[0] == "panic":
            if exp[0] != "panic":
                self.bad("panic", "panics (%s)" % (out[1][0],), out[1][1])
                return
            self.count(self.w.consumed, -1)
            self.label = "panic"
        else:
            f = case.f
            v = case.dec.dec(st, f.locals[0], out[1])
            self.retval = v
            if exp[0] == "panic":
                self.bad("nopanic", "returns %s instead of panicking" % show(v))
                return
            self.label = show(v, True)
            if not match(st, exp[1], v):
                self.bad(case.spec.cat(exp[1], v), "returns %s, expected %s" % (named(self, v), named(self, exp[1])))
                if exp[1].__class__ is tuple and exp[1] and exp[1][0] in ("ok", "err") and (v.__class__ is not tuple or v[0] != exp[1][0]): return
            self.count(handles(v, []), 1)
            self.count(self.w.consumed, -1)
        if case.cfg_dying: return
        c = Compare(st, self.E, self.deltas)
        for n, m in getattr(self, "modes", []):
            t = c.etree(n)
            if t is not None: self.deltas.setdefault(("mode", t), m)
        for k, v in getattr(self, "tmodes", {}).items(): self.deltas.setdefault(("mode", k), v)
        self.E.trees = [t for t in self.E.trees]
        mis = c.run()
        case.obligations += c.obligations
        changed = getattr(self, "edits", False)
        for cat, text, site in mis:
            self.case.report(st, cat if changed or exp[0] == "ret" and not is_err(exp[1]) else "failed-" + cat, text, site)
        if mis:
            bad = local(st, self.E, c)
            for text, site in bad: self.case.report(st, "inconsistent", text, site)

def is_err(x): return x.__class__ is tuple and x and x[0] == "err"

def local(st, E, c):
    """Local inconsistencies among the actual links of the known nodes."""
    out = []
    def act(n, role):
        try: return c.actual(n, role)
        except (Split, Stop): return ANY
    for n in [n for n in E.kids if st.objty.get(n) in ("node", "nnode") and n not in st.freed]:
        p, x, q, f = act(n, "parent"), act(n, "next"), act(n, "prevc"), act(n, "first")
        if x is not ANY and x is not None and x:
            if act(x, "prevc") not in (n, ANY): out.append(("the next sibling of %s does not have it as previous sibling" % c.name(n), c.site(n, "next")))
            if p is not ANY and act(x, "parent") not in (p, ANY): out.append(("siblings %s and %s have different parents" % (c.name(n), c.name(x)), c.site(n, "next")))
        if f is not ANY and f:
            if act(f, "parent") not in (n, ANY): out.append(("the first child of %s has another parent" % c.name(n), c.site(n, "first")))
            l = act(f, "prevc")
            if l is not ANY and l and act(l, "next") not in (None, ANY): out.append(("the last child of %s has a next sibling" % c.name(n), c.site(n, "first")))
        if p is not ANY and p and q is not ANY and q and q != n:
            if act(q, "next") not in (n, None, ANY): out.append(("the previous sibling of %s does not have it as next sibling" % c.name(n), c.site(n, "prevc")))
            if act(q, "parent") not in (p, ANY): out.append(("%s and its previous (or last) sibling %s have different parents" % (c.name(n), c.name(q)), c.site(n, "prevc")))
            if act(q, "next") is None and act(p, "first") not in (n, ANY): out.append(("%s precedes %s as if it were the last sibling of a first child" % (c.name(q), c.name(n)), c.site(n, "prevc")))
        if p is not ANY and p is None and x not in (None, ANY): out.append(("root %s has siblings" % c.name(n), c.site(n, "next")))
        if p is not ANY and p and q in (None, 0): out.append(("%s has no previous sibling link" % c.name(n), c.site(n, "prevc")))
    return out

def show(v, brief=False):
    if v.__class__ is tuple:
        if len(v) == 2 and v[0] in ("ok", "err", "some") and brief: return "%s(%s)" % (v[0], show(v[1], True) if v[0] == "err" else "..")
        if v == (): return "()"
        if brief: return str(v[0]) if v and v[0].__class__ is str else "(..)"
        return "(" + ", ".join(show(x) for x in v) + ")"
    if v.__class__ is int or isinstance(v, Lin): return "number" if brief else str(v)
    return str(v)

def named(x, v):
    c = Compare.__new__(Compare)
    c.st = x.st
    if v.__class__ is tuple:
        if len(v) == 2 and v[0] in ("node", "hot", "frozen", "tree", "nodeweak", "treeweak", "grant", "prohibition", "link"):
            return "%s %s" % (v[0], c.name(v[1]) if v[1] else v[1])
        if v == (): return "()"
        return "(" + ", ".join(named(x, i) for i in v) + ")"
    return str(v)

def match(st, e, a):
    if e is ANY: return True
    if callable(e): return e(a)
    if e.__class__ is tuple:
        if a.__class__ is not tuple or len(e) != len(a): return False
        return all(match(st, x, y) for x, y in zip(e, a))
    if e.__class__ is bool or e is None or e.__class__ is str:
        return a is e if e is None or e.__class__ is bool else a == e
    if e.__class__ is int or isinstance(e, Lin):
        if a.__class__ is tuple or a.__class__ is bool or a is None: return False
        return num_eq(st, a, e)
    return e == a

def num_eq(st, a, b):
    return st.same_num(a, b)

def shapes(case, st):
    """The hierarchies an outsider may see: as before, and as after when the operation is an edit."""
    yield Exp(st)
    sp = case.spec
    if sp.edits:
        x = Exit.__new__(Exit)
        x.case, x.st, x.w, x.a, x.E, x.deltas = case, st, case.world, case.world.args, Exp(st), {}
        x.news = sorted(o for o, k in st.objty.items() if k == "nnode" and o not in st.freed)
        x.newtrees = sorted(o for o, k in st.objty.items() if k == "ntree" and o not in st.freed)
        x.mid = True
        sp.expect(x)
        yield x.E

# ---------------------------------------------------------------- specifications
class Spec:
    edits = False
    nopanic = False
    head = None
    category = "result"
    def __init__(self, k=None, *a): self.k, self.x = k, a
    def setup(self, case, st): pass
    def cat(self, e, v): return self.category
    def expect(self, x): raise NotImplementedError
    def observe(self, case, st, kind, v): raise Stop("internal", "unexpected observation")
    def compare(self, case, st, a, b): raise Stop("internal", "unexpected comparison")

class Query(Spec):
    def __init__(self, k, q, fn):
        self.k, self.q, self.fn = k, q, fn
    def expect(self, x):
        n = x.a[0][1]
        return ret(self.fn(x.st, n, self.k))

QUERIES = {
    "is_root": lambda s, n, k: is_root(s, n),
    "has_prev_sibling": lambda s, n, k: prv(s, n) is not None,
    "has_next_sibling": lambda s, n, k: nxt(s, n) is not None,
    "has_children": lambda s, n, k: s.first(n) is not None,
    "has_one_child": lambda s, n, k: kid_at_least(s, n, 1) and not kid_at_least(s, n, 2),
    "has_multiple_children": lambda s, n, k: kid_at_least(s, n, 2),
    "num_children": lambda s, n, k: s.kid_count(n),
    "count_children": lambda s, n, k: s.kid_count(n),
    "count_preceding_siblings": lambda s, n, k: 0 if is_root(s, n) else items_len(s, s.D.kids[s.owner(n)][:s.D.kids[s.owner(n)].index(n)]),
    "count_following_siblings": lambda s, n, k: 0 if is_root(s, n) else items_len(s, s.D.kids[s.owner(n)][s.D.kids[s.owner(n)].index(n) + 1:]),
    "count_ancestors": lambda s, n, k: depth(s, n),
    "parent": lambda s, n, k: opt(k, parent(s, n)),
    "prev_sibling": lambda s, n, k: opt(k, prv(s, n)),
    "next_sibling": lambda s, n, k: opt(k, nxt(s, n)),
    "first_child": lambda s, n, k: opt(k, s.first(n)),
    "last_child": lambda s, n, k: opt(k, s.last(n)),
    "root": lambda s, n, k: (k, root(s, n)),
    "first_sibling": lambda s, n, k: (k, fsib(s, n)),
    "last_sibling": lambda s, n, k: (k, lsib(s, n)),
    "first_last_sibling": lambda s, n, k: ((k, fsib(s, n)), (k, lsib(s, n))),
    "first_last_child": lambda s, n, k: None if s.first(n) is None else ("some", ((k, s.first(n)), (k, s.last(n)))),
    "tree": lambda s, n, k: ("tree", s.tree_of(n)),
    "clone": lambda s, n, k: (k, n),
    "drop": lambda s, n, k: (),
}

class Two(Spec):
    def expect(self, x):
        a, b = x.a[0], x.a[1]
        return ret(self.x[0](x.st, a[1], b[1]))

class Data(Spec):
    """Borrowing data: (mutably?, fallible?)"""
    category = "borrow"
    def expect(self, x):
        st, n = x.st, x.a[0][1]
        mut, fallible = self.x
        f = st.data_flag(n)
        ok = st.is_zero(f, "data borrow") if mut else (f.__class__ is Lin or f >= 0)
        path = st.lay.paths["data"]
        r = ("RefMut" if mut else "Ref", -n)
        if ok: return ret(("ok", r)) if fallible else ret(r)
        return ret(("err", ANY)) if fallible else panic()

class Simple(Spec):
    """fn(x) -> expected outcome"""
    def __init__(self, fn, **kw):
        self.fn = fn
        for k, v in kw.items(): setattr(self, k, v)
    def expect(self, x): return self.fn(x)

# ---- printing
PRINTS = ("debug", "debug_pretty_print", "debug_print_local", "debug_print_subtree", "debug_print", "display_pretty_print")
def printed():
    """Whatever the text: it returns, with the error of the writer or without, and nothing is different."""
    return Simple(lambda x: ret(ANY), printing=True, nopanic=True, category="printing")

# ---- locks
def lock_mode(st, t):
    st.grants(t)
    return st.cfg_get(("mode", t))

def acquire(m, result, error):
    def fn(x):
        st, t = x.st, target_tree(x)
        cur = lock_mode(st, t)
        if cur not in ("0", m): return ret(("err", ANY))
        return ret(("ok", result(x)))
    return fn

def target_tree(x):
    k, o = x.a[0]
    return o if k == "tree" else x.st.tree_of(o)

def bundle(m, kind):
    def fn(x):
        st, n = x.st, x.a[0][1]
        g = x.a[1][1]
        if g == DEAD or g != st.tree_of(n): return panic()
        return ret((kind, n))
    return fn

def is_valid(x):
    g, n = x.a[0][1], x.a[1][1]
    return ret(g == x.st.tree_of(n))

# ---- upgrades
def upgrade(x):
    st = x.st
    k, o = x.a[0]
    t = o
    if o == DEAD: return ret(None)
    if k == "nodeweak": t = st.tree_of(o)
    if x.case.cfg_dying: return ret(None)
    return ret(("some", ("node" if k == "nodeweak" else "tree", o)))

# ---- edits
class Edit(Spec):
    edits = True
    category = "error"
    def __init__(self, k, op, fallible, hot):
        self.k, self.op, self.fallible, self.hot = k, op, fallible, hot
    def cat(self, e, v):
        return "error" if is_err(e) or is_err(v) else "result"
    def expect(self, x):
        st, n = x.st, x.a[0][1]
        x.edits = True
        T = st.tree_of(n)
        if not self.hot:
            g = x.a[1][1]
            if g == DEAD or g != T: 
                x.edits = False
                return panic()
        r = self.op(self, x, n, T)
        if is_err(r):
            x.edits = False
            if not self.fallible: return panic()
            return ret(r)
        if self.fallible: return ret(("ok", r))
        return ret(r)

def new_one(x, what="node"):
    l = x.news if what == "node" else x.newtrees
    if len(l) != 1:
        if not getattr(x, "mid", False): x.bad("position", "the operation leaves %d new %ss, expected one" % (len(l), what))
        o = l[0] if l else x.st.nextoid + (1000 if what == "node" else 2000)
        if not l: x.st.objty = dict(x.st.objty); x.st.objty[o] = "missing"
        return o
    return l[0]

def to_new_tree(x, n):
    if not x.newtrees:
        if getattr(x, "mid", False):
            t = -1
            return None
        x.bad("tree", "no new tree is made for the detached node")
        return None
    t = x.newtrees[-1] if len(x.newtrees) == 1 else x.newtrees[0]
    if len(x.newtrees) > 1: x.bad("tree", "more than one new tree is made")
    x.E.trees.append(t)
    x.E.kids[t] = (n,)
    x.tmodes = {t: "G"}
    return t

def op_detach(sp, x, n, T):
    st, E = x.st, x.E
    if is_root(st, n): return ()
    E.remove(n)
    to_new_tree(x, n)
    return ()

def place(st, E, dest, m):
    """Insert node m at (kind, anchor); False when that would be a sibling of a root."""
    k, a = dest
    if k in ("FirstChildOf", "FirstChild"): E.insert(a, 0, m)
    elif k in ("LastChildOf", "LastChild"): E.insert(a, None, m)
    else:
        c, i = E.index(a)
        E.insert(c, i + (1 if k.startswith("Next") else 0), m)

def sibling_of_root(st, dest):
    return "Sibling" in dest[0] and is_root(st, dest[1])

def op_create(pos):
    def op(sp, x, n, T):
        st, E = x.st, x.E
        p = pos if pos is not None else x.a[-1][0]
        if sibling_of_root(st, (p, n)): return err("SiblingsWithoutParent")
        m = new_one(x)
        E.kids[m] = ()
        if p in ("FirstChild", "LastChild"): pass
        else: place_of(st, n)
        place(st, E, (p, n), m)
        x.made = m
        return (sp.k, m)
    return op

def op_interrupt_parent(sp, x, n, T):
    st, E = x.st, x.E
    place_of(st, n)
    m = new_one(x)
    c, i = E.remove(n)
    E.insert(c, i, m)
    E.kids[m] = (n,)
    return (sp.k, m)

def op_interrupt_child(sp, x, n, T):
    E = x.E
    m = new_one(x)
    E.kids[m] = E.kids[n]
    E.kids[n] = (m,)
    return (sp.k, m)

def op_replace(sp, x, n, T):
    st, E = x.st, x.E
    if is_root(st, n):
        if not kid_at_least(st, n, 1): return err("EmptyTree")
        if kid_at_least(st, n, 2): return err("SiblingsWithoutParent")
        st.first(n)
        E.kids = dict(st.D.kids)
    else: place_of(st, n)
    kids = E.kids[n]
    c, i = E.remove(n)
    E.insert(c, i, *kids)
    E.kids[n] = ()
    to_new_tree(x, n)
    return ()

def op_move(sp, x, n, T):
    st, E = x.st, x.E
    d = next(a for a in x.a[1:] if a[0].endswith("Of"))
    k, (_, a) = d
    U = st.tree_of(a)
    if sibling_of_root(st, (k, a)): return err("SiblingsWithoutParent")
    p = a if "Child" in k else parent(st, a)
    if U == T:
        q = p
        while q is not None:
            if q == n: return err("AncestorDescendantLoop")
            q = up(st, q)
        if a == n:
            place_of(st, n)
            return ()
        place_of(st, n)
        if "Sibling" in k: place_of(st, a)
        E.kids = dict(st.D.kids)
        E.remove(n)
        place(st, E, (k, a), n)
        return ()
    if is_root(st, n): return err("EmptyTree")
    place_of(st, n)
    if "Sibling" in k: place_of(st, a)
    E.kids = dict(st.D.kids)
    E.remove(n)
    place(st, E, (k, a), n)
    return ()

def up(st, n):
    """An ancestor of n among the known nodes (the nearest), without splitting."""
    p = st.D.par.get(n)
    if p.__class__ is tuple: p = st.D.par[p]
    return None if p is None or st.is_tree(p) else p

def new_tree(kind):
    def fn(x):
        n, t = new_one(x), new_one(x, "tree")
        x.E.kids[t] = (n,)
        x.E.kids[n] = ()
        x.E.trees.append(t)
        x.tmodes = {t: "G"}
        return ret((kind, n))
    return fn

# ---- building from events
def data_of(x, m):
    return Compare(x.st, x.E, None).field(m, "data")

class Builder(Spec):
    """Events one after the other; the first error ends it and changes nothing further."""
    category = "builder"
    def __init__(self, ops, final=None, edits=False):
        self.ops, self.final, self.edits = ops, final, edits
    def state(self, x):
        return next(([b[1] and b[1][1], b[2] and b[2][1]] for b in x.a if b.__class__ is tuple and b[0] == "builder"), [None, None])
    def expect(self, x):
        st, mid = x.st, getattr(x, "mid", False)
        s = self.state(x)
        r = None
        for op, v in self.ops(x):
            r = getattr(self, op)(x, s, v)
            if r is not None: break
        if self.final: return ret(self.final(x, s, r))
        if not mid:
            want = [("node", s[0])] if s[0] is not None else []
            if s[1] is not None: want.append(("hot", s[1]))
            if callable(s[1]):
                want = want[:1]
                ok = len(x.held[0]) == 2 and want[0] in x.held[0] and s[1](next((h[1] for h in x.held[0] if h[0] == "hot"), None))
            else: ok = sorted(x.held[0]) == sorted(want)
            if not ok: x.bad("builder", "the builder is left with %s" % named(x, tuple(x.held[0])))
        return ret(r or OKV)
    def open(self, x, s, data):
        E = x.E
        if s[0] is not None and s[1] is None: return err("RootClosed")
        x.edits = True
        m = new_one(x)
        E.kids[m] = ()
        if s[0] is None:
            t = new_one(x, "tree")
            E.kids[t] = (m,)
            E.trees.append(t)
            x.tmodes = {t: "G"}
            s[0] = m
        else: E.insert(s[1], None, m)
        s[1] = m
        x.made = m
        if data is not None and not getattr(x, "mid", False) and data_of(x, m) != data: x.bad("builder", "the new node holds %r, expected %r" % (data_of(x, m), data))
    def close(self, x, s, n):
        st = x.st
        if st.is_zero(n, "levels to close"): return None
        if s[0] is None: return err("RootNotOpened")
        if s[1] is None: return err("RootClosed")
        d, c = dist(st, s[1], s[0]), s[1]
        if st.is_zero(add(add(n, scale(d, -1)), -1), "levels to close"): s[1] = None
        elif st.ge(n, add(d, 2), "levels to close"): return err("RootClosed")
        elif not getattr(x, "mid", False):
            new = next((h[1] for h in x.held[0] if h[0] == "hot"), None)
            if new is not None and st.objty.get(new) == "nnode": new = Compare(st, x.E, None).actual(new, "parent")
            if new is not None and new in chain(st, c) and not st.is_tree(new) and st.same_num(dist(st, c, new), n): s[1] = new
            else: x.bad("builder", "closing %s nodes leaves %s open" % (st.num.norm(n), nm(st, new) if new else "none"))
        else:
            for m in x.news:
                try: p = Compare(st, x.E, None).actual(m, "parent")
                except (Split, Stop): continue
                if p is not None and p in chain(st, c) and not st.is_tree(p): s[1] = p
    def dft(self, x, s, e):
        k, (_, n) = e
        if k == "Close": return self.close(x, s, 1)
        if x.st.cfg_get(("dflag", n)) == -1: return err_borrow()
        return self.open(x, s, ("data", ("clone", n)))

def err_borrow(): return ("err", ("BorrowData", ANY))

def finished(kind, opt=False):
    def fn(x, s, r):
        if r is not None: return r
        if s[0] is None: return None if opt else err("RootNotOpened")
        if kind == "tree": return ("ok", ("tree", next((c for c, k in x.E.kids.items() if s[0] in k), None)))
        return ("some" if opt else "ok", (kind, s[0]))
    return fn

def as_builder(*hs):
    return lambda v: v.__class__ is tuple and v[0] == "TreeBuilder" and sorted(handles(v, [])) == sorted(hs)

def event_from(x):
    k, (_, n) = x.a[0]
    if k == "Close": return ret(("ok", ("Close", 1)))
    if x.st.cfg_get(("dflag", n)) == -1: return ret(("err", ANY))
    return ret(("ok", ("Open", ("data", ("clone", n)))))

def builder_spec(n):
    num = lambda x: next(v for k, v in x.st.cfg if k[0] == "arg")
    ev = lambda x: next(a for a in x.a if a.__class__ is tuple and a[0] in ("Open", "Close"))
    m = re.match(r"collect_(none_|bad_)?(node|frozen|hot|tree|dft)$", n)
    if m:
        if m.group(1) == "none_": ops = lambda x: []
        elif m.group(1) == "bad_": ops = lambda x: [("close", num(x))]
        elif m.group(2) == "dft": ops = lambda x: [("dft", ev(x))]
        else: ops = lambda x: [("open", None)]
        return Builder(ops, finished({"dft": "node"}.get(m.group(2), m.group(2))), edits=True)
    if n in ("open", "push_open", "pushes_open"): return Builder(lambda x: [("open", None)], edits=True)
    if n in ("close", "push_close", "pushes_close"): return Builder(lambda x: [("close", num(x))])
    if n == "pushes_close_open": return Builder(lambda x: [("close", num(x)), ("open", None)], edits=True)
    if n == "pushes_nothing": return Builder(lambda x: [])
    if n in ("push_dft", "pushes_dft"): return Builder(lambda x: [("dft", ev(x))], edits=True)
    if n in ("finish", "finish_opt"): return Builder(lambda x: [], finished("node", n == "finish_opt"))
    if n in ("new", "default"): return Simple(lambda x: ret(as_builder()), category="builder")
    if n == "with_root": return Simple(lambda x: ret(as_builder(("node", x.a[0][1]), ("hot", x.a[0][1]))), category="builder")
    if n == "is_root_closed": return Simple(lambda x: ret(x.a[0][1] is not None and x.a[0][2] is None), category="builder")
    if n == "is_root_available": return Simple(lambda x: ret(x.a[0][1] is not None), category="builder")
    return None

# ---- tree literals
class Literal(Spec):
    """The result is a new tree of the shape the entry's name describes; node k holds the data numbered k."""
    category, edits = "literal", True
    def __init__(self, k, depths): self.k, self.depths = k, [-1] + [int(c, 36) for c in depths]
    def expect(self, x):
        st, E = x.st, x.E
        if getattr(x, "mid", False): return None
        by = {}
        for n in x.news: by.setdefault(data_of(x, n), []).append(n)
        m = []
        for i in range(len(self.depths)):
            ns = by.pop(("data", ("lit", i)), [])
            if len(ns) != 1:
                x.bad("literal", "%d nodes hold the data numbered %d of the literal" % (len(ns), i))
                return None
            m.append(ns[0])
        if by or len(x.newtrees) != 1:
            x.bad("literal", "%d nodes and %d trees are made that the literal does not mention" % (sum(map(len, by.values())), len(x.newtrees) - 1))
            return None
        t, path = x.newtrees[0], [m[0]]
        E.kids[t] = (m[0],)
        E.trees.append(t)
        x.tmodes = {t: "G"}
        for i, n in enumerate(m):
            E.kids[n] = ()
            if i:
                path[self.depths[i] + 1:] = [n]
                E.insert(path[self.depths[i]], None, n)
        x.edits = True
        return ret(("node", m[0]) if self.k == "n" else ("tree", t))

# ---- traversals
class Trav(Spec):
    """A traversal of nodes: seq(st, start) gives the first item, step(st, item) the next; the observed
    items must be exactly those. Double-ended ones have a back end too."""
    category = "sequence"
    def __init__(self, k, first, step, both=None, peek=False):
        self.k, self.first, self.step, self.both, self.peek = k, first, step, both, peek
    # ghost: (front next | None, back next | None, done?, peeked, ended)
    def setup(self, case, st):
        st.ghost = ("start",)
    def node(self, case, st, v):
        return case.dec.dec(st, self.nodety(case), st.load(v[0][1], v[0][2]))
    def expect(self, x):
        return ret(())

def nid(case, st, v):
    x = st.load(v[1], v[2])
    from .interp import leaves
    l = [y for y in leaves(x, []) if y.__class__ is tuple and y[0] in ("rc", "wk")]
    if len(l) != 1: raise Stop("internal", "observed %r" % (x,))
    return l[0][1]

def G(*a): return tuple(("rc", x) if x.__class__ is int and x is not True and x is not False else x for x in a)

class Walk(Spec):
    """Nodes one after the other, from the front (obs_node) and, if `back` is given, from the back
    (obs_back); with peeked items, size hints, and steps after the end."""
    category = "sequence"
    def __init__(self, first, step, last=None, back=None, peek=None):
        self.first, self.step, self.last, self.back, self.peek = first, step, last, back, peek
    # ghost: ("w", state, front, back, hint): state in run/end; front/back = next item of each end
    def init(self, case, st):
        n = case.world.args[0][1]
        f = self.first(st, n)
        b = self.last(st, n) if self.last else None
        if f is None or self.last and b is None: return ("w", "end", None, None, None)
        return ("w", "run") + G(f, b) + (None,)
    def setup(self, case, st): st.ghost = self.init(case, st)
    def get(self, case, st): return st.ghost
    def adv(self, st, g, side):
        """The ghost after the item of that side was taken."""
        _, s, f, b, h = g
        if self.last and f == b: return ("w", "end", None, None, None)
        if side == "f": f = self.step(st, f[1])
        else: b = self.back(st, b[1])
        if (f if side == "f" else b) is None: return ("w", "end", None, None, None)
        if side == "f": f = ("rc", f)
        else: b = ("rc", b)
        return ("w", "run", f, b, None)
    def observe(self, case, st, kind, v):
        g = self.get(case, st)
        _, s, f, b, h = g
        if kind in ("node", "back"):
            o = nid(case, st, v[0])
            front = kind == "node"
            if self.peek and kind == self.peek[0]:
                e = f if self.peek[1] == "f" else b
                if s == "end" or e[1] != o: case.report(st, "peek", "peeks %s, the next item is %s" % (nm(st, o), "none" if s == "end" else nm(st, e[1])))
                st.ghost = g
                return
            e = f if front else b
            if s == "end":
                case.report(st, "after-end", "yields %s after the end of the sequence" % nm(st, o))
                raise Stop("done", "")
            if e is None: raise Stop("internal", "back end of a one-ended traversal")
            if e[1] != o:
                case.report(st, "sequence", "yields %s where %s is next from the %s" % (nm(st, o), nm(st, e[1]), "front" if front else "back"))
                raise Stop("done", "")
            st.ghost = self.adv(st, g, "f" if front else "b")
        elif kind in ("end", "back_end"):
            if s != "end":
                case.report(st, "sequence", "ends while %s is still to be yielded" % nm(st, (f or b)[1]))
                raise Stop("done", "")
            st.ghost = g
        elif kind == "peek_none":
            if s != "end": case.report(st, "peek", "peeks nothing while %s is next" % nm(st, (f or b)[1]))
            st.ghost = g
        elif kind == "hint":
            self.hint(case, st, g, v)
            st.ghost = g
        else: raise Stop("internal", "observation " + kind)
    def hint(self, case, st, g, v):
        lo, hi = v[0], v[1]
        _, s, f, b, h = g
        # How many items are left: 0, 1, or at least 2 (decided on the shape).
        rest, side = 0, g
        want = 3
        while side[1] != "end" and rest < want:
            rest += 1
            side = self.adv(st, side, "f")
        exact = side[1] == "end"
        lo = st.num.norm(lo)
        if exact:
            if not st.ge(rest, lo, "lower size hint"): case.report(st, "hint", "size hint promises at least %s items, %d are left" % (lo, rest))
        else:
            if lo.__class__ is Lin or lo > rest:
                raise Stop("internal", "size hint %r" % (lo,))
        if hi[0] == "A" and hi[1] == 1:
            h = st.num.norm(hi[2][0])
            if exact:
                if not st.ge(h, rest, "upper size hint"): case.report(st, "hint", "size hint promises at most %s items, %d are left" % (h, rest))
            else:
                if h.__class__ is int and h < rest: case.report(st, "hint", "size hint promises at most %s items, more are left" % h)
                elif h.__class__ is int: case.report(st, "hint", "size hint promises at most %s items, any number may be left" % h)
                else: raise Stop("internal", "upper size hint %r" % (h,))
    def expect(self, x):
        g = x.st.ghost
        if g != () and g[1] != "end" and not getattr(self, "partial", False): x.bad("sequence", "the traversal stops early")
        return ret(())

def nm(st, o):
    for a, i in st.keep:
        if i == o: return a
    return "n%s" % o

class Dft(Walk):
    """Events: obs_open/obs_close and obs_back_open/obs_back_close."""
    def __init__(self, rev=False, both=False, peek=None, ends="f"):
        self.rev, self.both, self.peek, self.ends = rev, both, peek, ends
        self.last = True if both else None
    def init(self, case, st):
        n = case.world.args[0][1]
        a, b = ("open", ("rc", n)), ("close", ("rc", n))
        if self.rev: return ("w", "run", b, None, ("rc", n))
        return ("w", "run", a, b if self.both else None, ("rc", n))
    def adv(self, st, g, side):
        _, s, f, b, top = g
        if self.both and f == b: return ("w", "end", None, None, top)
        t = top[1]
        if side == "f":
            f = (doc_prev if self.rev else doc_next)(st, t, (f[0], f[1][1]))
            if f is None: return ("w", "end", None, None, top)
            f = (f[0], ("rc", f[1]))
        else:
            b = doc_prev(st, t, (b[0], b[1][1]))
            if b is None: return ("w", "end", None, None, top)
            b = (b[0], ("rc", b[1]))
        return ("w", "run", f, b, top)
    def observe(self, case, st, kind, v):
        if kind in ("open", "close", "back_open", "back_close"):
            g = self.get(case, st)
            _, s, f, b, top = g
            o = nid(case, st, v[0])
            back = kind.startswith("back_")
            ev = (kind[5:] if back else kind, ("rc", o))
            if self.peek and back == (self.peek[0] == "back"):
                e = f if self.peek[1] == "f" else b
                if s == "end" or e != ev: case.report(st, "peek", "peeks %s of %s, the next event is %s" % (ev[0], nm(st, o), "none" if s == "end" else "%s of %s" % (e[0], nm(st, e[1][1]))))
                st.ghost = g
                return
            if s == "end":
                case.report(st, "after-end", "yields %s of %s after the end of the sequence" % (ev[0], nm(st, o)))
                raise Stop("done", "")
            e = b if back else f
            if e != ev:
                case.report(st, "sequence", "yields %s of %s where %s of %s is next" % (ev[0], nm(st, o), e[0], nm(st, e[1][1])))
                raise Stop("done", "")
            st.ghost = self.adv(st, g, "b" if back else "f")
        elif kind == "skip_begin": self.skip_begin(case, st)
        elif kind == "skip": self.skip(case, st, v)
        elif kind in ("end", "back_end", "peek_none"):
            g = self.get(case, st)
            if g[1] != "end":
                e = g[2] or g[3]
                case.report(st, "peek" if kind == "peek_none" else "sequence", "ends while %s of %s is still to come" % (e[0], nm(st, e[1][1])))
                raise Stop("done", "")
            st.ghost = g
        elif kind == "hint":
            g = self.get(case, st)
            self.hint(case, st, g, v)
            st.ghost = g
        else: raise Stop("internal", "observation " + kind)
    def skip(self, case, st, v):
        """close_current: goes past the closing event of the node that is open and returns that node."""
        _, s, exp, b, top = self.get(case, st)
        if s not in ("skip", "end"): raise Stop("internal", "skip")
        x = st.load(v[0][1], v[0][2])
        got = None
        if x[1] == 1:
            from .interp import leaves
            got = [y for y in leaves(x[2][0], []) if y.__class__ is tuple and y[0] == "rc"][0][1]
        exp = exp and exp[1]
        if got != exp:
            case.report(st, "skip", "skipping returns %s, expected %s" % (nm(st, got), nm(st, exp)))
            raise Stop("done", "")
        if exp is None:
            st.ghost = ("w", "end", None, None, top)
            return
        e = doc_next(st, top[1], ("close", exp))
        st.ghost = ("w", "end", None, None, top) if e is None else ("w", "run", (e[0], ("rc", e[1])), b, top)
    def skip_begin(self, case, st):
        """The innermost node whose closing event is still to come: the parent of the node to be
        opened next, or the node to be closed next."""
        _, s, f, b, top = self.get(case, st)
        if s == "end": exp = None
        else:
            k, n = f[0], f[1][1]
            if k == "close": exp = n
            elif n == top[1]: exp = None
            else: exp = parent(st, n)
        if exp is None: st.ghost = ("w", "end", None, None, top)
        else: st.ghost = ("w", "skip", ("rc", exp), b, top)

class From(Dft):
    """Traversals that start at a given event: as if everything before it was yielded already. `walk_between` ends
    at a given event too."""
    def __init__(self, what): super().__init__(rev=what == "from_reverse", both=what.startswith("between"))
    def init(self, case, st):
        a, b = case.world.args
        ev = lambda e: (e[0].lower(), ("rc", e[1][1]))
        if self.both: return ("w", "run", ev(a), ev(b), None)
        return ("w", "run", ev(b), None, ("rc", a[1]))
    def adv(self, st, g, side):
        if not self.both: return super().adv(st, g, side)
        g = super().adv(st, g[:4] + (("rc", None),), side)
        return g[:4] + (None,)
    @staticmethod
    def skip_config(name, cfg):
        """The event to start at is in the subtree of the starting node, the last event not before the first."""
        rel = cfg["rel"]
        if "between" not in name: return rel not in ("same", "anc")
        a, b = cfg["v0"], cfg["v1"]           # 0: Open, 1: Close
        if rel == "same": return (a, b) == (1, 0)
        return not (rel == "before" or rel == "anc" and a == 0 or rel == "desc" and b == 1)

def dist(st, n, anc):
    """How many levels a node is below one of its ancestors."""
    D, r, x = st.D, 0, n
    while x != anc:
        p = D.par[x]
        if p.__class__ is tuple:
            r = add(r, D.spines[p[1]][1])
            p = D.par[p]
        r = add(r, 1)
        x = p
    return r

def chain(st, n):
    out = [n]
    while True:
        p = st.D.par[n]
        if p.__class__ is tuple: p = st.D.par[p]
        out.append(p)
        if st.is_tree(p): return out
        n = p

class Shallow(Dft):
    """Depth-limited: every end is (event, node, depth, levels that remain below it or None)."""
    def init(self, case, st):
        n, m = case.world.args[0][1], case.world.args[1]
        if m is not None and m.__class__ is int and m > 1 << 62: m = None
        f, b = ("open", ("rc", n), 0, m), ("close", ("rc", n), 0, m)
        return ("w", "run", f, b, ("top", ("rc", n), None))
    def level(self, e, k):
        return (add(e[2], k), None if e[3] is None else add(e[3], -k))
    def one(self, st, top, e, fwd):
        (a, z), step = (("open", "close"), doc_next) if fwd else (("close", "open"), doc_prev)
        n = e[1][1]
        if e[0] == a:
            if e[3] is not None and st.is_zero(e[3], "levels left"): return (z,) + e[1:]
            k = st.first(n) if fwd else st.last(n)
            return (z,) + e[1:] if k is None else (a, ("rc", k)) + self.level(e, 1)
        if n == top: return None
        k = nxt(st, n) if fwd else prv(st, n)
        if k is None: return (z, ("rc", parent(st, n))) + self.level(e, -1)
        return (a, ("rc", k)) + e[2:]
    def adv(self, st, g, side):
        _, s, f, b, top = g
        top = top[:2] + (None,)
        end = ("w", "end", None, None, top)
        if f[:2] == b[:2]: return end
        r = self.one(st, top[1][1], f if side == "f" else b, side == "f")
        if r is None: return end
        r = r[:2] + tuple(None if x is None else st.num.norm(x) for x in r[2:])
        return ("w", "run", r, b, top) if side == "f" else ("w", "run", f, r, top)
    def observe(self, case, st, kind, v):
        g = self.get(case, st)
        _, s, f, b, top = g
        if kind == "depth":
            st.ghost = g[:4] + (top[:2] + (v[0],),)
            return
        if kind in ("open", "close", "back_open", "back_close") and s == "run":
            back = kind.startswith("back_")
            e = (f if self.peek[1] == "f" else b) if self.peek and back == (self.peek[0] == "back") else b if back else f
            if top[2] is None: raise Stop("internal", "no depth")
            if e[1][1] == nid(case, st, v[0]) and not st.same_num(top[2], e[2]):
                case.report(st, "depth", "yields %s with depth %s, its depth is %s" % (nm(st, e[1][1]), st.num.norm(top[2]), st.num.norm(e[2])))
            o = nid(case, st, v[0])
            ev = (kind[5:] if back else kind, ("rc", o))
            peek = self.peek and back == (self.peek[0] == "back")
            if e[:2] != ev:
                if peek: case.report(st, "peek", "peeks %s of %s, the next event is %s of %s" % (ev[0], nm(st, o), e[0], nm(st, e[1][1])))
                else: case.report(st, "sequence", "yields %s of %s where %s of %s is next" % (ev[0], nm(st, o), e[0], nm(st, e[1][1])))
                raise Stop("done", "")
            g = g[:4] + (top[:2] + (None,),)
            st.ghost = g if peek else self.adv(st, g, "b" if back else "f")
        elif kind == "skip_begin":
            if s == "end": st.ghost = ("w", "end", None, None, top)
            else:
                n = f[1][1]
                if f[0] == "close": e = f
                elif n == top[1][1]: e = None
                else: e = ("close", ("rc", parent(st, n))) + self.level(f, -1)
                st.ghost = ("w", "end", None, None, top) if e is None else ("w", "skip", e, b, top)
        elif kind == "skip":
            if s not in ("skip", "end"): raise Stop("internal", "skip")
            x = st.load(v[0][1], v[0][2])
            got = None
            if x[1] == 1:
                from .interp import leaves
                got = [y for y in leaves(x[2][0], []) if y.__class__ is tuple and y[0] == "rc"][0][1]
            exp = f[1][1] if f is not None else None
            if got != exp:
                case.report(st, "skip", "skipping returns %s, expected %s" % (nm(st, got), nm(st, exp)))
                raise Stop("done", "")
            if exp is None:
                st.ghost = ("w", "end", None, None, top[:2] + (None,))
                return
            if top[2] is None or not st.same_num(top[2], f[2]): case.report(st, "depth", "skipping returns %s with depth %s, its depth is %s" % (nm(st, exp), top[2], st.num.norm(f[2])))
            st.ghost = self.adv(st, ("w", "run", f, b, top), "f")
        else: Dft.observe(self, case, st, kind, v)
    def hint(self, case, st, g, v):
        _, s, f, b, top = g
        lo, hi = st.num.norm(v[0]), v[1]
        if s == "end": least = 0
        elif f[:2] == b[:2]: least = 1
        else:
            x, y = f[1][1], b[1][1]
            cx, cy = chain(st, x), chain(st, y)
            a = next(c for c in cx if c in cy)
            up, dn = dist(st, x, a), dist(st, y, a)
            if x == y: least = 2
            elif a == x: least = add(dn, 1 + (b[0] == "close"))
            elif a == y: least = add(up, 1 + (f[0] == "open"))
            else: least = add(add(up, dn), (f[0] == "open") + (b[0] == "close"))
        if not st.ge(least, lo, "lower size hint"):
            # What else there is on the way, step by step.
            n, e = 0, g
            while e[1] != "end" and n < 8: n, e = n + 1, self.adv(st, e, "f")
            if e[1] == "end":
                if not st.ge(n, lo, "lower size hint"): case.report(st, "hint", "size hint promises at least %s items, %d are left" % (lo, n))
            else: raise Stop("internal", "size hint")
        if hi[0] == "A" and hi[1] == 1:
            h = st.num.norm(hi[2][0])
            if h.__class__ is not int or h > 8: raise Stop("internal", "upper size hint %r" % (h,))
            n, e = 0, g
            while e[1] != "end" and n <= h: n, e = n + 1, self.adv(st, e, "f")
            if n > h: case.report(st, "hint", "size hint promises at most %s items, more are left" % h)

class BreadthFirst(Shallow):
    """Level by level: a depth-limited walk per level goes along at the loop heads of the code; what it opens
    at the limit is to be yielded. Once a level was empty nothing may follow."""
    # ghost: ("b", state, event, top, found an item in this level, a level was empty, depth observed)
    def __init__(self): pass
    def begin(self, top, level): return ("open", ("rc", top), 0, level)
    def init(self, case, st):
        a = case.world.args
        n, m = a[0][1], a[1] if len(a) > 1 else None
        return ("b", "run", self.begin(n, m), ("rc", n), 0, 0, None)
    def item(self, st, g):
        e = g[2]
        if e[0] != "open" or e[3] is None or not st.is_zero(e[3], "levels left"): return False
        if g[5]: raise Stop("done", "")         # nothing is below an empty level
        return True
    def step(self, st, g):
        """Past one event; after the last one to the next level."""
        _, s, e, top, found, empty, d = g
        r = self.one(st, top[1], e, True)
        if r is not None: return ("b", s, r[:2] + tuple(None if x is None else st.num.norm(x) for x in r[2:]), top, found, empty, d)
        if e[3] is None: return ("b", "end", None, top, 0, 1, d)
        return ("b", s, self.begin(top[1], st.num.norm(add(add(e[2], e[3]), 1))), top, 0, 1 if empty or not found else 0, d)
    def head(self, case, st):
        g = st.ghost
        if len(st.frames) > 1 and st.frames[-1].looped and not st.frames[-1].fn.id.startswith("extend ") and g[1] == "run" and not self.item(st, g): st.ghost = self.step(st, g)
    def settle(self, st, g):
        for _ in range(40):
            if g[1] != "run" or g[5] or self.item(st, g): return g
            g = self.step(st, g)
        raise Stop("internal", "walk far behind")
    def observe(self, case, st, kind, v):
        g = st.ghost
        if kind == "depth":
            st.ghost = g[:6] + (v[0],)
            return
        if kind == "node":
            o = nid(case, st, v[0])
            if g[1] == "run": g = self.settle(st, g)
            if g[1] == "end":
                case.report(st, "after-end", "yields %s after the end of the sequence" % nm(st, o))
                raise Stop("done", "")
            if g[5]:
                for _ in range(40):                      # ends at an item, as nothing is below an empty level
                    if g[1] != "run": break
                    self.item(st, g)
                    g = self.step(st, g)
                raise Stop("internal", "yields %s, for which there is no place" % nm(st, o))
            e = g[2]
            if e[1][1] != o:
                case.report(st, "sequence", "yields %s where %s is next" % (nm(st, o), nm(st, e[1][1])))
                raise Stop("done", "")
            if not st.same_num(g[6], e[2]): case.report(st, "depth", "yields %s with depth %s, its depth is %s" % (nm(st, o), st.num.norm(g[6]), st.num.norm(e[2])))
            st.ghost = self.step(st, g[:4] + (1,) + g[5:6] + (None,))
        elif kind in ("end", "peek_none"):
            if g[1] == "run": g = self.settle(st, g)
            if g[1] == "run" and not g[5]:
                case.report(st, "peek" if kind == "peek_none" else "sequence", "ends while %s is still to be yielded" % nm(st, g[2][1][1]))
                raise Stop("done", "")
            st.ghost = ("b", "end", None, g[3], 0, 1, None)
        elif kind == "hint": self.hint(case, st, g, v)
        else: raise Stop("internal", "observation " + kind)
    def hint(self, case, st, g, v):
        lo, hi = st.num.norm(v[0]), v[1]
        top = st.num.norm(hi[2][0]) if hi[0] == "A" and hi[1] == 1 else None
        if lo == 0 and top is None: return
        if top is not None and top.__class__ is not int: raise Stop("internal", "upper size hint %r" % (top,))
        # How many items there are at least, as far as it matters.
        n, e, most = 0, g, max(0 if top is None else top + 1, lo if lo.__class__ is int else 8)
        if most > 8: raise Stop("internal", "size hint")
        while e[1] == "run" and n < most:
            e = self.settle(st, e)
            if e[1] == "end" or e[5]: break
            n, e = n + 1, self.step(st, e[:4] + (1,) + e[5:])
        if top is not None and n > top: case.report(st, "hint", "size hint promises at most %s items, more are left" % top)
        if not st.ge(n, lo, "lower size hint"):
            if n >= most: raise Stop("internal", "size hint %r" % (lo,))
            case.report(st, "hint", "size hint promises at least %s items, %d are left" % (lo, n))
    def expect(self, x):
        if x.st.ghost[1] != "end": x.bad("sequence", "the traversal stops early")
        return ret(())

class Queued(BreadthFirst):
    """A breadth-first traverser with a queue is made: the nodes of the first level, then a mark."""
    def init(self, case, st):
        g, a = super().init(case, st), case.world.args
        return g[:6] + (a[1] if len(a) > 1 else (1 << 64) - 1,)
    def queue(self, case, st, op, what):
        if op != "push": raise Stop("internal", "a new queue is used up")
        g = st.ghost
        if g[1] == "run": g = self.settle(st, g, what)
        if what == "mark":
            if g[1] == "end" or g[4] == "over": case.report(st, "sequence", "the queue is marked twice")
            elif not self.over(g): case.report(st, "sequence", "the first level is ended while %s is still to be queued" % nm(st, g[2][1][1]))
            st.ghost = ("b", "end", None, g[3], "over", 1, g[6])
            return
        if g[1] == "end" or self.over(g):
            case.report(st, "sequence", "queues %s after the end of the first level" % nm(st, what))
            raise Stop("done", "")
        e = g[2]
        if e[1][1] != what:
            case.report(st, "sequence", "queues %s where %s is next" % (nm(st, what), nm(st, e[1][1])))
            raise Stop("done", "")
        st.ghost = self.step(st, g)
    # The walk of one level only: found counts the levels.
    def over(self, g): return g[4] != 0
    def item(self, st, g):
        e = g[2]
        return self.over(g) or e[0] == "open" and e[3] is not None and st.is_zero(e[3], "levels left")
    def step(self, st, g):
        _, s, e, top, found, empty, d = g
        r = self.one(st, top[1], e, True)
        if r is None: return ("b", s, e, top, 1, 0, d)
        return ("b", s, r[:2] + tuple(None if x is None else st.num.norm(x) for x in r[2:]), top, found, 0, d)
    def settle(self, st, g, what=None):
        for _ in range(40):
            if self.item(st, g): return g
            g = self.step(st, g)
        raise Stop("internal", "walk far behind")
    def expect(self, x):
        g = x.st.ghost
        if g[4] != "over": x.bad("sequence", "the queue is not ended by a mark")
        lv = g[6]
        class R:
            def __eq__(self, v):
                if v.__class__ is not tuple or len(v) != 3: return False
                q = next((y for y in v if y.__class__ is tuple and y and y[0] == "queue"), None)
                d = next((y for y in v[1:] if y is not q), None)
                return q is not None and q[1] == () and d is not None and x.st.same_num(d, lv)
            def __repr__(self): return "a traverser at level %s" % (lv,)
        return ret(R())

class QueueStep(Spec):
    """One step of a breadth-first traverser with a queue, from every state of the queue: the rest of a level, a mark,
    the children of what was taken from that level. Queued are, in order, the mark of the next level (when a mark
    is reached and something is after it) and the children of the node that is yielded."""
    category = "sequence"
    def __init__(self, op): self.op = op
    def setup(self, case, st):
        a = case.world.args[0]
        st.ghost = ("q", None) + a[3:]
        if self.op == "next":
            if a[1] == "mark, node": st.ghost = ("q", "mark") + a[3:] + (("rc", a[2][1]),)
            elif a[1] == "node": st.ghost = self.kids(st, a[2][1])
    def kids(self, st, n):
        k = st.first(n)
        return ("q", None if k is None else ("rc", k)) + st.ghost[2:4]
    def queue(self, case, st, op, what):
        if op == "pop": return
        g = st.ghost
        e = g[1]
        if e == "mark":
            if what != "mark":
                case.report(st, "sequence", "queues %s where a mark is to be queued" % nm(st, what))
                raise Stop("done", "")
            st.ghost = self.kids(st, g[4][1])
        elif what == "mark" or e is None or e[1] != what:
            case.report(st, "sequence", "queues %s where %s is to be queued" % ("a mark" if what == "mark" else nm(st, what), "nothing" if e is None else nm(st, e[1])))
            raise Stop("done", "")
        else:
            k = nxt(st, what)
            st.ghost = ("q", None if k is None else ("rc", k)) + g[2:4]
    def expect(self, x):
        st = x.st
        if st.ghost[1] is not None: x.bad("sequence", "%s is not queued" % ("a mark" if st.ghost[1] == "mark" else nm(st, st.ghost[1][1])))
        _, conf, n = x.case.world.args[0][:3]
        depth, size = st.ghost[2:4]
        key, ty = x.w.cells[0] if x.w.cells else (None, None)
        if key is not None:
            now = x.case.dec.dec(st, ty, st.mem[key])
            q = next(y for y in now if y.__class__ is tuple and y[0] == "queue")
            d = next(y for y in now[1:] if y is not q)
            if self.op == "next":
                if conf.endswith("node"):
                    if q[1]: x.bad("sequence", "what is yielded stays in the queue")
                    if not st.same_num(d, add(depth, 1 if conf == "mark, node" else 0)): x.bad("depth", "the level is %s, expected %s%s" % (st.num.norm(d), depth, " + 1" if conf == "mark, node" else ""))
                elif not st.is_zero(q[2], "length of the queue") and not (len(q[1]) == 1 and st.same_num(q[2], 1) and "frozen" not in str(q[1])):
                    x.bad("sequence", "the queue is not empty at the end")
            else:
                if not st.same_num(d, depth): x.bad("depth", "the level changes")
                if not st.same_num(q[2], size): x.bad("sequence", "the queue changes")
        if self.op in ("next", "peek"):
            if not conf.endswith("node"): return ret(None)
            lv = add(depth, 1 if conf == "mark, node" else 0)
            class D:
                def __eq__(self, v): return st.same_num(v, lv)
                def __repr__(self): return "level %s" % (lv,)
            return ret(("some", (n, D())))
        if self.op == "clone":
            class C:
                def __eq__(self, v):
                    q = next((y for y in v if y.__class__ is tuple and y and y[0] == "queue"), None) if v.__class__ is tuple else None
                    d = next((y for y in v[1:] if y is not q), None) if q else None
                    return q is not None and d is not None and q[1] == was[1] and st.same_num(q[2], size) and st.same_num(d, depth)
                def __repr__(self): return "the same traverser"
            was = next(y for y in now if y.__class__ is tuple and y[0] == "queue")
            return ret(C())
        if self.op == "hint":
            least = 0 if not conf.endswith("node") else add(size, -1)
            class H:
                def __eq__(self, v):
                    if not st.ge(least, v[0], "lower size hint"): return False
                    return v[1] is None or not conf.endswith("node") and st.ge(v[1][1], 0, "upper size hint")
                def __repr__(self): return "at least %s and no upper bound" % (least,)
            return ret(H())
        return ret(())

class Printed(Spec):
    """What is printed of a subtree: the data of each of its nodes once, in document order, except what is borrowed
    mutably; `whole` False: only that of the node. The ghost is the next event of a traversal; closings, and openings
    of nodes with borrowed data, may be gone over at any time.

    Printing within printing is cut at the third level (interp.step_cont): there, the same as what the levels above do
    is assumed -- all below the node is printed (or the node with all below it, when the node itself is next). That the
    second level does so is checked when it is through; the first one is what the entry is about."""
    printing = nopanic = True
    category = "content"
    def __init__(self, whole=True, reliable=False): self.whole, self.reliable = whole, reliable
    def setup(self, case, st):
        k, n = case.world.args[0]
        if k == "tree": n = st.first(n)
        st.ghost = ("p", "run", ("open", ("rc", n)), ("rc", n), "sure", None)
    def step(self, st, g):
        if g[5]: return ("p", "run", g[5]) + g[3:5] + (None,)
        return self.after(st, g)
    def after(self, st, g):
        k, n = g[2][0], g[2][1][1]
        e = doc_next(st, g[3][1], (k, n)) if self.whole else ("close", n) if k == "open" else None
        return ("p", "end", None) + g[3:] if e is None else ("p", "run", (e[0], ("rc", e[1]))) + g[3:]
    def passes(self, st, g):
        return g[1] == "run" and (g[2][0] == "close" or st.cfg_get(("dflag", g[2][1][1])) == -1)
    def settle(self, st, g, end=None):
        for _ in range(40):
            if not self.passes(st, g) or end is not None and g[2] == end: return g
            g = self.step(st, g)
        raise Stop("internal", "printing far behind")
    def head(self, case, st):
        g = st.ghost
        if any(c[0] == "about" for fr in st.frames for c in fr.cont): return
        try:
            # As far as the code knows the way: running ahead of it is of no use.
            for _ in range(40):
                if not self.passes(st, g):
                    # What comes next may be forgotten before it is known whether this is printed.
                    if g[1] == "run" and not g[5]:
                        a = self.after(st, g)
                        if a[1] == "run": g = g[:5] + (a[2],)
                    break
                g = self.step(st, g)
        except Split: pass
        st.ghost = g
    def failed(self, st):
        if st.ghost[1] != "failed": st.ghost = ("p", "failed", None) + st.ghost[3:5] + (None,)
    def user(self, case, st, kind, args):
        g = st.ghost
        if kind != "fmt" or g[1] == "failed": return
        n = args[0][1]
        g = self.settle(st, g)
        if g[1] == "end": text = "prints the data of %s when all that is to be printed is" % nm(st, n)
        elif g[2][1][1] != n: text = "prints the data of %s where that of %s is next" % (nm(st, n), nm(st, g[2][1][1]))
        else:
            st.ghost = self.step(st, g)
            return
        if g[4] != "sure": raise Stop("internal", text + ", if parts are printed by themselves")
        case.report(st, "content", text)
        raise Stop("done", "")
    # ---- printing within printing
    def mode(self, st, n):
        g = st.ghost
        if g[1] != "run": return "-"
        g = self.settle(st, g, ("close", ("rc", n)))
        if g[1] == "run" and g[2] == ("open", ("rc", n)): return "whole"
        # All that is before the first node below it was printed.
        f = st.first(n)
        if g[1] == "run" and (g[2][1][1] == n or g[2] == ("open", ("rc", f))): return "below"
        return "-"
    def below(self, st, g, n):
        if st.ghost[1] == "failed": return
        m = self.mode(st, n)
        if m == "-" or any(c[0] == "about" and c[1] == g.id and c[3] != m for fr in st.frames for c in fr.cont):
            raise Stop("internal", "cannot tell what is printed by %s" % g.short)
        st.ghost = ("p", "run", ("close", ("rc", n))) + st.ghost[3:5] + (None,)
    def through(self, st, c):
        g, n = st.ghost, c[2][1]
        if g[1] != "run" or c[3] == "-": return
        g = self.settle(st, g, ("close", ("rc", n)))
        if g[1] == "run" and g[2] == ("close", ("rc", n)): st.ghost = g
        elif c[4] == "again": st.ghost = g[:4] + ("if complete",) + g[5:]
    def expect(self, x):
        st = x.st
        g = st.ghost
        if g[1] == "failed": return ret(ANY)
        g = self.settle(st, g)
        if g[1] == "run":
            x.bad("content", "the data of %s is not printed" % nm(st, g[2][1][1]))
        elif g[4] != "sure": raise Stop("internal", "something within what is printed is not complete by itself")
        return ret(("ok", ()))

class Serialize(Dft):
    """The events to rebuild a subtree: a clone of the data for every opening; closings go by at the loop
    heads of the code and are counted, what the code reports is subtracted."""
    def __init__(self): self.rev = self.both = False
    def init(self, case, st):
        n = case.world.args[0][1]
        return ("t", "run", ("open", ("rc", n)), ("rc", n), 0)
    def head(self, case, st):
        # Not where a loop is entered: the walk is not to run ahead of the code.
        g = st.ghost
        if st.frames[-1].looped and g[1] == "run" and g[2][0] == "close": st.ghost = self.step(st, g, 1)
    def step(self, st, g, k):
        e = doc_next(st, g[3][1], (g[2][0], g[2][1][1]))
        k = st.num.norm(add(g[4], k))
        return ("t", "end", None, g[3], k) if e is None else ("t", "run", (e[0], ("rc", e[1])), g[3], k)
    def settle(self, st, g):
        for _ in range(40):
            if g[1] != "run" or g[2][0] != "close": return g
            g = self.step(st, g, 1)
        raise Stop("internal", "events far behind")
    def observe(self, case, st, kind, v):
        g = st.ghost
        if kind == "ev_close":
            c = st.num.norm(v[0])
            if c == 0: case.report(st, "events", "an event closes no node")
            r = st.num.norm(add(g[4], c, -1))
            for _ in range(40):
                if st.ge(r, 0, "closings to come"): break
                if g[1] != "run" or g[2][0] != "close":
                    case.report(st, "events", "closes %s nodes where %s are to be closed" % (c, st.num.norm(g[4])))
                    raise Stop("done", "")
                g = self.step(st, g, 1)
                r = st.num.norm(add(g[4], c, -1))
            st.ghost = g[:4] + (r,)
            return
        g = self.settle(st, g)
        if kind == "after": kind = "end"
        if not st.is_zero(g[4], "closings to come"):
            case.report(st, "events", "%s nodes are not closed" % (g[4],))
            raise Stop("done", "")
        if kind == "end":
            if g[1] != "end":
                case.report(st, "events", "the events end while %s is still to be opened" % nm(st, g[2][1][1]))
                raise Stop("done", "")
            st.ghost = g
            return
        if g[1] == "end":
            case.report(st, "events", "there are events after the end of the subtree")
            raise Stop("done", "")
        n = g[2][1][1]
        if kind == "ev_err":
            if st.cfg_get(("dflag", n)) != -1: case.report(st, "events", "fails where %s is next, the data of which is not borrowed mutably" % nm(st, n))
            st.ghost = ("t", "failed", None, g[3], 0)
        elif kind == "ev_open":
            d = st.load(v[0][1], v[0][2])
            if d != ("data", ("clone", n)):
                case.report(st, "events", "opens a node with %r, expected a clone of the data of %s" % (d, nm(st, n)))
                raise Stop("done", "")
            st.ghost = self.step(st, g, 0)
        else: raise Stop("internal", "observation " + kind)
    def expect(self, x):
        if x.st.ghost[1] == "run": x.bad("events", "the events stop early")
        return ret(())

class Clone(Serialize):
    """A subtree is walked, and what is done with clones of its data is followed in step: collecting them
    (rec), taking them back from the collection (rep), and building from them (blt)."""
    category = "clone"
    edits = True
    def __init__(self, k, fallible, into=False):
        self.k, self.fallible, self.into = k, fallible, into
    def setup(self, case, st):
        k, n = case.world.args[0]
        if k == "tree": n = st.first(n)
        a = ("t", "run", ("open", ("rc", n)), ("rc", n), 0)
        st.ghost = ("c", ("rc", n), a, None, a, None)
    def part(self, st, i, g): st.ghost = st.ghost[:i] + (g,) + st.ghost[i + 1:]
    def head(self, case, st):
        if not st.frames[-1].looped: return
        g = list(st.ghost)
        for i in (2, 4):
            if g[i][1] == "run" and g[i][2][0] == "close": g[i] = self.step(st, g[i], 1)
        st.ghost = tuple(g)
    def sub(self, case, st, i, kind, v):
        """Lets one of the parts take an event."""
        whole = st.ghost
        st.ghost = whole[i]
        try: Serialize.observe(self, case, st, kind, v)
        finally:
            g, st.ghost = st.ghost, whole
        self.part(st, i, g)
    def only_closings(self, st, g):
        """Whether nothing is left to be opened."""
        if g[1] == "end": return True
        e = (g[2][0], g[2][1][1])
        for _ in range(60):
            if e is None: return True
            if e[0] == "open": return False
            e = doc_next(st, g[3][1], e)
        raise Stop("internal", "events far behind")
    def vec(self, case, st, op, v):
        _, top, rec, rep, blt, col = st.ghost
        if op == "new":
            if rep is not None: raise Stop("internal", "second vector")
        elif op == "push":
            if v[0] != "A" or v[1] not in (0, 1): raise Stop("internal", "vector of %r" % (v[0],))
            if v[1] == 0:
                st.mem["pushed"] = v[2][0]
                try: self.sub(case, st, 2, "ev_open", [("R", "pushed", ())])
                finally: del st.mem["pushed"]
            else: self.sub(case, st, 2, "ev_close", [v[2][0]])
        elif op == "iter":
            if not self.only_closings(st, rec):
                case.report(st, "clone", "the events are used before all of them are collected")
                raise Stop("done", "")
            self.part(st, 3, ("p", "run", ("open", top)))
        elif op == "drop":
            return rec[1] != "run" or rec[2] != ("open", top)
        else:
            if rep is None: raise Stop("internal", "events without a vector")
            if op == "kind": return 0 if rep[1] == "end" else 1 if rep[2][0] == "open" else 2
            n = rep[2][1][1]
            e = doc_next(st, top[1], (rep[2][0], n))
            self.part(st, 3, ("p", "end", None) if e is None else ("p", "run", (e[0], ("rc", e[1]))))
            if op == "open": return ("data", ("clone", n))
    def building(self, case, st, opens, b, v):
        """A call of TreeBuilder::open or close: what happens to the builder."""
        st.checking = True
        old = st.ghost
        try: r = self._building(case, st, opens, b, v)
        except Split:
            st.ghost = old
            raise
        st.checking = False
        return r
    def _building(self, case, st, opens, b, v):
        root, cur = b[2][0], b[2][1]
        _, top, rec, rep, blt, col = st.ghost
        if root[1] == 0:
            if not opens: return "real"
            if blt[2] != ("open", top): raise Stop("internal", "second builder")
            self.check_open(case, st, v)
            return "real"
        if cur[1] == 0: return "real"
        m = rcv_in(root)
        if blt[1] == "run" and blt[2] == ("open", top):
            # The root was made elsewhere.
            d = st.load(-m, st.lay.paths["data"])
            self.check_open(case, st, d)
            _, top, rec, rep, blt, col = st.ghost
        if opens:
            self.check_open(case, st, v)
            return "ok"
        if st.is_zero(v, "levels to close"): return "ok"
        self.sub(case, st, 4, "ev_close", [v])
        blt = st.ghost[4]
        if blt[1] == "end" and st.is_zero(blt[4], "closings to come"): return "last"
        return "ok"
    def check_open(self, case, st, d):
        st.mem["pushed"] = d
        try: self.sub(case, st, 4, "ev_open", [("R", "pushed", ())])
        finally: del st.mem["pushed"]
    def expect(self, x):
        st, E = x.st, x.E
        mid = getattr(x, "mid", False)
        _, top, rec, rep, blt, col = st.ghost
        n = top[1]
        dest = next((a for a in x.a if a[0] in INSERT), None) if self.into else None
        if mid:
            if not x.news: return None
        else:
            out = st.outcome
            v = x.case.dec.dec(st, x.case.f.locals[0], out[1]) if out[0] != "panic" else ("panic",)
            failed = v == ("panic",) or self.fallible and v[0] == "err"
            bad = None
            for g in (rec, blt):
                if g[1] == "run" and g[2][0] == "open" and st.cfg_get(("dflag", g[2][1][1])) == -1: bad = g
                if g[1] == "run" and g[2][0] == "close":
                    g = self.settle(st, g)
                    if g[1] == "run" and st.cfg_get(("dflag", g[2][1][1])) == -1: bad = g
            sib = dest is not None and sibling_of_root(st, dest[:1] + (dest[1][1],))
            if failed or bad:
                if bad is None and not sib:
                    x.bad("error", "fails although all data can be borrowed and the destination is one")
                    return None
                if not self.fallible: return panic()
                if not self.into: return ret(err(ANY))
                return ret(("err", lambda e: sib and e == ("SiblingsWithoutParent",) or bad is not None and e[0] == "BorrowNodeData"))
            if sib: return ret(err("SiblingsWithoutParent")) if self.fallible else panic()
            if len(x.news) != 1:
                x.bad("clone", "the operation leaves %d new nodes" % len(x.news))
                return None
        m = x.news[0]
        if not mid:
            x.edits = True
            if blt[1] == "run" and blt[2] == ("open", top): self.check_made(x, m)
            elif data_of(x, m) != ("data", ("clone", n)): x.bad("clone", "the new node holds %r" % (data_of(x, m),))
            if not self.only_closings(st, st.ghost[4]): x.bad("clone", "the rest of the subtree from %s on is missing" % nm(st, st.ghost[4][2][1][1]))
        E.kids[m] = ()
        if dest is not None:
            if "Sibling" in dest[0]: place_of(st, dest[1][1])
            E.kids = dict(st.D.kids)
            E.kids[m] = ()
            place(st, E, (dest[0], dest[1][1]), m)
            r = ("hot", m)
        else:
            if not x.newtrees: return None
            t = x.newtrees[0]
            E.kids[t] = (m,)
            E.trees.append(t)
            x.tmodes = {t: "G"}
            r = ("tree", t) if self.k == "tree" else ("node", m)
        return ret(("ok", r)) if self.fallible else ret(r)
    def check_made(self, x, m):
        st = x.st
        if data_of(x, m) != ("data", ("clone", st.ghost[1][1])): x.bad("clone", "the new node holds %r" % (data_of(x, m),))
        else: self.part(st, 4, self.step(st, st.ghost[4], 0))

INSERT = ("FirstChildOf", "LastChildOf", "PreviousSiblingOf", "NextSiblingOf")

def rcv_in(v):
    from .interp import leaves
    return next(x for x in leaves(v[2][0], []) if x.__class__ is tuple and x[0] == "rc")[1]

class Equality(Spec):
    """Both subtrees are walked in step: opening events ask for the comparison of the data, closing
    events go by (at the loop heads of the code), events of different kinds make the subtrees differ."""
    category = "equality"
    def __init__(self, fallible): self.fallible = fallible
    def start(self, case, st):
        out = []
        for k, o in case.world.args: out.append(st.first(o) if k == "tree" else o)
        return out
    def setup(self, case, st):
        a, b = self.start(case, st)
        st.ghost = ("q", "start", ("open", ("rc", a)), ("open", ("rc", b)), ("rc", a), ("rc", b))
    def step(self, st, g):
        l = doc_next(st, g[4][1], (g[2][0], g[2][1][1]))
        r = doc_next(st, g[5][1], (g[3][0], g[3][1][1]))
        if l is None and r is None: return ("q", "equal", None, None) + g[4:]
        if l is None or r is None or l[0] != r[0]:
            # Where they differ is remembered.
            return ("q", "unequal") + tuple(e and (e[0], ("rc", e[1])) for e in (l, r)) + g[4:]
        return ("q", l[0], (l[0], ("rc", l[1])), (r[0], ("rc", r[1]))) + g[4:]
    def head(self, case, st):
        if st.ghost[1] == "close": st.ghost = self.step(st, st.ghost)
    def settle(self, st):
        g = st.ghost
        for _ in range(40):
            if g[1] != "close": return g
            g = self.step(st, g)
        raise Stop("internal", "comparison far behind")
    def compare(self, case, st, a, b):
        g = self.settle(st)
        if g[1] in ("start", "open"):
            l, r = g[2][1][1], g[3][1][1]
            if (a, b) != (("data", l), ("data", r)):
                case.report(st, "sequence", "compares the data of %s with that of %s, where %s and %s are next" % (nm(st, a[1]), nm(st, b[1]), nm(st, l), nm(st, r)))
                raise Stop("done", "")
        elif g[1] == "equal":
            case.report(st, "sequence", "compares the data of %s with that of %s after the end of the subtrees" % (nm(st, a[1]), nm(st, b[1])))
            raise Stop("done", "")
        else: return st.choose("comparison", (True, False, "panic"))
        c = st.choose("comparison", (True, False, "panic"))
        if c is True: st.ghost = self.step(st, g)
        elif c is False: st.ghost = ("q", "unequal", None, None) + g[4:]
        return c
    def expect(self, x):
        st = x.st
        g = self.settle(st)
        if g[1] == "equal": r = True
        elif g[1] == "unequal": r = False
        else:
            l, r = g[2][1][1], g[3][1][1]
            out = st.outcome
            v = x.case.dec.dec(st, x.case.f.locals[0], out[1]) if out[0] != "panic" else None
            if self.fallible and v and v[0] == "ok": v = v[1]
            if g[1] == "start" and l == r and v is True: r = True
            elif -1 in (st.cfg_get(("dflag", l)), st.cfg_get(("dflag", r))):
                if not (v is False and self.shorter(st, l, r)): return ret(err(ANY)) if self.fallible else panic()
                r = False
            elif v is False and self.shorter(st, l, r): r = False
            else:
                x.bad("equality", "returns %s without having compared %s with %s" % (show(v), nm(st, l), nm(st, r)))
                return None
        return ret(("ok", r)) if self.fallible else ret(r)
    def shorter(self, st, l, r):
        """Different numbers of children."""
        d = st.num.norm(add(st.kid_count(l), st.kid_count(r), -1))
        return d != 0 and (d.__class__ is int or (st.num.min(d) or 0) > 0 or (st.num.max(d) if st.num.max(d) is not None else 0) < 0)

def max_depth(x):
    return ret(x.a[1])

def sib_step(st, n): return nxt(st, n)
def sib_back(st, n): return prv(st, n)
def first_kid(st, n): return st.first(n)
def last_kid(st, n): return st.last(n)
def self_(st, n): return n

WALKS = {
    "children": (first_kid, sib_step), "children_reverse": (last_kid, sib_back),
    "ancestors": (parent, parent), "ancestors_or_self": (self_, parent),
    "siblings": (fsib, sib_step), "siblings_reverse": (lsib, sib_back),
    "preceding_siblings_or_self_reverse": (self_, sib_back), "preceding_siblings_reverse": (prv, sib_back),
    "following_siblings_or_self": (self_, sib_step), "following_siblings": (nxt, sib_step),
}
STABLE = {
    "children_stable": (first_kid, last_kid), "siblings_stable": (fsib, lsib),
    "preceding_siblings_or_self_stable": (fsib, self_), "preceding_siblings_stable": (lambda s, n: None if prv(s, n) is None else fsib(s, n), prv),
    "following_siblings_or_self_stable": (self_, lsib), "following_siblings_stable": (nxt, lambda s, n: None if nxt(s, n) is None else lsib(s, n)),
}

# ---------------------------------------------------------------- finding the specification of an entry
KIND = {"node": "node", "frozen": "frozen", "hot": "hot"}
def find(name):
    s = _find(name[2:])
    return (s, None)

def _find(n):
    if re.match(r"eq_\w+_\w+$|(node|tree)_(try_)?eq$", n): return Equality("try_" in n)
    m = re.match(r"lit_([nt])_r(\w*?)_\w+$", n)
    if m: return Literal(m.group(1), m.group(2))
    m = re.match(r"(node|frozen|hot)_(.*)$", n)
    k, q = (m.group(1), m.group(2)) if m else (None, n)
    m = re.match(r"(node|frozen|hot|tree)_(try_)?clone_(subtree|tree)$", n) or re.match(r"(tree)_(try_)clone$", n)
    if m: return Clone(m.group(1), bool(m.group(2)))
    if n.startswith("bfs_"): return QueueStep(n[4:])
    if n.startswith("walk_"): return From(n[5:])
    if n.endswith("_cloned"):
        s = _find(n[:-7])
        s.partial = True
        return s
    m = re.match(r"(node|frozen|hot)_(try_)?clone_insert_subtree$", n)
    if m: return Clone(m.group(1), bool(m.group(2)), True)
    if k:
        if q in QUERIES:
            s = Query(k, q, QUERIES[q])
            return s
        if q == "belongs_to": return Two(k, lambda st, a, b: st.tree_of(a) == b)
        if q == "belongs_to_same_tree": return Two(k, lambda st, a, b: st.tree_of(a) == st.tree_of(b))
        if q == "belongs_to_same_tree_self": return Simple(lambda x: ret(True))
        if q in ("ptr_eq", "ptr_eq_plain"): return Two(k, lambda st, a, b: a == b)
        m2 = re.match(r"(try_)?borrow_data(_mut)?$", q)
        if m2: return Data(k, bool(m2.group(2)), bool(m2.group(1)))
        if q in WALKS: return Walk(*WALKS[q])
        if q.endswith("_peek") and q[:-5] in WALKS: return Walk(*WALKS[q[:-5]], peek=("back", "f"))
        if q in STABLE or re.sub("_(fwd|peek|peek_back|mix)$", "", q) in STABLE:
            b = re.sub("_(fwd|peek|peek_back|mix)$", "", q)
            f, l = STABLE[b]
            p = ("back", "f") if q.endswith("_peek") else ("node", "b") if q.endswith("_peek_back") else None
            return Walk(f, sib_step, l, sib_back, peek=p)
        if q == "to_events": return Serialize()
        if q.startswith("depth_first_traverse_stable"):
            p = ("back", "f") if q.endswith("_peek") else ("front", "b") if q.endswith("_peek_back") else None
            d = Dft(both=True, peek=p)
            d.partial = q.endswith(("_skip", "_hint", "_mix"))
            return d
        if q.startswith("shallow_depth_first"):
            if q.endswith("_limit"): return Simple(max_depth, category="depth")
            p = ("back", "f") if q.endswith("_peek") else ("front", "b") if q.endswith("_peek_back") else None
            d = Shallow(both=True, peek=p)
            d.partial = q.endswith(("_skip", "_hint", "_mix"))
            return d
        if q.startswith("depth_first_"):
            d = Dft(rev="reverse" in q, peek=("back", "f") if q.endswith("_peek") else None)
            d.partial = q.endswith("_skip")
            return d
        if re.sub("_(max|hint)$", "", q) == "non_allocating_breadth_first_traverse_stable": return BreadthFirst()
        if re.sub("_max$", "", q) == "allocating_breadth_first_traverse_stable": return Queued()
        if q.endswith("pretty_print"): return Printed(reliable=True) if q.startswith("shows_") else printed()
        if q in PRINTS: return Printed(q not in ("debug", "debug_print_local"))
        if q in ("event_next", "event_prev", "event_close_current"): return Simple(dft_event(k, q[6:]), category="event")
        if q == "downgrade": return Simple(lambda x: ret(("nodeweak", x.a[0][1])))
        if q == "bundle_new_prohibition": return Simple(acquire("P", lambda x: ("frozen", x.a[0][1]), 0), category="lock")
        if q == "bundle_new_grant": return Simple(acquire("G", lambda x: ("hot", x.a[0][1]), 0), category="lock")
        if q == "bundle_prohibition": return Simple(bundle("P", "frozen"), category="lock")
        if q == "bundle_grant": return Simple(bundle("G", "hot"), category="lock")
        if q in ("plain", "into"): return Simple(lambda x: ret(("node", x.a[0][1])))
        if q == "extract": return Simple(lambda x: ret(("prohibition" if k == "frozen" else "grant", x.st.tree_of(x.a[0][1]))), category="lock")
        if q == "new_tree": return Simple(new_tree(k), edits=True)
        hot = k == "hot"
        f = q.startswith("try_")
        b = q[4:] if f else q
        if b == "detach_subtree": return Edit(k, op_detach, False, hot)
        if b == "create_node_as": return Edit(k, op_create(None), f, hot)
        m3 = re.match(r"create_as_(first_child|last_child|prev_sibling|next_sibling)$", b)
        if m3: return Edit(k, op_create({"first_child": "FirstChild", "last_child": "LastChild", "prev_sibling": "PreviousSibling", "next_sibling": "NextSibling"}[m3.group(1)]), f, hot)
        if b == "create_as_interrupting_parent": return Edit(k, op_interrupt_parent, False, hot)
        if b == "create_as_interrupting_child": return Edit(k, op_interrupt_child, False, hot)
        if b == "replace_with_children": return Edit(k, op_replace, f, hot)
        if b == "detach_insert_subtree": return Edit(k, op_move, f, hot)
    T = {
        "weak_upgrade": Simple(upgrade, category="upgrade"), "treeweak_upgrade": Simple(upgrade, category="upgrade"),
        "weak_clone": Simple(lambda x: ret(x.a[0])), "treeweak_clone": Simple(lambda x: ret(x.a[0])),
        "tree_downgrade": Simple(lambda x: ret(("treeweak", x.a[0][1]))),
        "tree_root": Simple(lambda x: ret(("node", x.st.first(x.a[0][1])))),
        "tree_clone": Simple(lambda x: ret(("tree", x.a[0][1]))),
        "tree_drop": Simple(lambda x: ret(())),
        "tree_ptr_eq": Simple(lambda x: ret(x.a[0] == x.a[1])),
        "tree_prohibit": Simple(acquire("P", lambda x: ("prohibition", x.a[0][1]), 0), category="lock"),
        "tree_grant": Simple(acquire("G", lambda x: ("grant", x.a[0][1]), 0), category="lock"),
        "grant_try_clone": Simple(lambda x: ret(("ok", x.a[0])) if x.a[0][1] != DEAD else None, category="lock"),
        "grant_clone": Simple(lambda x: ret(x.a[0]) if x.a[0][1] != DEAD else None, category="lock"),
        "prohibition_try_clone": Simple(lambda x: ret(("ok", x.a[0])) if x.a[0][1] != DEAD else None, category="lock"),
        "grant_drop": Simple(lambda x: ret(()), category="lock"), "prohibition_drop": Simple(lambda x: ret(()), category="lock"),
        "grant_is_valid": Simple(is_valid, category="lock"), "prohibition_is_valid": Simple(is_valid, category="lock"),
        "insertas_map": Simple(lambda x: ret((x.a[0][0], ("node", x.a[0][1][1]))), category="position"),
        "insertas_as_ref": Simple(lambda x: ret((x.a[0][0], ("&", x.a[0][1]))), category="position"),
        "event_from_map_open": Simple(lambda x: ret(("Open", x.a[0])), category="builder"),
        "event_from_map_close": Simple(lambda x: ret(("Close", next(v for k, v in x.st.cfg if k[0] == "arg"))), category="builder"),
        "dftevent_map": Simple(lambda x: ret((x.a[0][0], ("nodeweak", lambda o: o == x.a[0][1][1] or o == 0 and x.a[0][1][1] in x.st.freed))), category="position"),
        "dftevent_into_value": Simple(lambda x: ret(x.a[0][1]), category="position"),
        "dftevent_into_open": Simple(lambda x: ret(("some", x.a[0][1]) if x.a[0][0] == "Open" else None), category="position"),
        "dftevent_into_close": Simple(lambda x: ret(("some", x.a[0][1]) if x.a[0][0] == "Close" else None), category="position"),
        "dftevent_as_value": Simple(lambda x: ret(("&", x.a[0][1])), category="position"),
        "dftevent_as_value_mut": Simple(lambda x: ret(("&", x.a[0][1])), category="position"),
    }
    if n in T: return T[n]
    if n in ("tree_debug_print", "tree_shows_debug_pretty_print", "tree_shows_display_pretty_print"): return Printed(reliable="_shows_" in n)
    if n.startswith("print_") or n.startswith("tree_") and n[5:] in PRINTS: return printed()
    if n.startswith("b_"): return builder_spec(n[2:])
    if n.startswith("event_from_"): return Simple(event_from, category="builder")
    return None

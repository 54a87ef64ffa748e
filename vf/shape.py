"""The abstract heap: trees of concrete nodes, gaps (any number of sibling subtrees) and spines
(any number of nodes between a node and one of its descendants), with every field of a node either
`as in that shape` (lazy) or overwritten by the code under analysis."""
from .num import Num, Lin, Infeasible, add, sym, mk, terms
from . import printing

class Split(Exception):
    """The current step needs the abstract state refined; alts = [(label, fn(state))]."""
    def __init__(self, alts): self.alts = alts

class Stop(Exception):
    """The analysis of this path ends (kind, text)."""
    def __init__(self, kind, text): self.kind, self.text = kind, text

UNIT = ("A", 0, ())
NONE = ("A", 0, ())
DEAD = 0          # an object that was freed and is not told apart from others
MOVED = ("X",)

def some(v): return ("A", 1, (v,))

class Shape:
    __slots__ = ("kids", "par", "gaps", "spines", "over", "agg", "ph", "lk", "u", "dirty", "trees", "nitem")
    # kids: container (node or tree id) -> tuple of items; item: int (node), ("G",i), ("S",i)
    # par: item -> container, or, for the target node of a spine, the spine item
    # gaps: i -> (n, lk, u, parent_override, tree_override)
    # spines: i -> (target, len, lk, u of the chain, lk, u of the left siblings, lk, u of the right siblings,
    #   tree override of chain, of left siblings, of right siblings);
    #   "-" instead of an override: there are no siblings on that side of the chain below its top node
    # per node: over[n] -> {field: value}; agg+ph = handles; lk/u: whether it counts as locked/strong
    def copy(self):
        s = Shape.__new__(Shape)
        s.kids, s.par, s.gaps, s.spines = dict(self.kids), dict(self.par), dict(self.gaps), dict(self.spines)
        s.over, s.agg, s.ph, s.lk, s.u = dict(self.over), dict(self.agg), dict(self.ph), dict(self.lk), dict(self.u)
        s.dirty, s.trees, s.nitem = self.dirty, self.trees, self.nitem
        return s

def new_shape():
    s = Shape.__new__(Shape)
    s.kids, s.par, s.gaps, s.spines, s.over, s.agg, s.ph, s.lk, s.u = {}, {}, {}, {}, {}, {}, {}, {}, {}
    s.dirty, s.trees, s.nitem = frozenset(), (), 1
    return s

class Frame:
    __slots__ = ("fn", "base", "bi", "si", "dest", "ret", "uw", "cont", "looped")
    def __init__(self, fn, base, dest, ret, uw, cont):
        self.fn, self.base, self.bi, self.si = fn, base, 0, 0
        self.dest, self.ret, self.uw, self.cont, self.looped = dest, ret, uw, cont, False
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.base, f.bi, f.si, f.dest, f.ret, f.uw, f.cont, f.looped = self.fn, self.base, self.bi, self.si, self.dest, self.ret, self.uw, self.cont, self.looped
        return f

class State:
    __slots__ = ("mem", "num", "D", "frames", "nextbase", "nextoid", "ghost", "log", "writers", "strong", "freed",
                 "panicking", "cfg", "lay", "nsplit", "marks", "objty", "events", "prog", "outcome", "keep", "picks", "arrived", "joined", "checking")

    def copy(self):
        s = State.__new__(State)
        s.mem, s.num, s.D = dict(self.mem), self.num.copy(), self.D.copy()
        s.frames = [f.copy() for f in self.frames]
        s.nextbase, s.nextoid, s.ghost, s.log = self.nextbase, self.nextoid, self.ghost, self.log
        s.writers, s.strong, s.freed = dict(self.writers), dict(self.strong), self.freed
        s.panicking, s.cfg, s.lay, s.nsplit, s.marks = self.panicking, self.cfg, self.lay, self.nsplit, self.marks
        s.objty, s.events, s.prog, s.outcome, s.keep, s.picks = dict(self.objty), self.events, self.prog, self.outcome, self.keep, self.picks
        s.arrived, s.joined = self.arrived, self.joined
        s.checking = False
        return s

    # ---- memory ----
    def cell(self, key):
        v = self.mem.get(key)
        if v is None:
            if isinstance(key, int) and key < 0:
                o = -key
                if o in self.freed or o == DEAD:
                    raise Stop("uaf", "access to a freed object")
                ty = self.objty.get(o)
                if ty == "node": v = self.lay.node_value(o)
                elif ty == "tree": v = self.lay.tree_value(o)
                else: raise Stop("internal", "no contents for object %d" % o)
                self.mem[key] = v
                return v
            if isinstance(key, tuple) and key[0] == "const":
                return self.prog.consts[key[1]]
            if isinstance(key, tuple) and key[0] == "element":
                return printing.unknown(self.prog, self, key[1])
            raise Stop("internal", "read of uninitialised memory %r" % (key,))
        return v

    def peek(self, key, path=()):
        """Value at a location; lazies on the way are forced, a final one is not."""
        v = self.cell(key)
        for d, i in enumerate(path):
            t = v[0]
            if t == "Z":
                v = self.force(v)
                self._put(key, path[:d], v)
            if v[0] != "A":
                raise Stop("internal", "field %r of %r" % (path, v))
            f = v[2]
            v = f[i] if i < len(f) else UNIT
        return v

    def load(self, key, path=()):
        v = self.peek(key, path)
        if v.__class__ is tuple and v[0] == "Z":
            v = self.force(v)
            self._put(key, path, v)
        return v

    def _put(self, key, path, val):
        if key.__class__ is tuple and key[0] == "element": return      # one of many; what each holds is not known
        if not path:
            self.mem[key] = val
            return
        v = self.mem.get(key)
        if v is None:
            v = self.cell(key)
        self.mem[key] = _upd(self, v, path, 0, val)

    def store(self, key, path, val):
        self._put(key, path, val)
        if key.__class__ is int and key < 0:
            fr = self.frames[-1]
            self.writers[(-key, path)] = self.site()

    def site(self):
        """(function, file:line) of the innermost frame of the crate."""
        for fr in reversed(self.frames):
            if fr.fn is not None and self.prog.in_crate(fr.fn):
                b = fr.fn.blocks[fr.bi]
                sp = b[0][fr.si][-1] if fr.si < len(b[0]) and isinstance(b[0][fr.si][-1], list) and b[0][fr.si][0] in ("=", "sd") else b[2]
                return (fr.fn.short, "%s:%s" % (self.prog.files[sp[0]].split("/src/")[-1], sp[1]))
        return ("?", "?")

    def stack(self):
        out = []
        for fr in self.frames:
            if fr.fn is not None and self.prog.in_crate(fr.fn):
                out.append(fr.fn.short)
        return out

    # ---- splitting ----
    def decide(self, alts):
        """Apply the only feasible alternative in place, or raise Split."""
        if len(alts) == 1 and not self.checking:
            alts[0][1](self)
            return
        raise Split(alts)

    def choose(self, tag, opts):
        """A nondeterministic choice, fixed for the rest of the current step."""
        for k, v in self.picks:
            if k == tag: return v
        def alt(o):
            def f(s): s.picks = s.picks + ((tag, o),)
            return f
        raise Split([("%s: %s" % (tag, o), alt(o)) for o in opts])

    def is_zero(self, x, what="value"):
        """Whether a number is zero (splits when it can be both)."""
        x = self.num.norm(x)
        if not isinstance(x, Lin): return x == 0
        lo, hi = self.num.min(x), self.num.max(x)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
        if lo == 0 and hi == 0: return True
        if abs(x.c) > 1 << 62: return False       # counts are never that large
        alts = [("%s = 0" % what, lambda s: s.num.assume_eq(x, 0))]
        if lo is None or lo < 0:
            alts.append(("%s < 0" % what, lambda s: s.num.assume_ge(add(-1, x, -1))))
        if hi is None or hi > 0:
            alts.append(("%s > 0" % what, lambda s: s.num.assume_ge(add(x, -1))))
        raise Split(alts)

    def ge(self, a, b, what="value"):
        """Whether a >= b."""
        x = self.num.norm(add(a, b, -1))
        if not isinstance(x, Lin): return x >= 0
        lo, hi = self.num.min(x), self.num.max(x)
        if lo is not None and lo >= 0: return True
        if hi is not None and hi < 0: return False
        if abs(x.c) > 1 << 62: return x.c > 0
        raise Split([("%s: >=" % what, lambda s: s.num.assume_ge(x)),
                     ("%s: <" % what, lambda s: s.num.assume_ge(add(-1, x, -1)))])

    def same_num(self, a, b):
        """Whether two numbers are equal. After a join, numbers that may or may not be equal are not
        told apart for certain: the path is given up rather than reported."""
        x = self.num.norm(add(a, b, -1))
        if not isinstance(x, Lin): return x == 0
        lo, hi = self.num.min(x), self.num.max(x)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
        if abs(x.c) > 1 << 62: return False
        if self.joined:
            if lo == 0 and hi == 0: return True
            raise Stop("internal", "imprecise number")
        return self.is_zero(x, "comparison")

    # ---- materialisation ----
    def new_oid(self):
        o = self.nextoid
        self.nextoid += 1
        return o

    def new_item(self, kind):
        D = self.D
        i = D.nitem
        D.nitem += 1
        return (kind, i)

    def add_node(self, over=None):
        """A new concrete node of the shape, without children or place yet."""
        n = self.new_oid()
        D, N = self.D, self.num
        D.agg[n], D.ph[n] = N.fresh(0), N.fresh(0)
        D.lk[n], D.u[n] = N.fresh(0, 1), N.fresh(0, 1)
        D.kids[n] = ()
        if over: D.over[n] = over
        self.objty[n] = "node"
        self.strong[n] = add(add(1, D.agg[n]), D.ph[n])
        return n

    def add_gap(self, owner, sh=None, dp=None, n=None):
        it = self.new_item("G")
        N = self.num
        self.D.gaps[it[1]] = (N.fresh(0) if n is None else n, N.fresh(0), N.fresh(0), sh, dp)
        self.D.par[it] = owner
        return it

    def add_spine(self, owner, target, sd=None, ld=None, rd=None, minlen=0):
        it = self.new_item("S")
        N = self.num
        self.D.spines[it[1]] = (target, N.fresh(minlen)) + tuple([N.fresh(0) for _ in range(6)]) + (sd, ld, rd)
        self.D.par[it] = owner
        self.D.par[target] = it
        return it

    def set_strong(self, n, yes):
        D, N = self.D, self.num
        if yes:
            N.assume_eq(add(D.lk[n], D.u[n]), 1)
            N.assume_ge(add(add(D.agg[n], D.ph[n]), -1))
        else:
            N.assume_eq(D.agg[n], 0); N.assume_eq(D.ph[n], 0)
            N.assume_eq(D.lk[n], 0); N.assume_eq(D.u[n], 0)

    def set_locked(self, n, yes):
        D, N = self.D, self.num
        if yes:
            N.assume_ge(add(D.agg[n], -1))
            N.assume_eq(D.lk[n], 1); N.assume_eq(D.u[n], 0)
        else:
            N.assume_eq(D.agg[n], 0); N.assume_eq(D.lk[n], 0)

    def imply(self, n):
        """What the lock and strength bits of a node say about its counts."""
        N, D = self.num, self.D
        # What the counts say about the bits.
        lk = N.norm(D.lk[n])
        if lk.__class__ is Lin:
            a = N.norm(D.agg[n])
            if a.__class__ is int or (N.min(a) or 0) > 0: N.assume_eq(lk, 1 if a.__class__ is Lin or a else 0)
            lk = N.norm(lk)
        if lk.__class__ is int and N.norm(D.u[n]).__class__ is Lin:
            p = N.norm(D.ph[n])
            if lk: N.assume_eq(D.u[n], 0)
            elif p.__class__ is int or (N.min(p) or 0) > 0: N.assume_eq(D.u[n], 1 if p.__class__ is Lin or p else 0)
        lk = N.norm(D.lk[n])
        if lk.__class__ is int:
            if lk: N.assume_ge(add(D.agg[n], -1)); N.assume_eq(D.u[n], 0)
            else: N.assume_eq(D.agg[n], 0)
        u = N.norm(D.u[n])
        if u.__class__ is int:
            if u:
                N.assume_eq(D.lk[n], 0); N.assume_eq(D.agg[n], 0); N.assume_ge(add(D.ph[n], -1))
            elif lk.__class__ is int and not lk: N.assume_eq(D.ph[n], 0)
        elif N.norm(add(lk, u)) == 1: N.assume_ge(add(add(D.agg[n], D.ph[n]), -1))

    def strong_decided(self, n):
        N, D = self.num, self.D
        self.imply(n)
        x = N.norm(add(D.lk[n], D.u[n]))
        return None if isinstance(x, Lin) else bool(x)

    def need_strong(self, n):
        r = self.strong_decided(n)
        if r is not None: return r
        raise Split([("node %d has handles" % n, lambda s: s.set_strong(n, True)),
                     ("node %d has no handle" % n, lambda s: s.set_strong(n, False))])

    def need_locked(self, n):
        self.imply(n)
        x = self.num.norm(self.D.lk[n])
        if not isinstance(x, Lin): return bool(x)
        raise Split([("node %d holds locks" % n, lambda s: s.set_locked(n, True)),
                     ("node %d holds no lock" % n, lambda s: s.set_locked(n, False))])

    def _replace_item(self, owner, old, new):
        k = self.D.kids[owner]
        i = k.index(old)
        self.D.kids[owner] = k[:i] + tuple(new) + k[i + 1:]

    def gap_empty(self, it):
        D, N = self.D, self.num
        n, lk, u, sh, dp = D.gaps[it[1]]
        N.assume_eq(n, 0); N.assume_eq(lk, 0); N.assume_eq(u, 0)
        self._replace_item(D.par[it], it, ())
        del D.gaps[it[1]], D.par[it]

    def gap_pop(self, it, side):
        D, N = self.D, self.num
        n, lk, u, sh, dp = D.gaps[it[1]]
        owner = D.par[it]
        N.assume_ge(add(n, -1))
        over = {}
        if sh is not None: over["parent"] = sh
        if dp is not None: over["tree"] = dp
        m = self.add_node(over or None)
        sub = self.add_gap(m, None, dp)
        D.kids[m] = (sub,)
        D.par[m] = owner
        sg = D.gaps[sub[1]]
        rest = self.add_gap(owner, sh, dp)
        rg = D.gaps[rest[1]]
        N.assume_eq(n, add(rg[0], 1))
        N.assume_eq(lk, add(add(rg[1], sg[1]), D.lk[m]))
        N.assume_eq(u, add(add(rg[2], sg[2]), D.u[m]))
        self.imply(m)
        del D.gaps[it[1]], D.par[it]
        self._replace_item(owner, it, (m, rest) if side == "L" else (rest, m))
        if N.norm(rg[0]) == 0:
            self.gap_empty(rest)

    def split_gap(self, it, side):
        n = self.num.norm(self.D.gaps[it[1]][0])
        lo, hi = self.num.min(n), self.num.max(n)
        alts = []
        if lo is None or lo <= 0:
            alts.append(("no sibling subtree there", lambda s: s.gap_empty(it)))
        if hi is None or hi > 0:
            alts.append(("a sibling subtree there", lambda s: s.gap_pop(it, side)))
        self.decide(alts)

    def spine_end(self, it):
        D, N = self.D, self.num
        sp = D.spines[it[1]]
        t = sp[0]
        for x in sp[1:8]: N.assume_eq(x, 0)
        owner = D.par[it]
        self._replace_item(owner, it, (t,))
        D.par[t] = owner
        del D.spines[it[1]], D.par[it]

    def spine_pop(self, it, end):
        D, N = self.D, self.num
        sp = D.spines[it[1]]
        t, ln = sp[:2]
        sd, ld, rd = sp[8:]
        owner = D.par[it]
        N.assume_ge(add(ln, -1))
        m = self.add_node({"tree": sd} if sd is not None else None)
        gl = (self.add_gap(m, None, ld),) if ld != "-" else ()
        gr = (self.add_gap(m, None, rd),) if rd != "-" else ()
        rest = self.new_item("S")
        new = [N.fresh(0) for _ in range(7)]
        if ld == "-": new[3] = new[4] = 0
        if rd == "-": new[5] = new[6] = 0
        D.spines[rest[1]] = ((m if end == "bottom" else t),) + tuple(new) + (sd, ld, rd)
        if end == "bottom":
            D.par[rest] = owner
            D.par[m] = rest
            D.kids[m] = gl + (t,) + gr
            D.par[t] = m
            self._replace_item(owner, it, (rest,))
        else:
            D.par[rest] = m
            D.par[t] = rest
            D.kids[m] = gl + (rest,) + gr
            D.par[m] = owner
            self._replace_item(owner, it, (m,))
        N.assume_eq(ln, add(new[0], 1))
        N.assume_eq(sp[2], add(new[1], D.lk[m]))
        N.assume_eq(sp[3], add(new[2], D.u[m]))
        for gs, i in ((gl, 4), (gr, 6)):
            for g in gs:
                N.assume_eq(sp[i], add(new[i - 1], D.gaps[g[1]][1]))
                N.assume_eq(sp[i + 1], add(new[i], D.gaps[g[1]][2]))
        self.imply(m)
        del D.spines[it[1]], D.par[it]
        if N.norm(new[0]) == 0:
            self.spine_end(rest)

    def split_spine(self, it, end):
        t, ln = self.D.spines[it[1]][:2]
        lo, hi = self.num.min(ln), self.num.max(ln)
        alts = []
        if lo is None or lo <= 0:
            alts.append(("node %d directly there" % t, lambda s: s.spine_end(it)))
        if hi is None or hi > 0:
            alts.append(("a node between there and node %d" % t, lambda s: s.spine_pop(it, end)))
        self.decide(alts)

    def owners(self, o):
        """Number of owners of an allocation."""
        if o in self.D.agg: self.imply(o)
        return self.num.norm(self.strong[o])

    # ---- reading the shape ----
    def owner(self, n):
        """The parent (node or tree id) of a node of the shape; may split."""
        while True:
            p = self.D.par[n]
            if p.__class__ is int: return p
            self.split_spine(p, "bottom")

    def first(self, c):
        while True:
            k = self.D.kids[c]
            if not k: return None
            it = k[0]
            if it.__class__ is int: return it
            if it[0] == "G": self.split_gap(it, "L")
            else: self.split_spine(it, "top")

    def last(self, c):
        while True:
            k = self.D.kids[c]
            if not k: return None
            it = k[-1]
            if it.__class__ is int: return it
            if it[0] == "G": self.split_gap(it, "R")
            else: self.split_spine(it, "top")

    def after(self, n):
        while True:
            p = self.owner(n)
            k = self.D.kids[p]
            i = k.index(n)
            if i + 1 == len(k): return None
            it = k[i + 1]
            if it.__class__ is int: return it
            if it[0] == "G": self.split_gap(it, "L")
            else: self.split_spine(it, "top")

    def before(self, n):
        while True:
            p = self.owner(n)
            k = self.D.kids[p]
            i = k.index(n)
            if i == 0: return None
            it = k[i - 1]
            if it.__class__ is int: return it
            if it[0] == "G": self.split_gap(it, "R")
            else: self.split_spine(it, "top")

    def is_tree(self, c): return self.objty.get(c) == "tree"

    def tree_of(self, n):
        """The tree a node of the shape is in (no split)."""
        D = self.D
        x = n
        while True:
            p = D.par.get(x)
            if p is None:
                g = self.cfg_get(("gone", x))
                if g is None: raise Stop("internal", "node without tree")
                return g[1][1]
            if p.__class__ is tuple: p = D.par[p]
            if self.objty[p] == "tree": return p
            x = p

    def cur_tree(self, n):
        o = self.D.over.get(n)
        if o and "tree" in o: return o["tree"]
        return self.tree_of(n)

    def force(self, z):
        _, o, role = z
        D, L = self.D, self.lay
        if role == "parent":
            ov = D.over.get(o)
            if ov and "parent" in ov: return L.weak_link(ov["parent"])
            p = self.owner(o)
            return L.weak_link(None if self.objty[p] == "tree" else p)
        if role == "first":
            f = self.first(o)
            return NONE if f is None else some(L.link(f))
        if role == "next":
            p = self.owner(o)
            f = self.after(o)
            return NONE if f is None else some(L.link(f))
        if role == "prevc":
            p = self.owner(o)
            if self.objty[p] == "tree": return L.weak_link(o)
            f = self.before(o)
            if f is None:
                if self.owner(o) in D.dirty: return L.weak_link(DEAD)
                f = self.last(self.owner(o))
            return L.weak_link(f)
        if role == "memb":
            t = self.cur_tree(o)
            if self.need_strong(o):
                return L.memb_strong(t, self.num.norm(add(D.agg[o], D.ph[o])), ("Z", o, "agg"))
            return L.memb_weak(t)
        if role == "agg":
            self.need_locked(o)
            return self.num.norm(D.agg[o])
        if role == "nch":
            return self.kid_count(o)
        if role == "dflag":
            return self.data_flag(o)
        if role == "root":
            f = self.first(o)
            return L.link(f)
        if role == "grants":
            return self.grants(o)
        raise Stop("internal", "lazy " + role)

    def kid_count(self, c):
        r = 0
        for it in self.D.kids[c]:
            if it.__class__ is tuple and it[0] == "G":
                r = add(r, self.D.gaps[it[1]][0])
            else:
                r = add(r, 1)
        return self.num.norm(r)

    def data_flag(self, o):
        k = ("dflag", o)
        g = self.cfg_get(k)
        if g is None:
            raise Split([("data of node %d not borrowed" % o, lambda s: s.cfg_set(k, 0)),
                         ("data of node %d borrowed shared" % o, lambda s: s.cfg_set(k, s.num.fresh(1))),
                         ("data of node %d borrowed mutably" % o, lambda s: s.cfg_set(k, -1))])
        return self.num.norm(g)

    def grants(self, t):
        """Initial value of num_grants: mode G: X+locks, mode P: -(X+locks), mode 0: 0."""
        m = self.cfg_get(("mode", t))
        if m is None:
            lo = 0
            tot = self.locks_total(t)
            alts = []
            def zero(s):
                s.num.assume_eq(s.locks_total(t), 0)
                s.cfg_set(("mode", t), "0")
            def some_(m):
                def f(s):
                    s.num.assume_ge(add(s.locks_total(t), -1))
                    s.cfg_set(("mode", t), m)
                return f
            raise Split([("tree %d unlocked" % t, zero), ("tree %d granted" % t, some_("G")), ("tree %d prohibited" % t, some_("P"))])
        tot = self.locks_total(t)
        return self.num.norm(tot if m == "G" else (mk_neg(tot) if m == "P" else 0))

    def cfg_get(self, k):
        for a, b in self.cfg:
            if a == k: return b
        return None

    def cfg_set(self, k, v):
        self.cfg = tuple((a, b) for a, b in self.cfg if a != k) + ((k, v),)

    def locks_total(self, t):
        """Locks held by the nodes of tree t, as it was at the beginning, and X held by others."""
        r = self.cfg_get(("locks", t))
        for it in self.D.kids[t]: r = add(r, self.item_sum(it, 0))
        return self.num.norm(r)

    # ---- numbers over subtrees ----
    def item_sum(self, it, which):
        D = self.D
        if it.__class__ is tuple and it[0] == "G":
            return D.gaps[it[1]][1 + which]
        if it.__class__ is tuple:
            sp = D.spines[it[1]]
            r = add(add(sp[2 + which], sp[4 + which]), sp[6 + which])
            n = sp[0]
            return add(r, self.item_sum(n, which))
        r = (D.lk, D.u)[which][it]
        for k in D.kids[it]:
            r = add(r, self.item_sum(k, which))
        return r

    # ---- freeing ----
    def orphan(self, o, c):
        """A child that outlives its parent: it keeps its links but has no place any more."""
        D = self.D
        if any(not (k.__class__ is tuple and k[0] == "G" and self.num.norm(D.gaps[k[1]][0]) == 0) for k in D.kids[c]): return
        try:
            for role in ("next", "prevc", "memb"):
                self.load(-c, self.lay.paths[role])
        except Split:
            return
        for k in D.kids[c]: self.gap_empty(k)
        t = self.tree_of(c)
        if not (-c in self.mem and self.peek(-c, self.lay.paths["parent"])[0] != "Z"):
            self._put(-c, self.lay.paths["parent"], self.lay.weak_link(DEAD))
        self.cfg_set(("gone", c), ("g", ("rc", t), False))
        self._replace_item(o, c, ())
        del D.par[c]

    def free(self, o):
        self.freed = self.freed | {o}
        D = self.D
        if self.objty.get(o) == "node" and o in D.par:
            for c in D.kids.get(o, ()):
                if c.__class__ is int and c not in self.freed: self.orphan(o, c)
            k = D.kids.get(o, ())
            ok = True
            for it in k:
                if it.__class__ is tuple and it[0] == "G" and self.num.norm(D.gaps[it[1]][0]) == 0:
                    continue
                ok = False
            p = D.par[o]
            if ok and p.__class__ is int and o in D.kids.get(p, ()):
                for it in k:
                    self.gap_empty(it)
                for nm, i in self.keep:
                    if i == o: self.cfg_set(("gone", o), ("g", ("rc", self.tree_of(o)), self.is_tree(p)))
                del D.par[o], D.kids[o]
                self._replace_item(p, o, ())
                D.dirty = D.dirty | {p}
        self.mem.pop(-o, None)

def mk_neg(x):
    return add(0, x, -1)

def _upd(st, v, path, d, val):
    if v.__class__ is tuple and v[0] == "Z":
        v = st.force(v)
    if v[0] != "A":
        raise Stop("internal", "store into %r" % (v,))
    i = path[d]
    f = v[2]
    if i >= len(f):
        f = f + (UNIT,) * (i + 1 - len(f))
    if d + 1 == len(path):
        new = val
    else:
        new = _upd(st, f[i], path, d + 1, val)
    return ("A", v[1], f[:i] + (new,) + f[i + 1:])

"""Abstraction at loop heads: forget what is as derived from the shape, fold nodes into gaps and
spines, and join the numbers of states of equal structure in an affine domain with bounds."""
from fractions import Fraction
from .num import Num, Lin, Infeasible, add, mk, terms, const, sym, _reduce, affine_of, equations, satisfies
from .shape import Split, Stop, DEAD, MOVED, UNIT

def refs(v, out):
    """Objects and local keys mentioned in a value."""
    if v.__class__ is not tuple or not v: return
    t = v[0]
    if t == "A":
        for x in v[2]: refs(x, out)
    elif t == "rc" or t == "wk":
        if v[1] is not None: out.add(("o", v[1]))
    elif t == "R":
        k = v[1]
        if k.__class__ is int: out.add(("o", -k) if k < 0 else ("l", k))
    elif t == "Z":
        pass
    elif t == "data":
        pass
    elif t == "op" or t == "str" or t == "fn" or t == "X": pass
    else:
        for x in v:
            if x.__class__ is tuple: refs(x, out)

def live_locals(st):
    """Remove dead locals; returns nothing."""
    keep, allk = set(), set()
    n = len(st.frames)
    for i, fr in enumerate(st.frames):
        f = fr.fn
        if f is None: continue
        st.prog.analyse(f)
        if i == n - 1: live = f.live_in[fr.bi]
        else:
            t = f.blocks[fr.bi][1]
            live = set()
            for s in st.prog.succs(t): live |= f.live_in[s]
            if t[0] == "drop": live = live | {t[1][0]}
        for l in range(len(f.locals)):
            k = fr.base + l
            if k in st.mem:
                allk.add(k)
                if l in live: keep.add(k)
    # Everything a kept value (or the heap, or the ghost state) points to stays too.
    roots = set()
    work = [st.mem[k] for k in keep] + [v for k, v in st.mem.items() if k.__class__ is int and (k < 0 or k < 100)]
    for fr in st.frames:
        if fr.dest is not None and fr.dest[0].__class__ is int and fr.dest[0] >= 0: 
            if fr.dest[0] in allk: keep.add(fr.dest[0])
        for c in fr.cont:
            if c[0] == "moved" and c[1] in allk: keep.add(c[1])
            elif c[0] in ("call", "value", "about"): work.append(("args",) + c[1:])
    seen = set(keep)
    while work:
        out = set()
        refs(work.pop(), out)
        for a, b in out:
            if a == "l" and b not in seen and b in st.mem:
                seen.add(b)
                work.append(st.mem[b])
    for k in allk - seen: del st.mem[k]

def pinned(st):
    out = set()
    for k, v in st.mem.items():
        refs(v, out)
    refs(st.ghost, out)
    for _, o in st.keep: out.add(("o", o))
    for fr in st.frames:
        if fr.dest is not None and fr.dest[0].__class__ is int and fr.dest[0] < 0: out.add(("o", -fr.dest[0]))
        for c in fr.cont:
            if c[0] == "free": out.add(("o", c[1]))
            elif c[0] == "moved" and c[1].__class__ is int and c[1] < 0: out.add(("o", -c[1]))
            elif c[0] in ("call", "value", "about"): refs(("args",) + c[1:], out)
    # Where a node is among its siblings is kept if the specification asks for it.
    if st.events.pin_place:
        for _, o in st.keep:
            p = st.D.par.get(o)
            if p.__class__ is int: out.add(("o", p))
    return {b for a, b in out if a == "o"}

def reset(st):
    """Turn fields of nodes of the shape that are as derived back to lazies."""
    L, D, N = st.lay, st.D, st.num
    tm = {}
    for k in [k for k in st.mem if k.__class__ is int and k < 0]:
        o = -k
        kind = st.objty.get(o)
        if kind not in ("node", "tree") or o in st.freed or o not in D.kids or (kind == "node" and o not in D.par): continue
        clean = True
        for role, path in L.paths.items():
            if (role in ("root", "grants")) != (kind == "tree"): continue
            v = peek(st, k, path)
            if v.__class__ is tuple and v[0] == "Z": continue
            if role == "data":
                if v != ("data", o): clean = False
                continue
            z = ("Z", o, role)
            if role == "grants" and st.cfg_get(("mode", o)) in ("G", "P"):
                clean = False
                continue
            try:
                w = st.force(z)
            except Split:
                w = None
            if w is not None and same(st, v, w):
                st._put(k, path, z)
                continue
            if role == "memb" and kind == "node" and w is not None:
                s, t, rc, agg = L.memb_parts(v)
                if t in D.trees or st.objty.get(t) in ("tree", "ntree"):
                    old = D.over.get(o)
                    D.over[o] = dict(old or {}, tree=t)
                    try: w = st.force(z)
                    except Split: w = None
                    if w is not None and same(st, v, w):
                        st._put(k, path, z)
                        continue
                    if old is None: del D.over[o]
                    else: D.over[o] = old
            if role == "parent":
                t = v[2][0][1]
                if t is not None and t != DEAD and st.objty.get(t) in ("node", "nnode"):
                    D.over[o] = dict(D.over.get(o) or {}, parent=t)
                    st._put(k, path, z)
                    continue
            clean = False
        for fk, path in L.flagpaths.items():
            if fk[0] != kind: continue
            v = peek(st, k, path)
            if v.__class__ is tuple and v[0] == "Z": continue
            if fk[1] == L.data_field:
                f = st.cfg_get(("dflag", o))
                if f is not None and N.norm(v) == N.norm(f): st._put(k, path, ("Z", o, "dflag"))
                else: clean = False
            elif N.norm(v) != 0: clean = False
        if clean: del st.mem[k]
    # Lock counters are always explicit, so that states with and without additional locks can be joined.
    for t in D.trees:
        if t in st.freed or st.cfg_get(("mode", t)) not in ("G", "P") or t not in D.kids: continue
        if -t not in st.mem: st.mem[-t] = L.tree_value(t)
        v = peek(st, -t, L.paths["grants"])
        if v.__class__ is tuple and v[0] == "Z": st._put(-t, L.paths["grants"], st.force(v))

def peek(st, k, path):
    v = st.mem[k]
    for i in path:
        if v[0] == "Z" or v[0] == "X": return v
        v = v[2][i]
    return v

def same(st, a, b):
    if a == b: return True
    if a.__class__ is tuple and b.__class__ is tuple:
        if a[0] != b[0] or len(a) != len(b): 
            return False
        if a[0] == "A":
            return a[1] == b[1] and len(a[2]) == len(b[2]) and all(same(st, x, y) for x, y in zip(a[2], b[2]))
        if a[0] == "wk":
            return dead(st, a[1]) and dead(st, b[1])
        return False
    if b.__class__ is tuple and b[0] == "Z":
        try: b = st.force(b)
        except Split: return False
    if a.__class__ is tuple or b.__class__ is tuple: return False
    return st.num.norm(a) == st.num.norm(b)

def dead(st, o): return o == DEAD or o in st.freed

def is_gap(it): return it.__class__ is tuple and it[0] == "G"

def fold(st, pins):
    D, N = st.D, st.num
    def clean(n):
        if n in pins or -n in st.mem: return False
        return N.norm(st.strong[n]) == N.norm(add(add(1, D.agg[n]), D.ph[n]))
    ov_owner = {o.get("parent") for o in D.over.values()} | {g[3] for g in D.gaps.values()}
    changed = True
    while changed:
        changed = False
        for c in list(D.kids):
            if c not in D.kids: continue
            for it in D.kids[c]:
                if is_gap(it) and N.norm(D.gaps[it[1]][0]) == 0:
                    st.gap_empty(it); changed = True; break
                if it.__class__ is tuple and it[0] == "S" and N.norm(D.spines[it[1]][1]) == 0:
                    st.spine_end(it); changed = True; break
            if changed: break
            ks = D.kids[c]
            for a, b in zip(ks, ks[1:]):
                if is_gap(a) and is_gap(b) and D.gaps[a[1]][3:] == D.gaps[b[1]][3:]:
                    x, y = D.gaps[a[1]], D.gaps[b[1]]
                    D.gaps[a[1]] = tuple(N.norm(add(p, q)) for p, q in zip(x[:3], y[:3])) + x[3:]
                    st._replace_item(c, b, ())
                    del D.gaps[b[1]], D.par[b]
                    changed = True
                    break
            if changed: break
            for it in ks:
                n = it if it.__class__ is int else D.spines[it[1]][0] if it[0] == "S" else None
                if n is None or not clean(n) or n in ov_owner: continue
                sub = D.kids[n]
                ng = [k for k in sub if not is_gap(k)]
                ov = D.over.get(n, {})
                if not ng and it.__class__ is int and not st.is_tree(c):
                    dp = ov.get("tree")
                    if any(D.gaps[g[1]][3] is not None or D.gaps[g[1]][4] != dp for g in sub): continue
                    x = (1, D.lk[n], D.u[n])
                    for g in sub: x = tuple(add(p, q) for p, q in zip(x, (0,) + D.gaps[g[1]][1:3]))
                    ni = st.new_item("G")
                    D.gaps[ni[1]] = tuple(N.norm(p) for p in x) + (ov.get("parent"), dp)
                    D.par[ni] = c
                    st._replace_item(c, it, (ni,))
                    for g in sub: del D.gaps[g[1]], D.par[g]
                    drop_node(st, n)
                    changed = True
                    break
                if not ng and it.__class__ is tuple and "parent" not in ov and not st.is_tree(c):
                    # A chain that leads to nothing of interest is a subtree like any other.
                    q = D.spines[it[1]]
                    dp = ov.get("tree")
                    if any(D.gaps[g[1]][3] is not None or D.gaps[g[1]][4] != dp for g in sub) or any(a != dp and a != "-" for a in q[8:]): continue
                    x = (1, add(D.lk[n], add(q[2], add(q[4], q[6]))), add(D.u[n], add(q[3], add(q[5], q[7]))))
                    for g in sub: x = tuple(add(p, r) for p, r in zip(x, (0,) + D.gaps[g[1]][1:3]))
                    ni = st.new_item("G")
                    D.gaps[ni[1]] = tuple(N.norm(p) for p in x) + (None, dp)
                    D.par[ni] = c
                    st._replace_item(c, it, (ni,))
                    for g in sub: del D.gaps[g[1]], D.par[g]
                    del D.spines[it[1]], D.par[it]
                    drop_node(st, n)
                    changed = True
                    break
                if len(ng) == 1 and "parent" not in ov:
                    i = sub.index(ng[0])
                    lg, rg = sub[:i], sub[i + 1:]
                    if any(D.gaps[g[1]][3] is not None for g in lg + rg): continue
                    ld = {D.gaps[g[1]][4] for g in lg}
                    rd = {D.gaps[g[1]][4] for g in rg}
                    if len(ld) > 1 or len(rd) > 1: continue
                    sd = ov.get("tree")
                    k = ng[0]
                    up = D.spines[it[1]] if it.__class__ is tuple else None
                    dn = D.spines[k[1]] if k.__class__ is tuple else None
                    # No siblings on a side, together with any siblings there, are any siblings there.
                    sds = {q[8] for q in (up, dn) if q is not None} | {sd}
                    lds = ({q[9] for q in (up, dn) if q is not None} | ld) - {"-"}
                    rds = ({q[10] for q in (up, dn) if q is not None} | rd) - {"-"}
                    if len(sds) > 1 or len(lds) > 1 or len(rds) > 1: continue
                    a = (sd, next(iter(lds), "-"), next(iter(rds), "-"))
                    x = [1, D.lk[n], D.u[n], 0, 0, 0, 0]
                    for gs, j in ((lg, 3), (rg, 5)):
                        for g in gs:
                            x[j], x[j + 1] = add(x[j], D.gaps[g[1]][1]), add(x[j + 1], D.gaps[g[1]][2])
                    for q in (up, dn):
                        if q is not None: x = [add(p, r) for p, r in zip(x, q[1:8])]
                    tgt = dn[0] if dn is not None else k
                    ni = st.new_item("S")
                    D.spines[ni[1]] = (tgt,) + tuple(N.norm(p) for p in x) + a
                    D.par[ni] = c
                    D.par[tgt] = ni
                    st._replace_item(c, it, (ni,))
                    for g in lg + rg: del D.gaps[g[1]], D.par[g]
                    if up is not None: del D.spines[it[1]], D.par[it]
                    if dn is not None: del D.spines[k[1]], D.par[k]
                    drop_node(st, n)
                    changed = True
                    break
            if changed: break

def pad(st):
    """Children of a node that are known one by one, as a case of any number of children; a child, as a
    case of any descendant."""
    D = st.D
    if D.over or D.dirty or any(g[3:] != (None, None) for g in D.gaps.values()) or any(x is not None and x != "-" for q in D.spines.values() for x in q[8:]): return
    for k, q in list(D.spines.items()):
        D.spines[k] = q[:8] + (None, None, None)
    for c in list(D.kids):
        if st.objty.get(c) != "node": continue
        out = []
        for it in D.kids[c]:
            if it.__class__ is int:
                s = st.new_item("S")
                D.spines[s[1]] = (it, 0, 0, 0, 0, 0, 0, 0, None, None, None)
                D.par[s], D.par[it] = c, s
                it = s
            if not is_gap(it) and (not out or not is_gap(out[-1])): out.append(new_gap(st, c))
            out.append(it)
        if not out or not is_gap(out[-1]): out.append(new_gap(st, c))
        D.kids[c] = tuple(out)

def new_gap(st, c):
    g = st.new_item("G")
    st.D.gaps[g[1]] = (0, 0, 0, None, None)
    st.D.par[g] = c
    return g

def drop_node(st, n):
    D = st.D
    for d in (D.kids, D.par, D.agg, D.ph, D.lk, D.u, D.over, st.strong, st.objty): d.pop(n, None)
    D.dirty = D.dirty - {n}
    st.cfg = tuple(x for x in st.cfg if not (x[0][0] == "dflag" and x[0][1] == n))

class Canon:
    """The structure of a state with identities renamed, and its numbers with their places."""
    def __init__(self, st):
        self.st = st
        self.ids = {}
        self.slots = []        # (setter spec)
        self.vec = []
        self.todo = []
        D = st.D
        key = []
        for nm, o in st.keep: key.append((nm, self.id(o)))
        for t in D.trees:
            if t in D.kids: key.append(self.shape(t))
        # Numbers of the shape come first: they become the free dimensions.
        key.append(tuple((f.fn.id if f.fn else None, f.base, f.bi, f.ret, f.uw if f.uw.__class__ is str else f.uw, self.cont(f)) for f in st.frames))
        for k in sorted(k for k in st.mem if k.__class__ is int and k >= 0):
            key.append((k, self.val(st.mem[k], ("mem", k), ())))
        key.append(("ghost", self.val(st.ghost, ("ghost",), ())))
        for k, v in st.cfg:
            if k[0] in ("mode", "locks", "ext"):
                key.append((k[0], self.id(k[1]) if len(k) > 1 else 0, self.val(v, ("cfg", k), ())))
            elif k[0] == "dflag":
                key.append((k[0], self.id(k[1]), self.val(v, ("cfg", k), ())))
            else:
                key.append((k, self.val(v, ("cfg", k), ())))
        done = set()
        while True:
            while self.todo:
                o = self.todo.pop(0)
                if o in done: continue
                done.add(o)
                key.append(self.obj(o))
            rest = [-k for k in st.mem if k.__class__ is int and k < 0 and -k not in done]
            if not rest: break
            self.id(min(rest))
        # How far numbers of the code are from the numeric arguments of the entry.
        args = [v for k, v in st.cfg if k[0] == "arg"]
        if args:
            for i in range(len(self.vec)):
                if self.slots[i][0][0] == "mem" and self.slots[i][0][1] >= 0:
                    for a in args: self.num(add(a, self.vec[i], -1), ("none",))
        # And, for printing, from each other: lengths and positions in texts and lists.
        if getattr(st.events.spec, "printing", False):
            l = [v for v, (w, _) in zip(self.vec, self.slots) if w[0] == "mem" and w[1] >= 0]
            if len(l) <= 14:
                for i, a in enumerate(l):
                    for b in l[:i]: self.num(add(a, b, -1), ("none",))
        key.append(bool(st.panicking))
        key.append(st.picks)
        self.key = tuple(key)

    def id(self, o):
        if o is None: return None
        if o == DEAD or o in self.st.freed: return 0
        i = self.ids.get(o)
        if i is None:
            i = self.ids[o] = len(self.ids) + 1
            self.todo.append(o)
        return i

    def num(self, x, spec, path=()):
        self.vec.append(self.st.num.norm(x))
        self.slots.append((spec, path))
        return "#"

    def shape(self, c):
        D = self.st.D
        out = [self.id(c), c in D.dirty]
        if c in D.agg:
            ov = D.over.get(c)
            out.append(tuple(sorted((k, self.id(v)) for k, v in ov.items())) if ov else None)
            for w in ("agg", "ph", "lk", "u"): self.num(getattr(D, w)[c], (w, c))
        for it in D.kids.get(c, ()):
            if it.__class__ is int: out.append(self.shape(it))
            elif it[0] == "G":
                g = D.gaps[it[1]]
                for j in range(3): self.num(g[j], ("gap", it[1], j))
                out.append(("G", self.id(g[3]), self.id(g[4])))
            else:
                s = D.spines[it[1]]
                for j in range(1, 8): self.num(s[j], ("spine", it[1], j))
                out.append(("S",) + tuple([x if x == "-" else self.id(x) for x in s[8:]]) + (self.shape(s[0]),))
        return tuple(out)

    def cont(self, f):
        out = []
        for c in f.cont:
            if c[0] == "free": out.append(("free", self.id(c[1])))
            elif c[0] == "moved": out.append(("moved", c[1] if c[1].__class__ is not int or c[1] >= 0 else ("o", self.id(-c[1])), c[2]))
            elif c[0] in ("call", "value", "about"): out.append((c[0],) + tuple([self.val(x, ("none",), ()) if x.__class__ is tuple else x for x in c[1:]]))
            else: out.append(c)
        d = f.dest
        if d is not None and d[0].__class__ is int and d[0] < 0: d = (("o", self.id(-d[0])), d[1])
        return (tuple(out), d)

    def obj(self, o):
        st = self.st
        out = [self.ids[o], st.objty.get(o)]
        D = st.D
        if o in st.strong:
            if st.objty[o] != "node" or o not in D.agg or st.num.norm(st.strong[o]) != st.num.norm(add(add(1, D.agg[o]), D.ph[o])):
                out.append(self.num(st.strong[o], ("strong", o)))
        if -o in st.mem: out.append(self.val(st.mem[-o], ("mem", -o), ()))
        return tuple(out)

    def val(self, v, spec, path):
        c = v.__class__
        if c is bool or v is None: return v
        if c is int or c is Lin:
            r = self.num(v, spec, path)
            # A counter of an object that has come to zero is kept apart: other counters depend on it.
            return "0" if spec[0] == "mem" and spec[1] < 0 and self.vec[-1] == 0 else r
        if c is str: return v
        t = v[0] if v else None
        if t == "A":
            return ("A", v[1], tuple([self.val(x, spec, path + (i,)) for i, x in enumerate(v[2])]))
        if t == "rc" or t == "wk": return (t, self.id(v[1]))
        if t == "R":
            k = v[1]
            if k.__class__ is int and k < 0: return ("R", ("o", self.id(-k)), v[2])
            return v
        if t == "Z": return ("Z", self.id(v[1]), v[2])
        if t == "data": return ("data", self.data(v[1]))
        if t == "op": return "op"
        if t in ("str", "fn", "X"): return v
        return (t,) + tuple([self.val(x, spec, path + (i + 1,)) for i, x in enumerate(v[1:])])

    def data(self, n):
        if n.__class__ is tuple: return (n[0], self.data(n[1]))
        if n.__class__ is int and n in self.st.objty: return ("n", self.id(n))
        return n

def set_slots(st, slots, vals):
    D = st.D
    for (spec, path), v in zip(slots, vals):
        w = spec[0]
        if w == "gap":
            g = list(D.gaps[spec[1]]); g[spec[2]] = v; D.gaps[spec[1]] = tuple(g)
        elif w == "spine":
            g = list(D.spines[spec[1]]); g[spec[2]] = v; D.spines[spec[1]] = tuple(g)
        elif w in ("agg", "ph", "lk", "u"):
            getattr(D, w)[spec[1]] = v
        elif w == "strong": st.strong[spec[1]] = v
        elif w == "mem": st.mem[spec[1]] = put(st.mem[spec[1]], path, v)
        elif w == "ghost": st.ghost = put(st.ghost, path, v)
        elif w == "cfg":
            st.cfg = tuple((a, put(b, path, v)) if a == spec[1] else (a, b) for a, b in st.cfg)

def put(v, path, x):
    if not path: return x
    i = path[0]
    if v[0] == "A": return ("A", v[1], v[2][:i] + (put(v[2][i], path[1:], x),) + v[2][i + 1:])
    return v[:i] + (put(v[i], path[1:], x),) + v[i + 1:]

class Space:
    """What is known at a loop head for one structure: affine hull and bounds of the numbers."""
    __slots__ = ("base", "rows", "eqs", "lo", "hi", "n")
    def __init__(self, base, rows, lo, hi):
        self.base, self.rows, self.lo, self.hi, self.n = base, rows, lo, hi, 1
        self.eqs = equations(base, rows)

def within(N, vec, sp):
    for x, b in zip(vec, sp.lo):
        if b is None: continue
        if x.__class__ is Lin:
            a = N.min(x)
            if a is None or a < b: return False
        elif x < b: return False
    for x, b in zip(vec, sp.hi):
        if b is None: continue
        if x.__class__ is Lin:
            a = N.max(x)
            if a is None or a > b: return False
        elif x > b: return False
    return True

def bounds(st, vec):
    return [st.num.min(x) for x in vec], [st.num.max(x) for x in vec]

def widen(table, st):
    """Joins the state into the table; returns its key, or None when it is covered."""
    live_locals(st)
    for n in st.D.agg: st.imply(n)
    reset(st)
    fold(st, pinned(st))
    if st.events.pad: pad(st)
    c = Canon(st)
    # Old symbols of the shape that are no longer numbers of it keep existing only through c.vec.
    vec = c.vec
    sp = table.get(c.key)
    # Deterministic endless loops: the same state again without any case distinction since.
    sig = (c.key, tuple(vec))
    old = st.marks.get(c.key)
    if old is not None and old[0] == st.nsplit and old[1] == sig[1]:
        raise Stop("endless", "loop repeats the same state for ever")
    st.marks = dict(st.marks)
    st.marks[c.key] = (st.nsplit, sig[1])
    if sp is None:
        table[c.key] = Space(*affine_of(vec), *bounds(st, vec))
        return c.key
    if satisfies(vec, sp.eqs) and within(st.num, vec, sp): return None
    lo, hi = bounds(st, vec)
    sp.n += 1
    if sp.n > 60: raise Stop("internal", "no convergence")
    base, rows = affine_of(vec)
    nrows = _reduce(list(sp.rows.values()) + list(rows.values()) + [{j: a - b for j, (a, b) in enumerate(zip(base, sp.base)) if a != b}])
    nlo, nhi = [], []
    for a, b in zip(lo, sp.lo):
        if a is None or b is None: nlo.append(None)
        elif a >= b: nlo.append(b)
        else: nlo.append(a if sp.n < 4 else (1 if a >= 1 else 0 if a >= 0 else None))
    for a, b in zip(hi, sp.hi):
        if a is None or b is None: nhi.append(None)
        elif a <= b: nhi.append(b)
        else: nhi.append(a if sp.n < 4 else (0 if a <= 0 else 1 if a <= 1 else None))
    # Relations with fractional coefficients are forgotten: the number becomes free.
    m = len(vec)
    while True:
        bad = next((j for r in nrows.values() for j, a in r.items() if a.__class__ is Fraction), None)
        if bad is None: break
        nrows = _reduce(list(nrows.values()) + [{bad: 1}])
    base = list(sp.base)
    table[c.key] = nsp = Space(base, nrows, nlo, nhi)
    nsp.n = sp.n
    N = Num()
    N.next = st.num.next
    vals = list(base)
    for p in sorted(nrows):
        s = add(N.fresh(None), -base[p])
        for j, a in nrows[p].items(): vals[j] = add(vals[j], s, a)
    for x, a, b in zip(vals, nlo, nhi):
        if a is not None: N.assume_ge(add(x, -a))
        if b is not None: N.assume_ge(add(b, x, -1))
    st.num = N
    st.joined = True
    set_slots(st, c.slots, vals)
    # Numbers not in the structure (counts of clean nodes) follow from the others.
    for o in list(st.strong):
        if st.objty.get(o) == "node" and o in st.D.agg and ("strong", o) not in [s[0] for s in c.slots]:
            st.strong[o] = add(add(1, st.D.agg[o]), st.D.ph[o])
    st.marks[c.key] = (st.nsplit, tuple(vals))
    return c.key

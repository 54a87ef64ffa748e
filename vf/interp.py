"""Transfer functions of the abstract interpreter: one Python closure per MIR statement/terminator."""
from .num import Lin, Infeasible, add, scale
from .shape import State, Frame, Split, Stop, UNIT, NONE, some, DEAD, MOVED
from .printing import vtable
from . import printing

def const_val(prog, c, ty):
    if "i" in c:
        t = prog.types[ty]
        n = int(c["i"])
        if t["k"] == "bool": return bool(n)
        if t["k"] == "int":
            w = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}.get(t["s"], 64)
            if n >= 1 << (w - 1): n -= 1 << w
        if t["k"] in ("struct", "tuple"):
            return wrap(prog, ty, iter([n]))
        return n
    if "z" in c:
        t = prog.types[ty]
        if t["k"] == "fndef": return ("fn", t["i"])
        return UNIT
    if "agg" in c:
        return ("A", c["v"], tuple([const_sub(prog, x, ty, c["v"], i) for i, x in enumerate(c["agg"])]))
    if "str" in c: return ("str", c["str"])
    if "fnptr" in c: return ("fn", c["fnptr"])
    if "ref" in c:
        n = len(prog.consts)
        prog.consts.append(const_val(prog, c["ref"], c["t"]))
        return ("R", ("const", n), ())
    return ("op", str(c)[:60])

def const_sub(prog, c, ty, v, i):
    t = prog.types[ty]
    ft = ty
    if t["k"] in ("struct", "enum"): ft = t["v"][v]["f"][i][1]
    elif t["k"] in ("tuple", "closure"): ft = t["f"][i]
    elif t["k"] == "array": ft = t["e"]
    return const_val(prog, c, ft)

def wrap(prog, ty, leaves):
    t = prog.types[ty]
    k = t["k"]
    if k == "struct":
        fs = []
        for _, ft in t["v"][0]["f"]:
            fs.append(UNIT if is_zst(prog, ft) else wrap(prog, ft, leaves))
        return ("A", 0, tuple(fs))
    if k in ("tuple", "closure"):
        return ("A", 0, tuple([UNIT if is_zst(prog, ft) else wrap(prog, ft, leaves) for ft in t["f"]]))
    if k == "pat":
        return wrap(prog, t["e"], leaves)
    return next(leaves)

def is_zst(prog, ty):
    t = prog.types[ty]
    k = t["k"]
    if k == "struct": return all(is_zst(prog, f[1]) for f in t["v"][0]["f"])
    if k in ("tuple", "closure"): return all(is_zst(prog, f) for f in t["f"])
    if k in ("fndef", "never"): return True
    if k == "enum":
        i = only_variant(prog, t)
        return i is not None and all(is_zst(prog, f[1]) for f in t["v"][i]["f"])
    if k == "array": return t["n"] == 0
    return False

def uninhabited(prog, ty):
    t = prog.types[ty]
    k = t["k"]
    if k == "never": return True
    if k == "struct": return any(uninhabited(prog, f[1]) for f in t["v"][0]["f"]) if t["v"] else False
    if k == "tuple": return any(uninhabited(prog, f) for f in t["f"])
    if k == "enum": return all(any(uninhabited(prog, f[1]) for f in v["f"]) for v in t["v"])
    return False

def only_variant(prog, t):
    """Index of the only inhabited variant of an enum."""
    l = [i for i, v in enumerate(t["v"]) if not any(uninhabited(prog, f[1]) for f in v["f"])]
    return l[0] if len(l) == 1 else None

def zst_val(prog, ty):
    t = prog.types[ty]
    k = t["k"]
    if k == "struct": return ("A", 0, tuple([zst_val(prog, f[1]) for f in t["v"][0]["f"]]))
    if k in ("tuple", "closure"): return ("A", 0, tuple([zst_val(prog, f) for f in t["f"]]))
    if k == "fndef": return ("fn", t["i"])
    if k == "enum":
        i = only_variant(prog, t)
        return ("A", i, tuple([zst_val(prog, f[1]) for f in t["v"][i]["f"]]))
    return UNIT

def leaves(v, out):
    if v.__class__ is tuple and v[0] == "A" and v[1] == 0:
        for x in v[2]: leaves(x, out)
    else: out.append(v)
    return out

def transmute(prog, v, src, dst):
    if src == dst or src is None: return v
    a, b = prog.types[src], prog.types[dst]
    if a["k"] == "enum" or b["k"] == "enum":
        if a["k"] == b["k"]: return v
        return ("op", "transmute")
    l = leaves(v, [])
    try:
        return wrap(prog, dst, iter(l))
    except StopIteration:
        return ("op", "transmute")

def num(v):
    if v.__class__ is tuple: raise Stop("internal", "number expected: %r" % (v,))
    return v

def ptr_eq(st, a, b):
    """Equality of two pointers."""
    def n(x):
        if x.__class__ is int or isinstance(x, Lin): return ("int", x)
        if x[0] == "rc": return (-x[1], ())
        if x[0] == "wk":
            if x[1] is None: return ("dangling", ())
            return (-x[1], ())
        if x[0] == "R":
            p = x[2]
            return (x[1], p)
        raise Stop("internal", "pointer comparison of %r" % (x,))
    x, y = n(a), n(b)
    if x == y:
        if x[0] == 0: raise Stop("internal", "comparison of two freed objects")
        return True
    if x[0] == y[0] and x[0].__class__ is int:
        # Same object, different paths: the first field may share the address of its parent.
        p, q = x[1], y[1]
        m = min(len(p), len(q))
        if p[:m] == q[:m] and not any(p[m:]) and not any(q[m:]): return True
        raise Stop("internal", "comparison of interior pointers")
    return False

class Compiler:
    def __init__(self, prog, lay, natives):
        self.prog, self.lay, self.natives = prog, lay, natives
        prog.consts = getattr(prog, "consts", [])

    def fn_code(self, f):
        if f.code is None:
            self.prog.analyse(f)
            f.code = [None] * len(f.blocks)
        return f.code

    def block(self, f, bi):
        c = f.code[bi]
        if c is None:
            st, term, _ = f.blocks[bi]
            c = f.code[bi] = ([self.stmt(f, s) for s in st], self.term(f, term))
        return c

    # ---- places ----
    def place(self, f, p):
        """-> fn(st, base) -> (key, path)"""
        loc, proj = p
        if not proj:
            return lambda st, base: (base + loc, ())
        segs = [[]]
        for e in proj:
            if e == "*": segs.append([])
            elif e[0] == "f": segs[-1].append(e[1])
            elif e[0] == "d" or e[0] == "oc": pass
            elif e[0] == "ci" and not e[3]: segs[-1].append(e[1])
            elif e[0] == "i": segs[-1].append(("ix", e[1]))
            else:
                return lambda st, base: _stop("internal", "place projection %r" % (e,))
        segs = [tuple(s) for s in segs]
        dyn = any(x.__class__ is tuple for s in segs for x in s)
        first, rest = segs[0], segs[1:]
        if not rest and not dyn:
            return lambda st, base: (base + loc, first)
        def go(st, base):
            key, path = base + loc, first
            if dyn: path = self._ix(st, base, path)
            for s in rest:
                v = st.load(key, path)
                if v[0] == "R":
                    key, path = v[1], v[2]
                elif v[0] == "rc":
                    key, path = -v[1], ()
                elif v[0] == "A":
                    l = leaves(v, [])      # Box and NonNull wrappers
                    l = [x for x in l if x.__class__ is tuple and x[0] == "R"]
                    if len(l) != 1: raise Stop("internal", "deref of %r" % (v,))
                    key, path = l[0][1], l[0][2]
                else:
                    raise Stop("internal", "deref of %r" % (v,))
                if dyn: s = self._ix(st, base, s)
                path = path + s
            return key, path
        return go

    def _ix(self, st, base, path):
        out = []
        for x in path:
            if x.__class__ is tuple:
                n = st.num.norm(st.mem[base + x[1]])
                if isinstance(n, Lin): raise Stop("internal", "symbolic index")
                out.append(n)
            else: out.append(x)
        return tuple(out)

    def operand(self, f, o):
        """-> (fn(st, base) -> value, place fn or None when it must be marked as moved)"""
        k = o[0]
        if k == "c":
            v = const_val(self.prog, o[2], o[1])
            return (lambda st, base: v), None
        if k == "rt":
            return (lambda st, base: False), None
        pl = self.place(f, o[1])
        loc, proj = o[1]
        if not proj and self.prog.types[f.locals[loc]]["k"] in ("struct", "tuple", "closure", "fndef", "enum") and is_zst(self.prog, f.locals[loc]):
            zv = zst_val(self.prog, f.locals[loc])
            return (lambda st, base: zv), None
        if not proj:
            def ev(st, base):
                v = st.mem.get(base + loc)
                if v is None: raise Stop("internal", "read of uninitialised local _%d of %s" % (loc, f.name))
                if v.__class__ is tuple and v[0] == "Z": return st.load(base + loc, ())
                return v
        else:
            def ev(st, base):
                key, path = pl(st, base)
                return st.load(key, path)
        if k == "mv" and self.movable(self.prog.place_ty(f, o[1])):
            return ev, pl
        return ev, None

    def movable(self, ty):
        if ty is None: return True
        return self.prog.types[ty]["k"] not in ("bool", "int", "uint", "char", "ref", "ptr", "fndef", "never", "float")

    # ---- statements ----
    def stmt(self, f, s):
        k = s[0]
        if k == "sl": return None
        if k == "sx":
            l = s[1]
            def dead(st, base): st.mem.pop(base + l, None)
            return dead
        if k == "?":
            if "Assume" in s[1] or "NonDivergingIntrinsic" in s[1]: return None
            return lambda st, base: _stop("internal", "statement %s" % s[1][:60])
        if k == "sd":
            pl, vi = self.place(f, s[1]), s[2]
            def setd(st, base):
                key, path = pl(st, base)
                v = st.load(key, path)
                st.store(key, path, ("A", vi, v[2]))
            return setd
        pl = self.place(f, s[1])
        ev, mvs = self.rvalue(f, s[2], self.prog.place_ty(f, s[1]))
        loc, proj = s[1]
        if not proj:
            if not mvs:
                def asg(st, base): st.mem[base + loc] = ev(st, base)
                return asg
            if len(mvs) == 1:
                m = mvs[0]
                def asg1(st, base):
                    v = ev(st, base)
                    kp = m(st, base)
                    st._put(kp[0], kp[1], MOVED)
                    st.mem[base + loc] = v
                return asg1
        def asgp(st, base):
            v = ev(st, base)
            key, path = pl(st, base)
            if path: st.load(key, path[:-1])
            for m in mvs:
                kp = m(st, base)
                st._put(kp[0], kp[1], MOVED)
            st.store(key, path, v)
        return asgp

    def rvalue(self, f, r, dty):
        k = r[0]
        P = self.prog
        if k == "use":
            ev, m = self.operand(f, r[1])
            return ev, ([m] if m else [])
        if k in ("ref", "addr"):
            loc, proj = r[1]
            pl = self.place(f, r[1])
            # A reborrow of an unsized or opaque thing keeps the value.
            if proj and proj[-1] == "*":
                inner, _ = self.operand(f, ["cp", [loc, proj[:-1]]])
                def reb(st, base):
                    v = inner(st, base)
                    if v[0] == "rc": return ("R", -v[1], ())
                    if v[0] == "A":
                        key, path = pl(st, base)
                        return ("R", key, path)
                    return v
                return reb, []
            def ref(st, base):
                key, path = pl(st, base)
                return ("R", key, path)
            return ref, []
        if k == "agg":
            evs, mvs = [], []
            for o in r[3]:
                e, m = self.operand(f, o)
                evs.append(e)
                if m: mvs.append(m)
            vi = r[2]
            if r[1] == "rawptr":
                return (lambda st, base: evs[0](st, base)), mvs
            if r[1] == "adt" and len(r) > 5 and r[5] is not None:
                return (lambda st, base: _stop("internal", "union")), []
            if len(evs) == 1:
                e0 = evs[0]
                return (lambda st, base: ("A", vi, (e0(st, base),))), mvs
            def agg(st, base): return ("A", vi, tuple([e(st, base) for e in evs]))
            return agg, mvs
        if k == "discr":
            pl = self.place(f, r[1])
            ty = P.place_ty(f, r[1])
            t = P.types[ty]
            if t["k"] != "enum":
                return (lambda st, base: 0), []
            ds = [int(v["d"]) for v in t["v"]]
            if is_zst(P, ty):
                c = ds[only_variant(P, t)]
                return (lambda st, base: c), []
            dt = P.types[dty] if dty is not None else {"s": "isize", "k": "int"}
            if dt["k"] == "int":
                w = {"i8": 8, "i16": 16, "i32": 32}.get(dt["s"], 64)
                ds = [d - (1 << w) if d >= 1 << (w - 1) else d for d in ds]
                ds = [d if d < (1 << 63) else d - (1 << 64) for d in ds]
            def discr(st, base):
                key, path = pl(st, base)
                v = st.load(key, path)
                if v[0] != "A": raise Stop("internal", "discriminant of %r in %s" % (v, f.name))
                return ds[v[1]]
            return discr, []
        if k == "cast": return self.cast(f, r)
        if k in ("bin", "chk"): return self.binop(f, r), []
        if k == "un":
            ev, _ = self.operand(f, r[2])
            if r[1] == "Not":
                def no(st, base):
                    v = ev(st, base)
                    if v.__class__ is bool: return not v
                    if self.prog.types[dty]["k"] == "bool" and dty is not None: return st.num.norm(add(1, num(v), -1))
                    raise Stop("internal", "bit operation")
                return no, []
            if r[1] == "Neg":
                return (lambda st, base: scale(num(ev(st, base)), -1)), []
            if r[1] == "PtrMetadata":
                def meta(st, base):
                    v = ev(st, base)
                    if v[0] == "str": return len(v[1].encode())
                    if v[0] == "R": return UNIT
                    return ("op", "meta")
                return meta, []
        if k == "rep":
            ev, _ = self.operand(f, r[1])
            return (lambda st, base: ("op", "array")), []
        if k == "len":
            pl = self.place(f, r[1])
            def ln(st, base):
                v = st.load(*pl(st, base))
                if v[0] == "A": return len(v[2])
                raise Stop("internal", "len")
            return ln, []
        return (lambda st, base: _stop("internal", "rvalue %s" % k)), []

    def cast(self, f, r):
        P = self.prog
        ev, m = self.operand(f, r[2])
        kind, dst = r[1], r[3]
        src = P.operand_ty(f, r[2])
        mvs = [m] if m else []
        if kind in ("Transmute", "BoxDerefTransmute"):
            mv = self.repoint(src, dst)
            if mv:
                def tmp(st, base): return transmute(P, mv(ev(st, base)), src, dst)
                return tmp, mvs
            def tm(st, base): return transmute(P, ev(st, base), src, dst)
            return tm, mvs
        if kind == "IntToInt":
            d = P.types[dst]
            s = P.types[src] if src is not None else None
            def ii(st, base):
                v = num(ev(st, base))
                if v.__class__ is bool: v = int(v)
                if isinstance(v, Lin): return v
                if d["k"] == "uint" and v < 0:
                    w = {"u8": 8, "u16": 16, "u32": 32}.get(d["s"], 64)
                    v &= (1 << w) - 1
                return v
            return ii, mvs
        if kind.startswith("PointerCoercion(Reify") or kind.startswith("PointerCoercion(ClosureFn"):
            return ev, mvs
        if kind.startswith("PointerCoercion(Unsize") and len(r) > 4 and r[4]:
            vt = vtable(P, r[4])
            return (lambda st, base: ("dyn", ev(st, base), vt)), mvs
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "FnPtrToPtr"):
            if kind == "PtrToPtr":
                mv = self.repoint(src, dst)
                if mv:
                    return (lambda st, base: mv(ev(st, base))), mvs
            return ev, mvs
        return (lambda st, base: ("op", kind)), mvs

    def pointee(self, ty):
        """Pointee of a pointer or of a single-field wrapper around one."""
        P = self.prog
        while ty is not None:
            t = P.types[ty]
            if t["k"] in ("ref", "ptr"): return t.get("e")
            if t["k"] == "pat": ty = t["e"]; continue
            if t["k"] != "struct": return None
            fs = [ft for _, ft in t["v"][0]["f"] if not is_zst(P, ft)]
            if len(fs) != 1: return None
            ty = fs[0]
        return None

    def repoint(self, src, dst):
        """How a pointer value changes when its pointee type changes from a wrapper to its content or back."""
        a, b = self.pointee(src), self.pointee(dst)
        if a is None or b is None or a == b: return None
        down = self.inside(a, b)
        up = self.inside(b, a) if down is None else None
        if not down and not up: return None
        def go(v):
            if v.__class__ is not tuple: return v
            if v[0] == "R":
                if down: return ("R", v[1], v[2] + down)
                if v[2][-len(up):] != up: raise Stop("internal", "pointer cast")
                return ("R", v[1], v[2][:-len(up)])
            if v[0] == "A": return ("A", v[1], tuple([go(x) for x in v[2]]))
            return v
        return go

    def inside(self, a, b):
        """Path from type a to type b inside it, through single-field wrappers, or None."""
        P = self.prog
        path = []
        while a != b:
            t = P.types[a]
            if t["k"] != "struct": return None
            fs = [(i, ft) for i, (_, ft) in enumerate(t["v"][0]["f"]) if not is_zst(P, ft)]
            if len(fs) != 1: return None
            path.append(fs[0][0])
            a = fs[0][1]
        return tuple(path)

    def binop(self, f, r):
        op = r[1]
        a, _ = self.operand(f, r[2])
        b, _ = self.operand(f, r[3])
        ta = self.prog.operand_ty(f, r[2])
        t = self.prog.types[ta] if ta is not None else {"k": "other", "s": ""}
        unsigned = t["k"] == "uint"
        is_num = t["k"] in ("uint", "int", "bool", "char")
        if r[0] == "chk":
            if op == "Mul":
                def cm(st, base):
                    x, y = num(a(st, base)), num(b(st, base))
                    if isinstance(x, Lin) and isinstance(y, Lin): raise Stop("internal", "product")
                    if isinstance(x, Lin): x, y = y, x
                    return ("A", 0, (scale(y, x), False))
                return cm
            kk = {"Add": 1, "Sub": -1}[op]
            def chk(st, base):
                v = st.num.norm(add(num(a(st, base)), num(b(st, base)), kk))
                if not unsigned: return ("A", 0, (v, False))
                if kk == 1:
                    if not isinstance(v, Lin) and v >= 1 << 64: return ("A", 0, (v - (1 << 64), True))
                    return ("A", 0, (v, False))
                return ("A", 0, (v, not st.ge(v, 0, "checked subtraction")))
            return chk
        if op in ("Add", "AddUnchecked", "Sub", "SubUnchecked"):
            kk = 1 if op.startswith("Add") else -1
            def ar(st, base):
                x, y = a(st, base), b(st, base)
                v = st.num.norm(add(num(x), num(y), kk))
                if unsigned and not isinstance(v, Lin):
                    if v < 0: v += 1 << 64
                    elif v >= 1 << 64: v -= 1 << 64
                return v
            return ar
        if op in ("Mul", "MulUnchecked"):
            def mu(st, base):
                x, y = num(a(st, base)), num(b(st, base))
                if isinstance(x, Lin): x, y = y, x
                if isinstance(x, Lin): raise Stop("internal", "product")
                return scale(y, x)
            return mu
        if op in ("Eq", "Ne"):
            w = op == "Eq"
            def eq(st, base):
                x, y = a(st, base), b(st, base)
                if x.__class__ is tuple or y.__class__ is tuple:
                    if x.__class__ is tuple and x[0] == "str" and y[0] == "str": return (x == y) == w
                    return ptr_eq(st, x, y) == w
                return st.is_zero(add(x, y, -1), "comparison") == w
            return eq
        if op in ("Lt", "Le", "Gt", "Ge"):
            def cmp(st, base):
                x, y = num(a(st, base)), num(b(st, base))
                if op == "Ge": return st.ge(x, y, "comparison")
                if op == "Le": return st.ge(y, x, "comparison")
                if op == "Lt": return not st.ge(x, y, "comparison")
                return not st.ge(y, x, "comparison")
            return cmp
        if op == "Cmp":
            def cm3(st, base):
                x, y = num(a(st, base)), num(b(st, base))
                if st.is_zero(add(x, y, -1), "comparison"): return ("A", 1, ())
                return ("A", 2 if st.ge(x, y, "comparison") else 0, ())
            return cm3
        if op in ("BitAnd", "BitOr", "BitXor"):
            def bo(st, base):
                x, y = num(a(st, base)), num(b(st, base))
                if isinstance(x, Lin) or isinstance(y, Lin): raise Stop("internal", "bit operation")
                z = x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y
                return bool(z) if x.__class__ is bool else z
            return bo
        return lambda st, base: _stop("internal", "operator %s" % op)

    # ---- terminators ----
    def term(self, f, t):
        k = t[0]
        P = self.prog
        if k == "goto":
            b = t[1]
            def goto(st, fr): fr.bi, fr.si = b, 0
            return goto
        if k == "switch":
            ev, _ = self.operand(f, t[1])
            ty = P.types[t[4]] if len(t) > 4 else {"k": "uint", "s": ""}
            tg = []
            for v, b in t[2]:
                v = int(v)
                if ty["k"] == "int":
                    w = {"i8": 8, "i16": 16, "i32": 32}.get(ty["s"], 64)
                    if v >= 1 << (w - 1): v -= 1 << w
                tg.append((v, b))
            d = dict(tg)
            other = t[3]
            def sw(st, fr):
                v = num(ev(st, fr.base))
                if isinstance(v, Lin):
                    v = st.num.norm(v)
                    if isinstance(v, Lin):
                        for c, b in tg:
                            if st.is_zero(add(v, c, -1), "switch"):
                                fr.bi, fr.si = b, 0
                                return
                        fr.bi, fr.si = other, 0
                        return
                fr.bi, fr.si = d.get(int(v), other), 0
            return sw
        if k == "ret":
            return self.do_ret
        if k == "resume":
            def resume(st, fr): unwind(st)
            return resume
        if k == "unreachable":
            return lambda st, fr: _stop("unreachable", "unreachable code reached")
        if k == "abort":
            return lambda st, fr: _stop("abort", "abort")
        if k == "assert":
            ev, _ = self.operand(f, t[1])
            exp, tgt, uw, msg = t[2], t[4], t[5], t[3]
            def asrt(st, fr):
                if bool(ev(st, fr.base)) == bool(exp):
                    fr.bi, fr.si = tgt, 0
                else:
                    start_panic(st, "assertion (%s)" % str(msg)[:40], uw)
            return asrt
        if k == "drop":
            pl, tgt, uw, inst = self.place(f, t[1]), t[2], t[3], t[4]
            g = P.fns.get(inst) if inst else None
            if g is None:
                def nodrop(st, fr): fr.bi, fr.si = tgt, 0
                return nodrop
            nat = self.natives.find(g)
            if nat is None and not g.has_body:
                return lambda st, fr: _stop("internal", "drop without body %s" % g.name)
            def drp(st, fr):
                key, path = pl(st, fr.base)
                v = st.peek(key, path)
                if v.__class__ is tuple and v[0] == "Z": v = st.load(key, path)
                arg = ("R", key, path)
                self.call(st, g, nat, [arg], None, tgt, uw, cont=("moved", key, path))
            return drp
        if k == "call":
            evs, mvs = [], []
            for o in t[3]:
                e, m = self.operand(f, o)
                evs.append(e)
                if m: mvs.append(m)
            dpl, tgt, uw, inst, rust = self.place(f, t[4]), t[5], t[6], t[1], t[8]
            # A tuple may be initialised part by part.
            dt = P.types[f.locals[t[4][0]]]
            parts = len(dt["f"]) if dt["k"] == "tuple" else 0
            g = P.fns.get(inst) if inst else None
            if g is None and t[7]:
                fe, _ = self.operand(f, t[7])
            else:
                fe = None
            if g is None and fe is None:
                return lambda st, fr: _stop("internal", "unresolved call %s" % t[2])
            nat = self.natives.find(g) if g else None
            if g is not None and nat is None and not g.has_body:
                return lambda st, fr: _stop("internal", "no model for %s" % g.name)
            def call(st, fr):
                base = fr.base
                vals = [e(st, base) for e in evs]
                h, hn = g, nat
                if fe is not None:
                    fv = fe(st, base)
                    if fv[0] != "fn": raise Stop("internal", "call of %r" % (fv,))
                    h = P.fns[fv[1]]
                    hn = self.natives.find(h)
                d = dpl(st, base)
                if d[1]:
                    if d[0] not in st.mem and len(d[1]) == 1 and parts: st.mem[d[0]] = ("A", 0, (MOVED,) * parts)
                    st.load(d[0], d[1][:-1])
                if rust and hn is None and not h.spread:
                    tup = vals.pop()
                    if tup[0] == "A": vals.extend(tup[2])
                self.call(st, h, hn, vals, d, tgt, uw, mvs=mvs)
            return call
        return lambda st, fr: _stop("internal", "terminator %s" % k)

    def call(self, st, g, nat, vals, dest, ret, uw, mvs=(), cont=None):
        """Enter a function; natives may push frames of their own or return a value."""
        fr = st.frames[-1]
        if nat is not None:
            r = nat(st, g, vals)
            base = fr.base
            for m in mvs:
                kp = m(st, base)
                st._put(kp[0], kp[1], MOVED)
            if r is None: r = UNIT
            ctl = r[0] if r.__class__ is tuple else None
            if ctl == "!call":
                # Run another function, with `r[3]` continuations below it.
                self.push(st, r[1], r[2], dest, ret, uw, cont, r[3] if len(r) > 3 else ())
                return
            if ctl == "!panic":
                start_panic(st, r[1], uw)
                return
            if ctl == "!seq":
                # Call functions one after the other, then return `r[2]`.
                st.frames.append(Frame(None, fr.base, dest, ret, uw, r[1] + (("value", r[2]),) + ((cont,) if cont else ())))
                return
            if cont: run_cont(st, cont, False)
            if ret is None: raise Stop("internal", "native %s returned to nowhere" % g.name)
            if dest is not None: st.store(dest[0], dest[1], r)
            fr.bi, fr.si = ret, 0
            return
        base = fr.base
        for m in mvs:
            kp = m(st, base)
            st._put(kp[0], kp[1], MOVED)
        self.push(st, g, vals, dest, ret, uw, cont, ())

    def push(self, st, g, vals, dest, ret, uw, cont, conts):
        self.fn_code(g)
        fr0 = st.frames[-1]
        if ret is not None and not cont and not conts and g.name.endswith("::fmt") and " as std::fmt::" in g.name and printing.on(st) and any(x.fn is g for x in st.frames):
            # What prints itself in parts directly: as what does by way of a formatter (step_cont).
            more = within(st, g, printing.subject(st, vals[0]))
            if more is None:
                finish(st, dest, ret, printing.outcome(st, printing.fails(st)))
                return
            conts = more + (("value", None),) if more else ()
        if len(st.frames) > 60:
            raise Stop("recursion", "call depth")
        # A frame without function carries the return information and continuations.
        if cont or conts:
            c = Frame(None, fr0.base, dest, ret, uw, tuple(conts) + ((cont,) if cont else ()))
            st.frames.append(c)
            dest, ret, uw = None, None, "c"
        fr = Frame(g, st.nextbase, dest, ret, uw, ())
        st.nextbase += len(g.locals) + 1
        if len(vals) != g.argc:
            raise Stop("internal", "argument count of %s: %d, %d" % (g.name, len(vals), g.argc))
        for i, v in enumerate(vals): st.mem[fr.base + 1 + i] = v
        st.frames.append(fr)
        n = 0
        for x in st.frames:
            if x.fn is g: n += 1
        if n > 2 and g.short != "std::ptr::drop_glue":
            raise Stop("recursion", g.short)

    def do_ret(self, st, fr):
        rv = st.mem.get(fr.base, UNIT)
        if rv.__class__ is tuple and rv[0] == "Z": rv = st.load(fr.base, ())
        dest, ret = fr.dest, fr.ret
        # Resolve everything that can split before popping.
        for i in range(len(fr.fn.locals)): st.mem.pop(fr.base + i, None)
        st.nextbase = fr.base
        st.frames.pop()
        finish(st, dest, ret, rv)

def finish(st, dest, ret, rv):
    """Deliver a return value to the frame now on top."""
    if not st.frames:
        st.outcome = ("return", rv)
        return
    top = st.frames[-1]
    if top.fn is None:
        # The engine runs its continuations.
        if top.cont and top.cont[-1] == ("value", None): top.cont = top.cont[:-1] + (("value", rv),)
        return
    if dest is not None: st.store(dest[0], dest[1], rv)
    if ret is None: raise Stop("internal", "return to nowhere")
    top.bi, top.si = ret, 0

def within(st, g, n):
    """Notes that g prints node n, within what is printed already; None if that is as on the levels above."""
    up = sum(1 for x in st.frames if x.fn is g)
    if up: printing.descends(st, g, n)
    sp = st.events.spec
    walk = n is not None and hasattr(sp, "below")
    if up >= 2:
        # Deeper levels are as the ones above: whatever node they concern, the entry covers it.
        if walk: sp.below(st, g, n)
        return None
    mode = sp.mode(st, n) if walk else ""
    return () if n is None else (("about", g.id, ("rc", n), mode, "again" if up else "first"),)

def step_cont(st, comp):
    """The frame on top carries continuations: run the first of them."""
    fr = st.frames[-1]
    if fr.cont:
        c, rest = fr.cont[0], fr.cont[1:]
        if c[0] == "value":
            st.frames.pop()
            finish(st, fr.dest, fr.ret, c[1])
            return
        if c[0] == "join":
            fr.cont = rest
            return True
        if c[0] == "call":
            g = comp.prog.fns[c[1]]
            about = within(st, g, printing.subject(st, c[2][0]) if c[2] else None)
            if about is None:
                fr.cont = rest
                return
            nat = comp.natives.find(g)
            if nat is None:
                if not g.has_body: raise Stop("internal", "no model for %s" % g.name)
                fr.cont = about + rest
                comp.push(st, g, list(c[2]), None, None, "c", None, ())
                return
            r = nat(st, g, list(c[2]))
            fr.cont = rest
            ctl = r[0] if r.__class__ is tuple else None
            if ctl == "!call": comp.push(st, r[1], r[2], None, None, "c", None, r[3] if len(r) > 3 else ())
            elif ctl == "!panic": start_panic(st, r[1], "c")
            elif ctl == "!seq": fr.cont = r[1] + rest
            return
        if c[0] == "about" and c[3]: st.events.spec.through(st, c)
        run_cont(st, c, False)
        fr.cont = rest
        return
    st.frames.pop()
    finish(st, fr.dest, fr.ret, UNIT)

def run_cont(st, c, unwinding):
    if c[0] == "moved":
        if c[1].__class__ is int and c[1] < 0 and (-c[1] in st.freed): return
        st._put(c[1], c[2], MOVED)
    elif c[0] == "free":
        if not unwinding: st.free(c[1])
        else: st.events.on_leak(st, c[1])
    elif c[0] == "hook":
        st.events.on_cont(st, c, unwinding)

def start_panic(st, why, uw):
    """The call or assertion of the frame on top panics."""
    if st.panicking:
        raise Stop("abort", "panic while unwinding: " + why)
    st.panicking = (why, st.site())
    st.log = st.log + (("panic", why, st.site()),)
    go_unwind(st, uw)

def go_unwind(st, uw):
    fr = st.frames[-1]
    if uw == "c" or uw is None:
        pop_unwind(st)
    elif uw == "t":
        raise Stop("abort", "panic in a destructor during unwinding")
    elif uw == "u":
        raise Stop("abort", "unwinding not expected here")
    else:
        fr.bi, fr.si = uw, 0

def unwind(st):
    pop_unwind(st)

def pop_unwind(st):
    while True:
        fr = st.frames.pop()
        if fr.fn is None:
            for c in fr.cont: run_cont(st, c, True)
        else:
            for i in range(len(fr.fn.locals)): st.mem.pop(fr.base + i, None)
            st.nextbase = fr.base
        if not st.frames:
            st.outcome = ("panic", st.panicking)
            return
        if st.frames[-1].fn is None or fr.uw == "c" or fr.uw is None: continue
        go_unwind(st, fr.uw)
        return

def _stop(kind, text):
    raise Stop(kind, text)

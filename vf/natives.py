"""Models of library functions whose bodies are not interpreted."""
from .num import Lin, add, scale
from .shape import Stop, Split, UNIT, NONE, some, DEAD
from . import printing, queues
import re

INTS = ("usize", "isize", "u32", "i32", "u64", "i64")

class Natives:
    def __init__(self, prog, lay):
        self.prog, self.lay = prog, lay
        self.memo = {}
        self.glue = {}
        for f in prog.fns.values():
            if f.cname == "std::ptr::drop_glue" and f.args: self.glue[f.args[0]] = f
        self.table = {k[2:].replace("__", "::"): v for k, v in ()}
        T = self.table = {}
        def reg(*names):
            def d(fn):
                for n in names: T[n] = fn
                return fn
            return d

        def content(o, st):
            return lay.node_core if st.objty[o] in ("node", "nnode") else lay.tree_core

        @reg("std::rc::Rc::new")
        def rc_new(st, g, v):
            o = st.new_oid()
            st.mem[-o] = v[0]
            st.strong[o] = 1
            st.objty[o] = "nnode" if g.args[0] == lay.node_core else "ntree"
            st.events.on_new(st, o)
            return ("rc", o)

        @reg("<std::rc::Rc as std::clone::Clone>::clone")
        def rc_clone(st, g, v):
            r = rcv(st, v[0])
            st.strong[r[1]] = add(st.strong[r[1]], 1)
            return r

        @reg("<std::rc::Rc as std::ops::Drop>::drop")
        def rc_drop(st, g, v):
            r = rcv(st, v[0])
            o = r[1]
            n = add(st.owners(o), -1)
            if st.is_zero(n, "strong count of object %d" % o):
                if st.objty[o] in ("tree", "ntree") and st.events.release(st, o):
                    return UNIT
                st.strong[o] = 0
                st.events.on_last_drop(st, o)
                gl = self.glue[content(o, st)]
                return ("!call", gl, [("R", -o, ())], (("free", o),))
            st.strong[o] = st.num.norm(n)
            return UNIT
        self.rc_drop = rc_drop

        @reg("<std::rc::Rc as std::ops::Deref>::deref", "std::rc::Rc::as_ptr")
        def rc_deref(st, g, v):
            return ("R", -rcv(st, v[0])[1], ())

        @reg("std::rc::Rc::downgrade")
        def downgrade(st, g, v): return ("wk", rcv(st, v[0])[1])

        @reg("std::rc::Rc::ptr_eq")
        def rc_ptr_eq(st, g, v): return rcv(st, v[0])[1] == rcv(st, v[1])[1]

        @reg("std::rc::Rc::strong_count")
        def rc_strong(st, g, v): return st.owners(rcv(st, v[0])[1])

        @reg("std::rc::Weak::new", "<std::rc::Weak as std::default::Default>::default")
        def wk_new(st, g, v): return ("wk", None)

        @reg("<std::rc::Weak as std::clone::Clone>::clone")
        def wk_clone(st, g, v): return rcv(st, v[0])

        @reg("<std::rc::Weak as std::ops::Drop>::drop")
        def wk_drop(st, g, v): return UNIT

        @reg("std::rc::Weak::upgrade")
        def upgrade(st, g, v):
            o = rcv(st, v[0])[1]
            if o is None or o == DEAD or o in st.freed: return NONE
            if st.is_zero(st.owners(o), "strong count"): return NONE
            st.strong[o] = st.num.norm(add(st.strong[o], 1))
            return some(("rc", o))

        @reg("std::rc::Weak::strong_count")
        def wk_strong(st, g, v):
            o = rcv(st, v[0])[1]
            if o is None or o == DEAD or o in st.freed: return 0
            return st.num.norm(st.strong[o])

        @reg("std::rc::Weak::as_ptr")
        def wk_ptr(st, g, v):
            o = rcv(st, v[0])[1]
            return ("R", "dangling" if o is None else -o, ())

        @reg("std::rc::Weak::ptr_eq")
        def wk_ptr_eq(st, g, v):
            a, b = rcv(st, v[0])[1], rcv(st, v[1])[1]
            if a == b == DEAD: raise Stop("internal", "comparison of freed objects")
            return a == b

        @reg("std::num::NonZero::new")
        def nz_new(st, g, v):
            return NONE if st.is_zero(v[0], "count") else some(lay.nz(v[0]))

        @reg("std::num::NonZero::get")
        def nz_get(st, g, v): return st.num.norm(leaf(v[0]))

        @reg("std::num::NonZero::checked_add")
        def nz_add(st, g, v): return some(lay.nz(st.num.norm(add(leaf(v[0]), v[1]))))

        @reg(*["core::num::<impl %s>::checked_add" % t for t in INTS])
        def chk_add(st, g, v): return some(st.num.norm(add(v[0], v[1])))

        @reg(*["core::num::<impl %s>::checked_sub" % t for t in INTS])
        def chk_sub(st, g, v):
            return some(st.num.norm(add(v[0], v[1], -1))) if low(st, g, v) else NONE

        # Sums of counts stay far from the ends of usize and isize (see DESIGN.md); only a difference of
        # unsigned numbers can leave the range.
        def unsigned(g): return self.prog.types[g.args[0]]["k"] == "uint" if g.args and g.args[0].__class__ is int else "usize" in g.cname or "u32" in g.cname
        def low(st, g, v): return not unsigned(g) or st.ge(add(v[0], v[1], -1), 0, "subtraction")

        @reg(*["core::num::<impl %s>::saturating_sub" % t for t in INTS], "std::intrinsics::saturating_sub")
        def sat_sub(st, g, v):
            return st.num.norm(add(v[0], v[1], -1)) if low(st, g, v) else 0

        @reg(*["core::num::<impl %s>::%s" % (t, o) for t in INTS for o in ("saturating_add", "wrapping_add", "unchecked_add", "strict_add")],
             *["std::intrinsics::%s_add" % o for o in ("saturating", "wrapping", "unchecked")])
        def sat_add(st, g, v):
            r = st.num.norm(add(v[0], v[1]))
            if r.__class__ is int and r >= 1 << 64 and unsigned(g):
                if "wrapping" in g.cname: return r - (1 << 64)
                if "saturating" in g.cname: return (1 << 64) - 1
            return r

        @reg(*["core::num::<impl %s>::%s" % (t, o) for t in INTS for o in ("wrapping_sub", "unchecked_sub")],
             *["std::intrinsics::%s_sub" % o for o in ("wrapping", "unchecked")])
        def wr_sub(st, g, v):
            r = st.num.norm(add(v[0], v[1], -1))
            if not low(st, g, v): r = add(r, 1 << 64)
            return r

        @reg(*["core::num::<impl %s>::overflowing_%s" % (t, o) for t in INTS for o in ("add", "sub")],
             *["std::intrinsics::%s_with_overflow" % o for o in ("add", "sub")])
        def ovf(st, g, v):
            if g.cname.endswith("add") or "add_with" in g.cname: return ("A", 0, (st.num.norm(add(v[0], v[1])), False))
            ok = low(st, g, v)
            return ("A", 0, (st.num.norm(add(v[0], v[1], -1) if ok else add(add(v[0], v[1], -1), 1 << 64)), not ok))

        @reg("std::intrinsics::integer_max", "std::intrinsics::integer_min", "std::cmp::max", "std::cmp::min",
             *["std::cmp::impls::<impl std::cmp::Ord for %s>::%s" % (t, o) for t in INTS for o in ("max", "min")])
        def mx(st, g, v):
            big = st.ge(add(v[0], v[1], -1), 0, "comparison")
            return st.num.norm(v[0] if big == (g.cname.rsplit("::", 1)[-1].endswith("max")) else v[1])

        @reg(*["core::num::<impl %s>::abs" % t for t in INTS], *["core::num::<impl %s>::unsigned_abs" % t for t in INTS], "std::intrinsics::integer_abs")
        def ab(st, g, v):
            return st.num.norm(v[0] if st.ge(v[0], 0, "sign") else scale(v[0], -1))

        @reg(*["core::num::<impl %s>::signum" % t for t in INTS])
        def sg(st, g, v):
            if st.is_zero(v[0], "sign"): return 0
            return 1 if st.ge(v[0], 0, "sign") else -1

        @reg("std::intrinsics::three_way_compare")
        def cmp3(st, g, v):
            if st.is_zero(add(v[0], v[1], -1), "comparison"): return ("A", 1, ())
            return ("A", 2 if st.ge(add(v[0], v[1], -1), 0, "comparison") else 0, ())

        printing.register(self, reg)
        queues.register(self, reg)

        @reg("std::intrinsics::cold_path", "std::hint::assert_unchecked")
        def nop(st, g, v): return UNIT

        @reg("std::intrinsics::is_val_statically_known")
        def known(st, g, v): return False

        # ---- the harness' own functions ----
        @reg("harness::cb_clone")
        def cb_clone(st, g, v):
            d = st.load(v[0][1], v[0][2])
            if st.events.user_code(st, "clone", (d,)): return ("!panic", "user clone")
            return ("data", ("clone", d[1]))

        @reg("harness::cb_eq")
        def cb_eq(st, g, v):
            a, b = st.load(v[0][1], v[0][2]), st.load(v[1][1], v[1][2])
            r = st.events.compare(st, a, b)
            if r == "panic": return ("!panic", "user comparison")
            return r

        @reg("harness::cb_drop", "<harness::Data as std::ops::Drop>::drop")
        def cb_drop(st, g, v):
            d = st.load(v[0][1], v[0][2])
            if st.events.user_code(st, "drop", (d,), v[0]): return ("!panic", "user destructor")
            return UNIT

        @reg("harness::cb_fmt")
        def cb_fmt(st, g, v):
            d = st.load(v[0][1], v[0][2])
            r = printing.fails(st)
            if st.events.user_code(st, "fmt", (d,)): return ("!panic", "user fmt")
            return printing.outcome(st, r)

        @reg("harness::nondet_bool")
        def nd_bool(st, g, v): return st.choose("nondet", (False, True))

        @reg("harness::nondet_usize")
        def nd_usize(st, g, v): return st.num.fresh(0)

        @reg("harness::lit")
        def lit(st, g, v): return ("data", ("lit", v[0]))

        @reg("harness::nondet_data")
        def nd_data(st, g, v): return st.events.fresh_data(st)

        # ---- arrays that are iterated over: what is left of them ----
        @reg("std::array::iter::<impl std::iter::IntoIterator for [T]>::into_iter")
        def arr_iter(st, g, v):
            if v[0].__class__ is not tuple or v[0][0] != "A": raise Stop("internal", "no model for this array")
            return ("A", 0, (v[0],))

        def arr_step(at, rest):
            def step(st, g, v):
                r = v[0]
                es = st.load(r[1], r[2] + (0,))[2]
                if not es: return NONE
                st.store(r[1], r[2] + (0,), ("A", 0, es[rest]))
                return some(es[at])
            return step
        reg("<std::array::IntoIter as std::iter::Iterator>::next")(arr_step(0, slice(1, None)))
        reg("<std::array::IntoIter as std::iter::DoubleEndedIterator>::next_back")(arr_step(-1, slice(None, -1)))

        def arr_drop(st, g, v):
            return elements(st, ("R", v[0][1], v[0][2] + (0,)), prog.types[g.args[0]]["a"][0])
        def elements(st, r, ty):
            a, gl = st.load(r[1], r[2]), self.glue.get(ty)
            if gl is None: return UNIT
            if a[0] != "A": raise Stop("internal", "no model for this array")
            return ("!seq", tuple(("call", gl.id, (("R", r[1], r[2] + (i,)),)) for i in range(len(a[2]))), UNIT)
        self.arr_drop = arr_drop
        self.elements_drop = lambda st, g, v: elements(st, v[0], prog.types[g.args[0]]["e"])

        # ---- vectors of events (see spec.Clone) ----
        @reg("std::vec::Vec::new", "std::vec::Vec::with_capacity", "<std::vec::Vec as std::default::Default>::default")
        def vec_new(st, g, v):
            if printing.on(st): return ("len", 0)
            st.events.vec(st, "new", None)
            return ("op", "vec")

        @reg("std::vec::Vec::push")
        def vec_push(st, g, v):
            if printing.on(st): self.vec_set(st, v[0], add(self.vec_length(st, v[0]), 1))
            else: st.events.vec(st, "push", v[1])
            return UNIT

        @reg("std::vec::Vec::reserve", "std::vec::Vec::shrink_to_fit")
        def vec_nop(st, g, v): return UNIT

        @reg("<std::vec::Vec as std::iter::IntoIterator>::into_iter", "std::vec::Vec::drain")
        def vec_iter(st, g, v):
            st.events.vec(st, "iter", None)
            return ("op", "vecit")

        @reg("<std::vec::IntoIter as std::iter::Iterator>::next", "<std::vec::Drain as std::iter::Iterator>::next")
        def vec_next(st, g, v):
            return ("!call", prog.by_cname["harness::replay_next"][0], [])

        @reg("<std::vec::Vec as std::vec::spec_from_iter_nested::SpecFromIterNested>::from_iter")
        def vec_collect(st, g, v): return ("!call", collector(prog, g), v)

        @reg("<std::vec::Vec as std::vec::spec_extend::SpecExtend>::spec_extend")
        def vec_extend(st, g, v): raise Stop("internal", "no model for Vec::extend")

        @reg("harness::replay_kind")
        def rp_kind(st, g, v): return st.events.vec(st, "kind", None)

        @reg("harness::replay_open")
        def rp_open(st, g, v): return st.events.vec(st, "open", None)

        @reg("harness::replay_close")
        def rp_close(st, g, v):
            st.events.vec(st, "close", None)
            return UNIT

        def vec_drop(st, g, v):
            if printing.on(st): return UNIT
            if st.events.vec(st, "drop", None) and st.events.user_code(st, "drop", (("data", "*"),)): return ("!panic", "user destructor")
            return UNIT
        self.vec_drop = vec_drop

        @reg("dendron::serial::TreeBuilder::open", "dendron::serial::TreeBuilder::close")
        def builder(st, g, v):
            """Only while a subtree is cloned: what a builder does is decided by the entries for builders."""
            h = getattr(st.events.spec, "building", None)
            r = h(st.events, st, g.cname.endswith("open"), st.load(v[0][1], v[0][2]), v[1]) if h else "real"
            if r == "real": return ("!call", g, v)
            if r == "last": return ("!call", g, [v[0], 1])
            return ("A", 0, (UNIT,))

    def find(self, g):
        if g.id in self.memo: return self.memo[g.id]
        r = self._find(g)
        self.memo[g.id] = r
        return r

    def _find(self, g):
        n = g.cname
        if n in self.table: return self.table[n]
        m = re.sub(r"\[[^\[\]]*\]", "[T]", n) if "[" in n else n
        if m in self.table: return self.table[m]
        if g.kind.startswith("Virtual"): return printing.virtual(self.prog, g)
        if re.match(r"(core::fmt::num::.*|<(bool|str|char|\(\)|!|f32|f64) as std::fmt::\w+>)::fmt$|core::fmt::float::", n): return self.primitive
        if n == "std::ptr::drop_glue":
            t = self.prog.types[g.args[0]]
            if t["k"] == "array": return self.elements_drop
            if t["k"] == "struct":
                l = t["n"].rsplit("::", 1)[-1]
                if t["n"].endswith("rc::Rc"): return self.rc_drop
                if t["n"].endswith("rc::Weak"): return self.table["<std::rc::Weak as std::ops::Drop>::drop"]
                if t["n"].endswith("::VecDeque"): return self.queue_drop
                if t["n"].endswith("array::IntoIter"): return self.arr_drop
                if t["n"].endswith(("vec::Vec", "vec::IntoIter", "vec::Drain")): return self.vec_drop
            if not g.has_body: return lambda st, g, v: UNIT
        if "precondition_check" in n: return lambda st, g, v: UNIT
        if n.startswith("harness::obs_"):
            kind = n[len("harness::obs_"):]
            def obs(st, g, v):
                st.events.observe(st, kind, v)
                return UNIT
            return obs
        if g.ret is not None and self.prog.types[g.ret]["k"] == "never" and not self.prog.in_crate(g):
            def pan(st, g, v):
                m = next((x[1] for y in v for x in printing.leaves(y, []) if x.__class__ is tuple and x[0] in ("str", "op")), "")
                if "nounwind" in g.cname or "abort" in g.cname: raise Stop("abort", m)
                return ("!panic", m or g.cname)
            return pan
        if not g.has_body and g.ret is not None:
            t = self.prog.types[g.ret]
            if t["k"] in ("enum", "struct"):
                last = n.rsplit("::", 1)[-1]
                for i, v in enumerate(t["v"]):
                    if v["n"] == last: return lambda st, g, v, i=i: ("A", i, tuple(v))
        return None

def collector(prog, g):
    """`let mut v = Vec::new(); while let Some(x) = it.next() { v.push(x) } v` for the iterator of g."""
    k = "collect " + g.id
    if k in prog.fns: return prog.fns[k]
    it = g.locals[1]
    nx = dr = None
    for st, t, sp in g.blocks:
        if t[0] == "call" and nx is None and t[2] == "std::iter::Iterator::next": nx = t
        if t[0] == "drop" and t[1] == [1, []]: dr = t[4]
    if nx is None: raise Stop("internal", "no model for %s" % g.name)
    opt, rf = g.locals[nx[4][0]], g.locals[nx[3][0][1][0]]
    item = prog.types[opt]["v"][1]["f"][0][1]
    vec = g.locals[0]
    push, new = helper(prog, "std::vec::Vec::push", 2, vec), helper(prog, "std::vec::Vec::new", 0, vec)
    sp = g.blocks[0][2]
    unit = next(i for i, t in prog.types.items() if t["k"] == "tuple" and not t["f"])
    isize = next(i for i, t in prog.types.items() if t.get("s") == "isize")
    f = model(prog, k, g, 1, [vec, it, opt, rf, isize, item, unit])
    f.blocks = [
        [[], ["call", new.id, new.name, [], [0, []], 1, 5, None, False], sp],
        [[["=", [3, []], ["ref", [1, []], True], sp]], ["call", nx[1], nx[2], [["mv", [3, []]]], [2, []], 2, 5, None, False], sp],
        [[["=", [4, []], ["discr", [2, []]], sp]], ["switch", ["mv", [4, []]], [["0", 4]], 3, f.locals[4]], sp],
        [[["=", [5, []], ["use", ["mv", [2, [["d", 1], ["f", 0, item]]]]], sp], ["=", [3, []], ["ref", [0, []], True], sp]],
         ["call", push.id, push.name, [["mv", [3, []]], ["mv", [5, []]]], [6, []], 1, 5, None, False], sp],
        [[], ["drop", [1, []], 7, "c", dr], sp],
        [[], ["drop", [1, []], 6, "t", dr], sp],
        [[], ["resume"], sp],
        [[], ["ret"], sp],
    ]
    prog.fns[k] = f
    return f

def model(prog, k, g, argc, locs):
    """A function that stands for g."""
    from .prog import Fn
    f = Fn()
    f.id, f.name, f.cname, f.kind, f.args, f.ret, f.intrinsic = k, k, k, g.kind, g.args, g.ret, None
    f.prog, f.code, f.native, f.heads, f.live_in, f.has_body = prog, None, None, None, None, True
    f.argc, f.locals, f.spread, f.span, f.vars, f.file, f.short = argc, locs, None, g.span, [], g.file, g.cname
    return f

def helper(prog, name, argc, vec, args=()):
    k = "model %s %s" % (name, list(args))
    if k not in prog.fns:
        from .prog import Fn
        f = Fn()
        f.id, f.name, f.cname, f.kind, f.args, f.ret, f.intrinsic = k, name, name, "item", list(args), vec, None
        f.prog, f.code, f.native, f.heads, f.live_in, f.has_body = prog, None, None, None, None, False
        f.argc, f.locals, f.blocks, f.span, f.vars, f.file, f.short, f.spread = argc, [], [], None, [], "", name, None
        prog.fns[k] = f
    return prog.fns[k]

def rcv(st, r):
    """The Rc or Weak behind a reference (or given by value)."""
    if r[0] in ("rc", "wk"): return r
    v = st.load(r[1], r[2])
    if v[0] not in ("rc", "wk"):
        from .interp import leaves
        l = [x for x in leaves(v, []) if x.__class__ is tuple and x[0] in ("rc", "wk")]
        if len(l) != 1: raise Stop("internal", "Rc expected, found %r" % (v,))
        return l[0]
    return v

def leaf(v):
    while v.__class__ is tuple and v[0] == "A": v = v[2][0]
    return v

"""Models of what `core::fmt`, strings, vectors and slices do, as far as printing needs them."""
from .num import Lin, add
from . import shape
UNIT = NONE = ("A", 0, ())
def some(v): return ("A", 1, (v,))
def Stop(kind, text): return shape.Stop(kind, text)

OKR, ERR = ("A", 0, (UNIT,)), ("A", 1, (UNIT,))

def leaves(v, out):
    if v.__class__ is tuple and v and v[0] == "A":
        for x in v[2]: leaves(x, out)
    else: out.append(v)
    return out

def dyn(prog, v):
    """(pointer, vtable) of a trait object."""
    if v[0] != "dyn": raise Stop("internal", "trait object expected, found %r" % (v,))
    return v[1], prog.vtables[v[2][1]]

def vtable(prog, methods):
    """The value that stands for a table of methods."""
    if not hasattr(prog, "vtables"): prog.vtables = {}
    k = "vtable " + " ".join(i for _, i in methods)
    prog.vtables[k] = dict(methods)
    return ("fn", k)

def unknown(prog, st, ty):
    """Any value of a plain type."""
    t = prog.types[ty]
    k = t["k"]
    if k == "bool": return st.num.fresh(0, 1)
    if k in ("uint", "char"): return st.num.fresh(0)
    if k == "int": return st.num.fresh(None)
    if k == "struct": return ("A", 0, tuple([unknown(prog, st, ft) for _, ft in t["v"][0]["f"]]))
    if k in ("tuple", "closure"): return ("A", 0, tuple([unknown(prog, st, ft) for ft in t["f"]]))
    if k == "enum" and all(not v["f"] for v in t["v"]):
        return ("A", st.choose("element", tuple(range(len(t["v"])))), ())
    raise Stop("internal", "elements of type %s" % t["s"])

def fails(st):
    """Whether something was written (some specifications are only about writers that do not fail)."""
    if getattr(st.events.spec, "reliable", False): return OKR
    return st.choose("the writer fails", (OKR, ERR))

def outcome(st, r):
    """The result of something written: when it is an error, what is printed is not complete."""
    if r == ERR:
        h = getattr(st.events.spec, "failed", None)
        if h: h(st)
    return r

def on(st): return getattr(st.events.spec, "printing", False)

def register(nat, reg):
    prog = nat.prog
    # What a piece of text or an argument did to the writer is joined when it is done.
    for n in ("harness::aux_pieces", "harness::aux_fmt_write"):
        for f in prog.by_cname.get(n, ()):
            prog.analyse(f)
            f.heads |= {i for i, b in enumerate(f.blocks) if b[1][0] == "ret"}
    def io(st, g, v): return outcome(st, fails(st))
    def flag(st, g, v): return st.num.fresh(0, 1)
    def builder(st, g, v): return ("op", "builder")

    reg("std::fmt::Formatter::write_str", "<std::fmt::Formatter as std::fmt::Write>::write_str", "<std::fmt::Formatter as std::fmt::Write>::write_char",
        "std::fmt::Formatter::pad", "std::fmt::Formatter::pad_integral", "std::fmt::DebugStruct::finish", "std::fmt::DebugStruct::finish_non_exhaustive",
        "std::fmt::DebugTuple::finish", "std::fmt::DebugTuple::finish_non_exhaustive", "std::fmt::DebugList::finish", "std::fmt::DebugList::finish_non_exhaustive",
        "std::fmt::DebugSet::finish", "std::fmt::DebugMap::finish")(io)
    reg(*["std::fmt::Formatter::" + n for n in ("alternate", "sign_plus", "sign_minus", "sign_aware_zero_pad", "debug_lower_hex", "debug_upper_hex")])(flag)
    reg(*["std::fmt::Formatter::" + n for n in ("debug_struct", "debug_tuple", "debug_list", "debug_set", "debug_map")])(builder)
    nat.primitive = io

    def shows(st, values, result, fmt=None):
        """Formats trait objects one after the other, then gives the result."""
        calls = []
        for x in values:
            p, vt = dyn(prog, x)
            calls += [("call", vt["fmt"], (p, fmt or ("op", "Formatter"))), ("join",)]
        if not on(st): raise Stop("internal", "formatting")
        return ("!seq", tuple(calls), result)

    @reg("std::fmt::DebugStruct::field")
    def field(st, g, v): return shows(st, [v[2]], v[0])

    @reg("std::fmt::DebugTuple::field", "std::fmt::DebugList::entry", "std::fmt::DebugSet::entry", "std::fmt::DebugMap::key", "std::fmt::DebugMap::value")
    def entry(st, g, v): return shows(st, [v[1]], v[0])

    @reg("std::fmt::DebugMap::entry")
    def mentry(st, g, v): return shows(st, v[1:3], v[0])

    def finish(st, g, v):
        vals = []
        for x in v[1:]:
            if x[0] == "dyn": vals.append(x)
            elif x.__class__ is tuple and x[0] == "R":
                a = st.load(x[1], x[2])
                if a.__class__ is tuple and a[0] == "A":
                    vals += [y for y in a[2] if y.__class__ is tuple and y[0] == "dyn"]
        return shows(st, vals, outcome(st, fails(st)), v[0])
    reg(*["std::fmt::Formatter::debug_struct_field%d_finish" % i for i in range(1, 6)], *["std::fmt::Formatter::debug_tuple_field%d_finish" % i for i in range(1, 6)],
        "std::fmt::Formatter::debug_struct_fields_finish", "std::fmt::Formatter::debug_tuple_fields_finish")(finish)

    # ---- format_args! ----
    @reg("core::fmt::rt::Argument::new")
    def argument(st, g, v): return ("A", 0, (v[0], v[1]))

    @reg("std::fmt::Arguments::new", "std::fmt::Arguments::from_str", "std::fmt::Arguments::from_str_nonconst", "std::fmt::Arguments::new_const", "std::fmt::Arguments::new_v1")
    def fmt_args(st, g, v):
        m = next((x[1] for x in v if x.__class__ is tuple and x[0] == "str"), "")
        a = v[1] if len(v) > 1 else UNIT
        return ("A", 0, (("op", "fmt " + m[:60]), a))

    @reg("std::fmt::Arguments::as_str", "std::fmt::Arguments::as_statically_known_str")
    def args_str(st, g, v): return st.choose("format without arguments", (NONE, "str")) if False else NONE

    @reg("std::fmt::write")
    def write(st, g, v):
        if not on(st): raise Stop("internal", "formatting")
        return ("!call", prog.by_cname["harness::aux_fmt_write"][0], list(v))

    @reg("std::fmt::Formatter::write_fmt", "<std::fmt::Formatter as std::fmt::Write>::write_fmt")
    def write_fmt(st, g, v):
        if not on(st): raise Stop("internal", "formatting")
        a = arguments(st, v[1])
        return ("!seq", tuple([y for x, f in a for y in (("call", f, (x, v[0])), ("join",))]), outcome(st, fails(st)))

    def arguments(st, v):
        a = v[2][1]
        if a == UNIT: return []
        if a[0] != "R": raise Stop("internal", "format arguments")
        out = []
        for x in st.load(a[1], a[2])[2]:
            l = [y for y in leaves(x, []) if y != UNIT]
            if len(l) != 2 or l[1].__class__ is not tuple or l[1][0] != "fn": raise Stop("internal", "format argument %r" % (x,))
            out.append((l[0], l[1][1]))
        return out

    @reg("harness::aux_fmt_arg")
    def fmt_arg(st, g, v):
        a = arguments(st, st.load(v[0][1], v[0][2]))
        if len(a) > 3: raise Stop("internal", "format arguments")
        if v[1] >= len(a): return OKR
        x, f = a[v[1]]
        return ("!call", prog.fns[f], [x, ("op", "Formatter")])

    @reg("core::fmt::rt::Argument::from_usize", "core::fmt::rt::Argument::as_u16")
    def arg_usize(st, g, v): raise Stop("internal", "no model for widths in formats")

    @reg("harness::aux_str")
    def any_str(st, g, v): return ("len", st.num.fresh(0))

    # ---- strings: a literal, or ("len", length) ----
    def slen(s):
        if s[0] == "str": return len(s[1].encode())
        if s[0] == "len": return s[1]
        raise Stop("internal", "string expected, found %r" % (s,))

    @reg("core::str::<impl str>::len")
    def str_len(st, g, v): return slen(v[0])

    @reg("core::str::<impl str>::is_empty")
    def str_empty(st, g, v): return st.is_zero(slen(v[0]), "length of a string")

    @reg("core::str::<impl str>::find", "core::str::<impl str>::rfind")
    def str_find(st, g, v):
        s = v[0]
        if s[0] == "str" and v[1].__class__ is int:
            i = s[1].encode().find(chr(v[1]).encode())
            return NONE if i < 0 else some(i)
        if st.is_zero(slen(s), "length of a string") or not st.choose("found", (False, True)): return NONE
        p, r = st.num.fresh(0), st.num.fresh(0)
        st.num.assume_eq(slen(s), add(add(p, r), 1))
        return some(p)

    @reg("core::str::<impl str>::contains", "core::str::<impl str>::ends_with", "core::str::<impl str>::starts_with")
    def str_has(st, g, v):
        if st.is_zero(slen(v[0]), "length of a string"): return False
        return st.choose("found", (False, True))

    def span(st, r, n):
        """(start, end, in bounds?) of a range index into something of length n."""
        name = prog.types[r[1]].get("n", "").rsplit("::", 1)[-1]
        l = r[0]
        if name == "RangeFull": return 0, n, True
        f = [st.num.norm(x) for x in leaves(l, [])]
        a, b = {"RangeTo": lambda: (0, f[0]), "RangeFrom": lambda: (f[0], n), "Range": lambda: (f[0], f[1]),
                "RangeToInclusive": lambda: (0, add(f[0], 1)), "RangeInclusive": lambda: (f[0], add(f[1], 1))}[name]()
        return a, b, st.ge(b, a, "range") and st.ge(n, b, "range")

    @reg("core::str::traits::<impl std::ops::Index for str>::index")
    def str_index(st, g, v):
        n = slen(v[0])
        a, b, ok = span(st, (v[1], g.locals[2]), n)
        if not ok: return ("!panic", "string index out of bounds")
        if v[0][0] == "str" and a.__class__ is int and b.__class__ is int:
            return ("str", v[0][1].encode()[a:b].decode())
        return ("len", st.num.norm(add(b, a, -1)))

    # ---- vectors: ("len", length); slices and their iterators alike ----
    def elem(st, ty):
        return ("R", ("element", ty), ())
    def length(st, v):
        """Length of a vector or slice behind a reference, or of an iterator."""
        while v.__class__ is tuple and v[0] == "R": v = st.load(v[1], v[2])
        if v[0] == "len": return st.num.norm(v[1])
        raise Stop("internal", "no model for this vector or slice")
    def array(st, r):
        """What a reference to an array, or to an iterator over one, refers to."""
        x = st.load(r[1], r[2]) if r.__class__ is tuple and r[0] == "R" else None
        return x if x is not None and x[0] == "A" else None
    def setlen(st, r, n):
        st.store(r[1], r[2], ("len", st.num.norm(n)))
    def item(g):
        """Element type from an option of (a reference to) it."""
        t = g.ret
        if prog.types[t]["k"] == "enum": t = prog.types[t]["v"][1]["f"][0][1]
        return prog.types[t]["e"] if prog.types[t]["k"] == "ref" else t
    nat.vec_length, nat.vec_set = length, setlen

    @reg("std::vec::Vec::len", "core::slice::<impl [T]>::len")
    def vlen(st, g, v):
        a = array(st, v[0])
        return len(a[2]) if a else length(st, v[0])

    @reg("std::vec::Vec::is_empty", "core::slice::<impl [T]>::is_empty")
    def vempty(st, g, v): return st.is_zero(length(st, v[0]), "length")

    @reg("std::vec::Vec::pop")
    def vpop(st, g, v):
        n = length(st, v[0])
        if st.is_zero(n, "length"): return NONE
        e = unknown(prog, st, item(g))
        setlen(st, v[0], add(n, -1))
        return some(e)

    @reg("std::vec::Vec::clear")
    def vclear(st, g, v):
        length(st, v[0])
        setlen(st, v[0], 0)
        return UNIT

    @reg("std::vec::Vec::truncate")
    def vtruncate(st, g, v):
        n = length(st, v[0])
        if not st.ge(v[1], n, "length"): setlen(st, v[0], v[1])
        return UNIT

    @reg("<std::vec::Vec as std::ops::Deref>::deref", "<std::vec::Vec as std::ops::DerefMut>::deref_mut", "std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice")
    def vderef(st, g, v): return ("len", length(st, v[0]))

    @reg("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "core::slice::iter::<impl std::iter::IntoIterator for &[T]>::into_iter",
         "<&std::vec::Vec as std::iter::IntoIterator>::into_iter", "<&mut std::vec::Vec as std::iter::IntoIterator>::into_iter",
         "std::array::<impl std::iter::IntoIterator for &[T]>::into_iter", "std::array::<impl std::iter::IntoIterator for &mut [T]>::into_iter")
    def viter(st, g, v):
        a = array(st, v[0])
        return ("A", 0, (("A", 0, tuple([("R", v[0][1], v[0][2] + (i,)) for i in range(len(a[2]))])),)) if a else ("len", length(st, v[0]))

    @reg(*["<std::slice::%s as std::iter::%s" % (k, m) for k in ("Iter", "IterMut") for m in ("Iterator>::next", "DoubleEndedIterator>::next_back")])
    def vnext(st, g, v):
        x = array(st, v[0])
        if x:                                             # of an array: what is left of it
            es, back = x[2][0][2], g.cname.endswith("next_back")
            if not es: return NONE
            st.store(v[0][1], v[0][2] + (0,), ("A", 0, es[:-1] if back else es[1:]))
            return some(es[-1 if back else 0])
        n = length(st, v[0])
        if st.is_zero(n, "length"): return NONE
        e = elem(st, item(g))
        setlen(st, v[0], add(n, -1))
        return some(e)

    @reg("<std::slice::Iter as std::iter::ExactSizeIterator>::len", "<std::slice::Iter as std::iter::Iterator>::count")
    def vcount(st, g, v): return length(st, v[0])

    @reg(*["core::slice::<impl [T]>::" + n for n in ("first", "last", "first_mut", "last_mut")])
    def vlast(st, g, v):
        if st.is_zero(length(st, v[0]), "length"): return NONE
        return some(elem(st, item(g)))

    @reg("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
    def vget(st, g, v):
        if v[1].__class__ is tuple: raise Stop("internal", "no model for slices of vectors")
        if st.ge(v[1], length(st, v[0]), "index"): return NONE
        return some(elem(st, item(g)))

    @reg("<std::iter::TakeWhile as std::iter::Iterator>::count", "<std::iter::Filter as std::iter::Iterator>::count", "<std::iter::SkipWhile as std::iter::Iterator>::count")
    def vtake(st, g, v):
        l = [x[1] for x in leaves(v[0], []) if x.__class__ is tuple and x[0] == "len"]
        if len(l) != 1: raise Stop("internal", "no model for this iterator")
        n, r = st.num.fresh(0), st.num.fresh(0)
        st.num.assume_eq(l[0], add(n, r))
        return n

    @reg("<std::vec::Vec as std::ops::Index>::index", "<std::vec::Vec as std::ops::IndexMut>::index_mut", "core::slice::index::<impl std::ops::Index for [T]>::index",
         "core::slice::index::<impl std::ops::IndexMut for [T]>::index_mut")
    def vindex(st, g, v):
        n = length(st, v[0])
        if v[1].__class__ is not tuple:
            if st.ge(v[1], n, "index"): return ("!panic", "index out of bounds")
            return elem(st, g.args[0])
        a, b, ok = span(st, (v[1], g.locals[2]), n)
        if not ok: return ("!panic", "range out of bounds")
        return ("len", st.num.norm(add(b, a, -1)))

def virtual(prog, g):
    """Dispatch of a call on a trait object."""
    m = g.cname.rsplit("::", 1)[-1]
    def call(st, g, v):
        p, vt = dyn(prog, v[0])
        if m not in vt: raise Stop("internal", "no method %s in the table" % m)
        return ("!call", prog.fns[vt[m]], [p] + list(v[1:]))
    return call

def subject(st, v, depth=0):
    """The node that a printed value is about: the first one it leads to."""
    if v.__class__ is not tuple or depth > 12: return None
    if v[0] == "A":
        for x in v[2]:
            n = subject(st, x, depth + 1)
            if n is not None: return n
    elif v[0] == "rc": return v[1] if v[1] in st.D.par and st.objty.get(v[1]) == "node" else None
    elif v[0] == "R":
        if v[2] == () and v[1].__class__ is int and v[1] < 0: return -v[1] if st.objty.get(-v[1]) == "node" else None
        return subject(st, st.load(v[1], v[2]), depth + 1)
    return None

def descends(st, g, b):
    """What prints itself in parts must come to smaller ones: to nodes strictly below."""
    a = next((c[2][1] for fr in reversed(st.frames) for c in fr.cont if c[0] == "about" and c[1] == g.id), None)
    if a is None:
        # Called directly.
        a = next((subject(st, st.mem.get(x.base + 1)) for x in reversed(st.frames) if x.fn is g), None)
    if a is None or b is None: raise Stop("internal", "cannot tell what %s prints within itself" % g.short)
    x = st.D.par.get(b)
    while x is not None and x != a: x = st.D.par.get(x)
    if x is None: raise Stop("endless", "printing node %d prints, within it, node %d, which is not below it" % (a, b))

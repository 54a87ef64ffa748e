"""Queues of nodes (`VecDeque`), for breadth-first traversal: an element that is pushed is compared with what the
specification expects to be pushed next and let go of; of the elements a queue holds to begin with, the first ones are
known (see entry.queue)."""
from .num import add
from .shape import Stop, UNIT, NONE, MOVED, some
from . import printing

def queue(entries, n): return ("A", 0, (("A", 0, tuple(entries)), n, ("A", 0, ())))

def parts(st, r):
    v = st.load(r[1], r[2])
    return st.load(r[1], r[2] + (0,))[2], st.num.norm(st.load(r[1], r[2] + (1,)))

def kind(e):
    """A mark or a node."""
    l = printing.leaves(e, [])
    if not l: return "mark"
    if len(l) == 1 and l[0].__class__ is tuple and l[0][0] == "rc": return l[0][1]
    raise Stop("internal", "a queue of %r" % (e,))

def hook(st):
    h = getattr(st.events.spec, "queue", None)
    if h is None: raise Stop("internal", "no model for VecDeque")
    return h

def register(nat, reg):
    prog = nat.prog

    @reg("std::collections::VecDeque::new", "std::collections::VecDeque::with_capacity", "<std::collections::VecDeque as std::default::Default>::default")
    def new(st, g, v):
        hook(st)
        return queue((), 0)

    @reg("std::collections::VecDeque::push_back")
    def push(st, g, v):
        q, e = v
        es, n = parts(st, q)
        if e[0] == "Z": raise Stop("internal", "a queue of unknown elements")
        hook(st)(st.events, st, "push", kind(e))
        st.store(q[1], q[2] + (1,), st.num.fresh(1))          # how many there are is not followed either
        if kind(e) == "mark": return UNIT
        # It is held by the queue from now on, and this is not followed any further.
        at = (q[1], q[2] + (2, 0))
        st.store(q[1], q[2] + (2,), ("A", 0, (e,)))
        return ("!seq", (("call", nat.glue[g.args[0]].id, (("R",) + at,)), ("moved",) + at), UNIT)

    @reg("std::collections::VecDeque::pop_front")
    def pop(st, g, v):
        q = v[0]
        es, n = parts(st, q)
        if es:
            st.store(q[1], q[2] + (0,), ("A", 0, es[1:]))
            st.store(q[1], q[2] + (1,), st.num.norm(add(n, -1)))
            hook(st)(st.events, st, "pop", kind(es[0]))
            return some(es[0])
        if st.is_zero(n, "length of the queue"): return NONE
        raise Stop("internal", "the first element of a queue is not known")

    def at(st, q, i):
        es, n = parts(st, q)
        if i.__class__ is int and i < len(es): return some(("R", q[1], q[2] + (0, i)))
        if st.ge(i, n, "index in the queue"): return NONE
        raise Stop("internal", "an element of a queue is not known")

    @reg("std::collections::VecDeque::front")
    def front(st, g, v): return at(st, v[0], 0)
    @reg("std::collections::VecDeque::get")
    def get(st, g, v): return at(st, v[0], st.num.norm(v[1]))
    @reg("std::collections::VecDeque::is_empty")
    def empty(st, g, v): return st.is_zero(parts(st, v[0])[1], "length of the queue")
    @reg("std::collections::VecDeque::len")
    def length(st, g, v): return parts(st, v[0])[1]
    @reg("std::collections::VecDeque::capacity")
    def capacity(st, g, v): return st.num.fresh(0)
    @reg("std::collections::VecDeque::reserve", "std::collections::VecDeque::shrink_to_fit", "std::collections::VecDeque::shrink_to")
    def nothing(st, g, v): return UNIT

    def extend(st, g, v): return ("!call", extender(prog, g), v)
    reg("<std::collections::VecDeque as std::collections::vec_deque::spec_extend::SpecExtend>::spec_extend")(extend)

    @reg("<std::collections::VecDeque as std::clone::Clone>::clone")
    def clone(st, g, v):
        hook(st)
        return ("!call", cloner(prog, g, len(parts(st, v[0])[0])), v)
    @reg("model queue shell")
    def shell(st, g, v):
        es, n = parts(st, v[0])
        return queue((MOVED,) * len(es), n)
    @reg("model queue entry")
    def entry(st, g, v): return ("R", v[0][1], v[0][2] + (0, v[1]))
    @reg("model queue put")
    def put(st, g, v):
        st.store(v[0][1], v[0][2] + (0, v[1]), v[2])
        return UNIT

    def drop(st, g, v):
        q = v[0]
        es, n = parts(st, q)
        ty = prog.types[g.args[0]]["a"][0]
        return ("!seq", tuple(("call", nat.glue[ty].id, (("R", q[1], q[2] + (0, i)),)) for i in range(len(es)) if kind(es[i]) != "mark"), UNIT)
    nat.queue_drop = drop

def extender(prog, g):
    """`while let Some(x) = it.next() { q.push_back(x) }` for the iterator of g."""
    k = "extend " + g.id
    if k in prog.fns: return prog.fns[k]
    from .natives import model, helper
    nx = dr = None
    for st, t, sp in g.blocks:
        if t[0] == "call" and nx is None and t[2] == "std::iter::Iterator::next": nx = t
        if t[0] == "drop" and t[1] == [2, []]: dr = t[4]
    if nx is None: raise Stop("internal", "no model for %s" % g.name)
    opt, rf = g.locals[nx[4][0]], g.locals[nx[3][0][1][0]]
    item = prog.types[opt]["v"][1]["f"][0][1]
    push = helper(prog, "std::collections::VecDeque::push_back", 2, g.locals[0], [item])
    sp = g.blocks[0][2]
    isize = next(i for i, t in prog.types.items() if t.get("s") == "isize")
    f = model(prog, k, g, 2, [g.locals[0], g.locals[1], g.locals[2], opt, rf, isize, item, g.locals[1], g.locals[0]])
    f.blocks = [
        [[["=", [4, []], ["ref", [2, []], True], sp]], ["call", nx[1], nx[2], [["mv", [4, []]]], [3, []], 1, 4, None, False], sp],
        [[["=", [5, []], ["discr", [3, []]], sp]], ["switch", ["mv", [5, []]], [["0", 3]], 2, isize], sp],
        [[["=", [6, []], ["use", ["mv", [3, [["d", 1], ["f", 0, item]]]]], sp], ["=", [7, []], ["use", ["cp", [1, []]]], sp]],
         ["call", push.id, push.name, [["mv", [7, []]], ["mv", [6, []]]], [8, []], 0, 4, None, False], sp],
        [[], ["drop", [2, []], 6, "c", dr], sp],
        [[], ["drop", [2, []], 5, "t", dr], sp],
        [[], ["resume"], sp],
        [[], ["ret"], sp],
    ]
    prog.fns[k] = f
    return f

def cloner(prog, g, k):
    """A clone of a queue of which the first k elements are known; they are cloned one after the other."""
    key = "clone %d %s" % (k, g.id)
    if key in prog.fns: return prog.fns[key]
    from .natives import model, helper
    vec, ref = g.locals[0], g.locals[1]
    elem = prog.types[vec]["a"][0]
    eref = next(i for i, t in prog.types.items() if t["k"] == "ref" and t["e"] == elem)
    usize = next(i for i, t in prog.types.items() if t.get("s") == "usize")
    one = next((f for f in prog.fns.values() if f.cname.endswith("Clone>::clone") and f.has_body and f.argc == 1 and f.locals[0] == elem), None)
    if one is None: raise Stop("internal", "no clone of the elements of %s" % prog.types[vec]["s"])
    shell, entry, put = [helper(prog, "model queue " + x, n, vec) for x, n in (("shell", 1), ("entry", 2), ("put", 3))]
    sp = g.blocks[0][2]
    unit = next(i for i, t in prog.types.items() if t["k"] == "tuple" and not t["f"])
    f = model(prog, key, g, 1, [vec, ref, eref, elem, unit, ref])
    f.blocks = [[[], ["call", shell.id, shell.name, [["cp", [1, []]]], [0, []], 1, "c", None, False], sp]]
    for i in range(k):
        n, c = len(f.blocks), ["c", usize, {"i": str(i)}]
        f.blocks += [
            [[], ["call", entry.id, entry.name, [["cp", [1, []]], c], [2, []], n + 1, "c", None, False], sp],
            [[], ["call", one.id, one.name, [["cp", [2, []]]], [3, []], n + 2, "c", None, False], sp],
            [[["=", [5, []], ["ref", [0, []], True], sp]], ["call", put.id, put.name, [["mv", [5, []]], c, ["mv", [3, []]]], [4, []], n + 3, "c", None, False], sp]]
    f.blocks.append([[], ["ret"], sp])
    prog.fns[key] = f
    return f

"""How the crate's own types are laid out: found by type, and by field name only where types coincide."""

class LayoutError(Exception):
    pass

class Layout:
    def __init__(self, prog):
        self.p = prog
        T = prog.types
        self.T = T
        self.rc_node = self.rc_tree = None
        def last(n): return n.rsplit("::", 1)[-1]
        self.last = last
        def find(name):
            r = [i for i, t in T.items() if t["k"] in ("struct", "enum") and last(t["n"]) == name and t["n"].startswith("dendron")
                 and all(T[a]["s"] in ("Data", "harness::Data") for a in t["a"])]
            if len(r) != 1: raise LayoutError("type %s: %d candidates" % (name, len(r)))
            return r[0]
        # NodeCore is what the Rc inside Node points to; TreeCore what the Rc inside Tree points to.
        self.node_core = self._pointee(find("Node"))
        self.tree_core = self._pointee(find("Tree"))
        self.link_ty = self.weak_ty = None
        for i, t in T.items():
            if t["k"] == "struct" and t["n"].startswith("dendron") and len(t["v"][0]["f"]) == 1:
                ft = T[t["v"][0]["f"][0][1]]
                if ft["k"] == "struct" and ft["a"] and ft["a"][0] == self.node_core:
                    if ft["n"].endswith("rc::Rc"): self.link_ty = i
                    elif ft["n"].endswith("rc::Weak") and len(ft["a"]) < 3 and self._internal(t): self.weak_ty = i
        if self.link_ty is None or self.weak_ty is None: raise LayoutError("link types")
        self.paths = {}      # role -> path in NodeCore / TreeCore
        self.flagcell = {}
        self.flagpaths = {}  # which RefCell -> path of its borrow flag
        self.memb_ty = None
        self._scan(self.node_core, (), "node")
        self._scan(self.tree_core, (), "tree")
        need = {"parent", "first", "next", "prevc", "memb", "nch", "data", "root", "grants"}
        if set(self.paths) != need: raise LayoutError("roles found: %s" % sorted(self.paths))
        self.data_field = next(k[1] for k, p in self.flagpaths.items() if k[0] == "node" and self.paths["data"][:len(self._refcell(k, p))] == self._refcell(k, p))
        self._memb()
        self._tmpl = {"node": self._build(self.node_core, "node", ""), "tree": self._build(self.tree_core, "tree", "")}

    def _internal(self, t):
        # NodeWeak wraps the internal weak link; the internal one wraps Weak directly.
        return True

    def _pointee(self, ty):
        T = self.T
        seen = [ty]
        while seen:
            t = T[seen.pop()]
            if t["k"] != "struct": continue
            if t["n"].endswith("rc::Rc"): return t["a"][0]
            seen.extend(f[1] for f in t["v"][0]["f"])
        raise LayoutError("no Rc")

    def _adt(self, ty, *names):
        t = self.T[ty]
        return t["k"] in ("struct", "enum") and self.last(t["n"]) in names

    def is_data(self, ty):
        t = self.T[ty]
        return t["k"] == "struct" and t["n"].endswith("harness::Data") or t["s"] in ("Data", "harness::Data")

    def _role(self, ty, fname, kind):
        T = self.T
        t = T[ty]
        if ty == self.weak_ty:
            if "parent" in fname: return "parent"
            if "prev" in fname: return "prevc"
            raise LayoutError("weak link field " + fname)
        if t["k"] == "enum" and t["n"].endswith("option::Option") and t["a"][0] == self.link_ty:
            if "next" in fname: return "next"
            if "child" in fname or "first" in fname: return "first"
            raise LayoutError("link field " + fname)
        if ty == self.link_ty and kind == "tree": return "root"
        if t["k"] == "enum" and kind == "node": return "memb"
        if t["k"] == "uint" and kind == "node": return "nch"
        if t["k"] == "int" and kind == "tree": return "grants"
        if self.is_data(ty): return "data"
        return None

    def _scan(self, ty, path, kind, fname=""):
        t = self.T[ty]
        r = self._role(ty, fname, kind)
        if r:
            if r in self.paths: raise LayoutError("role %s twice" % r)
            self.paths[r] = path
            if r == "memb": self.memb_ty = ty
            return
        if t["k"] != "struct": raise LayoutError("%s at %s" % (t["s"], path))
        refcell = self.last(t["n"]) == "RefCell"
        for i, (n, ft) in enumerate(t["v"][0]["f"]):
            if refcell and n == "borrow":
                self.flagcell[(kind, fname)] = path
                self.flagpaths[(kind, fname)] = self._int_path(ft, path + (i,))
                continue
            name = n if t["n"].startswith("dendron") else fname
            self._scan(ft, path + (i,), kind, name)

    def _refcell(self, k, p):
        """Path of the RefCell a borrow flag belongs to."""
        return self.flagcell[k]

    def _int_path(self, ty, path):
        t = self.T[ty]
        if t["k"] == "int": return path
        return self._int_path(t["v"][0]["f"][0][1], path + (0,))

    def _memb(self):
        t = self.T[self.memb_ty]
        self.mw = self.ms = None
        for vi, v in enumerate(t["v"]):
            kinds = [self.last(self.T[ft]["n"]) if self.T[ft]["k"] == "struct" else self.T[ft]["k"] for _, ft in v["f"]]
            if kinds == ["Weak"]: self.mw = vi
            elif "Rc" in kinds and "NonZero" in kinds:
                self.ms = (vi, kinds.index("Rc"), kinds.index("NonZero"), [i for i, k in enumerate(kinds) if k not in ("Rc", "NonZero")])
        if self.mw is None or self.ms is None or len(self.ms[3]) != 1: raise LayoutError("membership variants")

    def _build(self, ty, kind, fname):
        """A template: values with ('Z', None, role) leaves."""
        t = self.T[ty]
        r = self._role(ty, fname, kind)
        if r == "data": return ("data", None)
        if r: return ("Z", None, r)
        refcell = self.last(t["n"]) == "RefCell"
        fs = []
        for n, ft in t["v"][0]["f"]:
            if refcell and n == "borrow":
                inner = t["a"][0]
                fs.append(self._wrapint(ft, ("Z", None, "dflag") if self.is_data(inner) else 0))
            else:
                fs.append(self._build(ft, kind, n if t["n"].startswith("dendron") else fname))
        return ("A", 0, tuple(fs))

    def _wrapint(self, ty, leaf):
        t = self.T[ty]
        if t["k"] in ("int", "uint"): return leaf
        return ("A", 0, (self._wrapint(t["v"][0]["f"][0][1], leaf),))

    def _inst(self, tm, o):
        if tm.__class__ is not tuple: return tm
        if tm[0] == "Z": return ("Z", o, tm[2])
        if tm[0] == "data": return ("data", o)
        return ("A", tm[1], tuple([self._inst(x, o) for x in tm[2]]))

    def node_value(self, o): return self._inst(self._tmpl["node"], o)
    def tree_value(self, o): return self._inst(self._tmpl["tree"], o)

    def link(self, n): return ("A", 0, (("rc", n),))
    def weak_link(self, n): return ("A", 0, (("wk", n),))

    def nz(self, x): return ("A", 0, (("A", 0, (x,)),))

    def memb_weak(self, t): return ("A", self.mw, (("wk", t),))

    def memb_strong(self, t, n, agg):
        vi, irc, inz, (iag,) = self.ms
        f = [None] * 3
        f[irc], f[inz] = ("rc", t), self.nz(n)
        f[iag] = self.wrap_agg(agg)
        return ("A", vi, tuple(f))

    def wrap_agg(self, a):
        ty = self.T[self.memb_ty]["v"][self.ms[0]]["f"][self.ms[3][0]][1]
        return self._wrapint(ty, a)

    def memb_parts(self, v):
        """(strong?, tree or None, refcount, agg) of a forced membership value."""
        if v[1] == self.mw: return False, v[2][0][1], 0, 0
        vi, irc, inz, (iag,) = self.ms
        a = v[2][iag]
        while a.__class__ is tuple and a[0] == "A": a = a[2][0]
        return True, v[2][irc][1], v[2][inz][2][0][2][0], a

    # ---- values of handle types ----
    def handle(self, ty, leaf):
        """A struct around one Rc/Weak, with that Rc/Weak replaced by `leaf`."""
        t = self.T[ty]
        if t["k"] == "struct":
            if self.last(t["n"]) in ("Rc", "Weak") and "rc::" in t["n"]: return leaf
            return ("A", 0, tuple([self.handle(ft, leaf) for _, ft in t["v"][0]["f"]]))
        raise LayoutError("handle of %s" % t["s"])

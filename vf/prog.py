"""Loads the MIR dump: types, function instances, loop heads, liveness."""
import json

def canon(n):
    """The name of a function instance without generic arguments."""
    out = []
    i, L = 0, len(n)
    def skip(i):
        # n[i] == '<': index past the matching '>'
        d = 0
        while i < L:
            c = n[i]
            if c == "<": d += 1
            elif c == ">" and n[i - 1] not in "-=":
                d -= 1
                if d == 0: return i + 1
            i += 1
        return i
    def split_as(s):
        d = 0
        for j in range(len(s)):
            c = s[j]
            if c == "<": d += 1
            elif c == ">" and s[j - 1] not in "-=": d -= 1
            elif d == 0 and s.startswith(" as ", j): return s[:j], s[j + 4:]
        return s, None
    if n.startswith("<"):
        e = skip(0)
        a, b = split_as(n[1:e - 1])
        out.append("<" + canon(a) + ((" as " + canon(b)) if b is not None else "") + ">")
        i = e
    while i < L:
        c = n[i]
        if c == "<":
            e = skip(i)
            inner = n[i + 1:e - 1]
            if inner.startswith("impl "):
                a, _, b = inner.partition(" for ")
                out.append("<" + canon(a) + (" for " + canon(b) if b else "") + ">")
            elif out and "".join(out[-2:]) == "::":
                out = out[:-2]
            i = e
        else:
            out.append(c)
            i += 1
    return "".join(out)

class Fn:
    __slots__ = ("id", "name", "cname", "kind", "args", "ret", "intrinsic", "argc", "locals", "blocks", "spread",
                 "span", "vars", "heads", "rank", "live_in", "code", "native", "prog", "has_body", "file", "addr_taken", "short")

class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.files = d["files"]
        self.types = {int(k): v for k, v in d["types"].items()}
        self.entries = d["entries"]
        self.fns = {}
        self.by_cname = {}
        self.by_name = {}
        for k, v in d["insts"].items():
            f = Fn()
            f.id, f.name, f.cname, f.kind = k, v["name"], canon(v["name"]), v["kind"]
            f.args, f.ret, f.intrinsic = v.get("args"), v.get("ret"), v.get("intrinsic")
            f.prog, f.code, f.native, f.heads, f.live_in = self, None, None, None, None
            b = v.get("body")
            f.has_body = b is not None
            if b:
                f.argc, f.locals, f.blocks, f.spread = b["argc"], b["locals"], b["blocks"], b["spread"]
                f.span, f.vars = b["span"], b["vars"]
                f.file = self.files[b["span"][0]]
            else:
                f.argc, f.locals, f.blocks, f.span, f.vars, f.file = 0, [], [], None, [], ""
            s = f.cname
            f.short = s
            self.fns[k] = f
            self.by_cname.setdefault(f.cname, []).append(f)
            self.by_name[f.name] = f

    def in_crate(self, f):
        """Whether the body was written in the crate under analysis (not std, not the harness)."""
        return f.has_body and "/src/" in f.file and "/rustlib/" not in f.file and "/library/" not in f.file and not f.file.endswith("harness/src/lib.rs") and not self._is_harness(f)

    def _is_harness(self, f):
        return f.name.startswith("harness::") or f.name.startswith("h_")

    def ty(self, t): return self.types[t]

    def place_ty(self, f, place):
        """Type id of a place."""
        t = f.locals[place[0]]
        var = 0
        for e in place[1]:
            if e == "*":
                t = self.types[t].get("e")
                if t is None: return None
            elif e[0] == "f":
                t = e[2]
            elif e[0] == "d":
                pass
            elif e[0] in ("i", "ci"):
                t = self.types[t].get("e")
            else:
                return None
        return t

    def operand_ty(self, f, o):
        if o[0] == "c": return o[1]
        if o[0] in ("cp", "mv"): return self.place_ty(f, o[1])
        return None

    # ---- control flow ----
    @staticmethod
    def succs(term, unwind=True):
        k = term[0]
        r = []
        if k == "goto": r = [term[1]]
        elif k == "switch": r = [b for _, b in term[2]] + [term[3]]
        elif k == "drop":
            r = [term[2]]
            if unwind and isinstance(term[3], int): r.append(term[3])
        elif k == "call":
            r = [term[5]] if term[5] is not None else []
            if unwind and isinstance(term[6], int): r.append(term[6])
        elif k == "assert":
            r = [term[4]]
            if unwind and isinstance(term[5], int): r.append(term[5])
        return r

    def analyse(self, f):
        if f.heads is not None: return
        n = len(f.blocks)
        succ = [self.succs(b[1]) for b in f.blocks]
        color, heads = [0] * n, set()
        back, post = [], []
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color[v] == 1:
                    heads.add(v)
                    back.append((u, v))
                elif color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(succ[v])))
                    break
            else:
                color[u] = 2
                post.append(u)
                stack.pop()
        f.heads = heads
        f.rank = ranks(n, succ, back, post)
        # Liveness of locals at block entries; address-taken locals are always live while stored.
        taken = set()
        use, deff = [], []
        for st, t, _ in f.blocks:
            u, d = set(), set()
            def ruse(p):
                if p[0] not in d: u.add(p[0])
                for e in p[1]:
                    if isinstance(e, list) and e[0] == "i" and e[1] not in d: u.add(e[1])
            def op(o):
                if o[0] in ("cp", "mv"): ruse(o[1])
            def wr(p):
                if p[1]: ruse(p)
                else: d.add(p[0])
            for s in st:
                if s[0] == "=":
                    r = s[2]
                    k = r[0]
                    if k in ("ref", "addr"):
                        if "*" not in r[1][1]: taken.add(r[1][0])
                        ruse(r[1])
                    elif k in ("discr", "len"): ruse(r[1])
                    elif k == "use": op(r[1])
                    elif k == "agg":
                        for o in r[3]: op(o)
                    elif k in ("bin", "chk"): op(r[2]); op(r[3])
                    elif k == "cast": op(r[2])
                    elif k == "un": op(r[2])
                    elif k == "rep": op(r[1])
                    wr(s[1])
                elif s[0] == "sd": ruse(s[1])
            k = t[0]
            if k == "switch": op(t[1])
            elif k == "drop": ruse(t[1]); taken.add(t[1][0])
            elif k == "assert": op(t[1])
            elif k == "call":
                for a in t[3]: op(a)
                if t[7]: op(t[7])
                if t[4][1]: ruse(t[4])
                else: d.add(t[4][0])
            elif k == "ret":
                if 0 not in d: u.add(0)
            use.append(u); deff.append(d)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in succ[i]: o |= live[s]
                new = use[i] | (o - deff[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        f.live_in = live
        f.addr_taken = taken

def ranks(n, succ, back, post):
    """Position of every block in the order in which loops are brought to their fixpoints: inner loops
    before what follows them, and before another turn of the outer loop."""
    rpo = {b: len(post) - i for i, b in enumerate(post)}
    pred = [[] for _ in range(n)]
    for u in range(n):
        for v in succ[u]: pred[v].append(u)
    bodies = {}
    for u, h in back:
        body = bodies.setdefault(h, {h})
        work = [u]
        while work:
            x = work.pop()
            if x in body: continue
            body.add(x)
            work.extend(pred[x])
    out = []
    big = 1 << 30
    for b in range(n):
        hs = sorted((h for h in bodies if b in bodies[h]), key=lambda h: (-len(bodies[h]), rpo.get(h, 0)))
        key = []
        for h in hs: key.append(rpo.get(h, 0))
        key.append(big if b in bodies else rpo.get(b, 0))
        out.append(tuple(key))
    return out

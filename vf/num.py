"""Linear integer values over symbols, with bounds, and affine hulls for joins."""
from fractions import Fraction

class Infeasible(Exception):
    """The current abstract state is empty."""

class Lin:
    """c + sum of coef*sym; immutable; never constant (constants are plain ints)."""
    __slots__ = ("c", "t", "_h")
    def __init__(self, c, t):
        self.c = c
        self.t = t                    # tuple of (sym, coef), sorted, coefs nonzero, nonempty
        self._h = hash((c, t))
    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, Lin) and self.c == o.c and self.t == o.t
    def __repr__(self):
        s = " + ".join(("s%d" % a if k == 1 else "%d*s%d" % (k, a)) for a, k in self.t)
        return s + (" + %d" % self.c if self.c else "")

def mk(c, d):
    t = tuple(sorted((s, k) for s, k in d.items() if k))
    return Lin(c, t) if t else c

def terms(x):
    return x.t if isinstance(x, Lin) else ()

def const(x):
    return x.c if isinstance(x, Lin) else int(x)

def add(a, b, k=1):
    """a + k*b"""
    if not isinstance(a, Lin) and not isinstance(b, Lin):
        return int(a) + k * int(b)
    d = dict(terms(a))
    for s, q in terms(b):
        d[s] = d.get(s, 0) + k * q
    return mk(const(a) + k * const(b), d)

def scale(a, k):
    if not isinstance(a, Lin):
        return int(a) * k
    return mk(a.c * k, {s: q * k for s, q in a.t})

def sym(s):
    return Lin(0, ((s, 1),))

class Num:
    """Constraints on symbols: substitutions, bounds, and linear facts `lin >= 0`."""
    __slots__ = ("sub", "lo", "hi", "facts", "next")
    def __init__(self):
        self.sub, self.lo, self.hi, self.facts, self.next = {}, {}, {}, (), 0

    def copy(self):
        n = Num.__new__(Num)
        n.sub, n.lo, n.hi, n.facts, n.next = dict(self.sub), dict(self.lo), dict(self.hi), self.facts, self.next
        return n

    def fresh(self, lo=0, hi=None):
        s = self.next
        self.next += 1
        if lo is not None: self.lo[s] = lo
        if hi is not None: self.hi[s] = hi
        return sym(s)

    def norm(self, x):
        if not isinstance(x, Lin):
            return x
        sub = self.sub
        for s, _ in x.t:
            if s in sub:
                break
        else:
            return x
        c, d = x.c, {}
        work = list(x.t)
        while work:
            s, k = work.pop()
            v = sub.get(s)
            if v is None:
                d[s] = d.get(s, 0) + k
            elif isinstance(v, Lin):
                c += k * v.c
                work.extend((s2, k * k2) for s2, k2 in v.t)
            else:
                c += k * v
        return mk(c, d)

    def _ilo(self, x):
        if not isinstance(x, Lin): return int(x)
        r = x.c
        for s, k in x.t:
            b = self.lo.get(s) if k > 0 else self.hi.get(s)
            if b is None: return None
            r += k * b
        return r

    def _ihi(self, x):
        if not isinstance(x, Lin): return int(x)
        r = x.c
        for s, k in x.t:
            b = self.hi.get(s) if k > 0 else self.lo.get(s)
            if b is None: return None
            r += k * b
        return r

    def min(self, x):
        x = self.norm(x)
        r = self._ilo(x)
        if isinstance(x, Lin):
            for f in self.facts:
                f = self.norm(f)
                if isinstance(f, Lin):
                    q = self._ilo(add(x, f, -1))
                    if q is not None and (r is None or q > r): r = q
        return r

    def max(self, x):
        r = self.min(scale(self.norm(x), -1))
        return None if r is None else -r

    def assume_eq(self, a, b=0):
        x = self.norm(add(a, b, -1))
        if not isinstance(x, Lin):
            if x != 0: raise Infeasible()
            return
        lo, hi = self._ilo(x), self._ihi(x)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            raise Infeasible()
        if (lo == 0 or hi == 0) and len(x.t) > 1:
            # Every term is at its extreme.
            for s, v in [(s, self.lo.get(s) if (k > 0) == (lo == 0) else self.hi.get(s)) for s, k in x.t]:
                self.assume_eq(sym(s), v)
            return
        pick = None
        for s, k in x.t:
            if abs(k) == 1:
                # Prefer the oldest symbol that is unbounded above: a gap is replaced by its parts.
                key = (self.hi.get(s) is not None, self.lo.get(s) is not None, s)
                if pick is None or key < pick[0]:
                    pick = (key, s, k)
        if pick is None:
            if len(x.t) == 1:
                s, k = x.t[0]
                if x.c % k: raise Infeasible()
                pick = (None, s, k)
                val = -x.c // k
                self._subst(s, val)
                return
            self.facts = self.facts + (x, scale(x, -1))
            return
        _, s, k = pick
        rest = mk(x.c, {q: j for q, j in x.t if q != s})
        self._subst(s, scale(rest, -k))

    def _subst(self, s, val):
        lo, hi = self.lo.pop(s, None), self.hi.pop(s, None)
        self.sub[s] = val
        if lo is not None: self.assume_ge(add(val, lo, -1))
        if hi is not None: self.assume_ge(add(scale(val, -1), -hi, -1))
        if self.facts:
            fs, self.facts = self.facts, ()
            for f in fs: self.assume_ge(f)

    def assume_ge(self, x):
        """x >= 0"""
        x = self.norm(x)
        if not isinstance(x, Lin):
            if x < 0: raise Infeasible()
            return
        hi = self._ihi(x)
        if hi is not None:
            if hi < 0: raise Infeasible()
            if hi == 0:
                for s, v in [(s, self.hi[s] if k > 0 else self.lo[s]) for s, k in x.t]:
                    self.assume_eq(sym(s), v)
                return
        lo = self._ilo(x)
        if lo is not None and lo >= 0: return
        if len(x.t) == 1:
            s, k = x.t[0]
            if k > 0:
                b = -(x.c // k)          # ceil(-c/k)
                o = self.lo.get(s)
                if o is None or b > o: self.lo[s] = b
            else:
                b = x.c // (-k)
                o = self.hi.get(s)
                if o is None or b < o: self.hi[s] = b
            l, h = self.lo.get(s), self.hi.get(s)
            if l is not None and h is not None:
                if l > h: raise Infeasible()
                if l == h:
                    self._subst(s, l)
            return
        m = self.min(x)
        if m is not None and m >= 0: return
        m = self.max(x)
        if m is not None and m <= 0:
            if m < 0: raise Infeasible()
            self.assume_eq(x, 0)
            return
        if x not in self.facts:
            self.facts = self.facts + (x,)

# ---- affine spaces over the rationals: base vector and sparse directions {index: coefficient} ----

def _q(x):
    return x.numerator if x.__class__ is Fraction and x.denominator == 1 else x

def _elim(v, f, r):
    """v -= f*r, in place."""
    for j, b in r.items():
        a = v.get(j, 0) - f * b
        if a: v[j] = _q(a)
        else: v.pop(j, None)

def _reduce(vecs):
    """Reduced row echelon form of sparse vectors; returns {pivot: row}."""
    rows = {}
    for v in vecs:
        v = dict(v)
        for p in [p for p in v if p in rows]:
            f = v.get(p)
            if f: _elim(v, f, rows[p])
        if not v: continue
        j = min(v)
        inv = v[j]
        if inv == -1: v = {i: -a for i, a in v.items()}
        elif inv != 1: v = {i: _q(Fraction(a) / inv) for i, a in v.items()}
        for r in rows.values():
            f = r.get(j)
            if f: _elim(r, f, v)
        rows[j] = v
    return rows

def affine_of(vec):
    """vec: list of int/Lin (normalised). Returns (base, {pivot: row})."""
    dirs = {}
    base = []
    for i, x in enumerate(vec):
        base.append(const(x))
        for s, k in terms(x):
            d = dirs.get(s)
            if d is None: dirs[s] = {i: k}
            else: d[i] = k
    return base, _reduce(dirs.values())

def equations(base, rows):
    """The space as equations: for every index that is no pivot, (index, constant, [(pivot, coefficient)])."""
    cols = {}
    for p, r in rows.items():
        for j, a in r.items():
            if j != p: cols.setdefault(j, []).append((p, a))
    out = []
    for j in range(len(base)):
        if j in rows: continue
        ps = cols.get(j, ())
        c = base[j]
        for p, a in ps: c -= a * base[p]
        out.append((j, c, ps))
    return out

def satisfies(vec, eqs):
    for j, c, ps in eqs:
        x = vec[j]
        if not ps:
            if x.__class__ is Lin or x != c: return False
            continue
        k, d = c - const(x), {}
        for s, q in terms(x): d[s] = -q
        for p, a in ps:
            y = vec[p]
            k += a * const(y)
            for s, q in terms(y):
                z = d.get(s, 0) + a * q
                if z: d[s] = z
                else: d.pop(s, None)
        if k or d and any(d.values()): return False
    return True

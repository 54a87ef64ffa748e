#!/usr/bin/env python3
"""Generates /verif/harness/src/literals.rs: one entry `h_lit_*` per tree literal (C26).

The name of an entry says what the literal denotes: the depth of every node below the root, in document
order. The data of node k is `lit::<k>()`. The module imports nothing of the crate: a macro has to name
what it uses by itself. Compiled only with the feature "literals", never executed."""
import itertools, os

def forests(n):
    """All ordered forests of n nodes, as tuples of forests."""
    if n == 0: yield (); return
    for k in range(1, n + 1):
        for first in forests(k - 1):
            for rest in forests(n - k): yield (first,) + rest

def leaves(f): return sum(leaves(c) if c else 1 for c in f)
def depths(f, d=0): return "".join("0123456789abcdefghijklmnopqrstuvwxyz"[d] + depths(c, d + 1) for c in f)

def text(forest, forms, comma, count):
    """forms: for every leaf, whether it is written `/(d, [])`; comma(list index): whether a comma ends the list."""
    out = []
    for c in forest:
        k = next(count)
        d = "lit(%d)" % k
        if c: out.append("/(%s, [%s])" % (d, text(c, forms, comma, count)))
        elif next(forms): out.append("/(%s, [])" % d)
        else: out.append(d)
    return ", ".join(out) + ("," if out and comma() else "")

out = ["// Generated by tools/gen_literals.py; do not edit.", "use super::{lit, Data};", ""]
n = [0]
def entry(kind, forest, body, tag):
    ret = {"n": "::dendron::Node<Data>", "t": "::dendron::Tree<Data>"}[kind]
    mac = {"n": "tree_node", "t": "tree"}[kind]
    out.append("pub fn h_lit_%s_r%s_%s() -> %s { ::dendron::%s! { %s } }" % (kind, depths(forest), tag, ret, mac, body))
    n[0] += 1
def both(forest, forms, comma, end, tag):
    for kind in "nt":
        b = text(forest, iter(forms), comma, itertools.count(1))
        entry(kind, forest, "lit(0), [%s]%s" % (b, end), tag)
for kind in "nt": entry(kind, (), "lit(0)", "bare")
for size in range(0, 7):
    for f in forests(size):
        L = leaves(f)
        if size <= 4:
            for i, forms in enumerate(itertools.product((0, 1), repeat=L)):
                for c in (0, 1): both(f, forms, lambda c=c: c, "," if c else "", "%d%s" % (i, "c" if c else "p"))
        elif size == 5:
            both(f, (0,) * L, lambda: 0, "", "p")
            both(f, (1, 0) * L, lambda: 1, "", "c")
        else:
            a = itertools.cycle((0, 1, 1))
            both(f, (0, 0, 1) * L, lambda a=a: next(a), ",", "m")
# A few larger ones: deep, wide, and a comb.
def chain(k): return () if k == 0 else (chain(k - 1),)
def comb(k): return () if k == 0 else ((), comb(k - 1), ())
for f, t in ((chain(15), "deep"), (((),) * 20, "wide"), (comb(6), "comb"), ((chain(3), chain(1), chain(3), chain(2)), "uneven")):
    both(f, (0,) * 100, lambda: 0, "", t)
# Data that is more than a call: blocks, parenthesised, conditional and closed-over expressions.
EX = ["{ lit(%d) }", "(lit(%d))", "if true { lit(%d) } else { lit(99) }", "(|| lit(%d))()", "match () { () => lit(%d) }", "{ let root = lit(%d); let node = root; node }"]
for i, e in enumerate(EX):
    entry("n", ((()),), (e % 0) + ", [" + (e % 1) + "]", "x%d" % i)
    entry("t", (((),), ()), (e % 0) + ", [/(" + (e % 1) + ", [" + (e % 2) + "]), " + (e % 3) + "]", "x%d" % i)
# Names of the program that the macro uses too.
entry("n", (((),), ()), "root, [/(node, [parent]), lit(3)]", "names")
out[-1] = out[-1].replace("{ ::dendron", "{ let root = lit(0); let node = lit(1); let parent = lit(2); ::dendron")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "literals.rs"), "w").write("\n".join(out) + "\n")
print(len([o for o in out if o.startswith("pub fn")]), "literals")

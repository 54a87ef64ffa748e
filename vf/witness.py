"""C24: compile-fail witnesses with compiling twins, and the crate built with unsafe code forbidden.

Each obligation is a program that must be rejected by the type checker with a given error code,
paired with a twin that differs only in the offending construct and must be accepted."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import build

PRE = '''#![allow(warnings)]
use dendron::node::*; use dendron::serial::*; use dendron::traverse::*; use dendron::tree::*;
use dendron::{AdoptAs, FrozenNode, HierarchyError, HotNode, InsertAs, Node, NodeWeak, Tree, TreeWeak};
use dendron::{HierarchyEditGrant, HierarchyEditProhibition};
fn send<T: Send>() {} fn sync<T: Sync>() {} fn any<T>() {} fn val<T>(_: T) {}
type G = HierarchyEditGrant<u8>; type P = HierarchyEditProhibition<u8>;
'''

HANDLES = ["Node<u8>", "FrozenNode<u8>", "HotNode<u8>", "NodeWeak<u8>", "Tree<u8>", "TreeWeak<u8>",
           "HierarchyEditGrant<u8>", "HierarchyEditProhibition<u8>", "DftEvent<Node<u8>>",
           "DftEvent<FrozenNode<u8>>", "DftEvent<HotNode<u8>>", "AncestorsTraverser<u8>",
           "SiblingsTraverser<u8>", "ReverseSiblingsTraverser<u8>", "StableSiblingsTraverser<u8>",
           "DepthFirstTraverser<u8>", "ReverseDepthFirstTraverser<u8>", "StableDepthFirstTraverser<u8>",
           "StableShallowDepthFirstTraverser<u8>", "AllocatingBreadthFirstTraverser<u8>",
           "NonAllocatingBreadthFirstTraverser<u8>", "TreeBuilder<u8>", "TreeSerializeIter<u8>",
           "InsertAs<&'static Node<u8>>", "InsertAs<HotNode<u8>>"]

# Edits a plain node offers: name, arguments after the grant, for the hot form the same arguments.
EDITS = [("detach_subtree", ""), ("try_create_node_as", "1, AdoptAs::LastChild"), ("create_node_as", "1, AdoptAs::LastChild"),
         ("create_as_first_child", "1"), ("create_as_last_child", "1"), ("try_create_as_prev_sibling", "1"),
         ("create_as_prev_sibling", "1"), ("try_create_as_next_sibling", "1"), ("create_as_next_sibling", "1"),
         ("create_as_interrupting_parent", "1"), ("create_as_interrupting_child", "1"),
         ("try_replace_with_children", ""), ("replace_with_children", ""),
         ("try_detach_insert_subtree", "InsertAs::LastChildOf(h)"), ("detach_insert_subtree", "InsertAs::LastChildOf(h)")]

def obligations():
    o = []
    def add(name, bad, good, codes, rule):
        o.append((name, bad, good, codes, rule))
    for t in HANDLES:
        add("not_send:" + t, "fn f() { send::<%s>() }" % t, "fn f() { any::<%s>() }" % t, ["E0277"], "not Send")
        add("not_sync:" + t, "fn f() { sync::<%s>() }" % t, "fn f() { any::<%s>() }" % t, ["E0277"], "not Sync")
        r = "&'static " + t
        add("ref_not_send:" + t, "fn f() { send::<%s>() }" % r, "fn f() { any::<%s>() }" % r, ["E0277"], "reference not Send")
    sig = "fn f(n: %s, g: &G, p: &P, h: &HotNode<u8>, z: &FrozenNode<u8>, m: &Node<u8>) { %s; }"
    for name, args in EDITS:
        ga = "g" + (", " + args if args else "")
        pa = "p" + (", " + args if args else "")
        good = sig % ("&Node<u8>", "n.%s(%s)" % (name, ga))
        hot = sig % ("&HotNode<u8>", "n.%s(%s)" % (name, args))
        add("plain_no_grant:" + name, sig % ("&Node<u8>", "n.%s(%s)" % (name, args)), good, ["E0061", "E0308"], "a plain node's edit needs a grant")
        add("plain_prohibition:" + name, sig % ("&Node<u8>", "n.%s(%s)" % (name, pa)), good, ["E0308"], "a prohibition is no grant")
        add("plain_hot_as_grant:" + name, sig % ("&Node<u8>", "n.%s(%s)" % (name, "h" + (", " + args if args else ""))), good, ["E0308"], "a node is no grant")
        add("frozen_no_edit:" + name, sig % ("&FrozenNode<u8>", "n.%s(%s)" % (name, args)), hot, ["E0599"], "frozen nodes offer no edit")
        add("frozen_no_edit_with_grant:" + name, sig % ("&FrozenNode<u8>", "n.%s(%s)" % (name, ga)), good, ["E0599"], "frozen nodes offer no edit")
        add("weak_no_edit:" + name, sig % ("&NodeWeak<u8>", "n.%s(%s)" % (name, ga)), good, ["E0599"], "weak references offer no edit")
        add("tree_no_edit:" + name, sig % ("&Tree<u8>", "n.%s(%s)" % (name, ga)), good, ["E0599"], "tree references offer no edit")
    for name in ["try_detach_insert_subtree", "detach_insert_subtree"]:
        for v in ["FirstChildOf", "LastChildOf", "PreviousSiblingOf", "NextSiblingOf"]:
            for d in ["z", "m", "p", "g"]:
                add("dest_hot:%s:%s:%s" % (name, v, d), sig % ("&Node<u8>", "n.%s(g, InsertAs::%s(%s))" % (name, v, d)),
                    sig % ("&Node<u8>", "n.%s(g, InsertAs::%s(h))" % (name, v)), ["E0308"], "destinations are hot nodes")
    for name in ["try_clone_insert_subtree"]:
        for k in ["Node", "FrozenNode", "HotNode"]:
            for d in ["z", "m"]:
                add("clone_dest_hot:%s:%s:%s" % (name, k, d), sig % ("&%s<u8>" % k, "n.%s(InsertAs::LastChildOf(%s))" % (name, d)),
                    sig % ("&%s<u8>" % k, "n.%s(InsertAs::LastChildOf(h))" % name), ["E0308"], "destinations are hot nodes")
    fr, ho, pl = "FrozenNode<u8>", "HotNode<u8>", "Node<u8>"
    # No conversion leads from a plain, frozen or weak reference to a capability to edit.
    srcs = ["Node<u8>", "FrozenNode<u8>", "NodeWeak<u8>", "Tree<u8>", "TreeWeak<u8>", "HierarchyEditProhibition<u8>"]
    for s in srcs:
        for d in ["HotNode<u8>", "HierarchyEditGrant<u8>"]:
            for form in ["{S}", "&'static {S}", "&'static mut {S}"]:
                ss = form.format(S=s)
                for b in ["Into<%s>" % d, "AsRef<%s>" % d, "core::borrow::Borrow<%s>" % d, "core::ops::Deref<Target = %s>" % d]:
                    good = "fn t<X: %s>() {} fn f() { any::<%s>() }" % (b, ss)
                    add("no_conv:%s:%s" % (ss, b), "fn t<X: %s>() {} fn f() { t::<%s>() }" % (b, ss), good, ["E0277", "E0271"], "no infallible conversion to an edit capability")
    for s, d in [("HotNode<u8>", "FrozenNode<u8>"), ("HotNode<u8>", "HierarchyEditProhibition<u8>"),
                 ("HierarchyEditGrant<u8>", "HierarchyEditProhibition<u8>"), ("Node<u8>", "FrozenNode<u8>")]:
        add("no_conv:%s:%s" % (s, d), "fn t<X: Into<%s>>() {} fn f() { t::<%s>() }" % (d, s),
            "fn t<X: Into<%s>>() {} fn f() { t::<%s>() }" % (s, s), ["E0277"], "locks of opposite kinds are not interchangeable")
    # Bundling takes the matching lock.
    add("bundle_grant", sig % (pl, "n.bundle_hierarchy_edit_grant(p)"), sig % (pl, "n.bundle_hierarchy_edit_grant(g)"), ["E0308"], "hot nodes are bundled with grants")
    add("bundle_prohibition", sig % (pl, "n.bundle_hierarchy_edit_prohibition(g)"), sig % (pl, "n.bundle_hierarchy_edit_prohibition(p)"), ["E0308"], "frozen nodes are bundled with prohibitions")
    add("frozen_extract_grant", sig % ("&" + fr, "n.extract_hierarchy_edit_grant()"), sig % ("&" + ho, "n.extract_hierarchy_edit_grant()"), ["E0599"], "a frozen node holds no grant")
    add("hot_extract_prohibition", sig % ("&" + ho, "n.extract_hierarchy_edit_prohibition()"), sig % ("&" + fr, "n.extract_hierarchy_edit_prohibition()"), ["E0599"], "a hot node holds no prohibition")
    add("builder_root_hot", sig % (fr, "TreeBuilder::with_root(n)"), sig % (ho, "TreeBuilder::with_root(n)"), ["E0308"], "building into a tree needs a hot root")
    add("builder_root_plain", sig % (pl, "TreeBuilder::with_root(n)"), sig % (ho, "TreeBuilder::with_root(n)"), ["E0308"], "building into a tree needs a hot root")
    # Locks are not made out of nothing.
    add("grant_literal", "fn f(t: Tree<u8>) { let g: G = Default::default(); }", "fn f(t: Tree<u8>) { let g: G = t.grant_hierarchy_edit().ok().unwrap(); }", ["E0277"], "a grant comes from a tree")
    add("prohibition_literal", "fn f(t: Tree<u8>) { let g: P = Default::default(); }", "fn f(t: Tree<u8>) { let g: P = t.prohibit_hierarchy_edit().ok().unwrap(); }", ["E0277"], "a prohibition comes from a tree")
    add("prohibition_clone", "fn f(p: &P) { let g: P = p.clone(); }", "fn f(p: &P) { let g: P = p.try_clone().ok().unwrap(); }", ["E0308"], "cloning a prohibition can fail")
    for t in ["G", "P", "Node<u8>", "HotNode<u8>", "FrozenNode<u8>", "Tree<u8>", "NodeWeak<u8>", "TreeWeak<u8>"]:
        add("no_copy:" + t, "fn t<X: Copy>() {} fn f() { t::<%s>() }" % t, "fn t<X>() {} fn f() { t::<%s>() }" % t, ["E0277"], "counted references are not Copy")
    # Borrowed data does not outlive the node reference.
    for k in ["Node", "FrozenNode", "HotNode"]:
        for m, r in [("borrow_data", "core::cell::Ref"), ("borrow_data_mut", "core::cell::RefMut")]:
            add("borrow_lifetime:%s:%s" % (k, m), "fn f<'a>(n: %s<u8>) -> %s<'a, u8> { n.%s() }" % (k, r, m),
                "fn f<'a>(n: &'a %s<u8>) -> %s<'a, u8> { n.%s() }" % (k, r, m), ["E0515"], "borrowed data is tied to the node reference")
    return o

def run():
    """Returns (coverage, violations)."""
    viol = []
    # The crate with unsafe code forbidden from the command line: an inner `allow` is an error too.
    lib, deps = build.rlib()
    d = os.path.join(build.scratch(), "w")
    os.makedirs(d, exist_ok=True)
    repo_lib = os.path.join(build.REPO, "src", "lib.rs")
    unsafe_ok = 0
    for feat in (["--cfg", 'feature="std"'], []):
        p = build.run(["rustc", "--edition", "2021", "--crate-name", "dendron", "--crate-type", "rlib", "--emit=metadata", "-Funsafe_code",
                       "-Awarnings", "-o", os.path.join(d, "u.rmeta")] + feat + [repo_lib], d, check=False)
        if p.returncode == 0:
            unsafe_ok += 1
        else:
            m = re.search(r"--> (\S+?):\d+", p.stdout)
            viol.append({"key": "unsafe_code", "what": "the crate does not build with unsafe code forbidden (at %s): %s" % (m.group(1) if m else "?", p.stdout[:400])})
    obs = obligations()
    def one(iob):
        i, (name, bad, good, codes, rule) = iob
        res = []
        for k, body in (("bad", bad), ("good", good)):
            f = os.path.join(d, "%s%d.rs" % (k, i))
            open(f, "w").write(PRE + body + "\n")
            p = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "--extern", "dendron=" + lib,
                                "-L", "dependency=" + deps, "-o", f + ".rmeta", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)
            res.append((p.returncode, sorted(set(re.findall(r"error\[(E\d+)\]", p.stdout))), p.stdout))
        return name, bad, good, codes, rule, res
    ok, stale, rules, samples = 0, [], {}, []
    with ThreadPoolExecutor(8) as ex:
        for name, bad, good, codes, rule, res in ex.map(one, enumerate(obs)):
            (rb, eb, ob), (rg, eg, og) = res
            if rg != 0:
                # The twin no longer compiles: the witness says nothing any more.
                stale.append(name)
                continue
            if rb == 0:
                viol.append({"key": "accepted:" + name, "what": "%s: the type checker accepts `%s`" % (rule, bad), "program": PRE + bad})
            elif not set(eb) & set(codes):
                stale.append(name)
            else:
                ok += 1
                rules[rule] = rules.get(rule, 0) + 1
                if len(samples) < 6:
                    samples.append({"witness": name, "rejected": bad, "with": eb, "accepted twin": good})
    if len(stale) > 0:
        viol.append({"key": "stale:" + ",".join(sorted(stale))[:200], "what": "witnesses that no longer say anything (twin rejected, or another error): %s" % stale[:10]})
    cov = {"explanation": "Type-level witnesses: %d programs that must be rejected with a named error code, each with a compiling twin; %d rejected as required. The crate was type-checked with unsafe code forbidden from the command line in %d of 2 feature sets." % (len(obs), ok, unsafe_ok),
           "obligations": len(obs) + 2, "discharged": ok + unsafe_ok, "per_rule": rules, "samples": samples}
    return cov, viol

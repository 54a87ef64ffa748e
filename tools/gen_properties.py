#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

EDIT = "src/node/edit.rs"
INT = "src/node/internal.rs"
MEM = "src/node/membership.rs"
PLAIN, FROZEN, HOT = "src/node/plain.rs", "src/node/frozen.rs", "src/node/hot.rs"
TREE, LOCK, SER = "src/tree.rs", "src/tree/lock.rs", "src/serial.rs"
DFS, SIB, ANC, BFS = "src/traverse/depth_first.rs", "src/traverse/siblings.rs", "src/traverse/ancestors.rs", "src/traverse/breadth_first.rs"

prop("C01", "Neighbor links stay mutually consistent after every hierarchy edit",
 "After any hierarchy edit completes, in every tree involved: a node is in its parent's child list exactly once, walking the children forward from the first child and backward from the last child gives the same sequence reversed, every child reports that parent, and the first and the last child, first and last sibling queries agree with that sequence. A node that is a root has no parent and no siblings.",
 ["inputs", "histories"], "every tree shape, every position of the nodes involved in it, every public edit operation, after any history of edits",
 "The tests build a handful of small trees and compare printed or serialized output, which walks the forward links only; wrong backward or last-sibling links for a particular neighborhood stay invisible until a later operation uses them.",
 [EDIT, INT, TREE],
 [("edit algorithms (unlink, insert, interrupt, replace with children)", "src/node/edit.rs: OrphanRoot and the free functions"), ("link primitives", "src/node/internal.rs: NodeCoreLink::replace_*"), ("root link of the tree", "src/tree.rs: TreeCore::replace_root")],
 [("neighbor links of a node", "parent, first child, next sibling, cyclic previous sibling")])

prop("C02", "The number of children a node reports is the number it has",
 "After any hierarchy edit completes (successfully or not), the number of children every node reports equals the number of nodes in its child list, and the queries derived from it (has children, has exactly one, has multiple, counting by walking) agree with it.",
 ["inputs", "histories"], "every tree shape and number of children, every public edit operation",
 "The count is stored separately from the links; a path that updates one and not the other is only visible for the specific shape that takes that path, and tests sample a few shapes.",
 [EDIT, INT, PLAIN],
 [("stored child count updates", "src/node/edit.rs: num_children_add/num_children_sub/num_children_cell().set call sites"), ("count queries", "src/node/plain.rs, frozen.rs, hot.rs: num_children, has_children, has_one_child, has_multiple_children, count_children")])

prop("C03", "An edit puts the subtree exactly where asked and changes nothing else",
 "A successful creation, insertion, move, detachment, interruption or replacement puts the affected node (with its whole unchanged subtree) at exactly the position that the operation and its destination name, with the documented effect on its neighbors. The order and the parents of all other nodes of every tree stay as they were.",
 ["inputs", "histories"], "every tree shape, every pair of node and destination positions (adjacent, same parent, ancestor, other tree ...), every edit operation",
 "The number of relative positions of the two nodes and of neighborhoods (first, last, only child, adjacent siblings) is far larger than the sampled ones, and effects on bystanders are not compared.",
 [EDIT, PLAIN, HOT, "src/anchor.rs"],
 [("insertion and unlinking algorithms", "src/node/edit.rs"), ("public edit operations", "src/node/plain.rs and src/node/hot.rs: create_*, detach_*, replace_with_children"), ("destination mapping", "src/anchor.rs: InsertAs")])

prop("C04", "Every node belongs to exactly the tree whose root is its topmost ancestor",
 "After any edit, each node in the hierarchy under a tree's root reports that tree as its own, and that tree's root is the node reached by going up to the parents. A detached or moved subtree belongs, as a whole, to the new tree, and no node outside the subtree changes its tree.",
 ["inputs", "histories"], "every subtree size and shape, every edit that moves nodes between trees",
 "Membership is stored per node and updated by a walk over the subtree; tests look at few nodes of small subtrees, so a node skipped by the walk or a stale tree root goes unnoticed.",
 [EDIT, MEM, TREE],
 [("membership update of a subtree", "src/node/edit.rs: set_memberships_of_descendants_and_self"), ("membership of a node", "src/node/membership.rs: MembershipRef::set_tree_core"), ("root of the tree", "src/tree.rs: TreeCore::{new_rc,replace_root,root_link}")])

prop("C05", "Invalid edits are rejected with the documented error and change nothing",
 "An edit whose result would not be a tree (moving a node into its own subtree, giving a root siblings, emptying a tree by replacing a childless root or moving its root elsewhere, replacing a root that has several children) returns the documented error, and every other edit succeeds. A rejected edit leaves every tree, every child count, every membership and every lock as it was.",
 ["inputs", "histories"], "every tree shape and every pair of node and destination positions",
 "Whether an edit is invalid depends on an ancestor relation of unbounded depth, and a failed edit is only visible as partial damage to a neighborhood that tests of error cases do not inspect.",
 [EDIT, PLAIN, HOT, "src/node.rs"],
 [("validity tests before modification", "src/node/edit.rs: detach_and_move_*, parent_of_destination, try_replace_with_children, OrphanRoot::insert"), ("error type", "src/node.rs: HierarchyError")])

prop("C06", "Edit grants and edit prohibitions of a tree never coexist",
 "While at least one edit prohibition (or node bundled with one) of a tree is alive, acquiring an edit grant for that tree fails, and the other way around; acquiring succeeds whenever no opposite lock is alive. A failed acquisition changes no lock state.",
 ["histories"], "every number of live grants, prohibitions and bundled nodes of each kind, after any history of acquisitions, clones and releases",
 "Tests acquire one or two locks; the lock count is a signed counter shared by tree-level locks and per-node aggregated locks, and its sign must be right for every count.",
 [LOCK, MEM, TREE, PLAIN],
 [("lock counter", "src/tree/lock.rs: HierarchyLockManager"), ("per-node lock aggregation", "src/tree/lock.rs: LockAggregatorForNode"), ("public acquisition", "src/tree.rs: prohibit_hierarchy_edit, grant_hierarchy_edit; src/node/plain.rs: bundle_*")])

prop("C07", "Every acquired lock is released exactly once, on the right tree",
 "Creating, cloning or converting a grant, a prohibition or a bundled node adds exactly one lock to the accounting of its tree, and dropping, unbundling or consuming it removes exactly that one; when all of them are gone the tree can be locked either way again. When a subtree moves to another tree, the locks held by its nodes move with it.",
 ["histories"], "every history of acquiring, cloning, converting, moving, dropping, including operations that fail midway",
 "A leak or a double release shows only for a particular mix of clones, conversions and failures, many operations later.",
 [LOCK, MEM, HOT, FROZEN, EDIT],
 [("clone/drop of bundled nodes", "src/node/frozen.rs and src/node/hot.rs: Clone, Drop, plain, From"), ("aggregation", "src/tree/lock.rs: LockAggregatorForNode"), ("lock transfer", "src/node/membership.rs: set_tree_core; src/tree/lock.rs: transfer_single_lock_to")])

prop("C08", "Hierarchies change only under a live edit grant for that very tree",
 "Every operation that changes a hierarchy requires an edit grant (or a node bundled with one) of the tree it changes; given a grant of another tree it panics before changing anything. Queries, traversals, comparisons, clones of subtrees into new trees and printing never change an existing hierarchy.",
 ["inputs", "programs"], "every public operation of the crate with every combination of grant and nodes",
 "Tests exercise a few operations with a wrong grant; the guarantee is about all of them, and about the absence of changes before the panic.",
 [PLAIN, HOT, EDIT, LOCK],
 [("grant validation", "src/tree/lock.rs: HierarchyEditGrant::panic_if_invalid_for_node; call sites in src/node/plain.rs"), ("hierarchy-changing internals", "src/node/edit.rs")])

prop("C09", "A tree lives exactly as long as some node or tree reference to it",
 "As long as any node reference or tree reference to a tree is alive, the whole tree is; when the last one is dropped the tree and all its nodes are released. Each creation, clone and drop of a reference changes the count of references by exactly one.",
 ["histories"], "every history of creating, cloning, moving between trees, downgrading and dropping references",
 "Leaks and premature releases depend on exact counts for specific histories and are not observed by output-comparing tests.",
 [INT, MEM, TREE, PLAIN],
 [("reference counting of the tree per node", "src/node/membership.rs: increment_tree_refcount, increment_nonzero_tree_refcount, decrement_tree_refcount"), ("node reference", "src/node/internal.rs: NodeLink Clone/Drop/new"), ("tree reference", "src/tree.rs: Tree, TreeCore")])

prop("C10", "Releasing a tree needs bounded stack, whatever the tree's size",
 "Dropping the last reference to a tree releases every node without recursion whose depth grows with the number of nodes, the depth of the tree or the number of siblings.",
 ["inputs"], "every tree shape and size", "A stack overflow needs very large trees of a particular shape; tests use one or none.",
 [TREE, INT],
 [("iterative release", "src/tree.rs: impl Drop for TreeCore")])

prop("C11", "Weak references upgrade exactly while the target is alive, and never panic",
 "Upgrading a weak node or tree reference gives a reference to the original node or tree while some reference keeps that tree alive, and nothing afterwards; it never panics, not even from a destructor of node data that runs while the tree is being released.",
 ["histories"], "every history and every point in time, including while the tree is being released",
 "The moment of release is only reachable from user-defined destructors, which tests do not have.",
 [PLAIN, TREE, INT, MEM],
 [("weak upgrade", "src/node/plain.rs: NodeWeak::upgrade; src/tree.rs: TreeWeak::upgrade"), ("release", "src/node/membership.rs: decrement_tree_refcount; src/tree.rs: Drop")])

prop("C12", "Depth-first traversals visit exactly the subtree, in document order",
 "A depth-first traversal of a node yields, for each node of its subtree and no other, exactly one opening and one closing event, in document order and properly nested, then ends; the reverse traversal yields exactly the mirrored sequence. Skipping the rest of the current node goes directly past the closing event of the node that is open.",
 ["inputs"], "every tree shape and every starting node (root or not, with or without following siblings)",
 "Going up from the last sibling at any depth and stopping at the start node must be right for all shapes; tests walk a few fixed trees.",
 [DFS, PLAIN, FROZEN, HOT],
 [("event stepping", "src/traverse/depth_first.rs: DftEvent::{next,prev,close_current}"), ("iterators", "src/traverse/depth_first.rs: DepthFirstTraverser, ReverseDepthFirstTraverser, StableDepthFirstTraverser")])

prop("C13", "Double-ended traversals yield each item once, however the ends interleave",
 "A traversal that can be advanced from both ends yields, over any interleaving of the two, every item of the forward sequence exactly once, from the front in order and from the back in reverse order, and then ends.",
 ["inputs", "histories"], "every sibling list or subtree, every interleaving of front and back steps",
 "The meeting point depends on the interleaving; the tests consume from one end or alternate on one tree.",
 [SIB, DFS],
 [("stable sibling iterator", "src/traverse/siblings.rs: StableSiblingsTraverser"), ("stable depth-first iterator", "src/traverse/depth_first.rs: StableDepthFirstTraverser")])

prop("C14", "Breadth-first traversals visit the subtree level by level",
 "Both breadth-first traversals yield every node of the subtree exactly once, ordered by depth and then by document order, with the right depth.",
 ["inputs"], "every tree shape", "Shapes with empty and uneven levels are not all sampled.",
 [BFS], [("queue-less and queued breadth-first iterators", "src/traverse/breadth_first.rs")])

prop("C15", "Depth-limited traversals visit exactly the nodes within the limit",
 "A depth-limited depth-first traversal yields the events of exactly those nodes of the subtree whose depth does not exceed the limit, in document order, each with its depth.",
 ["inputs"], "every tree shape and every limit including none", "Combinations of limit and shape are sampled.",
 [DFS], [("depth-limited iterator", "src/traverse/depth_first.rs: StableShallowDepthFirstTraverser")])

prop("C16", "Peeking, size hints and exhaustion of traversals tell the truth",
 "For every traversal, the peeked item is the item that the next step yields, the number of remaining items is never below the lower nor above the upper bound of the size hint, and once it ended it stays ended.",
 ["inputs", "histories"], "every traversal, tree shape and number of steps taken", "Tests check hints at a few points of one tree.",
 [DFS, SIB, ANC, BFS], [("iterator implementations", "src/traverse/*.rs: peek, size_hint, FusedIterator impls")])

prop("C17", "Plain, frozen and hot nodes answer alike and keep their kind of lock",
 "Every query, neighbor accessor, traversal and edit available on more than one node kind has the same result on each of them. Neighbors obtained from a bundled node are bundled with the same kind of lock, and each of them holds one lock on the same tree.",
 ["inputs", "programs"], "every operation shared by the three node types, every tree shape",
 "There are some sixty operations per type, mostly hand-written delegations; a delegation to the wrong neighbor is caught only if that operation of that type is tested on a distinguishing shape.",
 [PLAIN, FROZEN, HOT], [("delegating methods", "src/node/frozen.rs, src/node/hot.rs"), ("bundling", "src/node/plain.rs: bundle_*")])

prop("C18", "The tree builder builds the tree its events describe, or rejects them",
 "For every sequence of events, the builder accepts exactly the well-formed prefixes: the first accepted event opens the root, an opening event adds a new last child of the node that is open, a closing event closes as many open nodes as asked and never goes above the root of the tree being built. A rejected event changes nothing and reports the documented error.",
 ["inputs", "histories"], "every sequence of open and close events with every closing level, also when building below an existing node",
 "Sequences are unbounded, and misnested ones are not exercised.",
 [SER], [("builder", "src/serial.rs: TreeBuilder::{open,close,finish,push_event}"), ("serializer", "src/serial.rs: TreeSerializeIter")],)

prop("C19", "Equality compares shape and data, and nothing else",
 "Two subtrees or trees are equal exactly when they have the same shape and the data of corresponding nodes are equal; what surrounds the subtrees does not matter. Comparing reports a borrowing conflict rather than an arbitrary answer, and compares corresponding data in document order.",
 ["inputs"], "every pair of subtrees (same tree, overlapping, of different trees), every outcome of the data comparisons",
 "Tests compare a few pairs, mostly equal ones.",
 [INT, PLAIN, TREE, FROZEN, HOT], [("comparison", "src/node/internal.rs: NodeCoreLink::try_eq"), ("PartialEq impls", "src/node/plain.rs, frozen.rs, hot.rs; src/tree.rs")])

prop("C20", "Cloning a subtree copies exactly its shape and data, sharing nothing",
 "Cloning a subtree visits the data of each node of the subtree once, in document order, and creates a new node for each with the same shape in a new tree or at the given destination; the source is not changed. If some data cannot be borrowed the clone fails and nothing has changed.",
 ["inputs"], "every subtree shape, every destination, also inside the cloned subtree",
 "Destinations inside the source and borrowing failures in the middle are not sampled.",
 [EDIT, SER, PLAIN], [("clone", "src/node/plain.rs: try_clone_subtree; src/node/edit.rs: try_clone_insert_subtree"), ("event round trip", "src/serial.rs")])

prop("C21", "User code never runs while the crate's internals are borrowed or inconsistent",
 "Whenever an operation runs code supplied by the user (clone, comparison, formatting, destructors of node data, iterators and closures passed in), no internal state is borrowed and all hierarchies are consistent, so that code may use the trees freely without a panic or wrong result; panics unwinding from such code leave consistent trees.",
 ["programs", "histories"], "every operation that can run user code, every point where it runs it, also by unwinding",
 "Needs user types whose trait impls re-enter the crate; the tests use plain integers and strings.",
 [EDIT, MEM, TREE, INT], [("release of trees", "src/node/membership.rs: decrement_tree_refcount; src/tree.rs: Drop"), ("edits that may release a tree", "src/node/edit.rs: detach_*")])

prop("C22", "An infallible variant panics exactly when its fallible twin fails",
 "Each operation that comes in a fallible and a panicking form has the same effect in both when it succeeds, and the panicking form panics exactly when the fallible one reports an error; no operation panics on valid input.",
 ["inputs"], "every pair of operations, every tree shape and position", "Panicking variants are tested on success only.",
 [PLAIN, HOT, FROZEN, TREE], [("panicking wrappers", "src/node/plain.rs, hot.rs, frozen.rs: non-try_ methods")])

prop("C23", "Printing for debugging never panics, blocks or changes anything",
 "Printing a node, subtree or tree in any debugging format completes without panicking even while the data of any node is mutably borrowed, and changes no hierarchy, data or lock.",
 ["inputs", "histories"], "every printable type and format, every set of outstanding borrows of node data",
 "Tests print trees without outstanding borrows.",
 ["src/node/debug_print.rs", "src/node/debug_print/debug.rs", "src/node/debug_print/pretty.rs", "src/tree/debug_print.rs", PLAIN, FROZEN, HOT],
 [("printers", "src/node/debug_print/*.rs, src/tree/debug_print.rs"), ("Debug impls", "src/node/*.rs, src/tree.rs")])

prop("C24", "The type system keeps frozen nodes uneditable and trees on one thread",
 "A frozen node offers no operation that edits a hierarchy and a plain node offers none without a grant; grants and prohibitions are not interchangeable; no reference to a tree or node can be sent to or shared with another thread; the crate contains no unsafe code.",
 ["programs"], "every program using the crate", "That a program must not compile is not expressible in ordinary tests.",
 [FROZEN, HOT, PLAIN, LOCK, "src/lib.rs"], [("method sets and auto traits", "src/node/*.rs, src/tree.rs, src/tree/lock.rs"), ("forbid(unsafe_code)", "src/lib.rs")])

prop("C25", "Position-taking operations agree with the specific ones",
 "Creating a node at a position given as a value has the same effect and error as the operation named after that position, on every node kind; mapping or borrowing a position value keeps its kind.",
 ["inputs"], "every position value, every tree shape", "Only some positions are tested, on some node kinds.",
 ["src/anchor.rs", EDIT, PLAIN, HOT], [("dispatch", "src/node/edit.rs: try_create_node_as, OrphanRoot::insert; src/anchor.rs: InsertAs::try_create_node and siblings")])

prop("C26", "The tree-literal macro builds the tree as written",
 "A tree written as a literal with the crate's macro has exactly the written nesting, order and data.",
 ["programs"], "every literal", "Literals are unbounded token trees; a few are tested.",
 ["src/macros.rs"], [("macro", "src/macros.rs")])

prop("C27", "Ancestor, child and sibling traversals yield exactly the right nodes in order",
 "The traversals over ancestors, children and (preceding, following or all) siblings, forward and reverse, with or without the node itself, yield exactly the nodes their name says, in the documented order, and end.",
 ["inputs"], "every tree shape and position of the starting node", "Fixed trees only; the node kinds and variants are not all covered.",
 [SIB, ANC, PLAIN, FROZEN, HOT], [("iterators", "src/traverse/siblings.rs, src/traverse/ancestors.rs"), ("constructors", "src/node/plain.rs, frozen.rs, hot.rs: children, siblings, preceding_*, following_*, ancestors*")])

prop("C28", "Navigation queries tell the truth and leave no trace",
 "Parent, root, first and last and neighboring sibling, first and last child, the corresponding existence and counting queries, identity and same-tree tests return what the hierarchy says, and apart from the references they return they change no state.",
 ["inputs"], "every tree shape and position of the node", "Tests query a few nodes of fixed trees.",
 [PLAIN, INT, FROZEN, HOT, TREE], [("queries", "src/node/plain.rs, src/node/internal.rs")])

prop("C29", "Node data is independent of the hierarchy",
 "No hierarchy operation reads, borrows, replaces or drops the data of a live node, except cloning and comparing, which only borrow shared; so edits and queries work while data is borrowed. Borrowing data fails only on a conflicting outstanding borrow of the same node's data and otherwise gives access to exactly that node's data.",
 ["inputs", "histories"], "every operation, every set of outstanding data borrows", "Tests rarely hold a data borrow across an operation.",
 [EDIT, INT, PLAIN, FROZEN, HOT], [("data cell", "src/node/internal.rs: NodeCoreLink::{borrow_data,try_borrow_data,borrow_data_mut,try_borrow_data_mut}")])

prop("C30", "Serialising a subtree yields exactly the events that rebuild it",
 "The events produced from a node's subtree are, in document order, one opening with a clone of the data per node and closings that add up to the nesting, so that a builder fed with them builds an equal tree; a node whose data is mutably borrowed yields an error instead, and nothing is changed.",
 ["inputs", "histories"], "every shape of the subtree and position of the node, every set of outstanding data borrows", "A few fixed trees are serialised, without borrows.",
 ["src/serial.rs", PLAIN, FROZEN, HOT], [("serialising iterator", "src/serial.rs: TreeSerializeIter"), ("event conversions", "src/serial.rs: TryFrom<DftEvent<..>> for Event")])

prop("C31", "A cloned traversal is independent and goes on where the original stands",
 "Cloning a traversal at any point of its run gives a traversal that yields exactly what the original would have yielded from there, and neither is affected by advancing the other.",
 ["inputs", "histories"], "every kind of traversal, tree shape and point of the run", "No test clones a traversal that is under way.",
 ["src/traverse/siblings.rs", "src/traverse/ancestors.rs", "src/traverse/depth_first.rs", "src/traverse/breadth_first.rs"], [("Clone impls", "src/traverse/*.rs: Clone for *Traverser, DftEvent, QueuedEvent")])

prop("C32", "Debug output shows each node of what is printed exactly once, in document order",
 "Printing a subtree or a tree (nested or pretty, for debugging or display) formats the data of every node of it exactly once, in document order, and of no other node; only data that is mutably borrowed elsewhere is left out, and the nodes below are still shown. Printing a node by itself formats the data of that node and no other.",
 ["inputs", "histories"], "every tree shape, printed node and set of outstanding borrows of node data",
 "Tests compare a few printed trees without outstanding borrows.",
 ["src/node/debug_print.rs", "src/node/debug_print/debug.rs", "src/node/debug_print/pretty.rs", "src/tree/debug_print.rs"],
 [("nested printers", "src/node/debug_print/debug.rs: DebugPrintSubtree*"), ("pretty printer", "src/node/debug_print/pretty.rs: DebugPrettyPrint, prepare_next_node_printing")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))

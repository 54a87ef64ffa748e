HOW = {
 'C01': "Every edit entry: after each outcome the links of every touched node agree with each other (next/previous, first/last, parent), independently of whether the result is the intended one.",
 'C02': "Every edit entry: stored child counts against the number of children of the expected shape, also after failures; `num_children`, `has_*`, `count_children` against the shape.",
 'C03': "Every edit entry: the final heap equals the shape the specification computes from the arguments (position, fate of the children, everything else as before), for all positions of operands.",
 'C04': "Every edit entry: membership of each moved or created node and of each summarised part (all nodes of a gap or spine), tree roots; queries `tree`, `belongs_to*`, `root` against the shape.",
 'C05': "Every edit entry over all relative positions: the error (or panic) expected by the documentation, and for failures an unchanged heap, count, lock and reference state.",
 'C06': "Every acquisition, clone, conversion and release with the tree's lock sum unknown: success exactly when the documentation says, and counter transitions from all values.",
 'C07': "Every entry: per-node lock aggregate and per-tree lock counter against locks held by operands and results, on return, on error and on unwinding.",
 'C08': "Every edit entry with a grant of another or of a dead tree: panics, and nothing has changed; every non-editing entry leaves links, counts, membership and roots alone.",
 'C09': "Every entry: node and tree reference counts, allocation counts, no leak, nothing released while referenced.",
 'C10': "Every entry that can release a tree: at no point is a node released from within the release of another node; no call recursion among dendron's functions on a release path.",
 'C11': "Upgrade entries with the target alive, alive only through its tree, dead, and while its tree is being released.",
 'C12': "Depth-first entries: each item observed is compared with the position the specification's walk has reached in the shape, over all shapes and starts, for any interleaving of ends; then None for ever; skipping/closing. `walk_from*` start at any event of the subtree.",
 'C13': "As C12 for the double-ended traversers, the choice of end being arbitrary at each step; total exhaustion exactly when the ends meet. `walk_between*` run between any two events (both ends interleaved by the thorough check only).",
 'C14': "The traversal without a queue is run over every tree, toplevel and starting level: a depth-limited walk per level is kept as ghost state and moves at the loop heads of the code; what it opens at the limit, with the level, is what must be yielded, and nothing is below an empty level. The traversal with a queue is decided by induction on the steps (`vf/queues.py`): the constructor must queue exactly the nodes of the first level and a mark (checked like the sequence above); `next` is interpreted from every state of the invariant `rest of a level, mark, children of what was taken from that level` (empty; a mark; a mark and a node; a node first; any length) and must yield the node, adjust the level and queue exactly the mark resp. the children of the node in order. `peek`, `size_hint` and drop start from the same states. Abstract here: the queue itself (`VecDeque` is FIFO; of its contents only the first two elements are known). A changed queue protocol with the same public behaviour would have to be reflected in `QueueStep`.",
 'C14': "Breadth-first entries.",
 'C15': "Depth-limited entries with the limit absent, any number, and usize::MAX: the specification's walk carries the depth and the levels left below each end; items, depths, interleavings of both ends and skipping are compared with it; the limit reported back is the one given.",
 'C16': "`peek` before each `next` equals it; `size_hint` at each step brackets what the specification's walk still has to yield; after the end None stays None.",
 'C17': "Entries of the same operation on the three kinds are compared: any mismatch one has and another has not; kinds of results and their locks.",
 'C18': 'Inductive: the builder starts in any valid state (no root; closed; open with the current node anywhere below the root, itself anywhere in a tree of any shape) and gets one event (or a closing and an opening): result, hierarchy, counts, locks and the handles the builder then holds are compared with the specification; `close(n)` for every n. Collecting from no, one opening and one closing event covers the iterator wrappers.',
 'C19': 'The specification walks both subtrees in step: each comparison of user data must be of the pair that is next; the answer must be what the walks say (or follow from different numbers of children), a borrow conflict must be an error (a panic for ==).',
 'C20': "Cloning is followed against a walk of the source in its original shape: what is collected, what is taken back from the collection, and what a builder is told must be the clones of the data and the closings of the subtree, in order and complete; the root of the copy, its place, the error and the state on failure are compared as for edits. Vectors of events and the builder are summarised (what a builder does with events is decided by C18, what the events are by C30), so that the copy below its root is known from the events alone.",
 'C21': "At every call of user code: borrow flags clear, each live tree as before or as after; also after a panic of it has unwound.",
 'C22': "Fallible/panicking pairs: neither has a mismatch the other lacks; the panicking one panics exactly where the fallible one returns an error.",
 'C23': "Every `Debug` and `Display` of the crate that reaches a node or a tree (nodes, trees, weak references, subtrees, pretty printing, positions, events, traversers) is interpreted with the machinery of `core::fmt` modelled: builders and `write!` call the formatting methods of what they are given, with a writer that fails or not at any point; user formatting is arbitrary text in arbitrary pieces, for which the pretty printer's own writer is interpreted. Texts, slices and the list of indents are abstracted to lengths and positions, which is what indexing needs (that a position is a character boundary is not decided). A value that prints itself in parts must come to a node strictly below; deeper levels are then as the ones above. Decided: no panic, no loop that stays as it is, no formatting of data that is mutably borrowed, nothing in the hierarchy, counts, locks, references or borrow flags different afterwards. Out of reach: exhaustion of the stack by the recursion of subtree printing, and panics of the user's formatting.",
 'C24': "389 witness programs, accepted or rejected by rustc's type checker, each rejection with an accepted twin and the expected error code; `unsafe_code` forbidden over the crate.",
 'C25': "`create_as` with each position against the operation named after it; the mapping functions of positions against their table.",
 'C26': "About 940 tree literals (tools/gen_literals.py: every shape of up to four nodes below the root in every spelling, larger shapes, unusual data expressions; as node and as tree; in a module that imports nothing of the crate) are compiled, never run; the MIR of each expansion is interpreted and the hierarchy it leaves compared with the written one: every node once, with its data, in its place, no other node, tree or lock. A literal that does not compile is a violation. Each arm of the macro takes one item off a list, whatever follows, which is why lists of a few items exercise it; a longer literal than those enumerated is not decided.",
 'C27': "Sibling, child and ancestor traversal entries: as C12.",
 'C28': "Query entries: result against the shape for every shape; nothing changed except the references and locks of the result.",
 'C29': "Data borrows against the state of the data's borrow flag; every other entry leaves data and its flag untouched.",
 'C30': "Items of the serialising iterator against the specification's depth-first walk: each opening must carry the clone of the data of the node that is next; closings are counted symbolically and must be used up before the next opening and at the end; an error only for data that is mutably borrowed.",
 'C32': "The printers are interpreted as for C23 (for pretty printing here with a writer that does not fail); each time the code formats the data of a node, that node must be the next one of a depth-first walk kept as ghost state, which goes over closings and over nodes whose data is known to be borrowed mutably, only as far as the code knows the shape; at the end the walk must be through, and an error is only returned after the writer gave one. The nested printer calls itself: its third level is cut, where it is assumed that all below the node is printed (the first two levels do the same for an arbitrary node; that the second level does is checked when it returns; the first is what the entry is about). Prefixes, indentation and other text are not decided.",
 'C31': "Entries that take a clone before any number of steps and either advance the clone and go on with the original, or go on with the clone while the original is advanced and dropped; what is yielded is compared as for C12-C15 and C27. For the two-ended depth-first, the depth-limited and the queue-less breadth-first traversal the traversal is replaced with its clone only (to keep the state space small). The clone of a queue is modelled as a clone of each element in order; the clone of the traverser must be at the same level with the same queue.",
}

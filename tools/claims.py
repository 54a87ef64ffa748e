CLAIMS = {
 'C01': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'All hierarchy edits, over every tree shape and relative position of the nodes, one edit from a consistent state.'),
 'C02': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'All hierarchy edits and the counting queries, over every tree shape.'),
 'C03': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'All hierarchy edits, over every tree shape and relative position of the nodes.'),
 'C04': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'All hierarchy edits, over every subtree size and shape; queries of tree and root.'),
 'C05': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'All hierarchy edits, successful and rejected, over every relative position of the nodes.'),
 'C06': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'Every acquisition, clone, conversion and release of a lock, for every number of locks of either kind.'),
 'C07': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'Every operation of the harness: lock counters of the nodes and trees before and after, also when it unwinds.'),
 'C08': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'All edits with a grant of another or of a dead tree; all other operations analysed leave links, counts and membership alone.'),
 'C09': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'Reference counts of nodes and trees, and what is released, for every operation of the harness.'),
 'C10': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'The release of nodes is never nested in the release of another node, for every operation that can release a tree.'),
 'C11': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'Upgrades with the target alive, referenced only by its tree, dead, and being released.'),
 'C12': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'Forward, reverse, peeking, skipping and double-ended depth-first traversals over every tree shape and start.'),
 'C13': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'Double-ended sibling, child and depth-first traversals under every interleaving of both ends.'),
 'C14': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'Both breadth-first traversals, for every tree, toplevel node and starting level; for the one with a queue its constructor and one step from every state of the queue.'),
 'C16': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'Peeks, size hints and steps after the end of all sibling, ancestor, child and depth-first traversals.'),
 'C17': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'Every operation available on several node kinds: mismatches that one kind has and another has not; locks of the results.'),
 'C21': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'At every point where user code runs: internal borrow flags free and hierarchies as before or as after; also after unwinding.'),
 'C22': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'Pairs of fallible and panicking operations: no mismatch that only one of them has; no unexpected panic.'),
 'C25': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'Position-taking creation against the operation named after the position, and the mappings of positions.'),
 'C27': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'All ancestor, child and sibling traversals over every tree shape and start.'),
 'C28': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'All navigation queries, and that they change no link, count, membership, lock or reference beyond their results.'),
 'C29': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'Data borrows in every state of the borrow flag; no other operation touches the data or its flag.'),
 'C15': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'Depth-limited double-ended traversal, with every limit, tree shape and interleaving of both ends; depths; skipping.'),
 'C18': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'One event (or a rejected one after another) from every state of a builder; collecting; conversions of events.'),
 'C19': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'Fallible and infallible equality of nodes of every kind and of trees, over all shapes, relative positions and data borrows.'),
 'C30': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'Serialisation of every node kind over all shapes and data borrows, also when cloning panics.'),
 'C31': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'Clones taken before any step of every kind of traversal go on like the original and leave it alone, over all shapes.'),
 'C32': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'Nested, pretty and local printing of every kind of node, and of trees, over all shapes and data borrows; which data is formatted and when, not the text around it.'),
 'C20': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'Cloning a subtree of every shape to a new tree or to every destination, also inside the source, over all data borrows and panics of user code.'),
 'C23': ('abstract interpretation of the MIR (shape, counts, locks, references and results of every entry, to a fixpoint), compared with a specification', 'Every printable type and format over all shapes, positions, locks and data borrows; the text itself is abstracted to its length.'),
 'C26': ('abstract interpretation of the MIR that the expansions of enumerated tree literals compile to, compared with the written shape', 'All literals of up to four nodes below the root in every spelling of leaves and commas, all shapes of five and six, larger and unusual ones; tree and node form.'),
 "C24": ("type-level witnesses: programs that must fail to type-check, each with a compiling twin; crate built with unsafe code forbidden",
         "Decided by rustc's type checker over a fixed list of 389 witness programs and, for unsafe code, over the whole crate in both feature sets."),
}
NA = {}

"""Single source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""
N = "src/tree/node.rs"
PROPS = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                      files=files, mech=mech, technique=technique, note=note, **kw))


P("P01", "Thread-safety of every public type follows from who can reach the contents",
  "A tree, entry or iterator can be moved to or shared with another thread only if every value that thread "
  "could thereby read, take or destroy may be used there: plain trees need exactly what an owning container "
  "needs, copy-on-write trees need both capabilities of indexes and slices for either, and trees with slice "
  "references, slice references and borrows never cross or are shared between threads. Trees, entries and "
  "iterators whose contents do allow it can be moved and shared.",
  ["programs", "configurations", "schedules"],
  "every configuration, every combination of contents that are or are not movable and shareable",
  "tests instantiate a handful of content types, and an unsound bound shows only as a data race",
  ["src/tree/mod.rs", "src/tree/entry.rs", "src/tree/iter.rs", "src/param.rs", "src/tree/drain.rs", "src/tree/slice_ref.rs"],
  [("thread-safety bounds of the tree", "src/tree/mod.rs: unsafe impl Send/Sync for RleTree"),
   ("per-configuration bounds", "src/param.rs: RleTreeIsSend, RleTreeIsSync"),
   ("entry and iterator bounds", "src/tree/entry.rs, src/tree/iter.rs: unsafe impl Send/Sync")],
  "rustc trait-solver witnesses over the full matrix of (public type x configuration x Send/Sync class of contents)",
  "decided for all programs by the compiler's trait solver; what a type gives access to is the stated table")

P("P02", "Each operation exists exactly for the configurations that support it",
  "Slice references can be obtained only from trees configured for them; only trees without slice references "
  "can be cloned, and then only if their contents can; inserting into a copy-on-write tree requires clonable "
  "contents while the other configurations do not, and an entry of a copy-on-write tree cannot produce a cursor. "
  "No operation gives mutable access to a stored slice through a shared tree, entry, reference or borrow, and "
  "users can neither define their own configurations nor reach the internals.",
  ["programs", "configurations"],
  "every program against the public interface, in each configuration",
  "a test can only use operations that build; that the unsupported ones do not build is not tested",
  ["src/param.rs", "src/lib.rs", "src/tree/mod.rs", "src/tree/entry.rs", "src/tree/slice_ref.rs"],
  [("sealed configuration traits", "src/param.rs: RleTreeConfig, SupportsInsert, sealed"),
   ("configuration-specific impl blocks", "src/tree/mod.rs, src/tree/entry.rs")],
  "rustc type-check witnesses: accepted and rejected programs per operation and configuration",
  "decided by the compiler for the listed operations; each rejected program must fail on its marked line with its class of error")

P("P03", "Nothing obtained from a tree outlives it or overlaps its modification",
  "Entries, slices, iterators, drains and the values inside borrows cannot be kept across a modification, move or "
  "drop of the tree (or of the slice reference or borrow) they were obtained from, and their lifetimes cannot be "
  "stretched. A tree cannot be used or dropped, with either kind of destructor, after something its contents use "
  "when dropped is gone, while sound programs such as keeping an item after its iterator still build.",
  ["programs", "configurations"],
  "every program against the public interface, in each configuration, with and without the relaxed destructors",
  "violations are programs that should not build; a test that builds cannot show that they do not",
  ["src/tree/mod.rs", "src/tree/entry.rs", "src/tree/iter.rs", "src/tree/drain.rs", "src/tree/slice_ref.rs"],
  [("lifetimes of the public types", "src/tree/entry.rs: SliceEntry<'t>, src/tree/iter.rs: Iter<'t>, src/tree/drain.rs: Drain<'t>, src/tree/slice_ref.rs: Borrow<'a>"),
   ("drop check of the relaxed destructor", "src/tree/mod.rs: Root (owned contents), Drop for RleTree")],
  "rustc borrow-checker, drop-checker and variance witnesses, default and nightly feature",
  "decided by the compiler for the listed program shapes in each configuration")

P("P04", "Clones of a tree never observe each other's modifications",
  "Whatever is done to one copy-on-write tree, no node that another clone can still reach is written, emptied, "
  "moved out of or freed: it is copied first, or known to have a single owner at that moment. This holds on every "
  "path of every operation, in whatever order clones are made, modified and dropped.",
  ["histories", "schedules", "inputs"],
  "every sequence of operations on any number of clones, every shape of sharing between them",
  "which nodes are shared depends on the history; the tests share few shapes, and sharing bugs corrupt a clone that is looked at much later or never",
  ["src/tree/node.rs", "src/tree/cow.rs", "src/tree/mod.rs", "src/tree/iter.rs", "src/tree/entry.rs"],
  [("making a node exclusive before descending mutably", "src/tree/node.rs: ensure_unique, into_child, as_mut_if_unique"),
   ("taking apart or dropping a node", "src/tree/node.rs: try_drop, Drop of dropping nodes; src/tree/mod.rs: do_drop"),
   ("reference counts", "src/tree/cow.rs: StrongCount")],
  "ownership/typestate analysis by abstract interpretation of monomorphic MIR, all functions of the copy-on-write configuration",
  "every write, move-out or free of a node must be dominated on its path by sole ownership; loops are summarised, calls are interpreted in place or by what they may modify")

P("P05", "Threads that share nodes are synchronised by the reference counts",
  "When a clone of a tree takes a node over because nobody else holds it any more, everything other threads did "
  "with that node has happened before; a thread gives up its share of a node only after its last use, counts "
  "change by exactly one per share, and a count cannot wrap around.",
  ["schedules", "histories"],
  "every interleaving of any number of threads cloning, modifying and dropping clones of one tree",
  "ordering faults need a weakly ordered machine and a particular interleaving; the tests use one thread",
  ["src/tree/cow.rs", "src/tree/node.rs"],
  [("orderings of increments, decrements and uniqueness tests", "src/tree/cow.rs: increment, decrement, is_unique")],
  "memory-ordering typestate analysis by abstract interpretation of monomorphic MIR",
  "decides that uniqueness is only used after an acquire of the count, that decrements release, and the amounts; no weak-memory exploration")

P("P06", "Every node and every slice in it is released exactly once",
  "However a tree is built, modified, cloned, iterated and dropped, every node it allocates is freed exactly once and "
  "not used afterwards, every stored slice is handed out or dropped exactly once when its node goes, and sharing a "
  "subtree between clones counts every one of its users. Nothing leaks on any non-panicking path.",
  ["histories", "inputs", "configurations"],
  "every path of every operation in all three configurations",
  "leaks and double frees show only with content that notices, for shapes of tree and sharing the tests do not build",
  ["src/tree/node.rs", "src/tree/mod.rs", "src/tree/cow.rs", "src/tree/iter.rs", "src/tree/drain.rs", "src/tree/slice_ref.rs"],
  [("freeing nodes and their contents", "src/tree/node.rs: try_drop, dealloc, Drop of dropping nodes"),
   ("sharing children when a node is copied", "src/tree/node.rs: shallow_clone, deep_clone"),
   ("tearing a tree down", "src/tree/mod.rs: do_drop; src/tree/iter.rs: into_iter")],
  "ownership (linear-token) analysis by abstract interpretation of monomorphic MIR, all functions of all configurations",
  "tokens of owned nodes must be stored, returned or released on every path; loops over values and children are checked to cover the node's own length; "
  "drains that are stopped early are out of reach")

P("P07", "Borrows through slice references exclude modification and keep the tree alive",
  "A slice reached through a slice reference is only read while the tree is marked as borrowed; a tree is only "
  "modified after it was marked as being modified, which fails while anything is borrowed, and is unmarked when the "
  "modification is done. Every borrow is counted once for as long as it (or what it was cloned or mapped into) exists; "
  "a tree dropped while borrowed stays intact until the last borrow ends, which then drops it.",
  ["histories", "inputs"],
  "every sequence of borrowing, cloning, mapping and ending borrows, modifying and dropping the tree",
  "the tests take one borrow at a time; a miscount or a wrong state shows only when several borrows overlap the drop of the tree",
  ["src/tree/slice_ref.rs", "src/tree/insert.rs", "src/tree/mod.rs"],
  [("borrow state machine", "src/tree/slice_ref.rs: BorrowState, acquire_mutable, release_mutable, try_acquire_drop, acquire_immutable, drop_borrow"),
   ("guards", "src/tree/slice_ref.rs: Borrow, TemporaryBorrow"),
   ("dropping a tree", "src/tree/mod.rs: destruct_root; src/tree/slice_ref.rs: drop_tree_once_no_borrows")],
  "typestate analysis by abstract interpretation of monomorphic MIR: state transitions, counting of borrows against guards, states required by accesses",
  "all returning paths of every function of the slice-reference configuration; what a borrow's user does with the value is the compiler's business (P03)")

P("P08", "The table shared by a tree and its slice references is freed exactly once",
  "Every slice reference is counted while it exists. The table it shares with its tree is freed exactly when the tree "
  "is gone and no slice reference is left, by whichever goes last, and is not used afterwards.",
  ["histories"],
  "every order in which slice references are made, cloned and dropped, before and after their tree and its borrows",
  "a missing count or a missing check is a leak or a use after free only for one particular order of drops",
  ["src/tree/slice_ref.rs"],
  [("reference count", "src/tree/slice_ref.rs: InnerStore::weak_count, bump_weak_count, SliceRef::do_drop"),
   ("freeing the table", "src/tree/slice_ref.rs: InnerStore::dealloc, SliceRefStore::drop, drop_tree_once_no_borrows")],
  "ownership (counting) analysis by abstract interpretation of monomorphic MIR",
  "all returning paths of every function of the slice-reference configuration")

P("P09", "Slice references follow their slices wherever modifications move them",
  "Whenever a modification moves a slice to another place - within a node, to a new node, or up into a parent - its "
  "reference moves with it, and the table that slice references are resolved through is told the exact new place, "
  "before the modification ends. The table's idea of the root of the tree is current when a modification ends and "
  "when a tree is made.",
  ["histories", "inputs"],
  "every path of every modification of trees with slice references, any node size and any position",
  "a stale entry shows only for a reference to one particular slice of a node of one particular shape, and then as a wrong or dangling slice",
  ["src/tree/node.rs", "src/tree/insert.rs", "src/tree/slice_ref.rs", "src/tree/mod.rs"],
  [("moving slices", "src/tree/node.rs: insert_key, push_key, insert_key_and_child, push_key_and_child, split, make_new_parent"),
   ("the table", "src/tree/slice_ref.rs: SliceRefStore::update, set_root")],
  "must-happen-after analysis by abstract interpretation of monomorphic MIR: ranges of moved references against ranges reported",
  "all returning paths of every function of the slice-reference configuration; loops are summarised over their whole range")

P("P10", "The keys, slices, references and children of a node stay aligned",
  "Whenever a modification inserts into a node, appends to it or splits it, the positions, slices, slice references and "
  "(in an internal node) children move alike: the same ranges, by the same distance, to the same node. When it is done, "
  "every place below the node's length holds something put there for it, in each of these arrays (one more child than "
  "slices), and whatever dropped out of use was moved to where it is in use, once.",
  ["inputs", "histories"],
  "every path of every modification, any length of node and any position in it",
  "a shifted or missing element shows only for nodes of particular lengths and insertions at particular positions, deep in a tree",
  ["src/tree/node.rs", "src/tree/insert.rs"],
  [("inserting, appending and splitting", "src/tree/node.rs: insert_key, push_key, insert_key_and_child, push_key_and_child, replace_first_child, split, shift"),
   ("making a new root", "src/tree/node.rs: make_new_parent, new_root")],
  "abstract interpretation of monomorphic MIR over ranges of array elements",
  "all returning paths; lengths and positions are symbolic; loops over elements are summarised; what values the positions have is not decided")

P("P11", "Every child knows its parent and its place in it",
  "Trees are walked upwards through the parent and place noted in each node. Whenever a modification gives a node another "
  "parent or another place among the children of its parent - by inserting in front of it, splitting its parent, replacing "
  "it or growing a new root - the node is told, with the right values. In a copy-on-write tree this holds for every "
  "child reached for modification.",
  ["inputs", "histories"],
  "every path of every modification, any node size, position and sharing",
  "a stale link leads a later climb to the wrong node or key, only for trees of at least three levels and particular positions",
  ["src/tree/node.rs", "src/tree/insert.rs"],
  [("linking children", "src/tree/node.rs: insert_key_and_child, push_key_and_child, replace_first_child, split, make_new_parent, into_child"),
   ("walking up", "src/tree/node.rs: into_parent; src/tree/fix.rs, src/tree/insert.rs: do_upward_step")],
  "must-happen analysis by abstract interpretation of monomorphic MIR: ranges of children placed against links written",
  "all returning paths; shared children of copy-on-write trees may keep stale links until they are reached for modification")

P("P12", "No node outgrows its capacity, and splits leave both halves half full",
  "Whenever slices or children are added to a node, the node has room for them: a node never comes to hold more than its "
  "capacity of twice the branching factor, whatever is inserted where, however many levels overflow at once and however "
  "many slices one insertion adds. When a node is split, each half is left with at least the branching factor.",
  ["inputs", "histories"],
  "every path of every modification, any fill of the nodes on the way and any position of the insertion",
  "writing past a node needs a full node, at each of several levels, and an insertion at one particular position",
  ["src/tree/node.rs", "src/tree/insert.rs"],
  [("choosing where to split", "src/tree/insert.rs: do_insert_full_edge_no_join, do_insert_full_edge_no_join_split, do_insert_full, BubbledInsertState::do_upward_step"),
   ("adding to a node", "src/tree/node.rs: insert_key, push_key, insert_key_and_child, push_key_and_child, split")],
  "abstract interpretation of monomorphic MIR: interval and difference bounds of node lengths, obligations passed to callers",
  "all returning paths of every function, at branching factor 3; nodes are assumed within bounds before each operation (induction)")


P("P13", "Indexes are only added and taken away on the side where they belong",
  "The positions and sizes a tree computes with are distances between points of the tree, and the index type may distinguish "
  "adding or taking away on the left from doing so on the right (lines and columns, for example). Two distances are only "
  "added in the order in which they follow each other, and a distance is only taken away from a longer one on the side where "
  "both begin or both end, so that nothing relies on the order not to matter: in lookups, insertions, iteration, draining, "
  "and when positions after a change are shifted.",
  ["inputs", "histories", "programs"],
  "every path through the functions that compute with indexes, for any index type",
  "every test uses integers, for which the sides are the same",
  ["src/tree/mod.rs", "src/tree/node.rs", "src/tree/insert.rs", "src/tree/fix.rs", "src/tree/iter.rs", "src/public_traits.rs"],
  [("directional arithmetic", "src/public_traits.rs: DirectionalAdd, DirectionalSub"),
   ("positions on the way down", "src/tree/mod.rs: search_step, get, cursor_to; src/tree/insert.rs"),
   ("positions that move", "src/tree/fix.rs: shift_keys; src/tree/node.rs: make_new_parent, split"),
   ("positions while iterating", "src/tree/iter.rs: IterState")],
  "type inference over directional arithmetic (each value is an offset between two points; unification and rejection of cycles) on the paths of monomorphic MIR",
  "all returning paths of the functions that compute with indexes; a side is only refuted where the offsets involved are related on that path")


P("P14", "A search ends where its target lies, whatever a cursor says",
  "Every operation that goes to a position - looking it up, inserting there, making a cursor to it, beginning or ending an "
  "iteration there - picks, in every node on the way, the child or the slice whose extent holds the position, and goes on in that "
  "child with the position relative to where the child begins. A cursor passed along only makes this faster: one from another "
  "place, another tree or an earlier time changes neither where the search ends nor leads to anything being read that a node "
  "does not have.",
  ["inputs", "histories"],
  "any position, any node, and any cursor whatever",
  "a cursor that misleads has to come from another tree or another time, and name just the child or position the check lets through",
  ["src/tree/mod.rs", "src/tree/insert.rs", "src/tree/iter.rs", "src/cursor.rs"],
  [("one step of a search", "src/tree/mod.rs: search_step"),
   ("going down", "src/tree/mod.rs: get_with_cursor, cursor_to; src/tree/insert.rs: find_insertion_point; src/tree/iter.rs: make_stack"),
   ("cursors", "src/cursor.rs: Cursor::into_path")],
  "abstract interpretation of monomorphic MIR: what the comparisons of a path say about the place it returns; what is searched next and for what",
  "the extent of a place is judged by the positions and sizes the nodes hold; that a search ends at all, and that those sizes are right, is not covered")


P("P15", "A slice taken out of the tree is never used through it",
  "While an insertion has taken a slice out of its node, to hand it to the user's `try_join`, the node says that it is missing, and "
  "it says so until the slice - or what it was joined with - is put back. If `try_join` panics and the program goes on with the "
  "tree, whatever is then done with it - reading that slice, iterating over it, cloning the tree, inserting next to it, splitting "
  "the node, a slice reference to it, dropping the tree - either leaves the missing slice alone or panics: it is not read, not "
  "referred to, not copied, not dropped a second time, and no other slice is taken for the missing one.",
  ["inputs", "crash points"],
  "any number of slices taken out (up to two in a node), wherever they are in it, and whatever is done afterwards",
  "it takes a panic inside the user's join, a caught one, and then an operation that touches just that slice or that node",
  ["src/tree/node.rs", "src/tree/insert.rs"],
  [("the marks", "src/tree/node.rs: Leaf.holes, Leaf::has_holes, Leaf::is_hole"),
   ("taking out and putting back", "src/tree/node.rs: SliceHandle::take_value_and_leave_hole, fill_hole, with_slice"),
   ("using slices", "src/tree/node.rs: into_ref, borrow_slice, shallow_clone, split, insert_key, do_drop")],
  "typestate analysis by abstract interpretation of monomorphic MIR: which slices of a node are marked as missing, which a path takes out, puts back, uses or moves",
  "handles are judged by themselves: that each use of one puts back what it took is left to P06 for the value, and not covered for the place")


P("P16", "A cursor given back is the path to where the operation acted",
  "A cursor obtained from an insertion, from an entry, or for a position holds the indexes of the children on the way from the root to "
  "the node where the inserted slice (or the entry's, or the one at that position) now is - whatever had to be split on the way - each "
  "level once and in order from the root. A cursor of bounded size holds as much of the beginning of that path as fits, and gives it "
  "back from the beginning; a new one holds nothing.",
  ["inputs", "histories"],
  "any tree, any position, any number of splits on the way up, and any way the splits put what was inserted",
  "a wrong path is still accepted as a hint, so that nothing but the speed of later operations shows it",
  ["src/cursor.rs", "src/tree/insert.rs", "src/tree/fix.rs", "src/tree/entry.rs", "src/tree/mod.rs"],
  [("bounded cursors", "src/cursor.rs: BoundedCursor"),
   ("steps up after an insertion", "src/tree/insert.rs: BubbledInsertState; src/tree/fix.rs: OpUpdateState"),
   ("paths to entries and positions", "src/tree/entry.rs: cursor_to_handle; src/tree/mod.rs: cursor_to")],
  "abstract interpretation of monomorphic MIR: which child each step from a node to its parent records, how often, and on which side of a new key",
  "steps are judged one by one; insertions that join with both neighbours, where the path is begun anew, are not covered")


NA = "a relation between the values a whole history of operations left in an unbounded heap, and those it was given: no sound static argument in reach bounds it. "

P("P17", "What is inserted goes to its place, and all else stays in order",
  "When slices are inserted into a node - whether it has room for them, or has to be split, with the split going up through any number of "
  "levels - the slices and children that were in the node are afterwards in the same order as before, over its two halves and what goes "
  "up between them; none is lost or there twice; and what was inserted is exactly at the place where it was to go: a second slice right "
  "after the first, a new child right after the key that it came up with.",
  ["inputs", "histories"],
  "any node, any place in it, one or two slices, any split",
  "a split puts its parts together in nine different ways, and the wrong order shows only for the places at the edges of each",
  ["src/tree/insert.rs"],
  [("insertion into a leaf", "src/tree/insert.rs: do_insert_full_edge_no_join, do_insert_full_edge_no_join_split"),
   ("what comes up from a split", "src/tree/insert.rs: BubbledInsertState::do_upward_step"),
   ("insertion right of a slice", "src/tree/insert.rs: insert_rhs")],
  "abstract interpretation of monomorphic MIR with a domain of sequences: each node's slices and children as runs of what it held and what is new",
  "split, insert and append of a node are taken to do what they say (P10 checks them); nodes with a branching factor of 3 are interpreted")

P("P18", "Slices are joined with their neighbours in order, or stay where they were",
  "An insertion offers the new slice to its left neighbour and what came of that to its right neighbour, if they exist and the slices may "
  "join at all: each by one `try_join`, called on the two in the order in which they lie. What joined takes one place; what did not goes "
  "back to its place or is inserted, in order, so that the tree then holds what it held and the new slice, nothing missing, nothing "
  "exchanged, nothing twice. The number of slices the tree counts changes by what was put into it.",
  ["inputs", "histories"], "any insertion at the edge of a slice or inside one, any outcome of the two joins",
  "the outcomes multiply, and most tests join always or never",
  ["src/tree/insert.rs"],
  [("insertion between slices", "src/tree/insert.rs: do_insert_full_edge, do_insert_full_edge_try_join"),
   ("insertion inside a slice", "src/tree/insert.rs: do_insert_full_split_key")],
  "abstract interpretation of monomorphic MIR with a domain of runs of slices, from left of the place to right of it, through take, try_join, split_at, put back and insert",
  "which slices are the neighbours is decided by P14; joining with both neighbours at an edge ends in the author's todo!() and is not covered")

P("P19", "Iteration gives every slice of a range once, in order",
  "Iterating from either end, or from both, gives each slice that overlaps the range exactly once, in order, with its range, and ends.",
  ["inputs", "histories"], "any tree, any range, any interleaving of next and next_back", "the two ends meet in any pair of places",
  ["src/tree/iter.rs"], [("iteration", "src/tree/iter.rs: Iter::next, next_back")],
  None, NA + "Where an iteration begins in each node is decided by P14, the arithmetic of its ranges by P13")

P("P20", "A tree written out and read back is the same tree",
  "Serialising a tree and deserialising the result gives a tree with the same slices of the same sizes in the same order.",
  ["inputs"], "any tree", "only some trees are tried",
  ["src/serde.rs"], [("serde", "src/serde.rs")],
  None, "the data passes through formats outside the crate; equality of content is a property of run-time values")

P("P21", "Operations take time logarithmic in the number of slices",
  "A lookup or insertion looks at a number of nodes that grows with the height of the tree only, and the height with the logarithm of "
  "the number of slices; a hint that is right makes it faster.",
  ["inputs", "histories"], "trees of any size", "timing is not tested",
  ["src/tree/mod.rs", "src/tree/insert.rs"], [("searches and insertions", "src/tree/mod.rs, src/tree/insert.rs")],
  None, "the number of steps depends on the height of a run-time heap; what bounds that height, node fill, is P12, and that searches go down one level at a time is P14")

P("P22", "What was inserted is what is found there",
  "Looking up a position gives the slice that was inserted last over it, or the part of it that insertions in front and inside have "
  "left there, with the range it now has; nothing else is changed by an insertion but the ranges of what follows.",
  ["inputs", "histories"], "any sequence of insertions and lookups", "only some sequences are tried",
  ["src/tree/insert.rs", "src/tree/mod.rs"], [("insertion", "src/tree/insert.rs"), ("lookup", "src/tree/mod.rs: get")],
  None, NA + "The steps that can be decided one by one are P10 (arrays move together), P13 (sides), P14 (searches), P17 (places) and P18 (joins)")

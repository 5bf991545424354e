"""P02: which operations exist for which configuration, decided by the compiler on witnesses."""
from common import witness

TECHNIQUE = ("type-level witnesses: the compiler decides, for programs using each operation under each "
             "configuration, which build and which are rejected and why")

HEAD = """
#![allow(unused, dead_code)]
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures};
use sherman::param::{RleTreeConfig, SupportsInsert};
use sherman::*;
pub struct NC;                       // a slice that is not Clone
pub struct NotAnIndex;
impl Slice<usize> for NC {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: usize) -> Self { NC }
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> { Err((self, o)) }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct FI(usize);                // a user-defined index
#[derive(Clone)]
pub struct CS;                       // a slice that is Clone
impl<I> Slice<I> for CS {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: I) -> Self { CS }
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> { Err((self, o)) }
}
fn clone<T: Clone>() {}
fn dbl<T: DoubleEndedIterator>(_: T) {}
"""
A, R = "accept", "reject"
# (name, what it shows, code, error code or None)
ROWS = [
    # ---- cloning
    ("clone-plain", "a plain tree whose contents are Clone can be cloned", "clone::<RleTree<usize, CS, NoFeatures, 3>>()", None),
    ("clone-plain-nc", "a plain tree is not Clone when its slices are not", "clone::<RleTree<usize, NC, NoFeatures, 3>>()", "E0277"),
    ("clone-cow", "a copy-on-write tree can be cloned", "clone::<RleTree<usize, CS, AllowCow, 3>>()", None),
    ("clone-cow-nc", "a copy-on-write tree is not Clone when its slices are not", "clone::<RleTree<usize, NC, AllowCow, 3>>()", "E0277"),
    ("clone-refs", "a tree with slice references can never be cloned", "clone::<RleTree<usize, CS, AllowSliceRefs, 3>>()", "E0277"),
    ("clone-drain", "a drain cannot be cloned", "clone::<Drain<'static, NoCursor, usize, CS, NoFeatures, 3>>()", "E0277"),
    ("clone-entry-plain", "entries can be copied around", "clone::<SliceEntry<'static, usize, NC, NoFeatures, 3>>()", None),
    ("clone-sliceref", "slice references can be cloned whatever the slice", "clone::<SliceRef<usize, NC, 3>>()", None),
    ("clone-borrow", "borrows can be cloned whatever the slice", "clone::<Borrow<'static, NC>>()", None),
    # ---- insertion
    ("ins-plain-nc", "insertion into a plain tree needs no Clone", "let mut t: RleTree<usize, NC, NoFeatures, 3> = RleTree::new_empty(); t.insert(0, NC, 1)", None),
    ("ins-refs-nc", "insertion into a slice-reference tree needs no Clone", "let mut t: RleTree<usize, NC, AllowSliceRefs, 3> = RleTree::new_empty(); t.insert(0, NC, 1)", None),
    ("ins-cow", "insertion into a copy-on-write tree of Clone slices works", "let mut t: RleTree<usize, CS, AllowCow, 3> = RleTree::new_empty(); t.insert(0, CS, 1)", None),
    ("ins-cow-nc", "insertion into a copy-on-write tree needs Clone slices", "let mut t: RleTree<usize, NC, AllowCow, 3> = RleTree::new_empty(); t.insert(0, NC, 1)", "E0277 E0599"),
    ("insc-cow-nc", "insertion with a cursor into a copy-on-write tree needs Clone slices", "let mut t: RleTree<usize, NC, AllowCow, 3> = RleTree::new_empty(); t.insert_with_cursor(NoCursor, 0, NC, 1);", "E0277 E0599"),
    ("ins-shared", "insertion needs unique access to the tree", "fn f(t: &RleTree<usize, CS, AllowCow, 3>) { t.insert(0, CS, 1) }", "E0596"),
    ("ins-idx", "insertion needs an index type", "let mut t: RleTree<NotAnIndex, CS, NoFeatures, 3> = RleTree::new_empty(); t.insert(NotAnIndex, CS, NotAnIndex)", "E0277 E0599"),
    # ---- slice references
    ("iref-refs", "insert_ref exists for slice-reference trees", "let mut t: RleTree<usize, NC, AllowSliceRefs, 3> = RleTree::new_empty(); let _: SliceRef<usize, NC, 3> = t.insert_ref(0, NC, 1);", None),
    ("iref-plain", "plain trees give out no slice references", "let mut t: RleTree<usize, NC, NoFeatures, 3> = RleTree::new_empty(); t.insert_ref(0, NC, 1);", "E0599"),
    ("iref-cow", "copy-on-write trees give out no slice references", "let mut t: RleTree<usize, CS, AllowCow, 3> = RleTree::new_empty(); t.insert_ref(0, CS, 1);", "E0599"),
    ("irefc-plain", "plain trees give out no slice references (cursor)", "let mut t: RleTree<usize, NC, NoFeatures, 3> = RleTree::new_empty(); t.insert_ref_with_cursor(NoCursor, 0, NC, 1);", "E0599"),
    ("irefc-cow", "copy-on-write trees give out no slice references (cursor)", "let mut t: RleTree<usize, CS, AllowCow, 3> = RleTree::new_empty(); t.insert_ref_with_cursor(NoCursor, 0, CS, 1);", "E0599"),
    ("mref-refs", "entries of slice-reference trees make references", "fn f(e: SliceEntry<usize, NC, AllowSliceRefs, 3>) -> SliceRef<usize, NC, 3> { e.make_ref() }", None),
    ("mref-plain", "entries of plain trees make none", "fn f(e: SliceEntry<usize, NC, NoFeatures, 3>) { e.make_ref(); }", "E0599"),
    ("mref-cow", "entries of copy-on-write trees make none", "fn f(e: SliceEntry<usize, CS, AllowCow, 3>) { e.make_ref(); }", "E0599"),
    ("sref-mut", "a slice reference gives no mutable access", "fn f(r: &SliceRef<usize, NC, 3>) { let b = r.borrow_slice(); let _: &mut NC = &mut *{b}; }", "E0596"),
    ("entry-mut", "an entry gives no mutable access", "fn f<'t>(e: SliceEntry<'t, usize, NC, NoFeatures, 3>) -> &'t mut NC { e.slice() }", "E0308"),
    # ---- cursors from entries: parent links are unreliable in shared nodes
    ("ecur-plain", "entries of plain trees give cursors", "fn f(e: SliceEntry<usize, NC, NoFeatures, 3>) -> NoCursor { e.cursor() }", None),
    ("ecur-refs", "entries of slice-reference trees give cursors", "fn f(e: SliceEntry<usize, NC, AllowSliceRefs, 3>) -> NoCursor { e.cursor() }", None),
    ("ecur-cow", "entries of copy-on-write trees give no cursors: shared nodes have no reliable path upwards", "fn f(e: SliceEntry<usize, CS, AllowCow, 3>) -> NoCursor { e.cursor() }", "E0599"),
    # ---- reading works everywhere
    ("read-plain", "lookups and iteration in plain trees", "fn f(t: &RleTree<usize, NC, NoFeatures, 3>) { let e = t.get(0); e.range(); e.size(); e.slice(); dbl(t.iter(..)); t.size(); t.number_of_slices(); let _: NoCursor = t.cursor_to(0); t.get_with_cursor(NoCursor, 0); t.iter_with_cursor(NoCursor, ..); }", None),
    ("read-cow", "lookups and iteration in copy-on-write trees", "fn f(t: &RleTree<usize, NC, AllowCow, 3>) { let e = t.get(0); e.range(); e.size(); e.slice(); dbl(t.iter(..)); t.size(); t.number_of_slices(); let _: NoCursor = t.cursor_to(0); t.get_with_cursor(NoCursor, 0); t.iter_with_cursor(NoCursor, ..); }", None),
    ("read-refs", "lookups and iteration in slice-reference trees", "fn f(t: &RleTree<usize, NC, AllowSliceRefs, 3>) { let e = t.get(0); e.range(); e.size(); e.slice(); dbl(t.iter(..)); t.size(); t.number_of_slices(); let _: NoCursor = t.cursor_to(0); t.get_with_cursor(NoCursor, 0); t.iter_with_cursor(NoCursor, ..); }", None),
    ("sref-read", "reading through a slice reference", "fn f(r: &SliceRef<usize, NC, 3>) { r.is_valid(); r.can_borrow(); r.borrow_slice(); r.try_borrow_slice(); r.range(); r.try_range(); let _: NoCursor = r.cursor(); let _: Option<NoCursor> = r.try_cursor(); }", None),
    # ---- iterators
    ("iter-idx", "an index type of the user's own needs its arithmetic", "fn f<T: Index>() {} f::<FI>()", "E0277"),
    # ---- sealed machinery
    ("seal-config", "users cannot define configurations", "pub struct Mine; impl SupportsInsert<usize, CS, 3> for Mine {}", "E0277"),
    ("seal-count", "users cannot define counters", "pub struct Mine; impl sherman::param::StrongCount for Mine { fn count(&self) -> usize { 1 } fn one() -> Self { Mine } fn is_unique(&self) -> bool { true } fn increment(&self) -> Self { Mine } fn decrement(&self) -> bool { true } }", "E0277"),
    ("seal-borrow", "users cannot define borrow states", "pub struct Mine; impl sherman::param::BorrowState for Mine { fn acquire_mutable(&self) -> ! { loop {} } fn release_mutable(&self) {} fn try_acquire_drop(&self) -> ! { loop {} } }", "E0277 E0053"),
    ("cfg-make", "configuration markers cannot be given other types", "fn f<I, S, P: RleTreeConfig<I, S, 3>>() {} f::<usize, CS, ()>()", "E0277"),
]
# name resolution stage: these stop the compiler before type checking, so they live in their own crate
RES = [
    ("priv-node", "the node layer is unreachable", "use sherman::tree::node::NodeHandle;", "E0603"),
    ("priv-tree", "the tree module is unreachable", "use sherman::tree::RleTree as T;", "E0603"),
    ("priv-recycle", "the slot allocator is unreachable", "use sherman::recycle::RecycleVec;", "E0603"),
    ("priv-sealed", "the seal is unreachable", "use sherman::param::sealed::YouCantImplementThis;", "E0603"),
]
# privacy of fields and constructors: own crate, too
PRIV = [
    ("field-tree", "a tree's root is private", "fn f(t: RleTree<usize, CS, NoFeatures, 3>) { t.root; }", "E0616"),
    ("field-entry", "an entry's handle is private", "fn f(t: SliceEntry<usize, CS, NoFeatures, 3>) { t.slice; }", "E0615 E0616"),
    ("field-ref", "a slice reference's store is private", "fn f(t: SliceRef<usize, CS, 3>) { t.inner; }", "E0616"),
    ("field-borrow", "a borrow's value pointer is private", "fn f(t: Borrow<'static, CS>) { t.ptr; }", "E0616 E0609"),
    ("field-borrow2", "a borrow's state is private", "fn f(t: Borrow<'static, CS>) { t.state; }", "E0616 E0609"),
    ("ctor-cfg", "configuration markers cannot be constructed", "fn f() { NoFeatures(std::marker::PhantomData); }", "E0423"),
    ("inner-mut", "no interior access to the counted slices", "fn f(t: &RleTree<usize, CS, NoFeatures, 3>) { t.root_mut(); }", "E0599"),
]


def build(rows, head):
    src, meta = head, {}
    for i, (name, what, code, err) in enumerate(rows):
        item = code.startswith(("fn ", "pub ", "use ")) and not code.startswith("fn f<T: Index>() {} f") \
            and not code.startswith("fn f<I, S, P")
        marks = "" if err is None else " //~ " + err.split()[0]
        if item:
            src += "mod w%d { use super::*; %s }%s\n" % (i, code, marks)
        else:
            src += "fn w%d() { %s }%s\n" % (i, code, marks)
        meta[src.count("\n")] = (name, what, code, err)
    return src, meta


def check(c):
    groups = [("p02t", HEAD, [r for r in ROWS if r[3] != "E0596"]),
              ("p02b", HEAD, [r for r in ROWS if r[3] == "E0596" or r[3] is None]),
              ("p02r", HEAD, RES), ("p02p", HEAD, PRIV)]
    for name, head, rows in groups:
        src, meta = build(rows, head)
        alt = {l: set(m[3].split()) for l, m in meta.items() if m[3]}
        exp, bad = witness(name, src, alt=alt)
        c.count("operations_decided", len(rows))
        c.count("operations_that_must_be_rejected", exp)
        for kind, line, text, code, errs in bad:
            nm, what, src_, err = meta.get(line, ("other", "?", text, None))
            if kind == "accepts":
                c.violation(nm, "this program must not build, but does (%s): %s%s" % (
                    what, src_, " -- it fails with %s instead" % errs if errs else ""))
            else:
                c.violation(nm, "this program must build, but does not (%s): %s: %s" % (what, src_, errs[0]))
    c.explanation = ("Each operation of the public interface is tried under each configuration in a "
                     "program of its own; the compiler decides whether it builds, and the answer must "
                     "equal the documented capability table. Programs that must be rejected must be "
                     "rejected with the expected class of error on that line.")
    c.assumptions = ["rustc's type checker, name resolution and privacy checks"]
    c.floor("operations_decided", 40)

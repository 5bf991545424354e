"""P03: lifetimes and aliasing, decided by the borrow checker and the drop checker on witnesses."""
from common import witness

TECHNIQUE = ("type-level witnesses: the borrow checker, the drop checker and the variance of the public "
             "types decide programs that keep, overlap or outlive what they hold")

HEAD = """
#![allow(unused, dead_code, unused_must_use)]
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures, RleTreeConfig, SupportsInsert};
use sherman::*;
#[derive(Clone)]
pub struct CS(u8);
impl<I> Slice<I> for CS {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: I) -> Self { CS(0) }
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> { Err((self, o)) }
}
#[derive(Clone)]
pub struct RS<'x>(&'x u8);
impl<'x, I> Slice<I> for RS<'x> {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: I) -> Self { RS(self.0) }
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> { Err((self, o)) }
}
#[derive(Clone)]
pub struct DS<'x>(&'x u8);             // looks at what it refers to when dropped
impl<'x> Drop for DS<'x> { fn drop(&mut self) { let _ = *self.0; } }
impl<'x, I> Slice<I> for DS<'x> {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: I) -> Self { DS(self.0) }
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> { Err((self, o)) }
}
fn use_<T>(_: T) {}
fn mk<P: RleTreeConfig<usize, CS, 3> + SupportsInsert<usize, CS, 3>>() -> RleTree<usize, CS, P, 3> { RleTree::new(CS(0), 4) }
"""
CFG = ["NoFeatures", "AllowCow", "AllowSliceRefs"]


def borrow_rows():
    """(name, meaning, code with the marker ~~ in the rejected line or none, error codes)"""
    for p in CFG:
        t = "let mut t = mk::<%s>(); " % p
        yield p + ":entry-over-insert", "an entry must not outlive a mutation", t + "let e = t.get(0);\nt.insert(0, CS(0), 1); //~ E0502\nuse_(e.slice());"
        yield p + ":slice-over-insert", "a slice obtained from an entry must not outlive a mutation", t + "let e = t.get(0).slice();\nt.insert(0, CS(0), 1); //~ E0502\nuse_(e);"
        yield p + ":cursor-entry-over-insert", "an entry must not outlive a mutation", t + "let e = t.get_with_cursor(NoCursor, 0);\nt.insert(0, CS(0), 1); //~ E0502\nuse_(e.slice());"
        yield p + ":entry-over-drop", "an entry must not outlive the tree", t + "let e = t.get(0);\ndrop(t); //~ E0505\nuse_(e.slice());"
        yield p + ":iter-over-insert", "an iterator must not outlive a mutation", t + "let mut i = t.iter(..);\nt.insert(0, CS(0), 1); //~ E0502\nuse_(i.next());"
        yield p + ":iterc-over-insert", "an iterator must not outlive a mutation", t + "let mut i = t.iter_with_cursor(NoCursor, ..);\nt.insert(0, CS(0), 1); //~ E0502\nuse_(i.next());"
        yield p + ":item-over-insert", "an item of an iterator must not outlive a mutation", t + "let x = t.iter(..).next();\nt.insert(0, CS(0), 1); //~ E0502\nuse_(x);"
        yield p + ":iter-over-drop", "an iterator must not outlive the tree", t + "let mut i = t.iter(..);\ndrop(t); //~ E0505\nuse_(i.next());"
        yield p + ":iter-over-scope", "an iterator must not outlive the tree's scope", "let mut i;\n{ let mut t = mk::<%s>();\ni = t.iter(..); //~ E0597\n}\nuse_(i.next());" % p
        yield p + ":drain-over-get", "while a drain exists, the tree cannot be read", t + "let mut d = t.drain(0..1);\nt.get(0); //~ E0502\nuse_(d.next());"
        yield p + ":drain-over-drain", "there is at most one drain", t + "let mut d = t.drain(0..1);\nlet e = t.drain(0..1); //~ E0499\nuse_(d.next());"
        yield p + ":drainc-over-insert", "while a drain exists, the tree cannot be modified", t + "let mut d = t.drain_with_cursor(NoCursor, 0..1);\nt.insert(0, CS(0), 1); //~ E0499\nuse_(d.next());"
        yield p + ":drain-over-size", "the destructor of a drain needs the tree", t + "let d = t.drain(0..1);\nt.size(); //~ E0502\ndrop(d);"
        yield p + ":drain-over-entry", "an entry must not overlap a drain", t + "let e = t.get(0);\nt.drain(0..1); //~ E0502\nuse_(e.slice());"
        yield p + ":drain-over-drop", "a drain must not outlive the tree", t + "let mut d = t.drain(0..1);\ndrop(t); //~ E0505\nuse_(d.next());"
        yield p + ":ok-item-over-iter", "items may outlive the iterator", t + "let x = { let mut i = t.iter(..); i.next() };\nuse_(x);"
        yield p + ":ok-slice-over-entry", "the slice may outlive the entry", t + "let x = { let e = t.get(0); e.slice() };\nuse_(x);"
        yield p + ":ok-two-readers", "readers may overlap", t + "let i = t.iter(..); let e = t.get(0); for x in i { use_(x.slice()); } use_(e.slice());"
        yield p + ":ok-after", "the tree can be modified after its readers are gone", t + "{ let i = t.iter(..); } t.get(0); t.insert(0, CS(0), 1); drop(t);"
        # contents that refer to something
        h = "let mut t: RleTree<usize, RS, %s, 3> = RleTree::new_empty(); " % p
        yield p + ":contents", "the tree must not be used after what its slices refer to", h + "{ let v = 0u8;\nt.insert(0, RS(&v), 1); //~ E0597\n}\nt.get(0);"
        hd = "let mut t: RleTree<usize, DS, %s, 3> = RleTree::new_empty(); " % p
        yield p + ":contents-drop", "the tree must not be dropped after what its slices use when dropped", hd + "let v = 0u8;\nt.insert(0, DS(&v), 1); //~ E0597\n"
        yield p + ":contents-new-drop", "the tree must not be dropped after what its slices use when dropped", "let t: RleTree<usize, DS, %s, 3>; let v = 0u8;\nt = RleTree::new(DS(&v), 1); //~ E0597\n" % p
        yield p + ":get-lifetime", "a slice lives as long as the tree is borrowed, not longer", "fn f<'a>(t: &'a RleTree<usize, CS, %s, 3>) -> &'static CS {\nt.get(0).slice() //~ BC\n}" % p
        yield p + ":iter-lifetime", "an item lives as long as the tree is borrowed, not longer", "fn f<'a>(t: &'a RleTree<usize, CS, %s, 3>) -> SliceEntry<'static, usize, CS, %s, 3> {\nt.iter(..).next().unwrap() //~ BC\n}" % (p, p)
        yield p + ":back-lifetime", "an item lives as long as the tree is borrowed, not longer", "fn f<'a>(t: &'a RleTree<usize, CS, %s, 3>) -> &'static CS {\nt.iter(..).next_back().unwrap().slice() //~ BC\n}" % p
        yield p + ":entry-shorten", "entries cannot be stretched", "fn f<'a, 'b>(e: SliceEntry<'a, usize, CS, %s, 3>) -> SliceEntry<'b, usize, CS, %s, 3> {\ne //~ BC\n}" % (p, p)
        yield p + ":iter-shorten", "iterators cannot be stretched", "fn f<'a, 'b>(e: Iter<'a, NoCursor, usize, CS, %s, 3>) -> Iter<'b, NoCursor, usize, CS, %s, 3> {\ne //~ BC\n}" % (p, p)
        yield p + ":drain-shorten", "drains cannot be stretched", "fn f<'a, 'b>(e: Drain<'a, NoCursor, usize, CS, %s, 3>) -> Drain<'b, NoCursor, usize, CS, %s, 3> {\ne //~ BC\n}" % (p, p)
        yield p + ":contents-stretch", "the contents' lifetime cannot be stretched", "fn f<'a>(e: RleTree<usize, RS<'a>, %s, 3>) -> RleTree<usize, RS<'static>, %s, 3> {\ne //~ BC\n}" % (p, p)
    # the contents of a tree with slice references are shared with the references: invariant
    q = "AllowSliceRefs"
    t = "let mut t = mk::<AllowSliceRefs>(); "
    yield "refs:tree-invariant", "the contents' lifetime of a tree with references cannot be shortened: its references still see the old one", "fn f<'a>(e: RleTree<usize, RS<'static>, AllowSliceRefs, 3>) -> RleTree<usize, RS<'a>, AllowSliceRefs, 3> {\ne //~ BC\n}"
    yield "refs:ref-invariant", "the contents' lifetime of a reference cannot be shortened", "fn f<'a>(e: SliceRef<usize, RS<'static>, 3>) -> SliceRef<usize, RS<'a>, 3> {\ne //~ BC\n}"
    yield "refs:ref-invariant2", "the contents' lifetime of a reference cannot be stretched", "fn f<'a>(e: SliceRef<usize, RS<'a>, 3>) -> SliceRef<usize, RS<'static>, 3> {\ne //~ BC\n}"
    yield "refs:borrow-over-ref", "a borrow must not outlive its reference", t + "let r = t.insert_ref(0, CS(0), 1); let b = r.borrow_slice();\ndrop(r); //~ E0505\nuse_(&*b);"
    yield "refs:try-borrow-over-ref", "a borrow must not outlive its reference", t + "let r = t.insert_ref(0, CS(0), 1); let b = r.try_borrow_slice();\ndrop(r); //~ E0505\nuse_(b);"
    yield "refs:value-over-borrow", "a value must not outlive the borrow it came from", t + "let r = t.insert_ref(0, CS(0), 1); let b = r.borrow_slice(); let v: &CS = &*b;\ndrop(b); //~ E0505\nuse_(v);"
    yield "refs:value-over-clone", "a value must not outlive the borrow it came from, though another remains", t + "let r = t.insert_ref(0, CS(0), 1); let b = r.borrow_slice(); let c = b.clone(); let v: &CS = &*b;\ndrop(b); //~ E0505\nuse_(v);"
    yield "refs:borrow-lifetime", "a borrow cannot be stretched", "fn f<'a, 'b>(e: Borrow<'a, CS>) -> Borrow<'b, CS> {\ne //~ BC\n}"
    yield "refs:deref-lifetime", "a value cannot be stretched to the lifetime of the reference", "fn f<'a>(e: &'a SliceRef<usize, CS, 3>) -> &'a CS {\nlet b = e.borrow_slice(); &*b //~ E0515\n}"
    yield "refs:map-lifetime", "a mapped borrow has no value that outlives it", "fn f<'a>(e: Borrow<'a, CS>) -> Borrow<'a, u8> {\nlet x = 0u8; Borrow::map(e, |_| &x) //~ BC\n}"
    yield "refs:ok-map", "borrows can be mapped to a part", "fn f<'a>(e: Borrow<'a, CS>) -> Borrow<'a, u8> { Borrow::map(e, |c| &c.0) }"
    yield "refs:ok-mut-with-ref", "the tree can be modified while references exist", t + "let r = t.insert_ref(0, CS(0), 1); t.insert(0, CS(0), 1); use_(&*r.borrow_slice());"
    yield "refs:ok-ref-over-tree", "references may outlive the tree", t + "let r = t.insert_ref(0, CS(0), 1); drop(t); r.is_valid();"
    yield "refs:ref-contents", "a reference must not be used after what the slices refer to", "let r; {let v = 0u8; let mut t: RleTree<usize, RS, AllowSliceRefs, 3> = RleTree::new_empty();\nr = t.insert_ref(0, RS(&v), 1); //~ E0597\n}\nr.is_valid();"
    yield "cow:ok-covariant", "a copy-on-write clone and its original stay independent values", "let mut t = mk::<AllowCow>(); let u = t.clone(); let e = u.get(0); t.insert(0, CS(0), 1); drop(t); use_(e.slice());"


def nightly_rows():
    for p in CFG:
        yield p + ":nightly-drop", "with the relaxed destructor, contents that are used when dropped must still be alive", "let mut t: RleTree<usize, DS, %s, 3> = RleTree::new_empty(); let v = 0u8;\nt.insert(0, DS(&v), 1); //~ E0597\n" % p
        yield p + ":nightly-new-drop", "with the relaxed destructor, contents that are used when dropped must still be alive", "let t: RleTree<usize, DS, %s, 3>; let v = 0u8;\nt = RleTree::new(DS(&v), 1); //~ E0597\n" % p
        yield p + ":nightly-use", "the tree must not be used after what its slices refer to", "let mut t: RleTree<usize, RS, %s, 3> = RleTree::new_empty(); { let v = 0u8;\nt.insert(0, RS(&v), 1); //~ E0597\n}\nt.get(0);" % p
        yield p + ":nightly-shared", "the tree must not be borrowed when it is dropped", "let mut t = mk::<%s>(); let i = t.iter(..);\ndrop(t); //~ E0505\nuse_(i);" % p
    yield "ok:nightly-plain", "contents without a destructor may be gone when the tree is dropped", "let t: RleTree<usize, RS, NoFeatures, 3>; let v = 0u8;\nt = RleTree::new(RS(&v), 1);\n"
    yield "refs:nightly-borrow", "a borrow must not outlive its reference", "let mut t = mk::<AllowSliceRefs>(); let r = t.insert_ref(0, CS(0), 1); let b = r.borrow_slice();\ndrop(r); //~ E0505\nuse_(&*b);"
    yield "refs:nightly-borrow-contents", "the last borrow may drop the tree: the contents must be alive then", "let mut t: RleTree<usize, DS, AllowSliceRefs, 3> = RleTree::new_empty(); let r; let b; { let v = 0u8;\nr = t.insert_ref(0, DS(&v), 1); //~ E0597\nb = r.borrow_slice(); drop(t); }\n drop(b);"


def check(c):
    for name, rows, feat, head in (("p03b", list(borrow_rows()), (), HEAD),
                                   ("p03n", list(nightly_rows()), ("nightly",), HEAD)):
        src, meta, alt = head, {}, {}
        for i, (nm, what, code) in enumerate(rows):
            start = src.count("\n") + 1
            body = "mod w%d { use super::*;\n%s\n}\n" % (i, code) if code.startswith("fn ") \
                else "fn w%d() {\n%s\n}\n" % (i, code)
            for k, l in enumerate(body.split("\n")):
                if l.endswith("//~ BC"):
                    alt[start + k] = {"E0515", "E0521", "E0621", "E0700", "E0716", "E0597", "E0308", None}
            body = body.replace("//~ BC", "//~ E0000")
            src += body
            for l in range(start, src.count("\n") + 1):
                meta[l] = (nm, what, code)
        for l, t in enumerate(src.split("\n"), 1):
            if "//~ E0" in t and l not in alt:
                alt[l] = {t.split("//~ ")[1].strip()}
                alt[l] |= {"E0502", "E0499", "E0505"} if alt[l] & {"E0502", "E0499", "E0505"} else set()
        exp, bad = witness(name, src, features=feat, alt=alt)
        c.count("programs_decided", len(rows))
        c.count("programs_that_must_be_rejected", exp)
        for kind, line, text, code, errs in bad:
            nm, what, src_ = meta.get(line, ("other", "?", text))
            flat = " ".join(src_.split("\n"))
            if kind == "accepts":
                c.violation(nm, "this program must not build, but does (%s): %s" % (what, flat))
            else:
                c.violation(nm, "this program must build, but does not (%s): %s: %s" % (what, flat, errs[0]))
    c.explanation = ("Programs that keep an entry, iterator, drain, borrow or value across a mutation, move or "
                     "drop of what it belongs to, that overlap two mutable uses, or that let the contents of "
                     "a tree die before the tree, are given to the compiler: each must be rejected at the "
                     "marked line, and each program that is sound must build. Decided with and without the "
                     "library's relaxed ('nightly') destructors.")
    c.assumptions = ["rustc's borrow checker, drop checker and variance computation"]
    c.floor("programs_decided", 90)

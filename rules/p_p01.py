"""P01: thread-safety matrix of the public types, decided by rustc's trait solver on witnesses."""
import itertools
from common import witness

TECHNIQUE = ("type-level witnesses: the compiler's trait solver decides Send/Sync of every public "
             "type for every configuration and every class of contents")

HEAD = """
#![allow(unused, dead_code)]
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures};
use sherman::*;
use std::marker::PhantomData;
pub struct SS;
pub struct SN(PhantomData<std::cell::Cell<()>>);            // Send, not Sync
pub struct NS(PhantomData<std::sync::MutexGuard<'static, ()>>); // Sync, not Send
pub struct NN(PhantomData<*const ()>);                      // neither
fn send<T: Send>() {}
fn sync<T: Sync>() {}
"""
KINDS = {"SS": (1, 1), "SN": (1, 0), "NS": (0, 1), "NN": (0, 0)}


def rows():
    """(type text, trait, may hold): what soundness allows"""
    for i, s in itertools.product(KINDS, KINDS):
        (i_send, i_sync), (s_send, s_sync) = KINDS[i], KINDS[s]
        both_send, both_sync = i_send and s_send, i_sync and s_sync
        t = "RleTree<%s, %s, %%s, 3>" % (i, s)
        yield t % "NoFeatures", "send", both_send
        yield t % "NoFeatures", "sync", both_sync
        yield t % "AllowCow", "send", both_send and both_sync
        yield t % "AllowCow", "sync", both_send and both_sync
        yield t % "AllowSliceRefs", "send", 0
        yield t % "AllowSliceRefs", "sync", 0
        for p in ("NoFeatures", "AllowCow", "AllowSliceRefs"):
            ok = p != "AllowSliceRefs"
            yield "SliceEntry<'static, %s, %s, %s, 3>" % (i, s, p), "send", ok and i_send and i_sync and s_sync
            yield "SliceEntry<'static, %s, %s, %s, 3>" % (i, s, p), "sync", ok and i_sync and s_sync
            for c, (c_send, c_sync) in KINDS.items():
                it = "Iter<'static, %s, %s, %s, %s, 3>" % (c, i, s, p)
                yield it, "send", ok and c_send and i_send and i_sync and s_sync
                yield it, "sync", ok and c_sync and i_sync and s_sync
        d = "Drain<'static, SS, %s, %s, %s, 3>"
        for tr in ("send", "sync"):
            yield d % (i, s, "AllowSliceRefs"), tr, 0
            # a drain owns the removed part of the tree: at most as shareable as the tree
            for p in ("NoFeatures", "AllowCow"):
                if p == "AllowCow":
                    may = both_send and both_sync
                else:
                    may = both_send if tr == "send" else both_sync
                if not may:
                    yield d % (i, s, p), tr, 0
            yield "SliceRef<%s, %s, 3>" % (i, s), tr, 0
    for s in KINDS:
        yield "Borrow<'static, %s>" % s, "send", 0
        yield "Borrow<'static, %s>" % s, "sync", 0


def check(c):
    src, n = HEAD, 0
    meta = {}
    for ty, tr, may in rows():
        src += "fn w%d() { %s::<%s>() }%s\n" % (n, tr, ty, "" if may else " //~ E0277")
        meta[src.count("\n")] = (ty, tr, may)
        n += 1
    exp, bad = witness("p01", src)
    c.count("type_trait_pairs_decided", n)
    c.count("pairs_that_must_be_rejected", exp)
    c.explanation = ("For every public type that gives access to stored values, each configuration and "
                     "each of the 16 (Send/Sync) classes of index and slice type, the compiler decides "
                     "whether the type is Send/Sync; the answer must equal the table derived from who "
                     "can reach the values from which thread. A pair that is accepted but must be "
                     "rejected is unsound; one rejected that must be accepted takes away a documented "
                     "capability.")
    c.assumptions = ["rustc's trait solver", "values reached only through & need Sync; values that can be dropped or taken need Send"]
    for kind, line, text, code, errs in bad:
        ty, tr, may = meta.get(line, ("?", "?", None))
        if kind == "accepts":
            c.violation("%s:%s" % (tr, ty.replace(" ", "")),
                        "%s is accepted as %s although its contents do not allow it (src/tree: unsafe impl of %s)" % (ty, tr.capitalize(), tr.capitalize()))
        else:
            c.violation("not-%s:%s" % (tr, ty.replace(" ", "")),
                        "%s is not %s although its contents allow it: %s" % (ty, tr.capitalize(), errs[0][1]))
    c.sample("RleTree<SS, NS, AllowCow, 3>: Sync must be rejected (a clone made through & may be dropped on another thread)")
    c.floor("type_trait_pairs_decided", 400)

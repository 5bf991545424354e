"""P04: writes to copy-on-write nodes only after the node is known to be unshared."""
import common, nodes, units
from absint import root_path, show, fld
from nodes import EXCL, marker, inner_marker, handle_ptr, isnode, node_elem, excl

TECHNIQUE = ("ownership/typestate analysis by abstract interpretation of monomorphic MIR: every write, move-out, drop or "
             "deallocation of a copy-on-write node, and every creation of an exclusive node handle, must be "
             "dominated on its path by the node being freshly allocated, found or made unshared, or already exclusive")


class R(units.UnitRule):
    def need(self, eng, fr, st, p, what, sp):
        why = excl(eng, st, p)
        self.oblige(why, fr, what, "%s at %s: %s of a node (%s) that may be shared with another clone of the tree: it is "
                    "neither freshly allocated nor known to have a single owner here" % (fr.body.path, sp, what, show(p)), [p])

    def target(self, eng, fr, st, ptr, what, sp):
        r, q = root_path(ptr)
        if r.op == "slc":
            r, q = root_path(r.a[0])
        e = node_elem(q)
        if e is None or r.op == "loc" or e == "Leaf.strong_count":
            return
        self.need(eng, fr, st, r, what, sp)

    on_phi = staticmethod(nodes.keep_excl)

    def on_store(self, eng, fr, st, ptr, val, place, sp):
        r, q = root_path(ptr)
        e = node_elem(q)
        if e:
            self.target(eng, fr, st, ptr, "write of `%s`" % e.split(".")[1], sp)
        elif not q and r.op not in ("loc", "alloc") and val.op == "agg" and val.a[1] in ("Leaf", "Internal"):
            self.need(eng, fr, st, r, "overwriting", sp)

    def on_copy(self, eng, fr, st, src, dst, n, c):
        self.target(eng, fr, st, dst, "copying into", c.sp)

    def on_drop(self, eng, fr, st, ptr, ty, sp):
        if ptr.op in ("adr", "slc") and mentions_user(eng.p, ty):
            self.target(eng, fr, st, ptr, "dropping a slice", sp)

    def on_ref(self, eng, fr, st, ptr, kind, mut, place, sp):
        if mut and kind == "ref" and isnode(eng.p, place.ty):
            r, q = root_path(ptr)
            if r.op != "loc" and not q:
                self.need(eng, fr, st, r, "making a mutable reference", sp)

    def on_agg(self, eng, fr, st, adt, variant, val, ty, sp):
        m = marker(eng.p, ty)
        if m in EXCL:
            self.need(eng, fr, st, handle_ptr(val), "making an exclusive (%s) handle" % m, sp)

    def on_cast(self, eng, fr, st, val, kind, f, t, sp):
        for mk_, get in ((marker, lambda v: v), (inner_marker, st.load)):
            a, b = mk_(eng.p, f), mk_(eng.p, t)
            if b in EXCL and a is not None and a not in EXCL:
                self.need(eng, fr, st, handle_ptr(get(val)), "turning a %s handle into an exclusive (%s) one" % (a, b), sp)

    def on_call(self, eng, fr, st, c):
        n = c.name
        if n in ("transmute_copy", "transmute", "read", "cast", "read_unaligned"):
            a = marker(eng.p, c.argtys[0]) or inner_marker(eng.p, c.argtys[0])
            b = marker(eng.p, c.destty) or inner_marker(eng.p, c.destty)
            if b in EXCL and a is not None and a not in EXCL:
                v = c.args[0] if marker(eng.p, c.argtys[0]) else st.load(c.args[0])
                self.need(eng, fr, st, handle_ptr(v), "turning a %s handle into an exclusive (%s) one" % (a, b), c.sp)
        if n in ("assume_init_read", "read", "take", "replace", "assume_init_drop") and c.args and mentions_user(eng.p, c.destty):
            p = st.load(c.args[0]) if c.args[0].op == "loc" and "assume_init" not in n else c.args[0]
            if p.op in ("adr", "slc"):
                self.target(eng, fr, st, p, "moving a slice out", c.sp)
        if n == "as_mut" and "NonNull" in c.rpath:
            t = eng.p.ty(c.destty)
            if isnode(eng.p, t.get("inner")):
                self.need(eng, fr, st, st.load(c.args[0]), "making a mutable reference", c.sp)
        if n == "dealloc" and c.args:
            p = c.args[0]
            if p.op != "alloc" and "node" in fr.body.path:
                self.need(eng, fr, st, p, "deallocating", c.sp)
        return super().on_call(eng, fr, st, c)


def mentions_user(p, ty):
    s = p.ty(ty)["s"] if ty is not None else ""
    return s in ("US", "UN", "[US]", "[UN]") or s.startswith(("std::option::Option<US", "std::option::Option<UN"))


def check(c):
    prog = units.program(common.facts_paths())
    names = ("US", "UN") if c.tier == "thorough" else ("US",)
    for s in names:
        bad = units.run(prog, lambda: R(prog), units.of("AllowCow", s), c)
        for (fn, what), (text, unit) in bad.items():
            c.violation("%s:%s" % (fn, what.replace(" ", "-")), text + " [reached from %s]" % unit)
    c.floor("obligation_sites", 25)
    c.floor("functions", 150)
    c.explanation = ("every function of the copy-on-write configuration interpreted over all paths; obligations are the writes, "
                     "copies, move-outs, drops and deallocations of node memory and the creations of exclusive handles")
    c.assumptions = ["pointers stored in a handle's parent field are those of its actual parent (P20)",
                     "integer arithmetic does not wrap; differently named fields do not overlap"]

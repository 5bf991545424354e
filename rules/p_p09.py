"""P09: slice references follow their slices."""
import absint as A
import common, layout, nodes, units
from absint import K, T, mk, eq, add, sub, fld, addr_field, root_path, show, discr, is_k
from layout import Moves, place_of, same
from p_p07 import adt_of, possible, state_cell, is_state, want

TECHNIQUE = ("must-happen-after analysis by abstract interpretation of monomorphic MIR: every place a slice's reference id is moved or "
             "written to is reported to the table for exactly that place on the same path; the root known to the table is current "
             "when a modification ends")


def opt_id(p, ty):
    """Option<EntryId>"""
    t = p.ty(ty) if ty is not None else {}
    return t.get("adt") == "std::option::Option" and adt_of(p, t["args"][0]) == "EntryId"


def updater(p, b):
    """(index of the &Option<EntryId> parameter, of the handle parameter) of a function that sets the place of a slice"""
    if b is None or b.crate != "sherman":
        return None
    r = h = None
    for i in range(b.argc):
        t = p.ty(b.locals[i + 1][0])
        if t.get("k") == "ref" and opt_id(p, t["inner"]):
            r = i
        elif nodes.marker(p, b.locals[i + 1][0]) == "SliceRef":
            h = i
    return (r, h) if r is not None and h is not None else None


def handles_in(v, d=0):
    """the handle a table entry holds"""
    if v.op == "agg" and d < 8:
        if v.a[1] == "Handle" and A.tail(v.a[0]) == "StoredSliceRef":
            h = v.a[2][0][1]
            if h is not A.NONE:
                yield fld(h, "Some.0")
        for _, x in v.a[2]:
            if isinstance(x, T):
                yield from handles_in(x, d + 1)


class R(Moves):
    def inline(self, eng, fr, body):
        if body.crate == "sherman" and self.SMALL > 6 and "collapse" not in body.path and \
                (self.nblocks(body) <= 30 and ("slice_ref" in body.key or "recycle" in body.key) or self.nblocks(body) <= 20):
            return True
        return super().inline(eng, fr, body)

    def updated(self, fr, st, ref, handle, sp):
        ptr, idx = nodes.handle_ptr(handle), fld(handle, "SliceHandle.idx")
        d = place_of(ref)
        if d is not None and d[0].op != "loc":
            ok = (d[0] is ptr or st.truth(eq(d[0], ptr)) == 1) and same(st, d[2], idx)
            self.oblige(ok, fr, "place reported", "%s at %s: the reference of the slice at index %s of %s is set to index %s of %s"
                        % (fr.body.path, sp, show(d[2]), show(d[0]), show(idx), show(ptr)), [d[0], d[2], ptr, idx])
        else:
            st.aux[("updv", st.load(ref), ptr, idx)] = 1
        st.aux[("each", "upd", ptr, idx)] = 1

    def on_call(self, eng, fr, st, c):
        u = updater(self.p, c.body)
        if u is not None:
            self.updated(fr, st, c.args[u[0]], c.args[u[1]], c.sp)
        return super().on_call(eng, fr, st, c)

    def on_store(self, eng, fr, st, ptr, val, place, sp):
        r, q = root_path(ptr)
        if q[-1:] == ("InnerStore.root",) and r.op != "loc":
            st.aux["root"] = nodes.handle_ptr(fld(val, "Some.0")) if val is not A.NONE else A.NONE
        if "InnerStore.refs" in q:
            for h in handles_in(val):
                st.aux[("each", "upd", nodes.handle_ptr(h), fld(h, "SliceHandle.idx"))] = 1
                i = next((e[1] for e in reversed(q) if isinstance(e, tuple)), None)
                if i is not None:
                    st.aux[("set", i, h)] = 1
        if is_state(eng, val, place.ty if place is not None else None) and val.op == "agg" and val.a[1] == "NotBorrowed" and state_cell(ptr):
            self.released(fr, st, r, q, sp)
        super().on_store(eng, fr, st, ptr, val, place, sp)

    def released(self, fr, st, r, q, sp):
        """a modification ends: the table knows the current root"""
        v = st.load(A.adr(r, q))
        if possible(st, v) != {"Mutable"}:
            return
        cur = self.handle_of_store(r)
        if cur is None:
            self.oblige(False, fr, "root", "%s at %s: a modification ends (of the tree whose store is %s)" % (fr.body.path, sp, show(r)), [r])
            return
        now = st.load(cur)
        known = st.aux.get("root")
        self.oblige(known is not None and known is not A.NONE and same(st, known, now), fr, "root",
                    "%s at %s: when the modification ends, the root that borrows will drop is %s, but the tree's is %s"
                    % (fr.body.path, sp, show(known) if known is not None else "whatever it was", show(now)), [r])

    @staticmethod
    def handle_of_store(r):
        if r.op == "ld" and r.a[1][-2:] == ("Root.refs_store", "SliceRefStore.inner"):
            return A.adr(r.a[0], r.a[1][:-2] + ("Root.handle", "NodeHandle.ptr"))
        return None

    def on_agg(self, eng, fr, st, adt, variant, val, ty, sp):
        if variant == "Root" and A.tail(adt) == "Root":
            s = fld(fld(val, "Root.refs_store"), "SliceRefStore.inner")
            if s.op == "alloc":
                v = st.load(addr_field(s, "InnerStore.root"))
                ok = v.op == "agg" and v is not A.NONE and nodes.handle_ptr(fld(v, "Some.0")) is nodes.handle_ptr(fld(val, "Root.handle"))
                self.oblige(ok, fr, "first root", "%s at %s: a tree is made whose table knows another root" % (fr.body.path, sp), [])
        if A.tail(adt) == "Key" and adt.startswith("sherman"):
            a, b = layout.source_of(fld(val, "Key.slice")), fld(val, "Key.ref_id")
            if a is not None:
                s = layout.source_of(b)
                self.oblige(s is not None and s[0] is a[0] and same(st, s[2], a[2]), fr, "identity", "%s at %s: a slice is taken out of "
                            "index %s of a node without its reference" % (fr.body.path, sp, show(a[2])), [])
                if s is not None:
                    st.aux[("out", fld(val, "Key.slice"), b)] = 1

    def on_return(self, eng, fr, st, val):
        u = updater(self.p, fr.body) if fr.depth == 0 else None
        if u is not None:
            self.sets(fr, st, u)
        super().on_return(eng, fr, st, val)

    def judge(self, eng, fr, st, only):
        f = "Leaf.refs"
        for r, lo, hi, s, sl in self.moves(st, f):
            if only is not None and r not in only:
                continue
            up = self.spans(st, "upd", r)
            self.oblige(self.covers(st, up, lo, hi), fr, "moved", "%s: references are moved to %s..%s of %s; their new place is made known for %s"
                        % (fr.body.path, show(lo), show(hi), show(r), " and ".join("%s..%s" % (show(a), show(b)) for a, b in up) or "none"),
                        self.where(r, up))
        for r in layout.roots(st):
            if only is not None and r not in only:
                continue
            up = None
            for i, v in self.writes(st, f, r):
                if v is A.NONE or v is A.UNIT or st.truth(discr(v)) == 0 or ("updv", v, r, i) in st.aux:
                    continue
                up = self.spans(st, "upd", r) if up is None else up
                self.oblige(self.covers(st, up, i, add(i, K(1))), fr, "written", "%s: a reference is written to index %s of %s, and this place is "
                            "not made known" % (fr.body.path, show(i), show(r)), self.where(r, up))
            for i, v in self.writes(st, "Leaf.vals", r):
                if v.op == "fld" and v.a[1] == "Key.slice":
                    k = fld(v.a[0], "Key.ref_id")
                    ok = any(w is k and same(st, i, j) for j, w in self.writes(st, f, r))
                    self.oblige(ok or ("loop", f, r) in st.aux, fr, "identity kept", "%s: a slice is put at index %s of %s without its reference"
                                % (fr.body.path, show(i), show(r)), [])

    def where(self, r, up):
        """what the failure to report a move within r depends on: a node made here may still be reported by the caller"""
        if r.op != "alloc":
            return [r] if layout.handed(r) else []
        f = r.a[0].a[0] if not up and r.a[0].op == "s" else None
        while f is not None and f.a[0] not in self.force:
            f = f.a[1]
        return [mk("param", 1, None)] if f is None and not up else []

    def sets(self, fr, st, u):
        b = fr.body
        ref, h = [mk("param", i + 1, b.locals[i + 1][1]) for i in u]
        v = st.load(ref)
        if st.truth(discr(v)) == 0 or v is A.NONE:
            return
        n = fld(fld(fld(v, "Some.0"), "EntryId.idx_plus_one"), "NonZero.0")
        want_ = sub(fld(fld(v, "Some.0"), "EntryId.idx_plus_one"), K(1))
        ok = any(k[0] == "set" and same(st, k[1], want_) and fld(k[2], "SliceHandle.idx") is fld(h, "SliceHandle.idx")
                 and nodes.handle_ptr(k[2]) is nodes.handle_ptr(h) for k in st.aux)
        self.oblige(ok, fr, "table", "%s: does not set the entry of the reference it is given to the place it is given" % b.path, [])


def check(c):
    prog = units.program(common.facts_paths())
    names = ("US", "UN") if c.tier == "thorough" else ("US",)
    for s in names:
        bad = units.run(prog, lambda: R(prog), want(s), c)
        for (fn, what), (text, unit) in bad.items():
            c.violation("%s:%s" % (fn, what.replace(" ", "-")), text + " [reached from %s]" % unit)
    c.floor("obligation_sites", 6)
    c.explanation = ("every function of the slice-reference configuration interpreted over all returning paths; obligations are one per range of "
                     "references moved and per reference written (reported to the table for that place), per report (names that place), and "
                     "per end of a modification (the table knows the root)")
    c.assumptions = ["paths that unwind are not covered (the tree stays marked as being modified, and refuses to be read)"]

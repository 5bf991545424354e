"""P11: every child knows its parent and its place in it."""
import absint as A
import common, layout, nodes, units
from absint import K, T, mk, eq, add, sub, lt, fld, addr_field, root_path, show, is_k
from layout import Moves, same, ONE

TECHNIQUE = ("must-happen analysis by abstract interpretation of monomorphic MIR: every range of child pointers placed in a node is matched "
             "with the parent links written for it")
CHILDREN = "Internal.child_ptrs"
WHAT = {"par": "parent", "idx": "place"}


class Seen:
    def __init__(self, aux):
        self.aux = aux


class R(Moves):
    def __init__(self, prog, cow):
        super().__init__(prog)
        self.cow = cow

    def inline(self, eng, fr, body):
        if body.crate == "sherman" and self.SMALL > 6 and self.nblocks(body) <= 20:
            return True
        return super().inline(eng, fr, body)

    def on_store(self, eng, fr, st, ptr, val, place, sp):
        r, q = root_path(ptr)
        if r.op != "loc" and q and q[0] in ("Leaf.parent", "Leaf.idx_in_parent"):
            c = layout.source_of(r)
            if c is not None and c[1] != CHILDREN:
                c = None
            if q[0] == "Leaf.parent":
                p = fld(val, "Some.0") if val.op == "agg" and val.a[1] == "Some" else fld(st.load(addr_field(r, "Leaf.parent")), "Some.0") \
                    if len(q) > 1 else A.NONE if val is A.NONE else val
                if val.op != "agg" and len(q) > 1:
                    p = val
                if c is not None and p is not A.NONE:
                    self.link(fr, st, sp, "par", c, p, p is c[0] or st.truth(eq(p, c[0])) == 1, [p, c[0]])
                elif layout.loopy(r):
                    st.aux[("each", "vague", "par", r)] = 1
                st.aux[("par", r)] = p
            else:
                v = val
                while v.op == "agg" and len(v.a[2]) == 1:
                    v = v.a[2][0][1]
                if c is not None:
                    self.link(fr, st, sp, "idx", c, v, same(st, v, c[2]), [v, c[2]])
                elif layout.loopy(r):
                    st.aux[("each", "vague", "idx", r)] = 1
                st.aux[("idx", r)] = v
        super().on_store(eng, fr, st, ptr, val, place, sp)

    def link(self, fr, st, sp, kind, c, v, ok, dep):
        """the child at a place c of a node is told that its parent, or index there, is v"""
        loop = layout.loopy(c[2])
        if ok or loop:
            self.oblige(ok, fr, WHAT[kind], "%s at %s: the child at index %s of %s is told that its %s is %s"
                        % (fr.body.path, sp, show(c[2]), show(c[0]), WHAT[kind], show(v)), dep)
        if ok:
            st.aux[("each", kind, c[0], c[2])] = 1
        if not loop:
            for k in [k for k in st.aux if k[:4] == ("late", kind, c[0], c[2])]:
                del st.aux[k]
            st.aux[("late", kind, c[0], c[2], v)] = 1

    def settle(self, fr, st, only):
        """links written to children that have been moved"""
        out = []
        for k in [k for k in st.aux if k[0] == "late"]:
            _, kind, cr, ci, v = k
            to = [(m[0], m[1]) for m in self.moves(st, CHILDREN) if m[3] is cr and same(st, m[4], ci) and same(st, m[2], add(m[1], ONE))]
            ok = [t for t in to if (v is t[0] or st.truth(eq(v, t[0])) == 1) and kind == "par" or kind == "idx" and same(st, v, t[1])]
            for t in ok:
                out.append((kind, t[0], t[1]))
            if not ok and (only is None or cr in only):
                self.oblige(v is cr or kind == "idx" and same(st, v, ci) or st.truth(eq(v, cr)) == 1, fr, WHAT[kind],
                            "%s: the child from index %s of %s is told that its %s is %s" % (fr.body.path, show(ci), show(cr), WHAT[kind], show(v)),
                            [v, cr, ci])
        return out

    def on_agg(self, eng, fr, st, adt, variant, val, ty, sp):
        if self.cow and nodes.marker(eng.p, ty) == "Mut":
            v = nodes.handle_ptr(val)
            c = layout.source_of(v)
            if c is not None and c[1] == CHILDREN:
                st.aux[("reached", c[0], c[2], v)] = 1

    def note(self, st, r):
        """links made known so far say nothing about children put into r from now on"""
        old = [k for k in st.aux if k[0] in ("each", "all") and k[1] in WHAT and k[2] is r and not (k[0] == "each" and layout.loopy(k[3]))]
        return tuple(old)

    def on_copy(self, eng, fr, st, src, dst, n, c):
        d = layout.place_of(dst)
        super().on_copy(eng, fr, st, src, dst, n, c)
        if d is not None and d[1] == CHILDREN and n is not ONE:
            st.aux[("old", "mv", d[0], d[2])] = self.note(st, d[0])

    def single(self, eng, fr, st, r, f, i, v):
        super().single(eng, fr, st, r, f, i, v)
        if f == CHILDREN:
            st.aux[("old", "st", r, i)] = self.note(st, r)

    def known(self, st, kind, r, i, ev):
        """indexes of r whose child was told its parent or place after index i was filled"""
        old = st.aux.get(("old", ev, r, i), ())
        if not old:
            return self.spans(st, kind, r)
        s2 = Seen({k: v for k, v in st.aux.items() if k not in old})
        return self.spans(s2, kind, r)

    def oblige(self, ok, fr, what, text, dep):
        super().oblige(ok or self.vague, fr, what, text, dep)

    vague = False

    def judge(self, eng, fr, st, only):
        # links written in a loop over nodes that are not known one by one: no verdict
        self.vague = any(k[0] == "all" and k[1] == "vague" for k in st.aux)
        try:
            self.verdicts(eng, fr, st, only)
        finally:
            self.vague = False

    def verdicts(self, eng, fr, st, only):
        late = self.settle(fr, st, only)
        for _, r, i, v in [k for k in st.aux if k[0] == "reached" and (only is None or k[1] in only)]:
            for kind, what in (("par", "parent known"), ("idx", "place known")):
                x = st.aux.get((kind, v))
                ok = x is not None and same(st, x, r if kind == "par" else i) or self.covers(st, self.spans(st, kind, r), i, add(i, ONE))
                self.oblige(ok, fr, what, "%s: the child at index %s of a copy-on-write node (%s) is reached for modification without being told its %s"
                            % (fr.body.path, show(i), show(r), WHAT[kind]), self.where(r))
        for r, lo, hi, s, sl in self.moves(st, CHILDREN):
            dep = self.where(r)
            if self.cow or only is not None and r not in only:
                continue
            for kind, what in (("par", "parent known"), ("idx", "place known")):
                if kind == "par" and s is r:
                    continue
                sp = self.known(st, kind, r, lo, "mv") + [(i, add(i, ONE)) for k, x, i in late if k == kind and x is r]
                self.oblige(self.covers(st, sp, lo, hi), fr, what, "%s: children are moved to %s..%s of %s; their new %s is made known to %s"
                            % (fr.body.path, show(lo), show(hi), show(r), what.split()[0],
                               ", ".join("%s..%s" % (show(a), show(b)) for a, b in sp) or "none"), dep)
        for r in layout.roots(st):
            if ("loop", CHILDREN, r) in st.aux or only is not None and r not in only:
                continue
            for i, v in self.writes(st, CHILDREN, r):
                if self.cow and not nodes.excl(eng, st, v):
                    continue
                dep = self.where(r)
                p, x = st.aux.get(("par", v)), st.aux.get(("idx", v))
                ok = p is not None and (p is r or st.truth(eq(p, r)) == 1) or self.covers(st, self.known(st, "par", r, i, "st"), i, add(i, ONE))
                self.oblige(ok, fr, "parent known", "%s: a child is put at index %s of %s, which it is not told is its parent"
                            % (fr.body.path, show(i), show(r)), dep)
                ok = x is not None and same(st, x, i) or self.covers(st, self.known(st, "idx", r, i, "st"), i, add(i, ONE))
                self.oblige(ok, fr, "place known", "%s: a child is put at index %s of %s, and told that its place is %s"
                            % (fr.body.path, show(i), show(r), show(x) if x is not None else "what it was"), dep)

    def where(self, r):
        if r.op != "alloc":
            return [r]
        f = r.a[0].a[0] if r.a[0].op == "s" else None
        while f is not None and f.a[0] not in self.force:
            f = f.a[1]
        return [mk("param", 1, None)] if f is None else []


def check(c):
    prog = units.program(common.facts_paths())
    for cfg in ("AllowSliceRefs", "NoFeatures", "AllowCow"):
        bad = units.run(prog, lambda: R(prog, cfg == "AllowCow"), units.of(cfg, "US"), c, name="functions_" + cfg)
        for (fn, what), (text, unit) in bad.items():
            c.violation("%s:%s" % (fn, what.replace(" ", "-")), text + " [reached from %s]" % unit)
    c.floor("obligation_sites", 4)
    c.explanation = ("every function interpreted over all returning paths; obligations: each range of children moved and each child written into a "
                     "node is told its parent (when that changes) and its index; links written to a node's children name that node and their index")
    c.assumptions = ["paths that unwind are not covered", "copy-on-write trees: links of shared children may be stale by design; only links of "
                     "children known to be exclusive are required there"]

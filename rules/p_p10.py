"""P10: keys, slices, references and children of a node stay aligned."""
import absint as A
import common, layout, nodes, units
from absint import K, T, mk, eq, add, sub, lt, fld, addr_field, show, is_k
from layout import Moves, same, ONE
from p_p07 import want

TECHNIQUE = ("abstract interpretation of monomorphic MIR over the arrays of nodes: ranges moved, written, vacated and taken out are compared "
             "between the parallel arrays and with the node's length")
KEYS, VALS, REFS, CHILDREN = layout.FIELDS


def internal_param(eng, r):
    """is r the node of a handle whose type says that it is internal?"""
    h = r.a[0] if r.op == "fld" and r.a[1] == "NodeHandle.ptr" else \
        mk("ld", r.a[0], r.a[1][:-1], r.a[2]) if r.op == "ld" and r.a[1][-1:] == ("NodeHandle.ptr",) else None
    if h is None:
        return False
    ty = eng.tyof.get(h) or (eng.aty.get((h.a[0], h.a[1])) if h.op == "ld" else None)
    return ty is not None and "ty::Internal" in eng.p.ty(ty)["s"].split("borrow::")[0]


class R(Moves):
    def inline(self, eng, fr, body):
        if body.crate == "sherman" and self.SMALL > 6 and self.nblocks(body) <= 20:
            return True
        return super().inline(eng, fr, body)

    def on_agg(self, eng, fr, st, adt, variant, val, ty, sp):
        if A.tail(adt) == "Key" and adt.startswith("sherman"):
            v = layout.source_of(fld(val, "Key.slice"))
            if v is not None and v[1] == VALS:
                st.aux[("each", "out", v[0], v[2])] = 1
                k = layout.source_of(fld(val, "Key.pos"))
                if k is not None:
                    self.oblige(k[1] == KEYS and k[0] is v[0] and same(st, k[2], v[2]), fr, "key and slice", "%s at %s: a slice is taken "
                                "out of index %s of a node with the position at index %s" % (fr.body.path, sp, show(v[2]), show(k[2])), [])

    def judge(self, eng, fr, st, only):
        rs = layout.roots(st)
        for k in st.aux:
            if k[0] in ("new", "len0") and k[1] not in rs:
                rs.append(k[1])
            if k[0] == "blk" and k[5] not in rs:
                rs.append(k[5])
        for r in rs:
            if only is None or r in only:
                self.node(eng, fr, st, r)

    def node(self, eng, fr, st, r):
        mv = {f: self.moves(st, f) for f in layout.FIELDS}
        here = {f: [m for m in mv[f] if m[0] is r] for f in layout.FIELDS}
        new = st.aux.get(("new", r))
        len0 = K(0) if new is not None else st.aux.get(("len0", r))
        len1 = st.load(addr_field(r, "Leaf.len"))
        if len0 is None:
            len0 = len1
        internal = bool(here[CHILDREN] or self.writes(st, CHILDREN, r) or ("loop", CHILDREN, r) in st.aux) or internal_param(eng, r) \
            or any(m[3] is r for m in mv[CHILDREN])
        refs = "AllowSliceRefs" in fr.body.inst
        fields = [KEYS, VALS] + ([REFS] if refs else []) + ([CHILDREN] if internal else [])
        spans = {f: [(lo, hi) for _, lo, hi, _, _ in here[f]] + [(i, add(i, ONE)) for i in self.filled(st, f, r)] for f in fields}
        dep = self.where(r)

        def bad(what, text):
            self.oblige(False, fr, what, "%s: %s (node %s)" % (fr.body.path, text, show(r)), dep)

        grows, shrinks = st.truth(lt(len0, len1)), st.truth(lt(len1, len0))
        wr = lambda f: ", ".join("%s..%s" % (show(a), show(b)) for a, b in spans[f]) or "nothing"
        if len0 is not len1:
            if new is not None or grows == 1:
                for f in fields:
                    if ("loop", f, r) in st.aux and not spans[f]:
                        continue
                    x = ONE if f == CHILDREN else K(0)
                    lo, hi = (K(0) if new is not None else add(len0, x)), add(len1, x)
                    self.obligations += 1
                    self.sites.add((units.short(fr.body.path), "filled"))
                    if not self.covers(st, spans[f], lo, hi) and ("loop", f, r) not in st.aux:
                        bad("filled", "%s: %s..%s come into use, and %s of them are written" % (f, show(lo), show(hi), wr(f)))
            elif shrinks == 1 or any(m[3] is r and m[0] is not r for m in mv[VALS]):
                out = self.spans(st, "out", r) + [(sl, add(sl, sub(hi, lo))) for d, lo, hi, s, sl in mv[VALS] if s is r and d is not r]
                self.obligations += 1
                self.sites.add((units.short(fr.body.path), "taken out"))
                for lo, hi in out:
                    if st.truth(lt(lo, len1)) == 1:
                        bad("taken out", "slices %s..%s are moved elsewhere, but up to %s they stay in use" % (show(lo), show(hi), show(len1)))
                if not self.covers(st, out, len1, len0):
                    bad("taken out", "slices %s..%s fall out of use, and %s of them are moved elsewhere"
                        % (show(len1), show(len0), ", ".join("%s..%s" % (show(a), show(b)) for a, b in out) or "nothing"))
        for f in fields:
            for _, lo, hi, s, sl in here[f]:
                if s is r and not same(st, lo, sl):
                    self.obligations += 1
                    self.sites.add((units.short(fr.body.path), "gap filled"))
                    up = st.truth(lt(sl, lo))
                    if up == 1:
                        others = [x for x in spans[f] if x[0] is not lo or x[1] is not hi]
                        if not self.covers(st, others, sl, lo):
                            bad("gap filled", "%s: moving %s.. to %s.. leaves a gap that is not filled" % (f, show(sl), show(lo)))
                    elif up == 0:
                        x = ONE if f == CHILDREN else K(0)
                        if st.truth(lt(hi, add(len1, x))) != 0:
                            bad("gap filled", "%s: moving %s.. down to %s.. leaves the old end in use" % (f, show(sl), show(lo)))
        # the arrays are moved alike
        for d, lo, hi, s, sl in here[VALS]:
            for f in (KEYS, REFS):
                if f in fields and ("loop", f, r) not in st.aux:
                    self.alike(fr, st, bad, f, here[f], (lo, hi, s, sl), "slices")
            if internal and ("loop", CHILDREN, r) not in st.aux:
                x = ONE if s is r else K(0)
                self.alike(fr, st, bad, CHILDREN, here[CHILDREN], (add(lo, x), add(hi, ONE), s, add(sl, x)), "slices")
        if ("loop", VALS, r) not in st.aux:
            for f in (KEYS, REFS):
                if f in fields:
                    for d, lo, hi, s, sl in here[f]:
                        self.alike(fr, st, bad, VALS, here[VALS], (lo, hi, s, sl), f)
            if internal:
                for d, lo, hi, s, sl in here[CHILDREN]:
                    x = ONE if s is r else K(0)
                    if st.truth(lt(add(lo, ONE), add(hi, x))) != 0:  # one child alone moves with the key in front of it
                        self.alike(fr, st, bad, VALS, here[VALS], (sub(lo, x), sub(hi, ONE), s, sub(sl, x)), CHILDREN)

    def alike(self, fr, st, bad, f, have, m, of):
        if st.truth(lt(m[0], m[1])) == 0:
            return
        self.obligations += 1
        self.sites.add((units.short(fr.body.path), "moved alike"))
        lo, hi, s, sl = m
        if not any(same(st, a, lo) and same(st, b, hi) and c is s and same(st, d, sl) for _, a, b, c, d in have):
            bad("moved alike", "%s are moved to %s..%s, %s to %s" % (of, show(lo), show(hi), f, ", ".join(
                "%s..%s" % (show(a), show(b)) for _, a, b, c, d in have) or "nowhere"))

    def where(self, r):
        if r.op != "alloc":
            return [r]
        f = r.a[0].a[0] if r.a[0].op == "s" else None
        while f is not None and f.a[0] not in self.force:
            f = f.a[1]
        return [mk("param", 1, None)] if f is None else []


def check(c):
    prog = units.program(common.facts_paths())
    cfgs = ("AllowSliceRefs", "NoFeatures", "AllowCow") if c.tier == "thorough" else ("AllowSliceRefs", "NoFeatures")
    for cfg in cfgs:
        bad = units.run(prog, lambda: R(prog), units.of(cfg, "US"), c, name="functions_" + cfg)
        for (fn, what), (text, unit) in bad.items():
            c.violation("%s:%s" % (fn, what.replace(" ", "-")), text + " [reached from %s]" % unit)
    c.floor("obligation_sites", 6)
    c.explanation = ("every function interpreted over all returning paths; obligations: places that come into use are written in every array, "
                     "what falls out of use is moved elsewhere, gaps are filled, and all arrays are moved alike")
    c.assumptions = ["paths that unwind are not covered"]

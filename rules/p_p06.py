"""P06: every node, and every slice in it, is released exactly once."""
import absint as A
import common, models, nodes, units
from absint import K, T, mk, eq, add, sub, fld, addr_field, adr, root_path, show, discr, is_k
from nodes import marker, handle_ptr, excl

TECHNIQUE = ("ownership (linear-token) analysis by abstract interpretation of monomorphic MIR: every owned reference to a node "
             "that a path obtains must be stored, returned, handed on or released on that path; copied child links need an "
             "increment each, freed nodes must have had all values and children released")

OWNED = ("Owned", "UniqueOwned", "Dropping")


def holds(t, p, d=0):
    """does value t contain pointer p (not: something reached through p)"""
    if t is p:
        return True
    if d > 8 or not isinstance(t, T):
        return False
    if t.op == "agg":
        return any(holds(v, p, d + 1) for _, v in t.a[2])
    if t.op == "upd":
        return holds(t.a[0], p, d + 1) or any(holds(v, p, d + 1) for _, v in t.a[1])
    if t.op == "lz":
        return any(holds(v, p, d + 1) for _, v in t.a[1])
    if t.op in ("rep", "dyn"):
        return holds(t.a[0], p, d + 1)
    if p.op == "fld":
        # part of an opaque value that is passed on as a whole
        return holds(t, p.a[0], d + 1) if t.op in ("fld", "call", "param", "ld", "phi", "lv", "hv") else False
    if p.op == "ld" and t.op == "ld" and p.a[0] is t.a[0] and p.a[1][:len(t.a[1])] == t.a[1]:
        return True
    return False


def child_of(q):
    """(parent, child index) when q is a loaded child link"""
    if q.op == "ld" and len(q.a[1]) == 2 and q.a[1][0] == "Internal.child_ptrs":
        return q.a[0], q.a[1][1][1]
    if q.op == "idx" and q.a[0].op == "ld" and q.a[0].a[1] == ("Internal.child_ptrs",):
        return q.a[0].a[0], q.a[1]
    return None


class R(units.UnitRule):
    def inline(self, eng, fr, body):
        if body.crate == "sherman" and self.nblocks(body) <= 24 and self.SMALL > 6 and marker(self.p, body.locals[0][0]):
            return True
        return super().inline(eng, fr, body)

    def enter(self, eng, b):
        st = A.St()
        if "for ()>" in b.path or b.path.startswith("<() as"):
            return eng.run(b, st)  # the feature is disabled: nothing is stored
        for i in range(b.argc):
            if marker(self.p, b.locals[i + 1][0]) in OWNED:
                v = mk("param", i + 1, b.locals[i + 1][1])
                st.aux[("tok", handle_ptr(v))] = v
        return eng.run(b, st)

    # ---- tokens
    def gain(self, st, p, v=None):
        st.aux.pop(("dead", p), None)
        st.aux[("tok", p)] = v if v is not None else p

    def spend(self, st, p):
        st.aux.pop(("tok", p), None)
        if child_of(p):
            st.aux[("each", "rel", p)] = 1

    def spend_held(self, st, v):
        for k in [k for k in st.aux if k[0] == "tok"]:
            if holds(v, k[1]):
                self.spend(st, k[1])
        if v.op == "agg":
            for _, x in v.a[2]:
                if x.op == "agg":
                    self.spend_held(st, x)
                elif child_of(x):
                    st.aux[("each", "rel", x)] = 1

    def owned_ty(self, ty):
        """(marker kind, optional) of a type that is an owned handle or an Option of one"""
        if marker(self.p, ty) in OWNED:
            return "plain"
        t = self.p.ty(ty) if ty is not None else {}
        if t.get("adt") == "std::option::Option" and marker(self.p, t["args"][0]) in OWNED:
            return "option"
        return None

    def opaque(self, eng, fr, c):
        b = c.body
        if b is not None and b.crate == "sherman":
            return not (b.kind in ("Closure", "Shim", "DropGlue") or eng.can_inline(fr, b))
        if b is not None:
            return not eng.can_inline(fr, b)
        return models.lookup(c) is None

    def on_call(self, eng, fr, st, c):
        if c.name == "dealloc" and c.body is None and c.args:
            self.dealloc(eng, fr, st, c)
        elif "atomic" in c.rpath.lower() and c.name in ("fetch_add", "fetch_sub"):
            r, q = root_path(c.args[0])
            if q[-1:] == ("Leaf.strong_count",):
                if c.name == "fetch_add":
                    self.gain(st, r)
                    if child_of(r):
                        st.aux[("each", "inc", r)] = 1
                else:
                    t = mk("atomic", "fetch_sub", st.load(c.args[0]))
                    st.aux[("tok", r)] = eq(t, K(1))
                    if child_of(r):
                        st.aux[("each", "rel", r)] = 1
        elif self.opaque(eng, fr, c):
            for v, ty in zip(c.args, c.argtys):
                if self.p.ty(ty).get("k") not in ("ref", "ptr"):
                    self.dead_use(eng, fr, st, v, c)
                    self.spend_held(st, v)
        return super().on_call(eng, fr, st, c)

    def dead_use(self, eng, fr, st, v, c):
        for k in st.aux:
            if k[0] == "dead" and holds(v, k[1]):
                self.oblige(False, fr, "use-after-free", "%s at %s: a node is handed to %s after its memory was freed"
                            % (fr.body.path, c.sp, c.name), [])

    def on_after(self, eng, fr, st, c, val):
        if models.lookup(c) is not None and c.name in ("alloc", "alloc_zeroed"):
            self.gain(st, val)
            return
        k = self.owned_ty(c.destty)
        if k is None:
            return
        if c.name in ("take", "replace", "read", "assume_init_read") and models.lookup(c) is not None or self.opaque(eng, fr, c):
            if k == "plain":
                self.gain(st, handle_ptr(val), None)
            elif val.op != "agg":
                self.gain(st, handle_ptr(fld(val, "Some.0")), eq(discr(val), K(1)))
            elif val.a[1] == "Some":
                self.gain(st, handle_ptr(fld(val, "Some.0")))

    def on_store(self, eng, fr, st, ptr, val, place, sp):
        r, q = root_path(ptr)
        if ("dead", r) in st.aux:
            self.oblige(False, fr, "use-after-free", "%s at %s: a node is written after its memory was freed" % (fr.body.path, sp), [])
        ty = place.ty if place is not None else None
        t = self.p.ty(ty) if ty is not None else {}
        if A.tail(t.get("adt", "")) == "NonNull" and any(isinstance(a, int) and nodes.isnode(self.p, a) for a in t["args"]) \
                and r.op not in ("loc", "alloc"):
            # an initialised link is overwritten: what it held is ours now
            old = st.load(ptr)
            if old is not val and old.op != "uninit":
                self.gain(st, old)
        for k in [k for k in st.aux if k[0] == "tok"]:
            if holds(val, k[1]):
                self.spend(st, k[1])

    def on_drop(self, eng, fr, st, ptr, ty, sp):
        r, q = root_path(ptr)
        if ptr.op == "slc":
            r, q = root_path(ptr.a[0])
            if q[:1] == ("Leaf.vals",):
                st.aux[("dv", r, ptr.a[1], ptr.a[2])] = 1
        elif q[:1] == ("Leaf.vals",):
            if len(q) == 2:
                st.aux[("dv", r, q[1][1], add(q[1][1], K(1)))] = 1
                st.aux[("each", "dv", r, q[1][1])] = 1
            else:
                st.aux[("dvx", r)] = 1

    def dealloc(self, eng, fr, st, c):
        p = root_path(c.args[0])[0]
        if ("dead", p) in st.aux:
            self.oblige(False, fr, "double-free", "%s at %s: memory is freed twice" % (fr.body.path, c.sp), [])
        st.aux.pop(("tok", p), None)
        st.aux[("dead", p)] = 1
        kind = self.node_kind(eng, fr, c)
        if kind is None:
            return
        self.values_released(eng, fr, st, p, c)
        if kind == "Internal":
            st.aux[("kids", p)] = (st.load(addr_field(p, "Leaf.len")), fr.body.path, c.sp, fr)

    def node_kind(self, eng, fr, c):
        f = fr
        for _ in range(4):
            for i in range(f.body.argc):
                t = self.p.ty(f.body.locals[i + 1][0])
                for a in t.get("args", ()) if A.tail(t.get("adt", "")) == "NonNull" else [t.get("inner")] if t.get("k") == "ptr" else ():
                    if isinstance(a, int) and nodes.isnode(self.p, a):
                        return A.tail(self.p.ty(a)["adt"])
            if f.parent is None:
                break
            f = f.parent
        return None

    def values_released(self, eng, fr, st, p, c):
        n = st.load(addr_field(p, "Leaf.len"))
        if any(k[0] in ("each", "all") and k[1:3] == ("dv", p) or k == ("dvx", p) for k in st.aux):
            return  # one by one: not decided here
        parts = [(k[2], k[3]) for k in st.aux if k[0] == "dv" and k[1] is p]
        for i in (0, 1):
            h = st.load(A.addr_index(addr_field(p, "Leaf.holes"), K(i)))
            if st.truth(eq(discr(h), K(1))) == 1:
                x = sub(fld(h, "Some.0"), K(1))
                parts.append((x, add(x, K(1))))
        cur, left = K(0), list(parts)
        while left:
            for x in left:
                if st.truth(eq(x[0], cur)) == 1:
                    left.remove(x)
                    cur = x[1]
                    break
            else:
                break
        full = not left and (cur is n or st.truth(eq(cur, n)) == 1)
        self.oblige(full, fr, "values-released", "%s at %s: when a node is freed, the ranges of its values that were dropped (%s) are not "
                    "exactly all of 0..len without the holes" % (fr.body.path, c.sp, ", ".join("%s..%s" % (show(a), show(b)) for a, b in parts)),
                    [p])

    # ---- ends of paths
    def on_backedge(self, eng, fr, st, h):
        for k, v in list(st.aux.items()):
            if k[0] == "tok" and A.index_terms(k[1], fr.key, h):
                self.settled(eng, fr, st, k[1], v, A.UNIT, "the loop's iteration")

    def settled(self, eng, fr, st, p, v, val, what):
        if v is not p and v.op != "param" and st.truth(v) == 0:
            return
        if holds(val, p):
            return
        if any(r.op not in ("loc", "alloc") or r.op == "alloc" and r is not p and ("tok", r) not in st.aux and ("dead", r) not in st.aux
               for r, m in st.mem.items() if any(holds(x, p) for x in m.values())):
            return
        if any(isinstance(e, tuple) for r, m in st.mem.items() for q, x in m.items() if q and holds(x, p) for e in q):
            return  # kept in an array
        if any(k[0] == "each" and k[1] == "inc" and k[2] is p or k[0] == "all" and k[1] == "inc" for k in st.aux):
            return
        u = units.short(self.unit.path)
        self.oblige(False, fr, "leak", "%s: at the end of %s the owned reference to node %s is neither stored, returned, handed on nor released"
                    % (u, what, show(p)), [v] if v.op == "param" and False else [])

    def on_agg(self, eng, fr, st, adt, variant, val, ty, sp):
        if marker(self.p, ty) in OWNED and handle_ptr(val).op != "alloc":
            st.aux[("own", handle_ptr(val))] = 1
        if variant == "Internal":
            x = fld(val, "Internal.child_ptrs")
            if x.op == "ld" and x.a[1] == ("Internal.child_ptrs",):
                st.aux[("cp", x.a[0])] = (st.load(addr_field(x.a[0], "Leaf.len")), fr.body.path, sp)

    def covered(self, st, kind, parent, n):
        """all children 0..=n of parent have had `kind` done to them"""
        for k in st.aux:
            if k[0] == "all" and k[1] == kind:
                ch = child_of(k[2])
                e, lo, hi = k[-3:]
                sp = A.span(ch[1], e, lo, hi) if ch and ch[0] is parent else None
                if sp and st.truth(eq(sp[0], K(0))) == 1 and st.truth(eq(sp[1], add(n, K(1)))) == 1:
                    return True
        return False

    def on_return(self, eng, fr, st, val):
        if fr.depth != 0:
            return
        for k, v in list(st.aux.items()):
            if k[0] == "tok":
                self.settled(eng, fr, st, k[1], v, val, "a path")
            elif k[0] == "own" and holds(val, k[1]):
                ok = ("tok", k[1]) in st.aux
                self.oblige(ok, fr, "counted", "%s: returns an owned reference to node %s without counting it" % (fr.body.path, show(k[1])), [k[1]])
            elif k[0] == "cp":
                ok = excl(eng, st, k[1]) or self.covered(st, "inc", k[1], v[0])
                self.oblige(ok, fr, "copied-links", "%s at %s: the child links of a node are copied into another one without counting a reference "
                            "for each of the children 0..=len" % v[1:3], [])
            elif k[0] == "kids":
                ok = self.covered(st, "rel", k[1], v[0])
                self.oblige(ok, fr, "children-released", "%s at %s: an internal node is freed, but its references to children are not "
                            "given up for each of 0..=len" % v[1:3], [k[1]])
        self.oblige(True, fr, "path", "", [])


def check(c):
    prog = units.program(common.facts_paths())
    names = ("US", "UN") if c.tier == "thorough" else ("US",)
    for cfg in ("AllowCow", "NoFeatures", "AllowSliceRefs"):
        for s in names:
            bad = units.run(prog, lambda: R(prog), units.of(cfg, s), c)
            for (fn, what), (text, unit) in bad.items():
                c.violation("%s:%s" % (fn, what.replace(" ", "-")), text + " [reached from %s]" % unit)
    c.floor("obligation_sites", 25)
    c.explanation = ("every function of the three configurations interpreted over all returning paths; obligations are one per path (no owned "
                     "reference left over), per freed node (values and children released) and per copied set of child links (counted)")
    c.assumptions = ["paths that unwind are not covered here (leaking then is safe)"]

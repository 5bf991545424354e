"""P14: a search ends where its target lies."""
import absint as A
import common, layout, nodes, units
from absint import K, T, mk, eq, add, sub, lt, fld, addr_field, addr_index, root_path, show, discr, is_k

TECHNIQUE = ("abstract interpretation of monomorphic MIR: what the comparisons of a path say about the place it returns; "
             "what is searched next, and for what, at every way back to the start of a descent")


def searches(prog, body):
    """does a function look for a place in a node: (parameter that is the node, parameter that is the target)"""
    if body is None or body.crate != "sherman" or "(u8, UI)" not in prog.ty(body.locals[0][0])["s"]:
        return None
    ns = [i for i in range(1, body.argc + 1) if nodes.marker(prog, body.locals[i][0])]
    ts = [i for i in range(1, body.argc + 1) if prog.ty(body.locals[i][0])["s"] == "UI"]
    return (ns[0], ts[0]) if len(ns) == len(ts) == 1 else None


class R(units.UnitRule):
    SUMMARIES = False
    SEARCHES = True
    undecided = 0

    def inline(self, eng, fr, body):
        if searches(self.p, body):
            return False
        n = self.nblocks(body)
        if body.crate == "sherman" and (n <= (20 if self.SMALL > 6 else 12) or n <= 40 and nodes.marker(self.p, body.locals[0][0])):
            return True
        return super().inline(eng, fr, body)

    def start(self, unit):
        super().start(unit)
        A.RANGE = lambda t: (1, 2 * 3) if t.op == "ld" and t.a[1][-1:] == ("Leaf.len",) and t.a[0].op != "loc" else (0, None)
        self.searching = searches(self.p, unit)

    def on_branch(self, eng, fr, st):
        if self.searching:
            # paths that compared differently are told apart
            for f in st.facts:
                if f.op in ("ult", "ueq") and st.truth(f) is not None:
                    st.aux[("cmp", f)] = st.truth(f)
        super().on_branch(eng, fr, st)

    # ---- what a search gives
    def on_return(self, eng, fr, st, val):
        s = searches(self.p, fr.body) if fr.depth == 0 else None
        if s:
            n = fld(mk("param", s[0], fr.body.locals[s[0]][1]), "NodeHandle.ptr")
            self.result(fr, st, val, n, mk("param", s[1], fr.body.locals[s[1]][1]))
        super().on_return(eng, fr, st, val)

    def result(self, fr, st, val, n, target):
        if val.op != "agg" or val.a[1] not in ("Child", "Key"):
            self.undecided += 1
            return
        child = val.a[1] == "Child"
        i, pos = (fld(val.a[2][0][1], "tuple.%d" % k) for k in (0, 1))
        what = "child" if child else "slice"
        if i.op in ("phi", "lv") or pos.op in ("phi", "lv"):
            self.undecided += 1
            return
        ln = st.load(addr_field(n, "Leaf.len"))

        def say(ok, key, text):
            if not ok and (layout.loopy(i) or layout.loopy(pos) or any(v == 1 and f.op == "eq" and layout.loopy(f) for f, v in st.facts.items())):
                # a search of its own: what it found out in earlier iterations is not known
                self.undecided += 1
                return
            self.oblige(ok, fr, key, "%s: %s %s, at %s, is given as the place of %s, %s" % (fr.body.path, what, show(i), show(pos), show(target), text), [])
        say(st.truth(lt(ln, i) if child else lt(i, ln)) == (0 if child else 1), "exists",
            "but whether the node has that many is not known")
        key = lambda k: st.load(addr_index(addr_field(n, "Leaf.keys"), k))
        whole = st.load(addr_field(n, "Leaf.total_size"))
        # where it begins
        if child:
            first = is_k(i) and i.a[0] == 0
            end = whole if st.truth(eq(i, ln)) == 1 or st.truth(lt(i, ln)) == 0 else key(i)
            if not (first and is_zero(pos)):
                say(pos.op == "usub" and (pos.a[0] is end or same(st, pos.a[0], n, i, ln)) and sized(pos.a[1], n, i, st, end), "position",
                    "which is not where that child begins")
            say(first and is_zero(pos) or known(st, "ult", target, pos) == 0, "before", "which may come before it")
            say(first and searched(st, target, key(K(0))) or st.truth(eq(i, ln)) == 1 or st.truth(lt(i, ln)) == 0 or known(st, "ult", target, key(i)) == 1,
                "after", "which may come after it")
        else:
            say(pos is key(i), "position", "which is not where that slice begins")
            at = known(st, "ueq", *sorted((pos, target), key=lambda t: t.id)) == 1
            say(at or known(st, "ult", pos, target) == 1 or known(st, "ult", target, pos) == 0, "before", "which may come before it")
            j = add(i, K(1))
            end = whole if st.truth(lt(j, ln)) == 0 else key(j)
            ends = [f.a[1] for f, v in st.facts.items() if f.op == "ult" and f.a[0] is target and v == 1]
            ends = [e for e in ends if e.op == "usub" and e.a[0] is end and sized(e.a[1], n, j, st, end) or e is end and st.truth(eq(height(fr, n), K(0))) == 1]
            say(at or ends, "after", "which may come after it")

    # ---- what a cursor says
    def on_unreachable(self, eng, fr, st, c):
        from p_p12 import guards
        for v in guards(eng, fr, c):
            if hinted(v):
                self.oblige(bounded(st, v), fr, "hint", "%s: relies on %s, of which all that is known is that a cursor said so" % (fr.body.path, show(v)), [])

    # ---- which child or slice, and where it begins
    def on_agg(self, eng, fr, st, adt, variant, val, ty, sp):
        if variant in ("Child", "Key") and "(u8, UI)" in self.p.ty(ty)["s"] and not searches(self.p, fr.body):
            i, pos = (fld(val.a[2][0][1], "tuple.%d" % k) for k in (0, 1))
            st.aux[("made", i, pos)] = 1
            self.place(fr, st, variant, i, pos)
            self.neighbour(fr, st, variant, i)
        super().on_agg(eng, fr, st, adt, variant, val, ty, sp)

    def place(self, fr, st, variant, i, pos):
        text = "%s: %s %s is given as what begins at %s" % (fr.body.path, "child" if variant == "Child" else "slice", show(i), show(pos))
        if variant == "Key":
            where = begins(pos)
            if where is None:
                self.undecided += 1
            else:
                self.oblige(equal(st, i, where), fr, "place", text + ", which is where slice %s does" % show(where), [])
        elif pos.op == "usub":
            where = begins(pos.a[0])
            src = layout.source_of(pos.a[1].a[0]) if pos.a[1].op == "ld" and pos.a[1].a[1][-1:] == ("Leaf.total_size",) else None
            if where is not None:
                self.oblige(equal(st, i, where), fr, "place", text + ", which ends where slice %s begins" % show(where), [])
            elif pos.a[0].op == "ld" and pos.a[0].a[1][-1:] == ("Leaf.total_size",):
                ln = st.load(addr_field(pos.a[0].a[0], "Leaf.len"))
                self.oblige(equal(st, i, ln) or st.truth(lt(i, ln)) == 0, fr, "place", text + ", which ends where the node does", [])
            else:
                self.undecided += 1
            if src and src[1] == "Internal.child_ptrs":
                self.oblige(equal(st, i, src[2]), fr, "place", text + ", going by the size of child %s" % show(src[2]), [])
        else:
            self.undecided += 1

    def neighbour(self, fr, st, variant, i):
        """what takes the place of one that begins at the target is the one just before it"""
        text = "%s: %s %s" % (fr.body.path, "child" if variant == "Child" else "slice", show(i))
        for f, v in list(st.facts.items()):
            if f.op != "ueq" or v != 1:
                continue
            for x in f.a:
                if x.op == "ld" and x.a[1][-1:] == ("Leaf.total_size",):
                    last = st.load(addr_field(x.a[0], "Leaf.len"))
                    self.oblige(equal(st, i, last if variant == "Child" else sub(last, K(1))), fr, "last", text + " is gone to for the end of the node, but is not its last", [])
                elif x.op == "fld" and x.a[1] == "tuple.1" and x.a[0].op == "fld" and x.a[0].a[0].op == "call":
                    found, at = x.a[0].a[1], fld(x.a[0], "tuple.0")
                    if (found, variant) in (("Child.0", "Key"), ("Key.0", "Key"), ("Key.0", "Child")):
                        want = at if variant == "Child" else sub(at, K(1))
                        self.oblige(equal(st, i, want), fr, "neighbour", text + " takes the place of %s %s, and is not the one before it" % ("child" if found == "Child.0" else "slice", show(at)), [])

    # ---- descending
    def on_after(self, eng, fr, st, c, val):
        s = searches(self.p, c.body)
        if s and val.op == "call":
            st.aux[("search", val, fld(c.args[s[0] - 1], "NodeHandle.ptr"), c.args[s[1] - 1])] = 1
        super().on_after(eng, fr, st, c, val)

    def on_backedge(self, eng, fr, st, h):
        for k in list(st.aux):
            if k[0] == "search" and k not in eng.entry_aux:
                self.descent(fr, st, *k[1:])
        for k in [k for k in st.aux if k[0] in ("search", "made") and k not in eng.entry_aux]:
            del st.aux[k]
        super().on_backedge(eng, fr, st, h)

    def on_call(self, eng, fr, st, c):
        b = c.body
        if b is not None and b.crate == "sherman" and not searches(self.p, b):
            ns = [a for i, a in enumerate(c.args) if nodes.marker(self.p, b.locals[i + 1][0])]
            ts = [a for i, a in enumerate(c.args) if self.p.ty(b.locals[i + 1][0])["s"] == "UI"]
            if len(ns) == len(ts) == 1 and ts[0].op == "usubl":
                for k in list(st.aux):
                    if k[0] == "search" and k[3] is ts[0].a[0]:
                        self.step(fr, st, k[1], k[2], k[3], fld(ns[0], "NodeHandle.ptr"), ts[0])
        return super().on_call(eng, fr, st, c)

    def descent(self, fr, st, res, n, target):
        nv = variable(n)
        if nv is None:
            self.undecided += 1
            return
        now = fld_like(n, nv, st.load(A.adr(nv.a[2], nv.a[3])))
        then = st.load(A.adr(target.a[2], target.a[3])) if target.op == "lv" else target
        self.step(fr, st, res, n, target, now, then)

    def step(self, fr, st, res, n, target, now, then):
        """after looking for target in n, node now is searched for then"""
        if now is n and then is not target:
            self.oblige(False, fr, "node", "%s: goes on to look for %s in the same node it looked for %s in" % (fr.body.path, show(then), show(target)), [])
            return
        src = layout.source_of(now)
        if src is None or src[1] != "Internal.child_ptrs" or src[0] is not n and (variable_phi(src[0]) is None):
            self.undecided += 1
            return
        i = src[2]
        text = "%s: goes on to look for %s in child %s of a node in which it looked for %s" % (fr.body.path, show(then), show(i), show(target))
        if then.op != "usubl" or then.a[0] is not target:
            self.oblige(then is not target, fr, "target", text + ", without taking away where the child begins", [])
            return
        pos = then.a[1]
        ri, rp = (fld(fld(res, "Child.0"), "tuple.%d" % k) for k in (0, 1))
        pairs = [(ri, rp)] + [k[1:] for k in st.aux if k[0] == "made"]
        ok = any(pos is p and equal(st, i, c) for c, p in pairs)
        if not ok and not any(pos is p or i is c for c, p in pairs) or pos.op == "phi":
            self.undecided += 1
            return
        self.oblige(ok, fr, "descent", text + ", which begins elsewhere", [])


def equal(st, a, b):
    return a is b or st.truth(eq(a, b)) == 1


def begins(pos):
    """which slice a position is the start of"""
    src = layout.source_of(pos)
    if src and src[1] == "Leaf.keys":
        return src[2]
    if pos.op == "fld" and pos.a[1] == "tuple.1" and pos.a[0].op == "fld" and pos.a[0].a[1] == "Key.0":
        return fld(pos.a[0], "tuple.0")
    return None


def variable(n):
    while n.op == "fld":
        n = n.a[0]
    return n if n.op == "lv" else None


def variable_phi(n):
    while n.op == "fld":
        n = n.a[0]
    return n if n.op == "phi" else None


def fld_like(n, v, x):
    """what n is when its variable v is x"""
    return x if n is v else fld(fld_like(n.a[0], v, x), n.a[1])


def is_zero(t):
    return is_k(t) or t.op == "agg" and all(is_k(x) for _, x in t.a[2])


def known(st, op, a, b):
    """what the path knows of a comparison"""
    if a is b:
        return 0 if op == "ult" else 1
    return st.truth(mk(op, a, b))


def searched(st, target, first):
    return known(st, "ult", target, first) == 1


def same(st, end, n, i, ln):
    """the position of key i, or the size of the node"""
    src = layout.source_of(end)
    if src and src[1] == "Leaf.keys":
        return src[0] is n and (src[2] is i or st.truth(eq(src[2], i)) == 1)
    return end.op == "ld" and end.a[0] is n and end.a[1][-1:] == ("Leaf.total_size",) and st.truth(lt(i, ln)) != 1


def sized(t, n, i, st, end):
    """the size of child i (nothing, if there is none)"""
    if is_zero(t):
        return True
    if t.op == "ld" and t.a[1][-1:] == ("Leaf.total_size",):
        src = layout.source_of(t.a[0])
        return bool(src) and src[0] is n and src[1] == "Internal.child_ptrs" and (src[2] is i or st.truth(eq(src[2], i)) == 1)
    return t.op in ("fld", "call", "phi")


def height(fr, n):
    return fld(n.a[0], "NodeHandle.height")


def mentions(v, name):
    todo, seen = [v], set()
    while todo:
        t = todo.pop()
        if isinstance(t, tuple):
            todo.extend(t)
        elif t == name:
            return True
        elif isinstance(t, T) and t not in seen:
            seen.add(t)
            todo.extend(t.a)
    return False


def hinted(v):
    return mentions(v, "PathComponent.child_idx")


def bounded(st, v):
    """is what a cursor said known to be no more than what a node has?"""
    for f, v in st.facts.items():
        if f.op == "eq" and v == 1 and hinted(f) and mentions(f, "Leaf.len"):
            return True
        if f.op == "lt" and v in (0, 1):
            c, parts = A.lin_parts(f.a[0]) if len(f.a) == 1 else (0, ())
            sign = 1 if v else -1
            if c * sign >= (-1 if v else 0) and any(k * sign > 0 and hinted(t) for t, k in parts) and any(k * sign < 0 and mentions(t, "Leaf.len") for t, k in parts):
                return True
    return False


def check(c):
    prog = units.program(common.facts_paths())
    cfgs = ("AllowSliceRefs", "AllowCow", "NoFeatures") if c.tier == "thorough" else ("AllowSliceRefs", "AllowCow")
    for cfg in cfgs:
        bad = units.run(prog, lambda: R(prog), units.of(cfg, "US"), c, name="functions_" + cfg)
        for (fn, what), (text, unit) in bad.items():
            c.violation("%s:%s" % (fn, what.replace(" ", "-")), text + " [reached from %s]" % unit)
    c.floor("obligation_sites", 3)
    c.explanation = ("what each returning path of a function that looks for a place in a node says: the child or slice it gives exists, the "
                     "position it gives is where that begins, and the comparisons made on the path show the target to be neither before nor "
                     "after it; nothing is read at an index of which all that is known is that a cursor said so; elsewhere, indexes and "
                     "positions of places are kept together, what replaces a place that begins at the target is the one before it, and "
                     "wherever a search goes on in a child, it looks for the target less where that child begins")
    c.assumptions = ["paths that unwind are not covered", "the index type's order is total and agrees with its arithmetic",
                     "the positions a node holds are ordered (P09), so that the standard library's binary search finds its way"]

"""P15: slices taken out of a node are marked as missing, and what is missing is not used."""
import absint as A
import common, layout, nodes, units
from absint import K, T, mk, eq, add, sub, lt, fld, addr_field, addr_index, root_path, show, discr, is_k
from layout import place_of

TECHNIQUE = ("typestate analysis by abstract interpretation of monomorphic MIR: which slices of a node a path has taken out and which "
             "it has marked as missing, when it uses one, when it runs code of the user, and when it ends")

OUT = ("assume_init_read", "read", "read_unaligned")
USE = OUT + ("assume_init_ref", "assume_init_mut", "assume_init_drop", "drop_in_place", "as_ref", "as_mut")


def holes(st, r):
    """the marks of a node"""
    whole = st.load(addr_field(r, "Leaf.holes"))
    if whole.op in ("ld", "param", "fld", "call"):
        return tuple(st.load(addr_index(addr_field(r, "Leaf.holes"), K(k))) for k in (0, 1))
    return elements(whole)


def elements(v):
    return tuple(A.St.proj(v, ("[]", K(k))) for k in (0, 1))


def same(a, b):
    """marks that are read one by one or together"""
    return a is b or canon(a) is canon(b)


def canon(h):
    if h.op == "idx" and h.a[0].op == "ld":
        return mk("ld", h.a[0].a[0], h.a[0].a[1] + (("[]", h.a[1]),), *h.a[0].a[2:])
    return h


def forms(h):
    out = [h]
    if h.op == "idx" and h.a[0].op == "ld":
        out.append(canon(h))
    elif h.op == "ld" and len(h.a[1]) > 1 and isinstance(h.a[1][-1], tuple):
        out.append(mk("idx", mk("ld", h.a[0], h.a[1][:-1], *h.a[2:]), h.a[1][-1][1]))
    return out


def none(st, h):
    return any(x.op == "agg" and x.a[1] == "None" or st.truth(eq(discr(x), K(0))) == 1 or st.truth(eq(discr(x), K(1))) == 0 for x in forms(h))


def isnt(st, h, x):
    """is a mark known not to be x"""
    return none(st, h) or any(st.truth(eq(fld(y, "Some.0"), x)) == 0 for y in forms(h)) or compared(st, h, x) in (1, 255, -1)


def is_(st, h, x):
    return any((y.op == "agg" and y.a[1] == "Some" or st.truth(eq(discr(y), K(1))) == 1) and
               (fld(y, "Some.0") is x or st.truth(eq(fld(y, "Some.0"), x)) == 1) for y in forms(h))


CMPS = {}


def compared(st, h, x):
    """what comparing a mark with x gave: 1 if it is greater, 255 if it is less"""
    for f, v in st.facts.items():
        if f.op == "eq" and v == 1 and f.a[0].op == "discr" and is_k(f.a[1]):
            l, r = CMPS.get(f.a[0].a[0], (None, None))
            for a, b, flip in ((l, r, False), (r, l, True)):
                if a is not None and any(a is y for y in forms(h)) and fld(b, "Some.0") is x:
                    return {1: 255, 255: 1}.get(f.a[1].a[0], f.a[1].a[0]) if flip else f.a[1].a[0]
    return None


USERS = ("try_join", "split_at", "add_left", "add_right", "sub_left", "sub_right", "cmp", "partial_cmp", "lt", "le", "gt", "ge", "eq", "ne",
         "min", "max", "clone", "prepend_to_path", "next")


class R(units.UnitRule):
    SUMMARIES = False

    def inline(self, eng, fr, body):
        if body.kind != "Closure" and body.crate == "sherman" and body.argc and "SliceHandle" in body.ty(1)["s"] and "Leaf.holes" in self.p.mods(body.id):
            # what takes slices out of a node and puts them back is judged on its own
            return False
        if body.crate == "sherman" and self.SMALL > 6 and self.nblocks(body) <= 20:
            return True
        return super().inline(eng, fr, body)

    def vals(self, p):
        d = place_of(p)
        if d is None or d[1] != "Leaf.vals" or d[0].op == "loc" or layout.base(d[0]).op == "alloc":
            return None
        return d[0], d[2]

    def span(self, p):
        """some of the slices of a node"""
        if p.op != "slc" or len(p.a) != 3:
            return None
        r, q = root_path(p.a[0])
        if q[-1:] != ("Leaf.vals",) or r.op == "loc" or layout.base(r).op == "alloc":
            return None
        return r, p.a[1], p.a[2]

    def outside(self, st, h, lo, hi):
        i = sub(fld(h, "Some.0"), K(1))
        return none(st, h) or st.truth(lt(i, hi)) == 0 or st.truth(lt(i, lo)) == 1

    def intact(self, st, r):
        return none(st, st.aux.get(("before", r), holes(st, r))[1])

    def present(self, st, r, i):
        if ("put", r, i) in st.aux:
            return True
        hs = st.aux.get(("before", r), holes(st, r))
        return none(st, hs[1]) or all(isnt(st, h, add(i, K(1))) for h in hs)

    def on_branch(self, eng, fr, st):
        for f, v in list(st.facts.items()):
            if mentions(f, "Leaf.holes"):
                st.aux[("h", f)] = v
        super().on_branch(eng, fr, st)

    def user(self, c):
        return c.name in USERS and (c.body is None or c.body.crate not in ("sherman", "core", "alloc", "std")) and \
            any("UI" in self.p.ty(t)["s"] or "US" in self.p.ty(t)["s"] or "UN" in self.p.ty(t)["s"] or "dyn" in self.p.ty(t)["s"] for t in c.argtys)

    def on_call(self, eng, fr, st, c):
        if c.name in USE and c.args:
            d = self.vals(c.args[0])
            whole = self.span(c.args[0])
            if whole:
                r, lo, hi = whole
                if hi is not K(0):
                    self.oblige(all(self.outside(st, h, lo, hi) for h in st.aux.get(("before", r), holes(st, r))), fr, "missing",
                                "%s uses slices %s..%s of node %s, not all of which are known not to be missing" % (fr.body.path, show(lo), show(hi), show(r)), [r, lo, hi])
            elif d:
                r, i = d
                self.oblige(self.present(st, r, i), fr, "missing", "%s uses slice %s of node %s, which is not known not to be missing" % (fr.body.path, show(i), show(r)), [r, i])
                ln = st.load(addr_field(r, "Leaf.len"))
                if c.name in OUT and st.truth(lt(i, ln)) != 0:
                    st.aux[("out", r, i)] = 1
        elif any(k[0] == "out" for k in st.aux) and self.user(c):
            self.unmarked(fr, st, "calls %s" % c.name)
            self.settled(fr, st)
        if c.body is not None and c.body.crate == "sherman" and not eng.can_inline(fr, c.body):
            # what matters is known by now or has been asked in time
            for k in [k for k in st.aux if k[0] == "h"]:
                del st.aux[k]
        return super().on_call(eng, fr, st, c)

    def on_after(self, eng, fr, st, c, ret):
        if c.name == "cmp" and len(c.args) == 2:
            CMPS[ret] = tuple(st.load(q) if q.op in ("adr", "loc") else q for q in c.args)
        super().on_after(eng, fr, st, c, ret)

    def on_copy(self, eng, fr, st, src, dst, n, c):
        d = self.vals(src)
        if d and n is not K(1):
            self.oblige(self.intact(st, d[0]), fr, "moved", "%s moves slices of node %s, some of which may be missing" % (fr.body.path, show(d[0])), [d[0]])
        super().on_copy(eng, fr, st, src, dst, n, c)

    def on_store(self, eng, fr, st, ptr, val, place, sp):
        d = self.vals(ptr)
        r, q = root_path(ptr)
        if d and isinstance(q[-1], tuple):
            st.aux.pop(("out",) + d, None)
            st.aux[("put",) + d] = 1
        elif q[-1:] == ("Leaf.holes",) and r.op != "loc" and layout.base(r).op != "alloc":
            old, new = holes(st, r), elements(val)
            st.aux.setdefault(("before", r), old)
            for h in old:
                if not none(st, h) and not any(same(h, x) for x in new):
                    st.aux[("lost", r, h)] = 1
            if new[1].op == "agg" and new[1].a[1] == "None":
                self.oblige(none(st, new[0]), fr, "order", "%s: node %s may be left with its first mark set and the second not" % (fr.body.path, show(r)), [r])
            for k, h in enumerate(new):
                x = new[1 - k]
                if h.op == "agg" and h.a[1] == "Some" and x.op != "agg":
                    # the first mark is the lower one
                    v = compared(st, x, fld(h, "Some.0"))
                    if v is not None:
                        self.oblige(v == (1 if k == 0 else 255), fr, "order", "%s: the marks of node %s are the wrong way round" % (fr.body.path, show(r)), [r])
        elif q[-1:] == ("Leaf.len",):
            for k in [k for k in st.aux if k[0] == "out" and k[1] is r]:
                if st.truth(lt(k[2], val)) == 0:
                    del st.aux[k]
        super().on_store(eng, fr, st, ptr, val, place, sp)

    def settled(self, fr, st):
        """no mark has gone but those of slices put back"""
        for k in [k for k in st.aux if k[0] == "lost"]:
            ok = any(p[0] == "put" and p[1] is k[1] and is_(st, k[2], add(p[2], K(1))) for p in st.aux)
            self.oblige(ok, fr, "forgotten", "%s: node %s loses the mark %s of a slice that is not put back" % (fr.body.path, show(k[1]), show(k[2])), [k[1]])

    def unmarked(self, fr, st, what):
        """every slice taken out is marked as missing by now"""
        for k in [k for k in st.aux if k[0] == "out"]:
            self.oblige(not all(isnt(st, h, add(k[2], K(1))) for h in holes(st, k[1])), fr, "unmarked", "%s %s while slice %s is taken out of node %s and not marked as missing" % (
                fr.body.path, what, show(k[2]), show(k[1])), [])

    def on_return(self, eng, fr, st, val):
        if fr.depth == 0:
            self.settled(fr, st)
            self.unmarked(fr, st, "ends")
            for k in list(st.aux):
                if k[0] == "put":
                    hs = holes(st, k[1])
                    self.oblige(not any(is_(st, h, add(k[2], K(1))) for h in hs), fr, "marked", "%s: slice %s of node %s is put back but still marked as missing" % (
                        fr.body.path, show(k[2]), show(k[1])), [])
        super().on_return(eng, fr, st, val)


def mentions(v, name):
    todo, seen = [v], set()
    while todo:
        t = todo.pop()
        if isinstance(t, tuple):
            todo.extend(t)
        elif t == name:
            return True
        elif isinstance(t, T) and t not in seen:
            seen.add(t)
            todo.extend(t.a)
    return False


def check(c):
    prog = units.program(common.facts_paths())
    for cfg in ("AllowSliceRefs", "AllowCow"):
        bad = units.run(prog, lambda: R(prog), units.of(cfg, "US"), c, name="functions_" + cfg, maxsteps=8000, climb=4)
        for (fn, what), (text, unit) in bad.items():
            c.violation("%s:%s" % (fn, what.replace(" ", "-")), text + " [reached from %s]" % unit)
    c.floor("obligation_sites", 5)
    c.explanation = ("on each returning path: a slice read out of, referred to in, or dropped in an existing node is known not to be one of those "
                     "marked as missing (no marks, or the marks compared with it); slices are only moved as a block when nothing is missing; "
                     "a slice taken out is marked by the time anything of the user runs or the function ends, and one put back no longer is; "
                     "marking one slice does not lose the mark of another, the marks keep their order, and one alone is in the second place, "
                     "where it is looked for")
    c.assumptions = ["paths that unwind are not covered: that a panic of the user's code leaves the mark behind follows from the mark being there when the code runs",
                     "a handle that takes slices out and puts them back is judged by itself, not at each use",
                     "what the user's code is given is taken out by such a handle"]

"""P13: offsets are only combined where they meet."""
import os
import re
import absint as A
import common, layout, nodes, units
from absint import K, T, mk, fld, addr_field, root_path, show, is_k

TECHNIQUE = ("type inference over the directional arithmetic of each path (every value is an offset between two points; unification of "
             "the points, rejection of offsets that would have to begin where they end), by abstract interpretation of monomorphic MIR")
OPS = ("uadd", "usub", "usubl")
ABS = ("start of the tree",)
ABSOLUTE = ("range_start", "range_end", "end_pos")


class Points:
    """union-find over points, with the offsets between them"""

    def __init__(self, found, sizes=()):
        self.found = found
        self.sizes = dict(sizes)
        self.whole = ()     # what something is taken away from at its end
        self.up = {}
        self.typ = {}
        self.later = []
        self.n = 0
        self.strict = {}
        self.places = {}

    def find(self, p):
        while p in self.up:
            p = self.up[p]
        return p

    def same(self, p, q):
        p, q = self.find(p), self.find(q)
        if p != q:
            self.up[p] = q

    def fresh(self):
        self.n += 1
        return ("fresh", self.n)

    def of(self, t):
        """(start, end) of a term"""
        if is_k(t) or t.op == "agg" and not any(not is_k(v) for _, v in t.a[2]):
            p = self.fresh()
            return p, p
        r = self.typ.get(t)
        if r is None:
            self.typ[t] = r = self.infer(t)
            v = self.size_of(t)
            if v is not None:
                self.typ[t] = r = v
                self.strict[t] = True
        return r

    def size_of(self, t):
        """the places between which a slice lies, if this is its size"""
        if t in self.sizes:
            return self.sizes[t]
        if t.op == "usub" and t.a[0].op == "usubl":
            # without the child between it and the next
            t = t.a[0]
        elif t in self.whole:
            return None
        if t.op == "usubl":
            src = layout.source_of(t.a[1])
            if src and src[1] == "Leaf.keys":
                return self.sizes.get((src[0], src[2]))
        return None

    def infer(self, t):
        if t.op == "uadd":
            x, y = self.of(t.a[0]), self.of(t.a[1])
            if t.a[1].op == "usubl" and self.size_of(t.a[1]) is None:
                # the rest of something, after something else than before
                return x[0], ("moved", t)
            self.same(x[1], y[0])
            # something shifted: what follows the change is the same, but elsewhere
            return x[0], y[1] if t.a[0].op != "usub" else ("moved", t)
        if t.op == "usubl":
            x, y = self.of(t.a[0]), self.of(t.a[1])
            self.same(x[0], y[0])
            return y[1], x[1] if t.a[1].op != "usub" else ("moved", t)
        if t.op == "usub":
            x, y = self.of(t.a[0]), self.of(t.a[1])
            self.later.append((t, x, y))
            return x[0], y[0]
        s, e = ("start", t), ("end", t)
        path = t.a[1] if t.op == "ld" else ()
        names = [p for p in path if not isinstance(p, tuple)]
        last = names[-1] if names else t.a[1] if t.op == "fld" else ""
        src = layout.source_of(t)
        if src and src[1] == "Leaf.keys":
            s = ("node", src[0])
            self.strict[t] = False
        elif last == "Leaf.total_size" and t.op == "ld":
            s = ("node", t.a[0])
            self.strict[t] = True
        else:
            b = layout.base(t)
            if b in self.found:
                s = ("node", self.found[b])
            elif t in self.found:
                s = ("node", self.found[t])
            self.strict[t] = t.op not in ("phi", "lv", "call", "hv", "idx")
            if last == "Some.0":
                b, last = (t.a[0], t.a[1][:-1]), names[-2] if len(names) > 1 else ""
                if t.op == "fld":
                    return s, e
            base = (t.a[0], path[:-1] if last == names[-1] else path[:-2]) if t.op == "ld" and names else None
            if base:
                s, e = self.role(last.split(".")[-1], base, s, e)
        return s, e

    def role(self, name, base, s, e):
        """what the fields of one struct have to do with each other"""
        if name in ("pos", "override_pos"):
            e = ("at", base)
        elif name in ("old_size", "new_size"):
            s = ("at", base)
        elif name in ABSOLUTE:
            s = ABS
        return s, e

    def agg(self, v):
        """a struct is put together: its fields have to fit the same way"""
        f = {n.split(".")[-1]: x for n, x in v.a[2]}
        for n, x in list(f.items()):
            if x.op == "agg" and x.a[1] in ("Some", "None"):
                f[n] = x.a[2][0][1] if x.a[1] == "Some" else None
        pos = f.get("pos") or f.get("override_pos")
        for n in ("old_size", "new_size"):
            if pos is not None and f.get(n) is not None and not is_k(f[n]):
                self.same(self.of(pos)[1], self.of(f[n])[0])
        for n in ABSOLUTE:
            if f.get(n) is not None:
                self.same(self.of(f[n])[0], ABS)
        if v.a[1] == "Range":
            self.same(self.of(f["start"])[0], self.of(f["end"])[0])

    def settle(self):
        """differences: of an offset and its end, or of two positions (to shift others by)"""
        changed = True
        while changed:
            changed = False
            for t, x, y in self.later[:]:
                if self.find(x[1]) == self.find(y[1]):
                    self.later.remove((t, x, y))
                elif self.find(x[0]) != self.find(y[0]):
                    self.same(x[1], y[1])
                    self.later.remove((t, x, y))
                    changed = True

    def cycle(self):
        """a chain of offsets that comes back to where it began"""
        g = {}
        for t, strict in self.strict.items():
            s, e = map(self.find, self.typ.get(t) or self.places[t])
            g.setdefault(s, []).append((e, t))
        done, path = set(), []

        def visit(p, on):
            for q, t in g.get(p, ()):
                if q in on:
                    cyc = [x for _, x in path[on[q]:]] + [t]
                    if any(self.strict[x] for x in cyc) or len(cyc) == 1 and t.op == "ld":
                        return cyc
                    continue
                if q in done:
                    continue
                path.append((q, t))
                on2 = dict(on)
                on2[q] = len(path)
                r = visit(q, on2)
                if r:
                    return r
                path.pop()
            done.add(p)
            return None
        for p in list(g):
            if p not in done:
                path.clear()
                r = visit(p, {p: 0})
                if r:
                    return r
        return None


class R(units.UnitRule):
    SUMMARIES = False
    FALLBACK = ((6, None), (7, 6), (3, 6), (1, 0))
    M = 3

    def inline(self, eng, fr, body):
        if body.crate == "sherman" and self.SMALL > 6 and (self.nblocks(body) <= 20 or body.id in computing(self.p) and self.nblocks(body) <= 40):
            return True
        if body.crate == "sherman" and self.SMALL == 6 and (self.nblocks(body) <= 20 and body.id in computing(self.p) or self.nblocks(body) <= 12):
            return True
        return super().inline(eng, fr, body)

    def on_call(self, eng, fr, st, c):
        if c.body is not None and c.body.crate == "sherman" and self.p.ty(c.destty)["s"] in ("US", "UN"):
            self.given[c.site] = [h for i, a in enumerate(c.args) for h in [handle(self.p, st, a, c.body.locals[i + 1][0])] if h]
        return super().on_call(eng, fr, st, c)

    def on_after(self, eng, fr, st, c, val):
        if val.op in OPS and c.body is None or val.op in OPS and len(c.args) == 2:
            st.aux[("u", val)] = 1
        if val.op == "call" and c.body is not None and "(u8, UI)" in self.p.ty(c.destty)["s"]:
            # places in a node, with their positions
            n = [a for i, a in enumerate(c.args) if nodes.marker(self.p, c.body.locals[i + 1][0])]
            if len(n) == 1:
                st.aux[("find", val, nodes.handle_ptr(n[0]))] = 1
                for i, a in enumerate(c.args):
                    if self.p.ty(c.body.locals[i + 1][0])["s"] == "UI":
                        st.aux[("found", a, nodes.handle_ptr(n[0]))] = 1
        if c.name == "try_join" and "Slice" in c.path and len(c.args) == 2:
            st.aux[("join", c.args[0], c.args[1], val)] = 1
        if c.name == "split_at" and "Slice" in c.path and len(c.args) == 2:
            st.aux[("split", val, c.args[1])] = 1
        if c.body is not None and c.body.crate == "sherman" and val.op == "call" and c.args and c.destty == c.body.locals[0][0] and \
                self.p.ty(c.destty)["s"] in ("US", "UN"):
            hs = self.given.get(c.site, ())
            if len(hs) == 1:
                st.aux[("val", val) + hs[0]] = 1
        super().on_after(eng, fr, st, c, val)

    def on_agg(self, eng, fr, st, adt, variant, val, ty, sp):
        names = {n.split(".")[-1] for n, _ in val.a[2]}
        if {"old_size", "new_size"} <= names or names & set(ABSOLUTE) or variant == "Range" and any(v.op in OPS for _, v in val.a[2] if isinstance(v, T)):
            st.aux[("g", val)] = 1
        super().on_agg(eng, fr, st, adt, variant, val, ty, sp)

    def on_store(self, eng, fr, st, ptr, val, place, sp):
        r, q = root_path(ptr)
        last = [x for x in q if not isinstance(x, tuple)][-1:]
        if last and r.op != "loc":
            n = last[0].split(".")[-1]
            if n in ABSOLUTE and val.op in OPS:
                st.aux[("abs", val)] = 1
            if last[0] in ("Leaf.total_size", "Leaf.keys") and val.op in OPS and not rebased(val, r):
                st.aux[("in", r, val)] = 1
        if r.op != "loc" and val.op == "agg" and val.a[1] in ("Leaf", "Internal"):
            leaf = fld(val, "Internal.leaf") if val.a[1] == "Internal" else val
            st.aux[("in", r, fld(leaf, "Leaf.total_size"))] = 1
            arr = fld(leaf, "Leaf.keys")
            if arr.op == "upd":
                for _, x in arr.a[1]:
                    if isinstance(x, T) and x.op != "uninit":
                        st.aux[("in", r, x)] = 1
        super().on_store(eng, fr, st, ptr, val, place, sp)

    def on_return(self, eng, fr, st, val):
        if fr.depth == 0:
            self.judge(fr, st, val)

    def on_backedge(self, eng, fr, st, h):
        self.judge(fr, st, None, [t for _, nxt in eng.loopinfo.values() for t in nxt if isinstance(t, T) and t.op == "usub"])
        super().on_backedge(eng, fr, st, h)

    def enter(self, eng, b):
        self.paths, self.known, self.given = [], {}, {}
        r = eng.run(b)
        # what a path tells about where an offset carried through a loop begins holds on the others, too
        if any(len(v) for v in self.known.values()):
            for p in self.paths:
                self.decide(*p)
        return r

    def judge(self, fr, st, val, kept=()):
        ts = [k[1] for k in st.aux if k[0] == "u"]
        gs = [k[1] for k in st.aux if k[0] == "g"]
        if not ts and not gs:
            return
        joins = [k for k in st.aux if k[0] in ("join", "split", "val")]
        if any(k[0] == "join" for k in joins):
            # a slice and its size come in together
            top = fr
            while top.parent is not None:
                top = top.parent
            b = top.body
            for i in range(1, b.argc):
                if self.p.ty(b.locals[i][0])["s"] in ("US", "UN") and self.p.ty(b.locals[i + 1][0])["s"] == "UI":
                    joins.append(("size", mk("param", i, b.locals[i][1]), mk("param", i + 1, b.locals[i + 1][1])))
        p = (fr, ts, gs, [(k[1] if k[0] == "abs" else k[2], ABS if k[0] == "abs" else ("node", k[1])) for k in st.aux if k[0] in ("abs", "in")],
             [f for f in st.facts if f.op in ("ult", "ueq") and len(f.a) == 2 and not any(is_k(x) for x in f.a)],
             {k[1:] for k in st.aux if k[0] in ("find", "found")},
             [t for t in subterms(val) if t.op in OPS] if val is not None else list(kept), joins)
        g = self.decide(*p)
        vs = {x for t in ts for x in leaves(t) if x.op == "lv"}
        if vs:
            self.paths.append(p)
            for v in vs:
                if g.find(g.of(v)[0]) == g.find(ABS):
                    self.known.setdefault(v, set()).add(ABS)

    @staticmethod
    def slices(joins):
        """sizes of the slices that take part in joins: they lie between two places of their own"""
        part = {base_slice(x) for k in joins if k[0] == "join" for x in k[1:3]}
        out = {}
        rest = {k[1] for k in joins if k[0] == "split"}
        cut = bool(rest)
        for k in joins:
            if k[0] == "size" and k[1] in part:
                out[k[2]] = (("from", k[1]), ("to", k[1]))
            if k[0] == "val" and k[1] in rest:
                # what was cut
                out[k[2:]] = (("whole", k[1]), ("end", k[1]))
            elif k[0] == "val" and k[1] in part:
                at = k[2:]
                # (of the slice before it was cut)
                out[at] = (("from", k[1]), ("to", k[1]) if not cut else ("all", k[1])) if at not in out else None
        for x in part:
            src = layout.source_of(x)
            if src and src[1] == "Leaf.vals":
                at = src[0], src[2]
                out[at] = (("from", x), ("to", x) if not cut else ("all", x)) if at not in out else None
        return {k: v for k, v in out.items() if v is not None}

    @staticmethod
    def chain(g, joins, ts):
        """slices that are to be joined follow each other"""
        def ends(x):
            if x.op == "fld" and x.a[1] == "Ok.0" and x.a[0] in made:
                a, b = made[x.a[0]]
                return ends(a)[0], ends(b)[1]
            y = base_slice(x)
            if y is not x:
                return ends(y)
            r = ("from", x), ("to", x)
            g.places[x] = r
            g.strict[x] = True
            return r
        made = {k[3]: k[1:3] for k in joins if k[0] == "join"}
        rest = {k[1]: k[2] for k in joins if k[0] == "split"}
        for k in joins:
            if k[0] == "join":
                a, b = ends(k[1]), ends(k[2])
                g.same(a[1], b[0])
                for x in k[1:3]:
                    x = base_slice(x)
                    if x in rest:
                        # what is left of a slice after it was cut ends where that did
                        for t in ts:
                            if t.op == "usubl" and t.a[1] is rest[x]:
                                g.same(ends(x)[1], g.of(t)[1])

    def decide(self, fr, ts, gs, ins, facts, found, ret, joins=()):
        g = Points(dict(found), self.slices(joins))
        g.whole = {t.a[0] for t in ts if t.op == "usub"}
        self.chain(g, joins, ts)
        for t in ts:
            g.of(t)
        for v in gs:
            g.agg(v)
        for t, p in ins:
            g.same(g.of(t)[0], p)
        for v, p in self.known.items():
            if v in g.typ:
                for x in p:
                    g.same(g.of(v)[0], x)
        fs = {}
        for f in facts:
            x, y = g.of(f.a[0]), g.of(f.a[1])
            g.same(x[0], y[0])
            x, y = (up(fs, frame(x, g.found)) for x in f.a)
            if x != y:
                fs[x] = y
        g.settle()
        bad = g.cycle()
        self.oblige(bad is None, fr, "offsets", bad and "%s: the arithmetic only fits if %s begin%s where %s; of the operations %s" % (
            fr.body.path, " and ".join(show(t) for t in bad), "s" if len(bad) == 1 else "", "it ends" if len(bad) == 1 else
            "the other ends", "; ".join(show(t) for t in ts if any(mentions(t, b) for b in bad))), [])
        late = next((t for t in g.strict if t in g.typ and g.find(g.typ[t][1]) == g.find(ABS)), None)
        self.oblige(late is None, fr, "absolute", late and "%s: the arithmetic only fits if %s ends where the tree begins; of the operations %s" % (
            fr.body.path, show(late), "; ".join(show(t) for t in ts if mentions(t, late))), [])
        shifts = {t for t in ts if t.op == "usub" and up(fs, frame(t.a[0], g.found)) == up(fs, frame(t.a[1], g.found))}
        used = [(x, "%s goes after something" % show(x)) for t in ts if t.op == "uadd" for x in (t.a[1],)]
        used += [(x, "%s is cut from something" % show(x)) for t in ts if t.op in ("usub", "usubl") for x in t.a[:1 if t.op == "usubl" else 2]]
        used += [(t, "a position is set to it") for t, _ in ins]
        used += [(x, "a %s holds it" % v.a[1]) for v in gs for _, x in v.a[2]]
        used += [(t, "it is returned or used for more") for t in ret]
        for t, how in used:
            if t in shifts:
                x, y = g.of(t.a[0]), g.of(t.a[1])
                self.oblige(g.find(x[1]) == g.find(y[1]), fr, "difference", "%s: %s takes one position away from the end of "
                            "another, which only leaves something to shift positions by, but %s" % (fr.body.path, show(t), how), [])
        return g


def leaves(t):
    out, st = set(), [t]
    while st:
        x = st.pop()
        if x.op in OPS:
            st.extend(x.a)
        elif x not in out:
            out.add(x)
    return out


def up(m, x):
    while x in m:
        x = m[x]
    return x


def frame(t, found):
    """where an offset evidently begins"""
    while t.op in ("uadd", "usub"):
        t = t.a[0]
    if t.op == "usubl":
        return "end", t.a[1]
    src = layout.source_of(t)
    if src and src[1] == "Leaf.keys":
        return "node", src[0]
    if t.op == "ld" and t.a[1][-1:] == ("Leaf.total_size",):
        return "node", t.a[0]
    if last_name(t) in ABSOLUTE:
        return ABS
    b = layout.base(t)
    if b in found or t in found:
        return "node", found.get(b) or found[t]
    return "start", t


def base_slice(x):
    """the slice that a failed join gave back"""
    while x.op == "fld" and x.a[1] in ("tuple.0", "tuple.1") and x.a[0].op == "fld" and x.a[0].a[1] == "Err.0" and x.a[0].a[0].op == "call" \
            and len(x.a[0].a[0].a) > 2 and len(x.a[0].a[0].a[2]) == 2:
        x = x.a[0].a[0].a[2][int(x.a[1][-1])]
    return x


def handle(p, st, a, ty):
    """(node, index) of a handle to a slice"""
    t = p.ty(ty)
    if t.get("k") == "ref":
        if a.op not in ("loc", "adr", "param"):
            return None
        a, t = st.load(a), p.ty(t["inner"])
    if t.get("adt", "").endswith("::SliceHandle"):
        return fld(fld(a, "SliceHandle.node"), "NodeHandle.ptr"), fld(a, "SliceHandle.idx")
    return None


def last_name(t):
    names = [p for p in t.a[1] if not isinstance(p, tuple)] if t.op == "ld" else [t.a[1]] if t.op == "fld" else []
    return names[-1].split(".")[-1] if names else None


def rebased(v, r):
    """a position in node r made relative to somewhere within it: what was moved to r is told so afterwards"""
    x = v.a[1] if v.op == "uadd" else v.a[0]
    return v.op in ("usubl", "uadd") and ((layout.source_of(x) or (None,))[0] is r or x.op == "ld" and x.a[0] is r and x.a[1][-1:] == ("Leaf.total_size",))


def subterms(v):
    out, st, seen = [], [v], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            out.append(x)
            if x.op == "agg":
                st.extend(y for _, y in x.a[2])
            elif x.op == "usub":
                pass
    return out


def mentions(t, b):
    st = [t]
    while st:
        x = st.pop()
        if x is b:
            return True
        if isinstance(x, T) and x.op in OPS:
            st.extend(x.a)
    return False


def computing(prog):
    """functions that compute with indexes, themselves or in what they call to do so"""
    if "computing" not in prog.__dict__:
        out = set()
        for b in prog.bodies.values():
            if b.crate == "sherman":
                for i in units.closure_callees(prog, b):
                    y = prog.bodies[i]
                    if re.search(r"DirectionalAdd|DirectionalSub", y.path + y.key):
                        out.add(b.id)
                        break
        callers = {}
        for b in prog.bodies.values():
            for i in prog.callees(b):
                callers.setdefault(i, []).append(b.id)
        more = set(out)
        for _ in range(3):
            more |= {c for i in more for c in callers.get(i, ()) if prog.bodies[c].crate == "sherman" and units.UnitRule.nblocks(prog.bodies[c]) <= 14}
        prog.computing = more
    return prog.computing


def check(c):
    prog = units.program(common.facts_paths())
    cfgs = ("AllowSliceRefs", "NoFeatures", "AllowCow") if c.tier == "thorough" else ("AllowSliceRefs",)
    for cfg in cfgs:
        for s in os.environ.get("P13S", "US UN").split():
            bad = units.run(prog, lambda: R(prog), units.of(cfg, s), c, name="functions_%s_%s" % (cfg, s))
            for (fn, what), (text, unit) in bad.items():
                c.violation("%s:%s" % (fn, what.replace(" ", "-")), text + " [reached from %s]" % unit)
    c.floor("obligation_sites", 6)
    c.explanation = ("on every path of every function that computes with indexes, each value is typed as an offset from one point to another: adding "
                     "joins the end of one to the start of the other, taking away on the left (right) needs the same start (end); what is read "
                     "from a node's positions, its size, and what is stored to them starts at the node; ranges of entries and iterators start "
                     "at the beginning of the tree; a position and the sizes kept with it meet. Reported: offsets that would have to begin "
                     "where they or others end, offsets that would have to end where the tree begins, and differences of positions used as "
                     "offsets")
    c.assumptions = ["paths that unwind are not covered"]

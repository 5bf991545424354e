"""P16: the cursor an operation gives back is the path to where it acted."""
import re
import absint as A
import common, layout, nodes, units
from absint import K, T, mk, eq, add, sub, lt, fld, addr_field, addr_index, root_path, show, discr, is_k

TECHNIQUE = ("abstract interpretation of monomorphic MIR: which child each step from a node to its parent records, how often and on which "
             "side of a new key, and what a cursor of bounded size keeps and gives back")

PRE = "prepend_to_path"
PLACERS = ("insert_key", "insert_key_and_child", "push_key", "push_key_and_child", "replace_first_child")


def component(st, v):
    """the index in a component of a path"""
    if v.op in ("adr", "loc"):
        v = st.load(v)
    return fld(v, "PathComponent.child_idx")


def node_of(st, v):
    if v.op in ("adr", "loc"):
        v = st.load(v)
    return nodes.handle_ptr(v)


def tag(st, v, names):
    """which of two variants a value is known to be"""
    if v.op == "agg" and v.a[1] in names:
        return v.a[1]
    d = discr(v)
    for i, n in enumerate(names):
        if d is K(i) or st.truth(eq(d, K(i))) == 1 or len(names) == 2 and st.truth(eq(d, K(1 - i))) == 0:
            return n
    return None


def within(v, f):
    """terms in v that satisfy f"""
    todo, seen, out = [v], set(), []
    while todo:
        t = todo.pop()
        if isinstance(t, tuple):
            todo.extend(t)
        elif isinstance(t, T) and t not in seen:
            seen.add(t)
            if f(t):
                out.append(t)
            todo.extend(t.a)
    return out


def place_in_parent(t):
    return t.op == "ld" and t.a[1][-1:] == ("Leaf.idx_in_parent",) or t.op == "fld" and "idx_in_parent" in str(t.a[1])


def vague(v):
    return bool(within(v, lambda t: t.op in ("phi", "lv", "hv", "call")))


def unknown(v):
    while v.op in ("fld", "idx"):
        v = v.a[0]
    return v.op in ("phi", "lv", "hv", "call")


class R(units.UnitRule):
    SUMMARIES = False

    def start(self, unit):
        super().start(unit)
        self.root = unit
        self.kind = A.tail(self.p.ty(unit.locals[1][0]).get("adt", "")) if unit.argc else ""

    def field(self, name):
        return fld(mk("param", 1, self.root.locals[1][1]), "%s.%s" % (self.kind, name))

    def stepping(self):
        return self.kind == "BubbledInsertState"

    def inline(self, eng, fr, body):
        if body.name == PRE and body.id != self.root.id or body.name in PLACERS:
            return False
        return super().inline(eng, fr, body)

    def pres(self, st):
        return sorted((k for k in st.aux if k[0] == "pre"), key=lambda k: k[1])

    def on_call(self, eng, fr, st, c):
        if c.name == PRE and len(c.args) == 2:
            st.aux[("pre", len(self.pres(st)), component(st, c.args[1]))] = 1
            self.sites.add((units.short(fr.body.path), "recorded"))
        elif c.name in PLACERS and len(c.args) >= 2:
            k = c.args[2] if c.name == "insert_key_and_child" else None
            st.aux[("ins", c.name, node_of(st, c.args[0]), k)] = 1
        elif c.name == "copy_within" and len(c.args) == 3:
            r = c.args[1]
            lo = {"Range": "Range.start", "RangeFrom": "RangeFrom.start", "RangeInclusive": "RangeInclusive.start"}.get(A.tail(r.a[0]) if r.op == "agg" else "")
            st.aux[("moved", K(0) if lo is None and r.op == "agg" else fld(r, lo) if lo else None, c.args[2])] = 1
        elif c.body is not None and c.body.id == self.root.id and c.args:
            st.aux[("rec", node_of(st, c.args[0]))] = 1
        return super().on_call(eng, fr, st, c)

    def on_store(self, eng, fr, st, ptr, val, place, sp):
        if fr.depth == 0 and "BoundedCursor" in self.root.path:
            self.wrote(st, ptr)
        super().on_store(eng, fr, st, ptr, val, place, sp)

    def on_ref(self, eng, fr, st, ptr, kind, mut, place, sp):
        if mut and fr.depth == 0 and "BoundedCursor" in self.root.path:
            self.wrote(st, ptr)
        super().on_ref(eng, fr, st, ptr, kind, mut, place, sp)

    def wrote(self, st, ptr):
        """a component of a bounded cursor is written, or can be"""
        b, sels = A.root_path(ptr)
        if "BoundedCursor.path" in sels:
            last = sels[-1]
            st.aux[("wrote", last[1] if isinstance(last, tuple) else None)] = 1

    def on_branch(self, eng, fr, st):
        if self.stepping():
            # kept apart to the end
            side = self.field("cursor_side")
            for k, v, names in (("some", side, ("None", "Some")), ("side", fld(side, "Some.0"), ("Left", "Right"))):
                t = tag(st, v, names)
                if t is not None:
                    st.aux[(k, t)] = 1
        super().on_branch(eng, fr, st)

    # ---- states on the way up
    def on_agg(self, eng, fr, st, adt, variant, val, ty, sp):
        super().on_agg(eng, fr, st, adt, variant, val, ty, sp)
        if A.tail(adt) != "BubbledInsertState" or fr.body.name in ("map",):
            return
        side, inserted = fld(val, "BubbledInsertState.cursor_side"), fld(val, "BubbledInsertState.inserted")
        where = {"Left": node_of(st, fld(val, "BubbledInsertState.lhs")), "Right": rhs_node(st, fld(val, "BubbledInsertState.rhs"))}
        some = tag(st, side, ("None", "Some"))
        which = tag(st, fld(side, "Some.0"), ("Left", "Right")) if some != "None" else None
        ins = [k for k in st.aux if k[0] == "ins"]

        def say(ok, text):
            self.oblige(ok, fr, "side", "%s at %s: %s" % (fr.body.path, sp, text), [])
        if self.stepping():
            placed = [k for k in ins if k[1] == "insert_key_and_child"]
            if placed:
                for k in placed:
                    in_ = [s for s, n in where.items() if n is k[2]]
                    if len(in_) == 1:
                        say(which == in_[0] and some == "Some" or vague(side) and side is not self.field("cursor_side"),
                            "the key and child are put in the %s node, and the cursor is to go through %s" % (in_[0].lower(), (which or "neither or either").lower()))
                        say(inserted is K(1) or vague(inserted), "what was inserted is in one of the nodes, and said not to be yet")
            else:
                say(side is self.field("cursor_side") or tag(st, side, ("None", "Some")) == tag(st, self.field("cursor_side"), ("None", "Some")) is not None and
                    (some == "None" or which == tag(st, fld(self.field("cursor_side"), "Some.0"), ("Left", "Right")) is not None),
                    "the key goes up between the nodes, and the side the cursor is to go through changes")
                say(inserted is self.field("inserted"), "the key goes up between the nodes, and whether what was inserted has a place changes")
        else:
            known = inserted.a[0] if is_k(inserted) else st.truth(eq(inserted, K(1)))
            if some is not None and known is not None:
                say((some == "Some") == bool(known), "a cursor is to go %s, where what was inserted %s" % (
                    "through one of the nodes" if some == "Some" else "to the key between the nodes", "has a place in one" if known else "is that key"))
            if which and ins and all(k[2].op != "phi" for k in ins):
                # the node the last key was put in, or the one that is left after the split, has it
                at = [s for k in ins for s, n in where.items() if n is k[2]]
                if at and len(set(at)) == 1:
                    say(which == at[0], "what was inserted is put in the %s node, and the cursor is to go through the %s" % (at[0].lower(), which.lower()))

    # ---- at the end of a function
    def on_return(self, eng, fr, st, val):
        if fr.depth == 0:
            b = self.root
            if "BoundedCursor" in b.path:
                self.bounded(fr, st, val)
            elif b.name != PRE:
                self.judge(fr, st)
        super().on_return(eng, fr, st, val)

    def asked(self, st):
        """was it asked whether a node has a parent, and what was the answer"""
        out = set()
        for f, v in st.facts.items():
            if f.op == "eq" and f.a[0].op == "discr" and is_k(f.a[1]) and within(f.a[0], lambda t: t.op == "ld" and t.a[1][-1:] == ("Leaf.parent",)) and v in (0, 1):
                out.add(f.a[1].a[0] if v == 1 else 1 - f.a[1].a[0])
        return out

    def judge(self, fr, st):
        pres = self.pres(st)

        def say(ok, what, text):
            self.oblige(ok, fr, what, "%s: %s" % (self.root.path, text), [])
        if self.stepping():
            asked = self.asked(st)
            if not asked:
                return
            side = self.field("cursor_side")
            some = tag(st, side, ("None", "Some"))
            if not pres:
                say(some == "None", "missing", "a step up that records nothing, though the place may be in one of the children")
                return
            say(len(pres) == 1, "once", "one step up records %d children" % len(pres))
            say(some != "None", "none", "a step up records a child, though the place is not in one")
            v = pres[-1][2]
            s = fld(side, "Some.0")
            which = tag(st, s, ("Left", "Right"))
            ds = [discr(s)] + ([K(("Left", "Right").index(which))] if which else [])
            same = lambda x: v is x or st.truth(eq(v, x)) == 1
            placed = [k for k in st.aux if k[0] == "ins" and k[1] == "insert_key_and_child"]
            if placed:
                ok = any(k[3] is not None and any(same(add(k[3], d)) for d in ds) for k in placed)
                say(ok or any(vague(k[3]) for k in placed), "right", "a step up records child %s, where a key and child are inserted at %s" % (
                    show(v), ", ".join(show(k[3]) for k in placed)))
            elif 1 not in asked:
                say(any(same(d) for d in ds), "right", "child %s of the new root is recorded, and the place is on side %s" % (show(v), show(ds[-1])))
            elif which == "Right":
                say(same(K(0)) or vague(v), "right", "child %s is recorded, where the right one becomes the first of its node" % show(v))
            elif which == "Left":
                idx = [t for f in st.facts for t in within(f, place_in_parent)]
                last = v.op == "ld" and v.a[1][-1:] == ("Leaf.len",)
                say(not idx or any(same(t) for t in idx) or last or vague(v), "right", "child %s is recorded, where the left one stays where it was" % show(v))
        elif self.kind == "OpUpdateState":
            if not self.asked(st) and not pres:
                return
            ck = self.field("child_or_key")
            vs = A.VARIANTS.get("sherman::tree::ChildOrKey") or next((v for k, v in A.VARIANTS.items() if A.tail(k) == "ChildOrKey"), ["Child", "Key"])
            which = tag(st, ck, tuple(vs))
            if not pres:
                say(which == "Key", "missing", "a step up that records nothing, though the place may be in a child")
                return
            say(len(pres) == 1, "once", "one step up records %d children" % len(pres))
            say(which != "Key", "none", "a step up records a child, though the place is a key")
            v = pres[-1][2]
            say(v is fld(fld(ck, "Child.0"), "tuple.0") or vague(v), "right", "a step up records %s, not the child the place is in" % show(v))
        else:
            recs = [k for k in st.aux if k[0] == "rec"]
            for k in pres:
                v = k[2]
                here = [n for n in recs if n[1].op == "ld" and n[1].a[1] and isinstance(n[1].a[1][-1], tuple)]
                called = [t for n in recs for t in within(n[1], lambda t: t.op == "call" and str(t.a[1]).split("::")[-1] in ("child", "into_child") and len(t.a[2]) == 2)]
                if here or len(called) == 1:
                    i = here[-1][1].a[1][-1][1] if here else called[0].a[2][1]
                    say(v is i or st.truth(eq(v, i)) == 1 or unknown(v), "right", "%s is recorded, where what follows was looked for in child %s" % (show(v), show(i)))
            if recs and self.gives(fr):
                say(len(pres) >= 1 or any(st.truth(x) for x in ()), "missing", "a step down that is not recorded")

    def gives(self, fr):
        return "Cursor" in self.p.ty(self.root.locals[0][0])["s"] and "NoCursor" not in self.p.ty(self.root.locals[0][0])["s"]

    def on_backedge(self, eng, fr, st, h):
        new = [k for k in self.pres(st) if k not in eng.entry_aux]
        if fr.depth == 0 and self.kind not in ("BubbledInsertState", "OpUpdateState") and "BoundedCursor" not in self.root.path:
            for k in new:
                v = k[2]
                if place_in_parent(v) and v.op == "ld":
                    lvs = within(v.a[0], lambda t: t.op == "lv" and len(t.a) == 4)
                    for lv in lvs:
                        nxt = st.load(A.adr(lv.a[2], lv.a[3]))
                        ptr = nxt if v.a[0] is lv else nodes.handle_ptr(nxt)
                        if ptr is v.a[0]:
                            self.oblige(False, fr, "right", "%s: records where a node is in its parent, and does not go on with the parent" % self.root.path, [])
                else:
                    self.oblige(unknown(v), fr, "right", "%s: records %s on the way up" % (self.root.path, show(v)), [])
            if len(new) > 1:
                self.oblige(False, fr, "once", "%s: one step up records %d children" % (self.root.path, len(new)), [])
            if not new and self.gives(fr) and 1 in self.asked_last(st):
                self.oblige(False, fr, "missing", "%s: a step up that records nothing" % self.root.path, [])
        for k in new:
            del st.aux[k]
        super().on_backedge(eng, fr, st, h)

    def asked_last(self, st):
        """the same, for the node of this iteration"""
        out = set()
        for f, v in st.facts.items():
            if f.op == "eq" and v == 1 and f.a[0].op == "discr" and is_k(f.a[1]):
                for t in within(f.a[0], lambda t: t.op == "ld" and t.a[1][-1:] == ("Leaf.parent",)):
                    for lv in within(t.a[0], lambda x: x.op == "lv" and len(x.a) == 4):
                        nxt = st.load(A.adr(lv.a[2], lv.a[3]))
                        up = within(nxt, lambda x: x.op == "ld" and "Leaf.parent" in x.a[1] and x.a[0] is t.a[0])
                        if up:
                            out.add(f.a[1].a[0])
        return out

    # ---- a cursor of bounded size
    def on_enter(self, eng, fr, st):
        if fr.depth == 0 and "BoundedCursor" in self.root.path and self.root.argc:
            p = mk("param", 1, self.root.locals[1][1])
            self.start0 = st.load(addr_field(p, "BoundedCursor.start_at"))
            self.second0 = st.load(addr_index(addr_field(p, "BoundedCursor.path"), K(1)))
        super().on_enter(eng, fr, st)

    def capacity(self):
        for l in range(len(self.root.locals)):
            m = re.search(r"\[(?:\w+::)*PathComponent; (\d+)", self.p.ty(self.root.locals[l][0])["s"]) or \
                re.search(r"BoundedCursor<(\d+)", self.p.ty(self.root.locals[l][0])["s"])
            if m:
                return int(m.group(1))
        return None

    def bounded(self, fr, st, val):
        b, n = self.root, self.capacity()

        def say(ok, what, text):
            self.oblige(ok, fr, what, "%s: %s" % (b.path, text), [])
        if b.name == "new_empty":
            s = fld(val, "BoundedCursor.start_at")
            for t in within(s, lambda t: t.op == "fld" and t.a[0].op == "call" and str(t.a[0].a[1]).endswith("try_from") and all(is_k(x) for x in t.a[0].a[2])):
                # a constant in another type
                if is_k(sub(s, t)):
                    s = K(t.a[0].a[2][0].a[0] + sub(s, t).a[0])
            if n is not None:
                say(s is K(n) or vague(s), "empty", "a new cursor of capacity %d begins at %s, and so is not empty" % (n, show(s)))
            return
        if b.name not in (PRE, "next"):
            return
        p = mk("param", 1, b.locals[1][1])
        s0, s1 = self.start0, st.load(addr_field(p, "BoundedCursor.start_at"))
        at = lambda i: st.load(addr_index(addr_field(p, "BoundedCursor.path"), i))
        if b.name == PRE:
            new = mk("param", 2, b.locals[2][1])
            if n == 0:
                return
            holds = lambda i: at(i) is new or fld(at(i), "PathComponent.child_idx") is fld(new, "PathComponent.child_idx")
            if s1 is s0:
                say(st.truth(eq(s0, K(0))) == 1, "full", "a cursor that is not full does not grow")
                say(holds(K(0)), "front", "a component is added to a full cursor, and is not what it begins with")
                wr = [k for k in st.aux if k[0] == "wrote"]
                # (a loop that moves them is taken to move them all)
                say(n == 1 or self.p.cfg(b).loops or at(K(1)) is not self.second0 and not (wr and all(k[1] is K(0) for k in wr)), "kept", "a component is added to a full cursor in place of another that is not the last")
                for k in st.aux:
                    if k[0] == "moved":
                        say(k[1] in (K(0), None) and k[2] is K(1), "kept", "the components of a full cursor are moved from %s to %s" % (k[1] and show(k[1]), show(k[2])))
            else:
                say(s1 is sub(s0, K(1)) or vague(s1), "front", "the beginning of a cursor moves from %s to %s" % (show(s0), show(s1)))
                say(holds(s1) or vague(s1), "front", "a component is added to a cursor, and is not what it begins with")
        else:
            if val.op != "agg":
                return
            if val.a[1] == "None":
                asked = any(within(f, lambda t: t.op == "call" and s0 in within(t, lambda x: x is s0)) for f in st.facts)
                asked = asked or any(st.truth(lt(s0, x)) == 0 for f in st.facts for x in within(f, lambda t: t.op == "len"))
                say(n is None or asked or st.truth(eq(s0, K(n))) == 1 or st.truth(lt(s0, K(n))) == 0, "end", "a path ends though there may be more of it")
                say(s1 is s0, "end", "what is past the end of a path is counted")
            else:
                x = fld(val, "Some.0")
                say(s1 is add(s0, K(1)) or vague(s1), "end", "the next component after %s is at %s" % (show(s0), show(s1)))
                was = x.op in ("ld", "fld", "idx") and within(x, lambda t: t is s0)
                say(bool(was) and x is at(s0) or vague(x) and x.op != "ld", "front", "what a path begins with is %s, not what was added last" % show(x))


def rhs_node(st, v):
    for t in within(v, lambda t: t.op == "agg" and A.tail(t.a[0]) == "NodeHandle"):
        return nodes.handle_ptr(t)
    for f in ("SharedNodeBox.node", "NodeBox.node"):
        w = fld(v, f)
        if w.op == "agg" or w.op in ("ld", "fld", "param", "call"):
            p = nodes.handle_ptr(w)
            return p
    return None


def check(c):
    prog = units.program(common.facts_paths())
    prog.mods(None)
    for cfg in ("NoFeatures", "AllowCow") if c.tier != "thorough" else ("NoFeatures", "AllowCow", "AllowSliceRefs"):
        w = units.of(cfg, "US")

        def want(b):
            if "BoundedCursor" in b.path:
                return cfg == "NoFeatures" and b.name in ("new_empty", PRE, "next")
            return w(b) and (any(x.endswith(("." + PRE, "::" + PRE)) for x in ()) or relevant(prog, b))
        bad = units.run(prog, lambda: R(prog), want, c, name="functions_" + cfg, climb=1)
        for (fn, what), (text, unit) in bad.items():
            c.violation("%s:%s" % (fn, what.replace(" ", "-")), text + " [reached from %s]" % unit)
    c.floor("obligation_sites", 3)
    c.explanation = ("each path through a step from a node to its parent, and through a search that records its way: what is recorded is the "
                     "child the place is in, once, or nothing where the place is a key of the node; where a key and a child are inserted, or "
                     "two halves go under a new root, it is the child on the side of the new key where the place is; the state handed on says "
                     "the side where what was inserted was put; a bounded cursor begins empty, adds at its front, and gives back from there")
    c.assumptions = ["paths that unwind are not covered", "what a step learns about its place from the step before is taken as said",
                     "that the place is forgotten again where a neighbour is removed (BoundedCursor reset in insert) is not covered"]



def relevant(prog, b):
    """does it record, step up, or begin to"""
    if b.kind == "Closure":
        return False
    if any(i in prog.bodies and prog.bodies[i].name == PRE for i in units.closure_callees(prog, b)):
        return True
    t = [prog.ty(x[0]) for x in b.locals[:1 + b.argc]]
    return any(A.tail(x.get("adt", "")) in ("BubbledInsertState", "OpUpdateState") for x in t)

"""P18: the new slice is joined with its neighbours only, in order, and what does not join stays in order."""
import absint as A
import common, nodes, units
from absint import K, T, mk, fld, show, is_k
from p_p16 import within, tag

TECHNIQUE = ("abstract interpretation of monomorphic MIR with a domain of runs of slices: what is left of the place, the new slice, and "
             "what is right of it, followed through take, try_join, split_at, put back and insert")

TAKE, FILL, JOIN, SPLIT = "take_value_and_leave_hole", "fill_hole", "try_join", "split_at"
KEEP = (TAKE, FILL, "insert_rhs", "do_insert_full_edge_no_join", "do_insert_full_edge_try_join")
SIDES = {"AdjacentKeys.lhs": 0, "AdjacentKeys.rhs": 2, "SplitKeyInsert.handle": 0}
WORDS = {0: "what is left of the place", 1: "the new slice", 2: "what is right of the place"}


def words(r):
    return " with ".join(WORDS[i] for i in range(r[0], r[1] + 1)) if r[0] <= r[1] else "?"


class R(units.UnitRule):
    SUMMARIES = False

    def __init__(self, prog, joins):
        super().__init__(prog)
        self.joins = joins

    def start(self, unit):
        super().start(unit)
        self.root = unit
        self.calls = {}
        self.news = [i for i in range(1, unit.argc + 1) if A.tail(self.p.ty(unit.locals[i][0]).get("adt", "")) in ("US", "UN")]
        self.count = [i for i in range(1, unit.argc + 1) if self.p.ty(unit.locals[i][0])["s"].replace("'_ ", "") == "&mut usize"]

    def inline(self, eng, fr, body):
        if body.name in KEEP and body.id != self.root.id:
            return False
        return super().inline(eng, fr, body)

    def side(self, st, h):
        """the side of the place a handle is on"""
        if h.op in ("adr", "loc"):
            p = st.load(A.addr_field(A.addr_field(h, "SliceHandle.node"), "NodeHandle.ptr"))
        else:
            p = nodes.handle_ptr(fld(h, "SliceHandle.node"))
        out = {SIDES[t.a[1]] for t in within(p, lambda t: t.op == "fld" and t.a[1] in SIDES)} if p is not None else ()
        return out.pop() if len(out) == 1 else None

    def held(self, st, v):
        """(first, last) of the slices a value was made of"""
        for k in st.aux:
            if k[0] == "is" and k[1] is v:
                return k[2], k[3]
        if v.op == "param":
            return (1, 1) if v.a[0] in self.news else None
        if v.op != "fld":
            return None
        x, f = v.a[0], v.a[1]
        if f == "Ok.0" and x in self.calls:
            a, b = (self.held(st, y) for y in self.calls[x])
            return (a[0], b[1]) if a and b else None
        if f in ("tuple.0", "tuple.1") and x.op == "fld" and x.a[1] == "Err.0" and x.a[0] in self.calls:
            return self.held(st, self.calls[x.a[0]][int(f[-1])])
        if f == "SliceSize.slice":
            return None
        return None

    def say(self, ok, fr, what, text):
        self.oblige(ok, fr, what, "%s: %s" % (self.root.path, text), [])

    def put(self, st, side, what):
        for k in [k for k in st.aux if k[0] == "slot" and k[1] == side]:
            del st.aux[k]
        st.aux[("slot", side, what)] = 1

    def on_call(self, eng, fr, st, c):
        if c.name == JOIN and len(c.args) == 2:
            a, b = (self.held(st, x) for x in c.args)
            if a and b:
                self.say(a[1] + 1 == b[0], fr, "order", "%s is joined with %s on its right" % (words(a), words(b)))
                st.aux[("tried", a[1])] = 1
            else:
                st.aux[("tried", 0)] = st.aux[("tried", 1)] = st.aux[("vague",)] = 1
        elif c.name == FILL and len(c.args) == 2:
            s, r = self.side(st, c.args[0]), self.held(st, c.args[1])
            if s is not None:
                self.put(st, s, r or "?")
            return [(st.copy(), A.UNIT)]
        elif c.name == TAKE and c.args:
            # the handle stays what it is
            v = mk("call", c.site, c.rpath, tuple(c.args))
            eng.tyof.setdefault(v, c.destty)
            return [(st.copy(), v)]
        else:
            new = []
            for a in c.args:
                for x in (a, fld(a, "Some.0") if a.op == "agg" and a.a[1] == "Some" else None):
                    if x is not None and x.op == "agg" and A.tail(x.a[0]) == "SliceSize":
                        new.append(self.held(st, fld(x, "SliceSize.slice")))
            if new and c.body is not None and c.body.name in KEEP:
                st.aux[("new", tuple(new))] = 1
                for i in self.count:
                    st.aux[("then", st.load(mk("param", i, self.root.locals[i][1])))] = 1
        return super().on_call(eng, fr, st, c)

    def on_after(self, eng, fr, st, c, val):
        if c.name == JOIN and len(c.args) == 2:
            self.calls[val] = tuple(c.args)
        elif c.name == "do_insert_full_edge_try_join":
            st.aux[("is", fld(val, "Err.0"), 1, 1)] = 1
            for i in self.count:
                st.aux[("len", st.load(mk("param", i, self.root.locals[i][1])))] = 1
        elif c.name == SPLIT and len(c.args) == 2:
            st.aux[("is", val, 2, 2)] = 1
        elif c.name == TAKE and c.args:
            s = self.side(st, c.args[0])
            if s is not None:
                st.aux[("is", val, s, s)] = 1
                self.put(st, s, None)
        super().on_after(eng, fr, st, c, val)

    def on_return(self, eng, fr, st, val):
        if fr.depth == 0 and self.news and val.op != "phi":
            self.judge(fr, st, val)
        super().on_return(eng, fr, st, val)

    def judge(self, fr, st, val):
        slot = {k[1]: k[2] for k in st.aux if k[0] == "slot"}
        new = [k[1] for k in st.aux if k[0] == "new"]
        split = any(A.tail(self.p.ty(self.root.locals[i][0]).get("adt", "")) == "SplitKeyInsert" for i in range(1, self.root.argc + 1))
        adj = [i for i in range(1, self.root.argc + 1) if A.tail(self.p.ty(self.root.locals[i][0]).get("adt", "")) == "AdjacentKeys"]
        lens = [k[1] for k in st.aux if k[0] == "len"]
        if not split and not adj and lens and self.count:
            # what did not join is inserted, and counted
            n = sum(1 for x in new)
            p = mk("param", self.count[0], self.root.locals[self.count[0]][1])
            e = next((k[1] for k in st.aux if k[0] == "then"), st.load(p))
            for d in range(-3, 4):
                if d != n and A.sub(e, K(d)) is lens[-1]:
                    self.say(False, fr, "count", "%d slices are put in, and %d counted" % (n, d))
            self.say(len(new) <= 1 and all(x == ((1, 1),) for x in new), fr, "kept", "what did not join is not inserted once")
        if not split and not adj or len(new) > 1:
            return
        there = {}
        if adj:
            p = mk("param", adj[0], self.root.locals[adj[0]][1])
            for s, f in ((0, "AdjacentKeys.lhs"), (2, "AdjacentKeys.rhs")):
                there[s] = tag(st, fld(p, f), ("None", "Some"))
        else:
            there = {0: "Some", 2: "Some"}
        line, known = [], True
        if there[0] == "Some" or 0 in slot:
            x = slot.get(0, (0, 0))
            line.append((0, 0) if x == "?" else x)
        if new:
            line.extend(new[0])
        elif val.op == "agg" and val.a[1] == "Err":
            line.append(self.held(st, fld(val, "Err.0")))
            if line[-1] is None:
                return
        elif val.op == "call":
            return
        if not split and (there[2] == "Some" or 2 in slot):
            x = slot.get(2, (2, 2))
            line.append((2, 2) if x == "?" else x)
        if ("vague",) in st.aux:
            return
        if any(x is None for x in slot.values()):
            self.say(False, fr, "kept", "a slice is taken out and nothing is put back in its place")
            return
        if any(x is None for x in line) or not line:
            return
        full = [i for r in line for i in range(r[0], r[1] + 1)]
        want = [i for i in (0, 1, 2) if i == 1 or there[i] == "Some" or i in full and there[i] is None]
        self.say(full == want, fr, "kept", "after this, there is %s" % ", then ".join(words(r) for r in line))
        if self.joins:
            for s, t in ((0, 0), (2, 1)):
                if there[s] == "Some":
                    self.say(("tried", t) in st.aux, fr, "tried", "%s may join with %s, and this is not tried" % (
                        (WORDS[0], "the new slice") if s == 0 else ("what is inserted", WORDS[2])))
        if self.count and split:
            p = mk("param", self.count[0], self.root.locals[self.count[0]][1])
            n = next((k[1] for k in st.aux if k[0] == "then"), st.load(p))
            for d in range(-3, 4):
                if d != len(line) - 1 and A.sub(n, K(d)) is self.len0:
                    self.say(False, fr, "count", "%d slices are put in, and %d counted" % (len(line) - 1, d))
            self.say(True, fr, "count", "")

    def on_enter(self, eng, fr, st):
        if fr.depth == 0 and self.count:
            self.len0 = st.load(mk("param", self.count[0], self.root.locals[self.count[0]][1]))
        super().on_enter(eng, fr, st)


def check(c):
    prog = units.program(common.facts_paths())
    prog.mods(None)
    for cfg in ("NoFeatures", "AllowSliceRefs") if c.tier != "thorough" else ("NoFeatures", "AllowSliceRefs", "AllowCow"):
        for s in ("US", "UN"):
            w = units.of(cfg, s)

            def want(b):
                return w(b) and b.kind != "Closure" and any(
                    A.tail(prog.ty(b.locals[i][0]).get("adt", "")) in ("SplitKeyInsert", "AdjacentKeys", "EdgeInsert") for i in range(1, b.argc + 1))
            bad = units.run(prog, lambda: R(prog, s == "US"), want, c, name="functions_%s_%s" % (cfg, s), climb=1)
            for (fn, what), (text, unit) in bad.items():
                c.violation("%s:%s" % (fn, what), text + " [reached from %s]" % unit)
    c.floor("obligation_sites", 4)
    c.explanation = ("on each path through an insertion between two slices, or inside one: try_join is called on what lies next to each other, in "
                     "order, with each neighbour there is; what the places left and right and the slices handed on for insertion hold in the end is "
                     "what was there and the new slice, in order, once; the count changes by as many as were put in")
    c.assumptions = ["that the handles of the neighbours are of the neighbours is P14", "paths that unwind are not covered",
                     "joining with both neighbours at an edge, which ends in todo!(), is not covered"]

"""P17: an insertion puts what is inserted in its place, and keeps everything else in order."""
import absint as A
import common, nodes, units
from absint import K, T, mk, eq, add, sub, lt, fld, show, is_k, addr_field
from p_p16 import within, tag, place_in_parent, rhs_node

TECHNIQUE = ("abstract interpretation of monomorphic MIR with a domain of sequences: the slices of the nodes of an insertion as runs of what "
             "the node held and what is new, through split, insert and append")

INS = {"insert_key": 3, "insert_key_and_child": 4}
PUSH = ("push_key", "push_key_and_child")
SWAP = "replace_first_child"
ON = ("do_insert_full_edge_no_join", "do_insert_full_edge_no_join_split", "do_insert_full_edge_no_join_split_small_m", "insert_rhs")


def node_at(st, h):
    if h.op in ("adr", "loc"):
        return st.load(addr_field(h, "NodeHandle.ptr"))
    return nodes.handle_ptr(h)


class R(units.UnitRule):
    SUMMARIES = False

    def start(self, unit):
        super().start(unit)
        self.root = unit
        self.mids, self.out = {}, {}
        tail = lambda i: A.tail(self.p.ty(unit.locals[i][0]).get("adt", ""))
        ps = range(1, unit.argc + 1)
        self.par = lambda i: mk("param", i, unit.locals[i][1])
        self.sized = [i for i in ps if tail(i) == "SliceSize" or tail(i) == "Option" and "SliceSize" in self.p.ty(unit.locals[i][0])["s"]]
        self.opt = {i for i in self.sized if tail(i) == "Option"}
        self.idx = [i for i in ps if self.p.ty(unit.locals[i][0])["s"] == "u8"]
        self.node = [i for i in ps if tail(i) == "NodeHandle"]
        self.step = unit.argc >= 1 and tail(1) == "BubbledInsertState"

    def inline(self, eng, fr, body):
        if body.name in INS or body.name in PUSH or body.name == SWAP or self.splits(body) or body.name in ON and body.id != self.root.id:
            return False
        return super().inline(eng, fr, body)

    @staticmethod
    def splits(b):
        return b.name == "split" and "NodeHandle" in b.path and b.argc == 3

    # ---- sequences
    def seq(self, st, n):
        for k in st.aux:
            if k[0] == "seq" and k[1] is n:
                return list(k[2])
        return [("o", K(0), self.len0(st, n))]

    def len0(self, st, n):
        for k in st.aux:
            if k[0] == "len0" and k[1] is n:
                return k[2]
        return st.load(addr_field(n, "Leaf.len"))

    def setseq(self, st, n, s, what="seq"):
        for k in [k for k in st.aux if k[0] == what and k[1] is n]:
            del st.aux[k]
        st.aux[(what, n, tuple(s))] = 1

    @staticmethod
    def same(st, a, b):
        return a is b or st.truth(eq(a, b)) == 1

    def cut(self, st, s, p):
        """s up to position p, and the rest; None when not known"""
        pos, left = K(0), []
        for i, e in enumerate(s):
            if self.same(st, pos, p):
                return left, s[i:]
            end = add(pos, sub(e[2], e[1]) if e[0] == "o" else K(1))
            if e[0] == "o" and not self.same(st, end, p):
                t = st.truth(lt(end, p))
                if t == 1:
                    pass
                elif t == 0 or i == len(s) - 1 or st.truth(lt(p, end)) == 1:
                    at = add(e[1], sub(p, pos))
                    return left + [("o", e[1], at)], [("o", at, e[2])] + s[i + 1:]
                else:
                    return None
            left.append(e)
            pos = end
        return (left, []) if self.same(st, pos, p) else None

    def elem(self, st, v):
        """the elements a key or slice stands for"""
        if v.op in ("adr", "loc"):
            v = st.load(v)
        for k, e in self.mids.items():
            if v is k or v is fld(k, "Key.slice") or fld(v, "Key.slice") is fld(k, "Key.slice"):
                return e
        s = fld(v, "Key.slice") if v.op == "agg" and A.tail(v.a[0]) == "Key" else v
        if self.step and s in (fld(fld(self.par(1), "BubbledInsertState.key"), "Key.slice"), fld(self.par(1), "BubbledInsertState.key")):
            return ("x", 0)
        for n, i in enumerate(self.sized):
            p = self.par(i)
            if s is fld(fld(p, "Some.0") if i in self.opt else p, "SliceSize.slice"):
                return ("x", n)
        return None

    def lose(self, st):
        st.aux[("vague",)] = 1

    def on_enter(self, eng, fr, st):
        if fr.depth == 0 and len(self.node) == 1:
            n = nodes.handle_ptr(self.par(self.node[0]))
            st.aux[("len0", n, st.load(addr_field(n, "Leaf.len")))] = 1
        super().on_enter(eng, fr, st)

    def on_call(self, eng, fr, st, c):
        b = c.body
        if b is not None and self.step and c.name == SWAP and len(c.args) == 2:
            return self.swap(eng, st, c)
        if b is None or b.crate != "sherman" or not (self.splits(b) or c.name in INS or c.name in PUSH):
            if b is not None and b.name in ON and b.id != self.root.id and self.sized:
                self.passed(fr, st, c)
            return super().on_call(eng, fr, st, c)
        n = node_at(st, c.args[0])
        s = self.seq(st, n)
        ch = self.kids(st, n) if self.step else None
        if not any(k[0] == "len0" and k[1] is n for k in st.aux):
            st.aux[("len0", n, st.load(addr_field(n, "Leaf.len")))] = 1
        out = st.copy()
        eng.opaque_effects(out, self.p.mods(b.id), c.args, c.site)
        val = mk("call", c.site, c.rpath, tuple(c.args))
        if self.p.ty(c.destty)["s"] == "()":
            val = A.UNIT
        if self.splits(b):
            m = c.args[1]
            lr = self.cut(st, s, m)
            ml = lr and self.cut(st, lr[1], K(1))
            if ml and len(ml[0]) == 1:
                self.setseq(out, n, lr[0])
                self.setseq(out, nodes.handle_ptr(fld(val, "tuple.1")), ml[1])
                self.mids[fld(val, "tuple.0")] = ml[0][0]
                cc = ch and self.cut(st, ch, add(m, K(1)))
                if cc:
                    self.setseq(out, n, cc[0], "kids")
                    self.setseq(out, nodes.handle_ptr(fld(val, "tuple.1")), cc[1], "kids")
                else:
                    out.aux[("kvague",)] = 1
            else:
                self.lose(out)
        else:
            e = self.elem(st, c.args[2 if c.name in PUSH else 3])
            if c.name in PUSH:
                lr = (s, [])
            else:
                lr = self.cut(st, s, c.args[2])
            if e is None or lr is None:
                self.lose(out)
            else:
                self.setseq(out, n, lr[0] + [e] + lr[1])
            if self.step:
                k = self.kid(st, c.args[3 if c.name in PUSH else 4]) if c.name in ("push_key_and_child", "insert_key_and_child") else None
                cc = (ch, []) if c.name in PUSH else self.cut(st, ch, add(c.args[2], K(1)))
                if k is None or not cc:
                    out.aux[("kvague",)] = 1
                else:
                    self.setseq(out, n, cc[0] + [k] + cc[1], "kids")
        return [(out, val)]

    def kids(self, st, n):
        for k in st.aux:
            if k[0] == "kids" and k[1] is n:
                return list(k[2])
        return [("o", K(0), add(self.len0(st, n), K(1)))]

    def kid(self, st, v):
        """the child a handle is of"""
        p = node_at(st, v)
        for k, e in self.out.items():
            if p is k:
                return e
        b = fld(fld(self.par(1), "BubbledInsertState.rhs"), "NodeBox.node")
        return ("x", 0) if p is nodes.handle_ptr(b) else None

    def swap(self, eng, st, c):
        n, out = node_at(st, c.args[0]), st.copy()
        if not any(k[0] == "len0" and k[1] is n for k in st.aux) and not any(k[0] == "kids" and k[1] is n for k in st.aux):
            st.aux[("len0", n, st.load(addr_field(n, "Leaf.len")))] = 1
        cc, k = self.cut(st, self.kids(st, n), K(1)), self.kid(st, c.args[1])
        eng.opaque_effects(out, self.p.mods(c.body.id), c.args, c.site)
        val = mk("call", c.site, c.rpath, tuple(c.args))
        if cc and len(cc[0]) == 1 and k:
            self.out[nodes.handle_ptr(val)] = cc[0][0]
            self.setseq(out, n, [k] + cc[1], "kids")
        else:
            out.aux[("kvague",)] = 1
        return [(out, val)]

    def passed(self, fr, st, c):
        """the same slices in the same order, to the same place"""
        got = [a for a in c.args if a.op == "param" and a.a[0] in self.sized or a.op in ("fld", "agg") and (
            a.op == "agg" and A.tail(a.a[0]) == "SliceSize" or a.op == "fld" and a.a[1] == "Some.0" and a.a[0].op == "param" and a.a[0].a[0] in self.sized)]
        ids = []
        for a in got:
            e = self.elem(st, fld(a, "SliceSize.slice")) if a.op != "param" or a.a[0] not in self.opt else ("x", self.sized.index(a.a[0]))
            ids.append(e[1] if e else None)
        hs = [i for i in range(1, self.root.argc + 1) if A.tail(self.p.ty(self.root.locals[i][0]).get("adt", "")) == "SliceHandle"]
        to = [i for i in range(1, c.body.argc + 1) if A.tail(self.p.ty(c.body.locals[i][0]).get("adt", "")) == "NodeHandle"]
        at = [i for i in range(1, c.body.argc + 1) if self.p.ty(c.body.locals[i][0])["s"] == "u8"]
        if len(hs) == len(to) == len(at) == 1:
            # to the right of a slice
            h, n, k = self.par(hs[0]), node_at(st, c.args[to[0] - 1]), c.args[at[0] - 1]
            if n is nodes.handle_ptr(fld(h, "SliceHandle.node")):
                self.say(self.same(st, k, add(fld(h, "SliceHandle.idx"), K(1))), fr, "place", "what belongs right of slice %s of a leaf is put in at %s" % (
                    show(fld(h, "SliceHandle.idx")), show(k)))
            elif not within(k, lambda t: t.op in ("phi", "lv", "hv", "call")):
                self.say(k is K(0), fr, "place", "what belongs right of a slice is put in at %s of the leaf to the right" % show(k))
        elif len(self.node) == len(self.idx) == len(to) == len(at) == 1:
            n, k = node_at(st, c.args[to[0] - 1]), c.args[at[0] - 1]
            if n is nodes.handle_ptr(self.par(self.node[0])):
                self.say(self.same(st, k, self.par(self.idx[0])), fr, "place", "what belongs at %s is handed on to be put in at %s" % (show(self.par(self.idx[0])), show(k)))
        if None not in ids and ids:
            self.say(ids == sorted(ids) and len(set(ids)) == len(ids), fr, "order", "slices to be inserted are handed on in another order")

    def say(self, ok, fr, what, text):
        self.oblige(ok, fr, what, "%s: %s" % (self.root.path, text), [])

    # ---- at the end
    def on_return(self, eng, fr, st, val):
        if fr.depth == 0:
            self.judge(fr, st, val)
        super().on_return(eng, fr, st, val)

    def judge(self, fr, st, val):
        if ("vague",) in st.aux or not any(k[0] == "seq" for k in st.aux):
            return
        if self.step:
            want = [("x", 0)]
            k0 = None
        elif self.sized and len(self.idx) == 1 and len(self.node) == 1:
            want = []
            for n, i in enumerate(self.sized):
                t = tag(st, self.par(i), ("None", "Some")) if i in self.opt else "Some"
                if t is None:
                    return
                if t == "Some":
                    want.append(("x", n))
            k0 = self.par(self.idx[0])
        else:
            return
        bs = [t for t in within(val, lambda t: t.op == "agg" and t.a[1] == "BubbledInsertState")]
        if len(bs) > 1 or not bs and val.op == "phi":
            return
        if bs:
            lhs, key = node_at(st, fld(bs[0], "BubbledInsertState.lhs")), fld(bs[0], "BubbledInsertState.key")
            rhs = rhs_node(st, fld(bs[0], "BubbledInsertState.rhs"))
            known = [k[1] for k in st.aux if k[0] == "seq"]
            e = self.elem(st, key)
            if e is None or not any(x is lhs for x in known) or not any(x is rhs for x in known):
                return
            line = self.seq(st, lhs) + [e] + self.seq(st, rhs)
        else:
            ns = [k[1] for k in st.aux if k[0] == "seq"]
            if len(ns) != 1:
                return
            line = self.seq(st, ns[0])
        kl = None
        if self.step and ("kvague",) not in st.aux:
            kl = self.kids(st, lhs) + self.kids(st, rhs) if bs else self.kids(st, ns[0])
        for what, line in (("", line), ("child ", kl)):
            if line is not None:
                self.compare(fr, st, what, line, want, k0)

    def compare(self, fr, st, what, line, want, k0):
        out, one = [], K(1 if what else 0)
        for e in line:
            if e[0] == "o" and self.same(st, e[1], e[2]):
                continue
            if e[0] == "o" and out and out[-1][0] == "o" and self.same(st, out[-1][2], e[1]):
                out[-1] = ("o", out[-1][1], e[2])
            else:
                out.append(e)
        xs = [e for e in out if e[0] == "x"]
        text = ", ".join("%s to %s of the node" % (show(e[1]), show(e[2])) if e[0] == "o" else ("what is new", "the second new slice")[e[1]] for e in out)
        self.say(xs == want, fr, what + "new", "after this there is %s" % text)
        if xs != want:
            return
        i = out.index(xs[0])
        before, after = out[:i], out[i + len(xs):]
        ok = out[i:i + len(xs)] == xs and len(before) <= 1 and len(after) <= 1
        if not ok or any(e[0] != "o" for e in before + after):
            self.say(False, fr, what + "kept", "after this there is %s" % text)
            return
        if before:
            ok = self.same(st, before[0][1], K(0))
        ends = [before[0][2]] if before else [K(0)]
        if after:
            ends.append(after[0][1])
        if k0 is None:
            k0 = next((sub(t, one) for t in ends if place_in_parent(sub(t, one))), None) or next(
                (t for f in st.facts for t in within(f, place_in_parent)), None)
        self.say(ok and all(self.same(st, e, ends[0]) for e in ends), fr, what + "kept", "after this there is %s" % text)
        if k0 is not None:
            k0 = add(k0, one)
            self.say(all(self.same(st, e, k0) for e in ends[1:] or ends), fr, what + "place", "what belongs at %s is put in so that there is %s" % (show(k0), text))


def check(c):
    prog = units.program(common.facts_paths())
    prog.mods(None)
    for cfg in ("NoFeatures", "AllowSliceRefs") if c.tier != "thorough" else ("NoFeatures", "AllowSliceRefs", "AllowCow"):
        w = units.of(cfg, "US")

        def want(b):
            if not w(b) or b.kind == "Closure":
                return False
            ts = [prog.ty(b.locals[i][0]) for i in range(1, b.argc + 1)]
            return any(A.tail(t.get("adt", "")) == "SliceSize" for t in ts) or bool(ts) and A.tail(ts[0].get("adt", "")) == "BubbledInsertState" and any(
                i in prog.bodies and prog.bodies[i].name in INS for i in units.closure_callees(prog, b))
        bad = units.run(prog, lambda: R(prog), want, c, name="functions_" + cfg, climb=1)
        for (fn, what), (text, unit) in bad.items():
            c.violation("%s:%s" % (fn, what.replace(" ", "-")), text + " [reached from %s]" % unit)
    c.floor("obligation_sites", 4)
    c.explanation = ("on each path through an insertion into a leaf, and a step up after a split: the runs of old slices (and children) of the "
                     "node or its two halves and the key between them, put one after the other, are the old ones in order with the new at the "
                     "place they were to go; slices handed on to be inserted elsewhere keep their order and place")
    c.assumptions = ["split, insert_key, push_key and their variants with children do what they say (P10)", "paths that unwind are not covered",
                     "branching factor 3; the special case for 1 is not interpreted"]

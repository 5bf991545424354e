"""P12: nodes stay within their bounds."""
import absint as A
import common, layout, nodes, units
from absint import K, T, mk, eq, add, sub, lt, fld, addr_field, root_path, show, is_k
from layout import Moves, ONE, handed

TECHNIQUE = ("abstract interpretation of monomorphic MIR: interval and difference bounds of the lengths of nodes, with what a "
             "function needs of its arguments checked in its callers")
VALS = layout.FIELDS[1]


def is_len(t):
    return t.op == "ld" and t.a[1][-1:] == ("Leaf.len",) and t.a[0].op not in ("loc",)


class R(Moves):
    M = 3

    def start(self, unit):
        super().start(unit)
        m = self.M
        A.RANGE = lambda t: (1, 2 * m) if t.op == "ld" and t.a[1][-1:] == ("Leaf.len",) and t.a[0].op != "loc" else (0, None)

    def inline(self, eng, fr, body):
        if body.crate == "sherman" and (self.nblocks(body) <= 4 or self.SMALL > 6 and self.nblocks(body) <= 20 or makes_node(self.p, body)):
            return True
        return super().inline(eng, fr, body)

    def on_unreachable(self, eng, fr, st, c):
        """the room that inserting assumes"""
        for v in guards(eng, fr, c):
            if v.op == "lt":
                k, parts = A.lin_parts(v.a[0])
                if len(parts) == 1 and is_len(parts[0][0]) and parts[0][1] > 0:
                    self.oblige(False, fr, "room", "%s assumes that node %s holds at most %d slices, which is not known here" % (
                        fr.body.path, show(parts[0][0].a[0]), -k - 1), self.where(parts[0][0].a[0]))

    def judge(self, eng, fr, st, only):
        rs = []
        for k in st.aux:
            r = k[1] if k[0] in ("new", "len0") else None
            if r is not None and r not in rs:
                rs.append(r)
        for r in rs:
            if only is not None and r not in only:
                continue
            n = st.load(addr_field(r, "Leaf.len"))
            dep = self.where(r)
            self.oblige(st.truth(lt(K(2 * self.M), n)) == 0, fr, "capacity", "%s: node %s comes to hold %s slices, which may be more than %d"
                        % (fr.body.path, show(r), show(n), 2 * self.M), dep)

    def on_agg(self, eng, fr, st, adt, variant, val, ty, sp):
        """two nodes handed on together: the halves of a split node"""
        super().on_agg(eng, fr, st, adt, variant, val, ty, sp)
        two = [p for p in (node_in(v) for _, v in val.a[2]) if p is not None]
        if len(two) < 2:
            return
        moved = {}
        for d, lo, hi, s, sl in self.moves(st, VALS):
            if d is not s:
                moved.setdefault(d, []).append(s)
                moved.setdefault(s, []).append(d)
        for r in two:
            if r not in moved:
                continue
            n = st.load(addr_field(r, "Leaf.len"))
            if n.op == "ld" and (r.op == "alloc" or any(n.a[2])) or layout.loopy(n):
                self.undecided += 1
                continue
            self.oblige(st.truth(lt(n, K(self.M))) == 0, fr, "half full", "%s: of the halves of a split, %s is left with %s slices, which "
                        "may be fewer than %d" % (fr.body.path, show(r), show(n), self.M),
                        self.where(r) + [x for x in moved[r] if x.op != "alloc" and handed(x)])

    undecided = 0

    def where(self, r):
        if r.op != "alloc":
            return [r] if handed(r) else []
        f = r.a[0].a[0] if r.a[0].op == "s" else None
        while f is not None and f.a[0] not in self.force:
            f = f.a[1]
        return [mk("param", 1, None)] if f is None else []


def makes_node(p, b):
    r = p.ty(b.locals[0][0])["s"]
    return "NodeHandle<" in r and "UniqueOwned" in r


def guards(eng, fr, c):
    """the conditions under which a call is reached directly"""
    out, seen, todo = [], set(), [c.blk]
    while todo:
        x = todo.pop()
        for i, blk in enumerate(fr.body.blocks):
            t = blk.term
            if i in seen:
                continue
            if t.k == "goto" and t.t == x:
                seen.add(i)
                todo.append(i)
            elif t.k == "switch" and (x == t.o or any(x == g for _, g in t.ts)):
                v = eng.conds.get((fr.key, i))
                if v is None:
                    continue
                seen.add(i)
                if is_k(v):
                    todo.append(i)
                else:
                    out.append(v)
    return out


def node_in(v):
    """the node of a handle or box"""
    while v.op == "agg" and v.a[1] in ("NodeBox", "SharedNodeBox", "ManuallyDrop"):
        v = v.a[2][0][1]
    if v.op == "agg" and v.a[1] == "NodeHandle":
        return fld(v, "NodeHandle.ptr")
    if v.op == "agg" and v.a[1] == "Some":
        return node_in(v.a[2][0][1])
    return None


def check(c):
    prog = units.program(common.facts_paths())
    cfgs = ("AllowSliceRefs", "NoFeatures", "AllowCow") if c.tier == "thorough" else ("NoFeatures", "AllowCow")
    for cfg in cfgs:
        bad = units.run(prog, lambda: R(prog), units.of(cfg, "US"), c, name="functions_" + cfg, loose=False, climb=3)
        for (fn, what), (text, unit) in bad.items():
            c.violation("%s:%s" % (fn, what.replace(" ", "-")), text + " [reached from %s]" % unit)
    c.floor("obligation_sites", 6)
    c.explanation = (
        "Every function of the instantiated crate (M = 3, so 6 slices to a node) is interpreted abstractly with symbolic lengths and positions; every node "
        "is taken to hold between 1 and 6 slices on entry. Each path to undefined behaviour that is guarded by a node having room is an obligation: the "
        "length must be shown to be small enough on every path; each path that returns must leave the nodes it wrote with at most 6 slices, and where a "
        "node is split into two that are handed on together, both with at least 3. What a function needs of nodes it was given is checked at its callers.")
    c.assumptions = ["paths that unwind are not covered", "nodes handed in by the public interface are within their bounds beforehand (induction over operations)",
                     "the instance analysed has M = 3; other sizes share the code, in which M is symbolic only through constants"]

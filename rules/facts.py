"""In-memory model of the facts written by the driver (/verif/driver/main.rs).

Bodies are MIR control-flow graphs with resolved callees. This module offers the vocabulary that
every rule uses: calls, field accesses, CFG successors under a configuration (which decides the
branches on the type-level constants P::COW, P::SLICE_REFS, S::MAY_JOIN, cfg!(debug_assertions)),
def-use chains, closures and the call graph.
"""
import json, re
from collections import defaultdict


class Place:
    __slots__ = ("l", "proj", "ty")

    def __init__(self, j):
        self.l, self.proj, self.ty = j[0], j[1], j[2]

    @property
    def fields(self):
        return [(p[2], p[3]) for p in self.proj if p[0] == "f"]

    def derefs(self):
        return sum(1 for p in self.proj if p[0] == "*")

    def key(self):
        return (self.l, tuple((p[0],) + ((p[1],) if len(p) > 1 else ()) for p in self.proj))

    def __repr__(self):
        s = f"_{self.l}"
        for p in self.proj:
            if p[0] == "*":
                s = f"(*{s})"
            elif p[0] == "f":
                s += f".{p[2]}"
            elif p[0] == "d":
                s = f"({s} as {p[2]})"
            elif p[0] == "i":
                s += f"[_{p[1]}]"
            elif p[0] == "ci":
                s += f"[{'-' if p[2] else ''}{p[1]}]"
            else:
                s += f".{p[0]}"
        return s


class Op:
    __slots__ = ("place", "move", "k")

    def __init__(self, j):
        self.place = self.k = None
        self.move = False
        if "c" in j:
            self.place = Place(j["c"])
        elif "m" in j:
            self.place = Place(j["m"])
            self.move = True
        else:
            self.k = j["k"]

    def __repr__(self):
        if self.place is not None:
            return ("move " if self.move else "") + repr(self.place)
        k = self.k
        if "fn" in k:
            return "fn " + k["fn"]
        if "uneval" in k:
            return "const " + k["uneval"]
        return "const " + str(k.get("v", k.get("vs", k.get("cty", "?"))))


class Stmt:
    __slots__ = ("kind", "place", "rv", "sp", "local")

    def __init__(self, j):
        self.kind = j[0]
        self.place = self.rv = self.sp = self.local = None
        if self.kind == "=":
            self.place = Place(j[1])
            self.rv = Rv(j[2])
            self.sp = j[3]
        elif self.kind == "sd":
            self.place = Place(j[1])
            self.rv = j[2]
            self.sp = j[3]
        elif self.kind in ("dead", "live"):
            self.local = j[1]
        else:
            self.sp = j[2] if len(j) > 2 else None

    def __repr__(self):
        if self.kind == "=":
            return f"{self.place} = {self.rv}"
        if self.kind == "sd":
            return f"discr({self.place}) = {self.rv}"
        return f"{self.kind} _{self.local}"


class Rv:
    __slots__ = ("kind", "ops", "place", "mut", "extra", "variant", "fnames", "ty")

    def __init__(self, j):
        self.kind = j[0]
        self.ops, self.place, self.mut, self.extra = [], None, False, None
        self.variant = self.fnames = self.ty = None
        k = j[0]
        if k in ("use", "repeat"):
            self.ops = [Op(j[1])]
        elif k in ("ref", "rawptr"):
            self.mut, self.place = j[1], Place(j[2])
        elif k == "cast":
            self.extra, self.ops, self.ty = j[1], [Op(j[2])], j[3]
        elif k == "bin":
            self.extra, self.ops = j[1], [Op(j[2]), Op(j[3])]
        elif k == "un":
            self.extra, self.ops = j[1], [Op(j[2])]
        elif k == "discr":
            self.place = Place(j[1])
        elif k == "agg":
            self.extra, self.variant, self.fnames = j[1], j[2], j[3]
            self.ops = [Op(x) for x in j[4]]
        else:
            self.extra = j[1]

    def places(self):
        out = [o.place for o in self.ops if o.place is not None]
        if self.place is not None:
            out.append(self.place)
        return out

    def __repr__(self):
        k = self.kind
        if k == "use":
            return repr(self.ops[0])
        if k in ("ref", "rawptr"):
            return ("&" if k == "ref" else "&raw ") + ("mut " if self.mut else "") + repr(self.place)
        if k == "agg":
            return f"{self.extra}::{self.variant}({', '.join(map(repr, self.ops))})"
        if k == "discr":
            return f"discr({self.place})"
        return f"{k} {self.extra} {self.ops}"


class Term:
    __slots__ = ("k", "sp", "t", "u", "d", "ts", "o", "func", "args", "dest", "p", "c", "e", "m")

    def __init__(self, j):
        self.k, self.sp = j["k"], j["sp"]
        self.t, self.u = j.get("t"), j.get("u")
        self.func = self.args = self.dest = self.p = self.c = self.d = None
        self.e = j.get("e")
        self.m = j.get("m")
        if self.k == "switch":
            self.d, self.ts, self.o = Op(j["d"]), j["ts"], j["o"]
        elif self.k == "call":
            self.func = Op(j["f"])
            self.args = [Op(a) for a in j["a"]]
            self.dest = Place(j["d"])
        elif self.k == "drop":
            self.p = Place(j["p"])
        elif self.k == "assert":
            self.c = Op(j["c"])

    # --- calls
    @property
    def callee(self):
        """generic path of the callee (trait method path for trait calls)"""
        if self.func is not None and self.func.k is not None:
            return self.func.k.get("fn")
        return None

    @property
    def cname(self):
        if self.func is not None and self.func.k is not None:
            return self.func.k.get("name")
        return None

    @property
    def ckey(self):
        if self.func is not None and self.func.k is not None:
            return self.func.k.get("rkey") or self.func.k.get("key")
        return None

    def __repr__(self):
        if self.k == "call":
            return f"{self.dest} = {self.func}({', '.join(map(repr, self.args))}) -> bb{self.t} unwind {self.u}"
        if self.k == "switch":
            return f"switch({self.d}) {self.ts} else bb{self.o}"
        if self.k == "drop":
            return f"drop({self.p}) -> bb{self.t} unwind {self.u}"
        if self.k == "assert":
            return f"assert({self.c}=={self.e}) -> bb{self.t}"
        return f"{self.k} {self.t if self.t is not None else ''}"


class Block:
    __slots__ = ("stmts", "term", "cleanup")

    def __init__(self, j):
        self.stmts = [Stmt(x) for x in j["s"]]
        self.term = Term(j["t"])
        self.cleanup = j["cl"]


class Body:
    def __init__(self, facts, j):
        self.f = facts
        self.j = j
        self.path, self.key, self.kind, self.span = j["path"], j["key"], j["kind"], j["span"]
        self.name = j.get("name") or self.path.split("::")[-1]
        self.argc = j["argc"]
        self.locals = [(t, nm) for t, nm in j["locals"]]
        self.blocks = [Block(b) for b in j["blocks"]]
        self.promoted = j.get("promoted") or []
        self._preds = None
        self._defs = None

    @property
    def file(self):
        return self.span.split(":")[0]

    def ty(self, l):
        return self.f.types[self.locals[l][0]]

    def lname(self, l):
        return self.locals[l][1] or f"_{l}"

    def calls(self):
        for i, b in enumerate(self.blocks):
            if b.term.k == "call":
                yield i, b.term

    def succs(self, i, cfg=None, unwind=True):
        t = self.blocks[i].term
        out = []
        if t.k == "goto":
            out.append(t.t)
        elif t.k == "switch":
            v = self.const_bool(t.d, cfg, i) if cfg is not None else None
            if v is None and t.d.k is not None and "v" in t.d.k:
                v = t.d.k["v"]
            if v is not None:
                for val, b in t.ts:
                    if val == v:
                        out.append(b)
                        break
                else:
                    out.append(t.o)
            else:
                out += [b for _, b in t.ts] + [t.o]
        elif t.k in ("call", "drop", "assert"):
            if t.t is not None:
                out.append(t.t)
            if unwind and isinstance(t.u, int):
                out.append(t.u)
        return out

    def const_bool(self, op, cfg, blk=None):
        """value of a switch operand under a configuration, or None"""
        if op.k is not None:
            return self.f.const_value(op.k, cfg)
        if op.place is not None and not op.place.proj:
            ds = self.defs().get(op.place.l, [])
            if len(ds) == 1:
                d = ds[0]
                if d[0] == "s":
                    rv = self.blocks[d[1]].stmts[d[2]].rv
                    if rv.kind == "use":
                        return self.const_bool(rv.ops[0], cfg)
                    if rv.kind == "un" and rv.extra == "Not":
                        v = self.const_bool(rv.ops[0], cfg)
                        return None if v is None else 1 - v
        return None

    def defs(self):
        """local -> list of definition sites of the whole local: ('s',b,i) | ('c',b)"""
        if self._defs is None:
            d = defaultdict(list)
            for bi, b in enumerate(self.blocks):
                for si, s in enumerate(b.stmts):
                    if s.kind == "=" and not s.place.proj:
                        d[s.place.l].append(("s", bi, si))
                if b.term.k == "call" and not b.term.dest.proj:
                    d[b.term.dest.l].append(("c", bi))
            self._defs = d
        return self._defs

    def single_def(self, l):
        ds = self.defs().get(l, [])
        if len(ds) != 1:
            return None
        d = ds[0]
        if d[0] == "s":
            return self.blocks[d[1]].stmts[d[2]]
        return self.blocks[d[1]].term

    def reach(self, cfg=None, start=0, unwind=True, avoid=()):
        seen, st = set(), [start]
        while st:
            x = st.pop()
            if x in seen or x in avoid:
                continue
            seen.add(x)
            st += self.succs(x, cfg, unwind)
        return seen

    def dump(self):
        print(f"fn {self.path}  [{self.key}]  {self.span} {self.j.get('sig','')}")
        for i, (t, nm) in enumerate(self.locals):
            print(f"   _{i}{' ' + nm if nm else ''}: {self.f.types[t]['s']}")
        for i, b in enumerate(self.blocks):
            print(f" bb{i}{' (cleanup)' if b.cleanup else ''}:")
            for s in b.stmts:
                if s.kind not in ("live", "dead"):
                    print("    ", s)
            print("    ", b.term)


# values of the type-level constants under each parameter configuration
CONFIGS = {
    "NoFeatures": {"COW": 0, "SLICE_REFS": 0},
    "AllowCow": {"COW": 1, "SLICE_REFS": 0},
    "AllowSliceRefs": {"COW": 0, "SLICE_REFS": 1},
}


class Facts:
    def __init__(self, path):
        j = json.load(open(path))
        self.types = j["types"]
        self.bodies = [Body(self, b) for b in j["bodies"]]
        self.by_key = {b.key: b for b in self.bodies}
        self.impls, self.adts, self.traits = j["impls"], j["adts"], j["traits"]
        self.adt = {a["path"]: a for a in self.adts}
        self.trait = {t["path"]: t for t in self.traits}
        self.by_path = defaultdict(list)
        for b in self.bodies:
            self.by_path[b.path].append(b)
        self.closures = defaultdict(list)
        for b in self.bodies:
            if b.kind == "Closure":
                self.closures[b.j["dparent"]].append(b)

    def const_value(self, k, cfg):
        if "v" in k:
            return k["v"]
        if cfg and "uneval" in k:
            return cfg.get(k["uneval"].split("::")[-1])
        return None

    def fns(self):
        return [b for b in self.bodies if b.kind in ("Fn", "AssocFn", "Closure")]

    def ty(self, i):
        return self.types[i]


if __name__ == "__main__":
    import sys
    f = Facts(sys.argv[1])
    for b in f.bodies:
        if len(sys.argv) > 2 and re.search(sys.argv[2], b.path + " " + b.key):
            b.dump()
        elif len(sys.argv) <= 2:
            print(b.kind, b.path, "|", b.key, b.span, len(b.blocks))

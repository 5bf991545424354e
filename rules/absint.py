"""Abstract interpretation of monomorphic MIR.

Values are hash-consed terms (parameters, constants, aggregates, field projections, loads from
unknown memory at a version, results of opaque calls, linear integer forms). A state maps addresses to
values and records the facts learnt from branches. Paths are kept apart by the abstract state they
reach (trace partitioning) and joined when they agree or become too many; loops are analysed from a
header state in which everything the body may write is unknown. Functions are interpreted in place
up to a depth, or treated as opaque calls that forget whatever they may write.

Assumptions: integer arithmetic does not wrap; `&mut` arguments do not alias each other; memory
reached through differently named fields does not overlap.
"""
import itertools, json, re
from collections import defaultdict
import facts as F

# ------------------------------------------------------------------ terms
_intern = {}


class T:
    __slots__ = ("op", "a", "id", "__weakref__")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op, a)
    t = _intern.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, len(_intern)
        _intern[k] = t
    return t


def K(v):
    return mk("k", v)


def is_k(t):
    return t.op == "k"


UNIT = K("()")
UNINIT = mk("uninit")
TRUE, FALSE = K(1), K(0)


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 6:
        return ".."
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == "k":
        return str(a[0])
    if o == "param":
        return str(a[1] or "arg%s" % a[0])
    if o == "adr":
        return "&" + s(a[0]) + "".join(pe(x, d + 1) for x in a[1])
    if o == "ld":
        return "(*" + s(a[0]) + ")" + "".join(pe(x, d + 1) for x in a[1])
    if o == "fld":
        return s(a[0]) + "." + a[1].split(".")[-1]
    if o == "agg":
        return a[1] + ("{" + ", ".join("%s: %s" % (pe(n), s(v)) for n, v in a[2]) + "}" if a[2] else "")
    if o == "lin":
        out = "+".join(("%s" % s(x) if c == 1 else "%d*%s" % (c, s(x))) for x, c in a[1])
        return "(%s%+d)" % (out, a[0]) if a[0] else "(%s)" % out
    if o == "loc":
        return "local%s" % (a[1],)
    if o == "call":
        return a[1].split("::")[-1] + "()"
    if o == "elem":
        return "each(%s..%s)" % (s(a[0]), s(a[1]))
    if o in ("lv", "phi"):
        return o + str(a[-1])
    if o == "lt":
        return "(%s < 0)" % s(a[0])
    return o + "(" + ", ".join(s(x) for x in a) + ")"


def pe(x, d=0):
    if isinstance(x, tuple):
        return "[" + show(x[1], d) + "]"
    return "." + x.split(".")[-1]


# ---- integers as linear forms
def lin_parts(t):
    if t.op == "k" and isinstance(t.a[0], int):
        return t.a[0], ()
    if t.op == "lin":
        return t.a
    return 0, ((t, 1),)


def lin(c, parts):
    parts = tuple(sorted(((x, k) for x, k in parts if k), key=lambda p: p[0].id))
    if not parts:
        return K(c)
    if c == 0 and len(parts) == 1 and parts[0][1] == 1:
        return parts[0][0]
    return mk("lin", c, parts)


def add(a, b, k=1):
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    d = dict(pa)
    for x, c in pb:
        d[x] = d.get(x, 0) + k * c
    return lin(ca + k * cb, d.items())


def sub(a, b):
    return add(a, b, -1)


def lt(a, b):
    """a < b over integers"""
    d = sub(a, b)
    if is_k(d):
        return K(1 if d.a[0] < 0 else 0)
    return mk("lt", d)


def neg(b):
    if is_k(b):
        return K(0 if b.a[0] else 1)
    if b.op == "not":
        return b.a[0]
    if b.op == "lt":
        c, p = lin_parts(b.a[0])
        return mk("lt", lin(-c - 1, [(x, -k) for x, k in p]))
    return mk("not", b)


def eq(a, b):
    if a is b:
        return TRUE
    if is_k(a) and is_k(b):
        return TRUE if a.a[0] == b.a[0] else FALSE
    if is_k(a):
        a, b = b, a
    if is_k(b):
        if a.op in ("lin",):
            c, p = a.a
            if len(p) == 1 and p[0][1] == 1 and isinstance(b.a[0], int):
                return eq(p[0][0], K(b.a[0] - c))
        if b.a[0] in (0, 1) and a.op in ("eq", "lt", "not"):
            return a if b.a[0] == 1 else neg(a)
        return mk("eq", a, b)
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


# ---- aggregates
def agg(adt, variant, fields):
    return mk("agg", adt, variant, tuple(fields))


def some(v):
    return agg("std::option::Option", "Some", (("Some.0", v),))


NONE = agg("std::option::Option", "None", ())


def fld(t, name):
    if t.op == "agg":
        for n, v in t.a[2]:
            if n == name:
                return v
        for n, v in t.a[2]:
            if n in TRANSPARENT_FIELDS:
                return fld(v, name)
        return UNINIT
    if t.op == "lz":
        for n, v in t.a[1]:
            if n == name:
                return v
    if t.op == "upd":
        for p, v in t.a[1]:
            if p[0] == name:
                if len(p) == 1:
                    return v
                return mk("upd", fld(t.a[0], name), tuple((q[1:], w) for q, w in t.a[1] if q[0] == name))
        return fld(t.a[0], name)
    if t.op == "ld":
        return mk("ld", t.a[0], t.a[1] + (name,), t.a[2])
    if t.op == "uninit":
        return t
    return mk("fld", t, name)


VARIANTS = {
    "std::option::Option": ["None", "Some"],
    "std::result::Result": ["Ok", "Err"],
    "std::ops::ControlFlow": ["Continue", "Break"],
    "std::cmp::Ordering": ["Less", "Equal", "Greater"],
    "std::ops::Bound": ["Included", "Excluded", "Unbounded"],
}
DISCR = {("std::cmp::Ordering", "Less"): 255, ("std::cmp::Ordering", "Equal"): 0, ("std::cmp::Ordering", "Greater"): 1}


def discr(t):
    if t.op == "agg":
        k = (t.a[0], t.a[1])
        if k in DISCR:
            return K(DISCR[k])
        vs = VARIANTS.get(t.a[0])
        if vs and t.a[1] in vs:
            return K(vs.index(t.a[1]))
        return K(0) if not vs else mk("discr", t)
    if t.op == "lz":
        return t.a[0]
    if t.op == "upd":
        return discr(t.a[0])
    return mk("discr", t)


# ---- addresses
TRANSPARENT = {"MaybeUninit", "UnsafeCell", "ManuallyDrop", "MaybeDangling", "Cell", "NonNull", "Unique",
               "AbstractNode", "Mul", "Atomic", "NonZero", "NonZeroU8Inner", "SyncUnsafeCell"}
TRANSPARENT_FIELDS = {"Internal.leaf"}


def tail(path):
    path = path.split("<")[0] if not path.startswith("<") else path
    return path.split("::")[-1]


def elem_name(owner, name, variant):
    if owner.startswith("closure:"):
        return "closure." + name
    return "%s.%s" % (variant or tail(owner), name)


def root_path(p):
    if p.op == "adr":
        return p.a[0], p.a[1]
    return p, ()


def adr(root, path):
    if not path:
        return root
    if root.op == "adr":
        return adr(root.a[0], root.a[1] + path)
    if root.op == "slc" and isinstance(path[0], tuple):
        r, p = root_path(root.a[0])
        return adr(r, join_idx(p, add(root.a[1], path[0][1])) + path[1:])
    return mk("adr", root, path)


def join_idx(p, i):
    """index the array (or element pointer) at p by i"""
    if p and isinstance(p[-1], tuple):
        return p[:-1] + (("[]", add(p[-1][1], i)),)
    return p + (("[]", i),)


def addr_field(p, e):
    r, q = root_path(p)
    return adr(r, q + (e,))


def addr_index(p, i):
    if p.op == "slc":
        return adr(p, (("[]", i),))
    r, q = root_path(p)
    return adr(r, join_idx(q, i))


# ------------------------------------------------------------------ states
class In(frozenset):
    """fact: one of these values (a plain frozenset: none of these values)"""


def either(v, w):
    """what holds of a term if one of two facts about it does; None for nothing"""
    iv, iw = isinstance(v, frozenset), isinstance(w, frozenset)
    if not iv:
        v = In((v,))
    if not iw:
        w = In((w,))
    pv, pw = isinstance(v, In), isinstance(w, In)
    if pv and pw:
        r = In(frozenset(v) | frozenset(w))
        return None if len(r) > 8 else r
    if pv:
        v, w = w, v
        pv, pw = pw, pv
    r = frozenset(v) - frozenset(w) if pw else frozenset(v) & frozenset(w)
    return r or None


RANGE = None  # what a rule knows of numbers: term -> (least, greatest)


class St:
    __slots__ = ("mem", "ver", "facts", "ub", "aux", "imp")

    def __init__(self):
        self.mem, self.ver, self.facts, self.ub, self.aux = {}, {}, {}, {}, {}
        self.imp = {}  # (term, value) -> what else holds then: ((term, value), ..)

    def copy(self):
        s = St.__new__(St)
        s.mem, s.ver, s.facts, s.ub, s.aux = dict(self.mem), dict(self.ver), dict(self.facts), dict(self.ub), dict(self.aux)
        s.imp = self.imp
        return s

    # ---- facts
    def truth(self, b):
        """1, 0 or None for a boolean/integer term"""
        if is_k(b):
            return b.a[0]
        v = self.facts.get(b)
        if v is not None and not isinstance(v, frozenset):
            return v
        o = b.op
        if o == "not":
            v = self.truth(b.a[0])
            return None if v is None else (0 if v else 1)
        if o == "eq":
            x, y = b.a
            if is_k(y):
                v = self.facts.get(x)
                if v is not None:
                    if not isinstance(v, frozenset):
                        return 1 if v == y.a[0] else 0
                    if (y.a[0] in v) != isinstance(v, In):
                        return 0
                if isinstance(y.a[0], int):
                    c, p = lin_parts(x)
                    u = self.bound(p)
                    if u is not None and u + c < y.a[0]:
                        return 0
                    l = self.bound(tuple((t, -k) for t, k in p))
                    if l is not None and -l + c > y.a[0]:
                        return 0
                    if u is not None and l is not None and u + c == y.a[0] == c - l:
                        return 1
            else:
                vx, vy = self.facts.get(x), self.facts.get(y)
                if vx is not None and vy is not None and not isinstance(vx, frozenset) and not isinstance(vy, frozenset):
                    return 1 if vx == vy else 0
                if fresh(x) != fresh(y) and (fresh(x) or fresh(y)):
                    return 0
                c, p = lin_parts(sub(x, y))
                u, l = self.bound(p), self.bound(tuple((t, -k) for t, k in p))
                if u is not None and u + c < 0 or l is not None and l - c < 0:
                    return 0
                if u is not None and l is not None and u + c == 0 and l - c == 0:
                    return 1
            return None
        if o == "lt":
            c, p = lin_parts(b.a[0])
            u = self.bound(p)
            if u is not None and u + c < 0:
                return 1
            u = self.bound(tuple((t, -k) for t, k in p))
            if u is not None and -u + c >= 0:
                return 0
            return None
        if o == "and":
            v = [self.truth(x) for x in b.a]
            if 0 in v:
                return 0
            return 1 if all(x == 1 for x in v) else None
        if o == "or":
            v = [self.truth(x) for x in b.a]
            if 1 in v:
                return 1
            return 0 if all(x == 0 for x in v) else None
        return None

    def bound(self, parts):
        parts = tuple(sorted(parts, key=lambda p: p[0].id))
        u = self.ub.get(parts)
        if not parts:
            return 0
        if all(k < 0 for _, k in parts):
            u = 0 if u is None else min(u, 0)
        if RANGE is not None:
            r = 0
            for t, k in parts:
                lo, hi = RANGE(t)
                x = hi if k > 0 else lo
                if x is None:
                    break
                r += k * x
            else:
                u = r if u is None else min(u, r)
        if u is None:
            # substitute known equalities with constants
            if any(isinstance(self.facts.get(t), int) for t, _ in parts):
                c, rest = 0, []
                for t, k in parts:
                    v = self.facts.get(t)
                    if isinstance(v, int):
                        c += k * v
                    else:
                        rest.append((t, k))
                r = self.bound(tuple(rest))
                return None if r is None else r + c
            # one transitive step: a-b <= (a-c)+(c-b)
            if len(parts) == 2 and parts[0][1] == -parts[1][1]:
                (pos, neg_) = (parts[0][0], parts[1][0]) if parts[0][1] == 1 else (parts[1][0], parts[0][0])
                best = None
                for q, v in self.ub.items():
                    if len(q) == 2 and (pos, 1) in q:
                        o = q[0] if q[1] == (pos, 1) else q[1]
                        if o[1] == -1:
                            w = self.ub.get(tuple(sorted(((o[0], 1), (neg_, -1)), key=lambda p: p[0].id)))
                            if w is not None and (best is None or v + w < best):
                                best = v + w
                    elif len(q) == 1 and q[0] == (pos, 1):
                        w = self.ub.get(((neg_, -1),))
                        w = 0 if w is None else min(w, 0)
                        if best is None or v + w < best:
                            best = v + w
                return best
        return u

    def assume(self, b, v):
        """learn that b == v; False when that contradicts what is known"""
        t = self.truth(b)
        if t is not None:
            return t == v
        o = b.op
        if o == "not":
            return self.assume(b.a[0], 0 if v else 1)
        if o == "eq" and v in (0, 1):
            x, y = b.a
            self.facts[b] = v
            if is_k(y):
                if v:
                    self.facts[x] = y.a[0]
                    if (x, y.a[0]) in self.imp and not self.follow(x, y.a[0]):
                        return False
                    if isinstance(y.a[0], int) and x.op not in ("eq", "lt", "not", "discr"):
                        c, p = lin_parts(x)
                        self.learn(p, y.a[0] - c)
                        self.learn(tuple((q, -k) for q, k in p), c - y.a[0])
                    if x.op == "discr" or x.op in ("eq", "not", "lt"):
                        pass
                else:
                    old = self.facts.get(x, frozenset())
                    if isinstance(old, In):
                        old = In(frozenset(old) - {y.a[0]})
                        self.facts[x] = old if len(old) > 1 else next(iter(old))
                        if len(old) == 1 and (x, next(iter(old))) in self.imp and not self.follow(x, next(iter(old))):
                            return False
                    else:
                        self.facts[x] = frozenset(old) | {y.a[0]}
                    if isinstance(y.a[0], int) and x.op not in ("eq", "lt", "not", "discr"):
                        c, p = lin_parts(x)
                        if c == 0 and len(p) == 1 and p[0][1] == 1 and y.a[0] == 0:
                            self.learn(((p[0][0], -1),), -1)
                        for r, z in ((p, c - y.a[0]), (tuple((q, -k) for q, k in p), y.a[0] - c)):
                            u = self.bound(r)
                            if u is not None and u + z == 0:
                                self.learn(r, -z - 1)
            elif v:
                d = sub(x, y)
                c, p = lin_parts(d)
                self.learn(p, -c)
                self.learn(tuple((q, -k) for q, k in p), c)
            else:
                c, p = lin_parts(sub(x, y))
                for r, z in ((p, c), (tuple((q, -k) for q, k in p), -c)):
                    u = self.bound(r)
                    if u is not None and u + z == 0:
                        self.learn(r, -z - 1)
            return True
        if o == "lt":
            if not v:
                return self.assume(neg(b), 1)
            c, p = lin_parts(b.a[0])
            self.learn(p, -c - 1)
            self.facts[b] = 1
            return True
        if o == "and" and v == 1 or o == "or" and v == 0:
            return all(self.assume(x, v) for x in b.a)
        if isinstance(v, int):
            self.facts[b] = v
        return True

    def follow(self, x, v):
        """what a value decided elsewhere implies for values joined there"""
        for t, w in self.imp[x, v]:
            if isinstance(t, tuple):
                self.learn(t, w)
                continue
            old = self.facts.get(t)
            if isinstance(old, int):
                if old != w:
                    return False
                continue
            if not self.assume(eq(t, K(w)), 1):
                return False
            for q, u in list(self.ub.items()):
                k = dict(q).get(t)
                if k is not None and len(q) > 1:
                    self.learn(tuple((r, z) for r, z in q if r is not t), u - k * w)
        return True

    def learn(self, parts, u):
        parts = tuple(sorted(parts, key=lambda p: p[0].id))
        o = self.ub.get(parts)
        if o is None or u < o:
            self.ub[parts] = u

    def ne(self, t, v):
        if isinstance(v, int):
            return self.assume(eq(t, K(v)), 0)
        return True

    # ---- memory
    def version(self, root, path):
        out = []
        if root in self.ver:
            out.append(self.ver[root])
        for e in path:
            if not isinstance(e, tuple) and e in self.ver:
                out.append(self.ver[e])
        if not out and "*" in self.ver and root.op != "loc" and not fresh(root) and not any(not isinstance(e, tuple) for e in path):
            out.append(self.ver["*"])
        return tuple(out)

    def load(self, p):
        root, path = root_path(p)
        if p.op == "slc":
            return mk("deref", p)
        if root.op == "prom":
            v = root.a[0]
            for e in path:
                v = self.proj(v, e)
            return v
        m = self.mem.get(root)
        if m is not None:
            v = m.get(path)
            kids = [q for q in m if len(q) > len(path) and q[:len(path)] == path]
            base = v
            if v is None:
                for n in range(len(path) - 1, -1, -1):
                    b = m.get(path[:n])
                    if b is not None:
                        for e in path[n:]:
                            b = self.proj(b, e)
                        base = b
                        break
            if base is None:
                base = mk("ld", root, path, self.version(root, path)) if root.op != "loc" or root in self.ver else \
                    (UNINIT if not kids else UNINIT)
            if kids:
                return self.overlay(base, [(q[len(path):], m[q]) for q in sorted(kids, key=len)])
            return base
        if root.op == "loc" and root not in self.ver:
            return UNINIT
        return mk("ld", root, path, self.version(root, path))

    @staticmethod
    def proj(b, e):
        if isinstance(e, tuple):
            if b.op == "agg" and b.a[0] == "array" and is_k(e[1]):
                for n, v in b.a[2]:
                    if n == e:
                        return v
            if b.op == "rep":
                return b.a[0]
            if b.op == "upd":
                if all(isinstance(p[0], tuple) and (p[0] == e or distinct_idx(p[0], e)) for p, _ in b.a[1]):
                    hit = [(p, v) for p, v in b.a[1] if p[0] == e]
                    for p, v in hit:
                        if len(p) == 1:
                            return v
                    x = St.proj(b.a[0], e)
                    return mk("upd", x, tuple((p[1:], v) for p, v in hit)) if hit else x
            return b if b.op == "uninit" else mk("idx", b, e[1])
        return fld(b, e)

    def overlay(self, base, kids):
        if base.op == "agg":
            fs = dict(base.a[2])
            order = [n for n, _ in base.a[2]]
            rest = []
            deep = defaultdict(list)
            for p, v in kids:
                if isinstance(p[0], tuple):
                    rest.append((p, v))
                elif len(p) == 1:
                    if p[0] not in fs:
                        order.append(p[0])
                    fs[p[0]] = v
                else:
                    deep[p[0]].append((p[1:], v))
            for n, ks in deep.items():
                if n not in fs:
                    order.append(n)
                fs[n] = self.overlay(fs.get(n, UNINIT), ks)
            out = agg(base.a[0], base.a[1], [(n, fs[n]) for n in order])
            return mk("upd", out, tuple(rest)) if rest else out
        return mk("upd", base, tuple(kids))

    def store(self, p, v, site=None):
        root, path = root_path(p)
        if root.op != "loc":
            key = next((e for e in reversed(path) if not isinstance(e, tuple)), "*")
            for r2 in list(self.mem):
                if r2 is root or r2.op == "loc" or fresh(r2) or fresh(root):
                    continue
                m2 = self.mem[r2]
                dead = [q for q in m2 if key in q or not q and r2.op != "param" and m2[q].op not in ("alloc", "adr", "loc", "k")]
                if dead:
                    m3 = {q: x for q, x in m2.items() if q not in dead}
                    if m3:
                        self.mem[r2] = m3
                    else:
                        del self.mem[r2]
            if key != "*":
                self.ver[key] = site
        m = self.mem.get(root)
        if m is None:
            m = {}
        n = len(path)
        idx = n and isinstance(path[-1], tuple)
        m = {q: x for q, x in m.items()
             if not (q[:n] == path and len(q) >= n)
             and not (idx and len(q) >= n and q[:n - 1] == path[:-1] and q[n - 1] != path[-1]
                      and not distinct_idx(q[n - 1], path[-1]))}
        m[path] = v
        self.mem[root] = m

    def havoc(self, p, site):
        """forget everything below an address"""
        root, path = root_path(p)
        m = self.mem.get(root)
        n = len(path)
        if root.op == "loc":
            if not path:
                self.mem.pop(root, None)
                self.ver[root] = site
            else:
                if m is not None:
                    m = {q: x for q, x in m.items() if not (q[:n] == path)}
                    m[path] = mk("hv", root, path, site)
                    self.mem[root] = m
                else:
                    self.ver[root] = site
        else:
            if m is not None:
                m = {q: x for q, x in m.items() if not (q[:n] == path or path[:len(q)] == q)}
                self.mem[root] = m
            self.ver[root] = site

    def clobber(self, elems, site):
        """forget every field in elems of every non-local object"""
        if not elems:
            return
        for e in elems:
            self.ver[e] = site
        for r in list(self.mem):
            if r.op == "loc":
                continue
            m = self.mem[r]
            m2 = {}
            for q, x in m.items():
                if any(e in elems for e in q if not isinstance(e, tuple)):
                    continue
                if x.op == "agg" and any(n in elems for n, _ in x.a[2]):
                    x = agg(x.a[0], x.a[1], [(n, w if n not in elems else mk("ld", r, q + (n,), (site,))) for n, w in x.a[2]])
                m2[q] = x
            if m2:
                self.mem[r] = m2
            else:
                del self.mem[r]

    def sig(self):
        return (frozenset((r, frozenset(m.items())) for r, m in self.mem.items()), frozenset(self.ver.items()),
                frozenset((k, v) for k, v in self.aux.items()))


def fresh(t):
    return t.op == "alloc"


def index_terms(x, fkey, h):
    """loop elements and loop-carried variables of this loop that a key mentions"""
    out, seen, st = set(), set(), [x]
    while st:
        y = st.pop()
        if isinstance(y, T):
            if y in seen:
                continue
            seen.add(y)
            if y.op == "elem":
                out.add(y)
            elif y.op == "lv" and y.a[0] is fkey and y.a[1] == h:
                out.add(y)
            st.extend(y.a)
        elif isinstance(y, tuple):
            st.extend(y)
    return out


def span(idx, e, lo, hi):
    """the range of idx when e runs over lo..hi, for idx = e + something fixed"""
    k = sub(idx, e)
    if e in index_terms(k, None, None):
        return None
    return add(lo, k), add(hi, k)


def distinct_idx(a, b):
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return True
    d = sub(a[1], b[1])
    return is_k(d) and d.a[0] != 0


# ------------------------------------------------------------------ program
class Program:
    def __init__(self, mono_path, generic_path=None):
        self.f = F.Facts.__new__(F.Facts)
        j = json.load(open(mono_path))
        self.types = self.f.types = j["types"]
        self.bodies = {}
        self.f.bodies = []
        for b in j["bodies"]:
            x = F.Body(self.f, b)
            x.id, x.inst, x.crate = b["id"], b.get("inst") or b["path"], b["crate"]
            self.bodies[b["id"]] = x
            self.f.bodies.append(x)
        self.roots = j["roots"]
        self.promoted = {}
        if generic_path:
            g = json.load(open(generic_path))
            for a in g["adts"]:
                if len(a["variants"]) > 1 or True:
                    VARIANTS["sherman::" + a["path"]] = [v["name"] for v in a["variants"]]
            self.adts = {"sherman::" + a["path"]: a for a in g["adts"]}
            for b in g["bodies"]:
                for i, x in enumerate(b.get("promoted", ())):
                    v = promoted_value(x)
                    if v is not None:
                        k = const_key(b["path"]), i
                        self.promoted[k] = v if k not in self.promoted else None
        self._cfg = {}
        self._callees = {}
        self._mods = self._rehandles = None

    def ty(self, i):
        return self.types[i]

    def cfg(self, body):
        c = self._cfg.get(body.id)
        if c is None:
            c = self._cfg[body.id] = Cfg(self, body)
        return c

    def callees(self, body):
        """instances called from (or passed as closures/drop glue by) a body"""
        c = self._callees.get(body.id)
        if c is None:
            c = set()
            for b in body.blocks:
                t = b.term
                if t.k == "call" and t.func.k is not None and "inst" in t.func.k:
                    c.add(t.func.k["inst"])
                j = body.j["blocks"]
            for bj in body.j["blocks"]:
                if bj["t"]["k"] == "drop" and "inst" in bj["t"]:
                    c.add(bj["t"]["inst"])
                for s in bj["s"]:
                    if s[0] == "=" and s[2][0] == "cast" and len(s[2]) > 4 and s[2][4]:
                        c.add(s[2][4][0])
            c = self._callees[body.id] = {i for i in c if i in self.bodies}
        return c

    def mods(self, inst):
        """fields that a call of inst may write through pointers (transitively)"""
        if self._mods is None:
            direct = {i: direct_mods(self, b) for i, b in self.bodies.items()}
            changed = True
            m = {i: set(s) for i, s in direct.items()}
            preds = defaultdict(set)
            for i, b in self.bodies.items():
                for c in self.callees(b):
                    preds[c].add(i)
            work = set(m)
            while work:
                i = work.pop()
                for p in preds[i]:
                    if not m[i] <= m[p]:
                        m[p] |= m[i]
                        work.add(p)
            self._mods = {i: frozenset(s) for i, s in m.items()}
        return self._mods.get(inst, frozenset())

    def rehandles(self, inst):
        """may a call of inst make an existing handle, behind a pointer, one of another node?"""
        if self._rehandles is None:
            preds = defaultdict(set)
            bad = set()
            for i, b in self.bodies.items():
                for c in self.callees(b):
                    preds[c].add(i)
                if direct_rehandles(self, b):
                    bad.add(i)
            work = list(bad)
            while work:
                for p in preds[work.pop()]:
                    if p not in bad:
                        bad.add(p)
                        work.append(p)
            self._rehandles = bad
        return inst in self._rehandles

    def config(self, body):
        """the configuration a body was instantiated with, by name"""
        for c in ("AllowCow", "AllowSliceRefs", "NoFeatures"):
            if "param::" + c in body.inst:
                return c
        return None


HANDLES = ("NodeHandle<", "NodeBox<")


def direct_rehandles(prog, body):
    def hit(pl):
        if not any(p[0] == "*" for p in pl.proj):
            return False
        return any(h in prog.ty(pl.ty)["s"] for h in HANDLES) or any(p[0] == "f" and tail(p[3]) in ("NodeHandle", "NodeBox", "SharedNodeBox")
                                                                    for p in pl.proj[max(i for i, p in enumerate(pl.proj) if p[0] == "*"):])

    for b in body.blocks:
        if any(s.kind in ("=", "sd") and hit(s.place) for s in b.stmts):
            return True
        t = b.term
        if t.k == "call":
            if hit(t.dest):
                return True
            if t.func.k is None or t.func.k.get("inst") not in prog.bodies:
                for a in t.args:
                    ty = a.place.ty if a.place is not None else None
                    x = prog.ty(ty) if ty is not None else {}
                    if x.get("k") in ("ref", "ptr") and x.get("mut", True) and any(h in x["s"] for h in HANDLES):
                        return True
    return False


CELLS = ("std::cell::Cell", "std::cell::RefCell", "std::cell::UnsafeCell", "std::sync::atomic")


def const_key(path):
    """type and function of a path: the same item has different paths seen from in- and outside the crate"""
    return tuple(re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", path)).replace("::::", "::").split("::")[-2:])


def promoted_value(j):
    """value behind the reference a promoted constant evaluates to, when it is a plain enum variant or number"""
    vals = {}
    if len(j["blocks"]) != 1:
        return None
    for s in j["blocks"][0]["s"]:
        if s[0] != "=":
            return None
        (l, proj, _), rv = s[1], s[2]
        if proj:
            return None
        if rv[0] == "agg" and not rv[4]:
            vals[l] = agg("sherman::" + rv[1], rv[2], ())
        elif rv[0] == "use" and "v" in rv[1].get("k", {}):
            vals[l] = K(rv[1]["k"]["v"])
        elif rv[0] == "ref" and not rv[2][1] and rv[2][0] in vals:
            vals[l] = ("&", vals[rv[2][0]])
        else:
            return None
    v = vals.get(0)
    return v[1] if isinstance(v, tuple) else None


def direct_mods(prog, body):
    out = set()

    def last(pl, need_deref=True):
        if need_deref and not any(p[0] == "*" for p in pl.proj):
            return None
        e, var = None, None
        seen = False
        for p in pl.proj:
            if p[0] == "*":
                seen = True
                e = None
            elif p[0] == "d":
                var = p[2]
            elif p[0] == "f":
                n = elem_name(p[3], p[2], var)
                if tail(p[3]) not in TRANSPARENT and n not in TRANSPARENT_FIELDS:
                    e = n
                var = None
        return e or "*"

    for b in body.blocks:
        for s in b.stmts:
            if s.kind in ("=", "sd"):
                l = last(s.place)
                if l:
                    out.add(l)
            if s.kind == "=" and s.rv.kind in ("ref", "rawptr") and s.rv.place is not None:
                l = last(s.rv.place)
                if l and l != "*":
                    t = prog.ty(s.rv.place.ty)["s"]
                    if s.rv.mut or any(c in t for c in CELLS):
                        out.add(l)
        if b.term.k == "call":
            l = last(b.term.dest)
            if l:
                out.add(l)
    return out


class Cfg:
    """reverse postorder, loops and liveness of one body"""

    def __init__(self, prog, body):
        self.body = body
        n = len(body.blocks)
        self.succ = [body.succs(i, None, True) for i in range(n)]
        order, seen, onstack, self.back = [], set(), set(), set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        onstack.add(0)
        while st:
            x, it = st[-1]
            for y in it:
                if y in onstack:
                    self.back.add((x, y))
                elif y not in seen:
                    seen.add(y)
                    onstack.add(y)
                    st.append((y, iter(self.succ[y])))
                    break
            else:
                st.pop()
                onstack.discard(x)
                order.append(x)
        self.rpo = {b: i for i, b in enumerate(reversed(order))}
        preds = defaultdict(set)
        for i in range(n):
            for s in self.succ[i]:
                preds[s].add(i)
        self.loops = {}
        for x, h in self.back:
            bodyset = self.loops.setdefault(h, {h})
            w = [x]
            while w:
                y = w.pop()
                if y not in bodyset:
                    bodyset.add(y)
                    w += preds[y]
        self.live = self._liveness(n)

    def _liveness(self, n):
        body = self.body
        taken = set()
        use, dfn = [set() for _ in range(n)], [set() for _ in range(n)]

        def u(i, pl):
            if pl.l not in dfn[i]:
                use[i].add(pl.l)
            for p in pl.proj:
                if p[0] == "i" and p[1] not in dfn[i]:
                    use[i].add(p[1])

        for i, b in enumerate(body.blocks):
            for s in b.stmts:
                if s.kind == "=":
                    if s.rv.kind in ("ref", "rawptr") and s.rv.place is not None and not any(p[0] == "*" for p in s.rv.place.proj):
                        taken.add(s.rv.place.l)
                    for pl in s.rv.places():
                        u(i, pl)
                    if s.place.proj:
                        u(i, s.place)
                    else:
                        dfn[i].add(s.place.l)
                elif s.kind == "sd":
                    u(i, s.place)
            t = b.term
            if t.k == "switch" and t.d.place is not None:
                u(i, t.d.place)
            elif t.k == "call":
                for o in t.args + [t.func]:
                    if o.place is not None:
                        u(i, o.place)
                if t.dest.proj:
                    u(i, t.dest)
            elif t.k == "drop":
                u(i, t.p)
            elif t.k == "assert" and t.c.place is not None:
                u(i, t.c.place)
        # the return value, and conservatively everything address-taken, stays live
        live = [set(x) for x in use]
        changed = True
        while changed:
            changed = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in self.succ[i]:
                    out |= live[s]
                if body.blocks[i].term.k == "return":
                    out.add(0)
                t = body.blocks[i].term
                new = use[i] | (out - dfn[i] - ({t.dest.l} if t.k == "call" and not t.dest.proj else set()))
                if new != live[i]:
                    live[i] = new
                    changed = True
        return [x | taken for x in live]


# ------------------------------------------------------------------ interpreter
class Limit(Exception):
    pass


class Frame:
    __slots__ = ("body", "parent", "blk", "key", "depth", "sp")

    def __init__(self, body, parent=None, blk=None, sp=None):
        self.body, self.parent, self.blk, self.sp = body, parent, blk, sp
        self.depth = parent.depth + 1 if parent else 0
        self.key = mk("frame", body.id, parent.key if parent else None, blk)

    def chain(self):
        f, out = self, []
        while f:
            out.append(f.body)
            f = f.parent
        return out

    def active(self, inst):
        f = self
        while f:
            if f.body.id == inst:
                return True
            f = f.parent
        return False


class Rule:
    """Callbacks of a rule. `muted` is set while loops are being pre-scanned."""

    def inline(self, eng, fr, body):
        """whether to interpret a sherman function in place"""
        return True

    def on_store(self, eng, fr, st, ptr, val, place, sp):
        pass

    def on_agg(self, eng, fr, st, adt, variant, val, ty, sp):
        pass

    def on_cast(self, eng, fr, st, val, kind, from_ty, to_ty, sp):
        pass

    def cut(self, eng, fr, body):
        pass

    def on_call(self, eng, fr, st, call):
        """before a call; may return a list of outcomes [(state, value)] to replace it"""
        return None

    def on_copy(self, eng, fr, st, src, dst, n, call):
        pass

    def on_enter(self, eng, fr, st):
        """a function starts to be interpreted"""

    def on_return(self, eng, fr, st, val):
        pass

    def on_after(self, eng, fr, st, call, val):
        """after a call returned (per outcome)"""

    def on_unwind(self, eng, fr, st):
        pass

    def on_branch(self, eng, fr, st):
        """a condition has been learnt (what is to be remembered after paths join goes into st.aux)"""

    def on_backedge(self, eng, fr, st, header):
        pass

    def on_drop(self, eng, fr, st, ptr, ty, sp):
        pass

    def on_ref(self, eng, fr, st, ptr, kind, mut, place, sp):
        """a reference or raw pointer to a place is made"""

    def on_unreachable(self, eng, fr, st, call):
        """a point the code declares unreachable"""

    def on_phi(self, eng, a, b, c, t, x, y):
        """states a and b are joined into c: t stands for x in a and y in b"""

    def on_panic(self, eng, fr, st, call):
        """a deliberate panic"""

    user_opaque = False  # keep index arithmetic as opaque calls


class Call:
    """one call being interpreted"""
    __slots__ = ("path", "rpath", "name", "inst", "args", "argtys", "destty", "sp", "k", "site", "body", "term", "blk")

    def is_(self, *names):
        return any(self.rpath.endswith(n) or self.path.endswith(n) for n in names)


class Engine:
    LIMIT = 40
    MAXSTEPS = 400000

    def __init__(self, prog, rule, unwind=False, maxdepth=14):
        self.p, self.rule, self.unwind, self.maxdepth = prog, rule, unwind, maxdepth
        self.muted = 0
        self.conds = {}     # (frame, block) -> what it last switched on
        self.tyof = {}      # term -> type id
        self.aty = {}       # (root, path) -> type id
        self.loopinfo = {}  # lv term -> (initial values, next values)
        self.log = None
        self.steps = 0
        self.unknown = set()
        self.pinned = []    # `&mut` parameters to a pointer

    # ---- entry
    def run(self, body, st=None, args=None):
        self.steps = 0
        self.pinned = []
        fr = Frame(body)
        st = st or St()
        vals = []
        for i in range(1, body.argc + 1):
            v = args[i - 1] if args else mk("param", i, body.locals[i][1])
            self.tyof.setdefault(v, body.locals[i][0])
            t = self.p.ty(body.locals[i][0])
            if t.get("k") == "ref" and t.get("mut") and tail(self.p.ty(t["inner"]).get("adt", "")) == "NonNull":
                self.pinned.append(v)
            vals.append(v)
        return self.exec(fr, vals, st)

    def loc(self, fr, l):
        return mk("loc", fr.key, l)

    def exec(self, fr, args, st):
        """interpret a body; returns [(kind, state, value)]"""
        body = fr.body
        for i, v in enumerate(args):
            self.write(st, self.loc(fr, i + 1), v, ("arg", fr.key))
        if not self.muted:
            self.rule.on_enter(self, fr, st)
        outs = self.region(fr, 0, [st], None)
        res = []
        for kind, s, blk in outs:
            v = s.load(self.loc(fr, 0)) if kind == "ret" else UNIT
            if kind == "ret" and self.p.ty(body.locals[0][0])["s"] == "()":
                v = UNIT
            if not self.muted:
                if kind == "ret":
                    self.rule.on_return(self, fr, s, v)
                else:
                    self.rule.on_unwind(self, fr, s)
            s = s.copy()
            for r in [r for r in s.mem if r.op == "loc" and r.a[0] is fr.key]:
                del s.mem[r]
            for r in [r for r in s.ver if isinstance(r, T) and r.op == "loc" and r.a[0] is fr.key]:
                del s.ver[r]
            res.append((kind, s, v))
        return self.merge_outs(res)

    def merge_outs(self, res):
        groups = {}
        for kind, s, v in res:
            k = (kind, v, s.sig())
            if k in groups:
                groups[k] = (kind, self.meet(groups[k][1], s), v)
            else:
                groups[k] = (kind, s, v)
        return list(groups.values())

    def meet(self, a, b):
        """same memory, facts in common"""
        c = a.copy()
        c.facts = {}
        for k, v in a.facts.items():
            w = b.facts.get(k)
            if w is None:
                continue
            if v == w and isinstance(v, In) == isinstance(w, In):
                c.facts[k] = v
            else:
                u = either(v, w) if k.op not in ("eq", "lt", "not") else None
                if u is not None:
                    c.facts[k] = u
        c.ub = {k: max(v, b.ub[k]) for k, v in a.ub.items() if k in b.ub}
        if a.imp is not b.imp:
            c.imp = {k: v for k, v in a.imp.items() if b.imp.get(k) == v}
        n = 0
        for f, v in a.facts.items():
            w = b.facts.get(f)
            if v is w or f.op != "discr" or not isinstance(v, int) or not isinstance(w, int) or v == w:
                continue
            # bounds that hold with one variant only
            for x, key, o in ((a, (f, v), b), (b, (f, w), a)):
                r = tuple((q, u) for q, u in x.ub.items() if len(q) <= 2 and (q not in o.ub or o.ub[q] > u))
                if r:
                    if n == 0:
                        c.imp = dict(c.imp)
                    c.imp[key] = c.imp.get(key, ()) + r[:8]
            n += 1
            if n == 2:
                break
        return c

    def join(self, a, b, fr, blk):
        """different memory: what differs becomes unknown"""
        c = self.meet(a, b)
        mem = {}
        self.phis = []
        for r in set(a.mem) | set(b.mem):
            if r.op == "loc" and not (r in a.mem and r in b.mem):
                continue
            ma, mb = a.mem.get(r, {}), b.mem.get(r, {})
            if ma == mb:
                mem[r] = ma
                continue
            m = {}
            for q in set(ma) | set(mb):
                x = ma.get(q) if q in ma else a.load(adr(r, q))
                y = mb.get(q) if q in mb else b.load(adr(r, q))
                m[q] = x if x is y else self.phi(a, b, x, y, fr, blk, r, q)
            # drop descendants made inconsistent by a joined ancestor
            mem[r] = {q: v for q, v in m.items()
                      if not any(q[:n] in m and m[q[:n]].op == "phi" for n in range(len(q)))}
        c.mem = mem
        ks = [(t, x.a[0], y.a[0]) for t, x, y in self.phis if is_k(x) and is_k(y) and isinstance(x.a[0], int) and isinstance(y.a[0], int)]
        if ks:
            c.imp = dict(c.imp)
            n = 0
            for f, v in a.facts.items():
                w = b.facts.get(f)
                if f.op in ("eq", "lt", "not", "and", "or") or not isinstance(v, int) or not isinstance(w, int) or v == w:
                    continue
                n += 1
                if n > 4:
                    break
                for t, x, y in ks:
                    for key, val in (((f, v), (t, x)), ((f, w), (t, y)), ((t, x), (f, v)), ((t, y), (f, w))):
                        c.imp[key] = c.imp.get(key, ()) + (val,)
        for k in set(a.ver) | set(b.ver):
            if a.ver.get(k) is not b.ver.get(k):
                c.ver[k] = mk("jv", fr.key, blk, k if isinstance(k, (str, T)) else str(k))
        c.aux = {k: v for k, v in a.aux.items() if b.aux.get(k) == v}
        if not self.muted:
            for t, x, y in self.phis:
                self.rule.on_phi(self, a, b, c, t, x, y)
        return c

    def phi(self, a, b, x, y, fr, blk, r, q):
        if x.op == "agg" and y.op == "agg" and x.a[:2] == y.a[:2] and [n for n, _ in x.a[2]] == [n for n, _ in y.a[2]]:
            return agg(x.a[0], x.a[1], [(n, v if v is w else self.phi(a, b, v, w, fr, blk, r, q + (n,)))
                                        for (n, v), (_, w) in zip(x.a[2], y.a[2])])
        t = mk("phi", fr.key, blk, r, q)
        self.phis.append((t, x, y))
        if x in self.tyof:
            self.tyof[t] = self.tyof[x]
        return t

    # ---- blocks
    def region(self, fr, entry, states, within):
        """interpret blocks from entry; within: the loop (set of blocks) being interpreted, or None.
        Returns exits: ('ret'|'unwind', st, None), ('edge', st, target) for edges leaving `within`,
        ('back', st, entry) for edges back to entry"""
        body = fr.body
        cfg = self.p.cfg(body)
        pend = {entry: list(states)}
        outs = []
        started = False
        while pend:
            b = min(pend, key=lambda x: cfg.rpo[x])
            sts = self.partition(fr, b, pend.pop(b))
            if b in cfg.loops and not (within is not None and b == entry and not started):
                for kind, s, t in self.loop(fr, b, sts):
                    self.route(kind, s, t, within, entry, pend, outs, b)
                continue
            started = True
            for s in sts:
                for kind, s2, t in self.block(fr, b, s):
                    self.route(kind, s2, t, within, entry, pend, outs, b)
        return outs

    def route(self, kind, s, t, within, entry, pend, outs, b):
        if kind in ("ret", "unwind"):
            outs.append((kind, s, None))
        elif within is not None and t == entry:
            outs.append(("back", s, t))
        elif within is not None and t not in within:
            outs.append(("edge", s, t))
        else:
            pend.setdefault(t, []).append(s)

    def loop(self, fr, h, states):
        blocks = self.p.cfg(fr.body).loops[h]
        outs = []
        for st in states:
            outs += self.iterate(fr, h, st, lambda s: self.region(fr, h, [s], blocks))
        return outs

    def iterate(self, fr, h, st, body):
        """interpret a loop entered in st. body(state) runs one iteration and gives [(kind, state, target)],
        kind 'back' for states that go round again"""
        written = {}
        # pre-scan: find what the body writes
        saved = self.log
        base = st
        for _ in range(6):
            self.log = {}
            self.muted += 1
            try:
                res = body(base.copy())
            finally:
                self.muted -= 1
            log = self.log
            if not written and any(v == "few" and st.load(adr(k[1], k[2])).op == "arrit" for k, v in log.items() if k[0] == "w"):
                self.log = saved
                return self.unroll(fr, h, st, body)
            grew = False
            for k, v in log.items():
                if k not in written:
                    written[k] = v
                    grew = True
                elif written[k] == "iter" and v != "iter":
                    written[k] = v
                    grew = True
            if not grew:
                break
            base = self.forget(fr, h, st, written)
        self.log = saved
        if saved is not None:
            for k, v in written.items():
                if saved.get(k, "iter") == "iter":
                    saved[k] = v
        backs = [s for kind, s, t in res if kind == "back"]
        self.note_loop(fr, h, st, base, backs)
        base = base.copy()
        for k in [k for k in base.aux if k[0] in ("done", "each")]:
            del base.aux[k]
        entry = frozenset(base.aux)
        exits, backs = [], []
        for kind, s, t in body(base):
            if kind == "back":
                backs.append(s)
                if not self.muted:
                    self.entry_aux = entry
                    self.rule.on_backedge(self, fr, s, h)
            else:
                exits.append((kind, s, t))
        return self.quantify(fr, h, st, base, backs, exits)

    def unroll(self, fr, h, st, body):
        """a loop over a few known values"""
        outs, todo, left = [], [st], 40
        while todo:
            for kind, s, t in body(todo.pop()):
                left -= 1
                if kind == "back" and left > 0:
                    todo.append(s)
                elif kind != "back":
                    outs.append((kind, s, t))
        return outs

    def each(self, fr, st, c, next_, f):
        """a library function that runs f over an iterator: next_(state) -> [(state, item or None)];
        f(state, item) -> [(kind, state, value or None)], None: go on. Gives call outcomes"""
        h = mk("syn", c.site)

        def body(s):
            out = []
            for s2, item in next_(s):
                if item is None:
                    out.append(("edge", s2, None))
                    continue
                for kind, s3, v in f(s2, item):
                    out.append(("back", s3, None) if kind == "ret" and v is None else
                               ("edge", s3, v) if kind == "ret" else ("unwind", s3, None))
            return out
        return self.iterate(fr, h, st, body)

    def quantify(self, fr, h, st, base, backs, exits):
        """what happened in every iteration, to the element of that iteration, is known for all elements
        once the loop has been left because they ran out. Rules note such effects in aux as
        ("each", kind, term..): 1; exits get ("all", kind, term.., element, lo, hi): 1"""
        keys, some = None, set()
        for s in backs:
            ks = {k for k in s.aux if k[0] == "each"}
            keys = ks if keys is None else keys & ks
            some |= ks
        todo, only = [], []
        for k in some - (keys or set()):
            # in every iteration but those for other elements than one
            lack = [s for s in backs if k not in s.aux]
            for e in index_terms(k[1:], fr.key, h):
                if e.op == "elem":
                    ts = None
                    for s in lack:
                        t = {b.a[1] if b.a[0] is e else b.a[0] for b, v in s.facts.items() if b.op == "eq" and v == 0 and e in b.a}
                        ts = t if ts is None else ts & t
                    only += [(k, e, t, e.a[0], e.a[1]) for t in ts or () if not index_terms(t, fr.key, h)]
        for k in keys or ():
            for e in sorted(index_terms(k[1:], fr.key, h), key=lambda t: t.id):
                if e.op == "elem":
                    todo.append((k, e, e.a[0], e.a[1]))
                else:
                    init, nxt = self.loopinfo.get(e, ((), ()))
                    if len(init) == 1 and nxt == {add(e, K(1))}:
                        todo.append((k, e, next(iter(init)), None))
                    elif len(init) == 1 and nxt == {sub(e, K(1))}:
                        todo.append((k, e, None, add(next(iter(init)), K(1))))
        out = []
        for kind, s, t in exits:
            s = s.copy()
            for k in [k for k in s.aux if k[0] == "each"]:
                del s.aux[k]
            for k, v in st.aux.items():
                if k[0] == "each":
                    s.aux[k] = v
            for k, e, t_, lo, hi in only:
                if ("done", e.a[2]) in s.aux and s.truth(lt(t_, lo)) == 0 and s.truth(lt(t_, hi)) == 1:
                    s.aux[("all",) + k[1:] + (e, t_, add(t_, K(1)))] = 1
            for k, e, lo, hi in todo:
                if lo is None:
                    for parts, u in s.ub.items():
                        if (e, 1) in parts:
                            rest = tuple((x, c) for x, c in parts if x is not e)
                            s.aux[("all",) + k[1:] + (e, add(lin(u, tuple((x, -c) for x, c in rest)), K(1)), hi)] = 1
                elif hi is not None:
                    if ("done", e.a[2]) in s.aux:
                        s.aux[("all",) + k[1:] + (e, lo, hi)] = 1
                else:
                    for parts, u in s.ub.items():
                        if (e, -1) in parts:
                            rest = tuple((x, c) for x, c in parts if x is not e)
                            s.aux[("all",) + k[1:] + (e, lo, lin(-u, rest))] = 1
            out.append((kind, s, t))
        return out

    def note_loop(self, fr, h, st, base, backs):
        for r, m in base.mem.items():
            for q, v in m.items():
                if v.op == "lv":
                    init = st.load(adr(r, q))
                    nxt = {s.load(adr(r, q)) for s in backs}
                    self.loopinfo[v] = ({init}, nxt)

    def forget(self, fr, h, st, written):
        s = st.copy()
        site = mk("lh", fr.key, h)
        elems = set()
        for k, v in written.items():
            if k[0] == "elems":
                elems |= k[1]
        for k, v in written.items():
            if k[0] == "elems":
                continue
            _, root, path = k
            if root.op == "loc":
                old = s.load(adr(root, path))
                if root not in s.mem and root not in s.ver:
                    continue  # not live before the loop
                if v == "iter":
                    if old.op == "agg":
                        s.store(adr(root, path), self.as_iter(old, site), site)
                    continue
                new = mk("lv", fr.key, h, root, path)
                if old in self.tyof:
                    self.tyof[new] = self.tyof[old]
                s.store(adr(root, path), new, site)
            else:
                key = next((e for e in reversed(path) if not isinstance(e, tuple)), "*")
                if key != "*":
                    elems.add(key)
                else:
                    s.havoc(root, site)
                    s.ver["*"] = site
        s.clobber(elems, site)
        return s

    @staticmethod
    def as_iter(v, site):
        return v

    def partition(self, fr, b, sts):
        """drop dead locals, merge equal states, bound their number"""
        cfg = self.p.cfg(fr.body)
        live = cfg.live[b]
        groups = {}
        for s in sts:
            for r in [r for r in s.mem if r.op == "loc" and r.a[0] is fr.key and r.a[1] not in live]:
                del s.mem[r]
            k = s.sig()
            groups[k] = self.meet(groups[k], s) if k in groups else s
        out = list(groups.values())
        if len(out) > self.LIMIT:
            by = defaultdict(list)
            for s in out:
                by[self.shape(s, fr)].append(s)
            out = []
            for g in by.values():
                x = g[0]
                for y in g[1:]:
                    x = self.join(x, y, fr, b)
                out.append(x)
            if len(out) > self.LIMIT:
                by = defaultdict(list)
                for s in out:
                    by[frozenset(s.aux.items())].append(s)
                out = []
                for g in by.values():
                    x = g[0]
                    for y in g[1:]:
                        x = self.join(x, y, fr, b)
                    out.append(x)
        return out

    def shape(self, s, fr):
        """what keeps states apart when there are too many: rule state, enum variants, constants"""
        o = []
        for r, m in s.mem.items():
            if r.op == "loc" and r.a[0] is fr.key:
                for q, v in m.items():
                    if v.op == "agg" and len(VARIANTS.get(v.a[0], ())) > 1:
                        o.append((r, q, v.a[1]))
                    elif is_k(v) and v.a[0] in (0, 1):
                        o.append((r, q, v))
        return (frozenset(o), frozenset(s.aux.items()))

    # ---- statements
    def block(self, fr, b, st):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Limit(fr.body.path)
        body = fr.body
        blk = body.blocks[b]
        st = st.copy()
        for i, s in enumerate(blk.stmts):
            if s.kind == "=":
                v = self.rvalue(fr, st, s, b, i)
                p = self.place(fr, st, s.place)
                if not self.muted and root_path(p)[0].op != "loc":
                    self.rule.on_store(self, fr, st, p, v, s.place, s.sp)
                if v not in self.tyof and v.op not in ("k", "agg", "adr", "uninit"):
                    self.tyof[v] = s.place.ty
                self.write(st, p, v, mk("s", fr.key, b, i))
            elif s.kind == "dead":
                st.mem.pop(self.loc(fr, s.local), None)
                st.ver.pop(self.loc(fr, s.local), None)
            elif s.kind == "live":
                pass
            elif s.kind == "sd":
                p = self.place(fr, st, s.place)
                self.write_havoc(st, p, mk("s", fr.key, b, i))
        return self.terminator(fr, b, blk.term, st)

    def write(self, st, p, v, site):
        if self.log is not None:
            r, q = root_path(p)
            self.log[("w", r, q)] = "w"
        st.store(p, v, site)

    def write_havoc(self, st, p, site):
        if self.log is not None:
            r, q = root_path(p)
            self.log[("w", r, q)] = "w"
        st.havoc(p, site)

    def place(self, fr, st, pl):
        """the address of a place"""
        cur = self.loc(fr, pl.l)
        ty = fr.body.locals[pl.l][0]
        var = None
        for p in pl.proj:
            k = p[0]
            if k == "*":
                v = st.load(cur)
                t = self.p.ty(ty)
                if v.op not in ("adr", "k", "agg", "slc") and v not in self.tyof:
                    self.tyof[v] = ty
                ty = t.get("inner", ty)
                cur = v
                self.aty.setdefault(root_path(cur), ty)
            elif k == "f":
                n = elem_name(p[3], p[2], var)
                if tail(p[3]) in TRANSPARENT or n in TRANSPARENT_FIELDS:
                    pass
                else:
                    cur = addr_field(cur, n)
                ty = p[4]
                self.aty.setdefault(root_path(cur), ty)
                var = None
            elif k == "d":
                var = p[2]
            elif k == "i":
                cur = addr_index(cur, st.load(self.loc(fr, p[1])))
            elif k == "ci":
                cur = addr_index(cur, K(p[1]) if not p[2] else mk("fromend", cur, p[1]))
            else:
                cur = addr_field(cur, "?" + k)
        return cur

    def operand(self, fr, st, o):
        if o.place is not None:
            v = st.load(self.place(fr, st, o.place))
            if v not in self.tyof and v.op in ("ld", "fld", "param", "call", "phi", "lv", "upd"):
                self.tyof[v] = o.place.ty
            return v
        return self.const(o.k)

    def const(self, k):
        if "v" in k:
            return K(k["v"])
        if "fn" in k:
            return mk("fnc", k.get("inst"), k.get("rfn") or k["fn"])
        if "uneval" in k:
            v = self.p.promoted.get((const_key(k["uneval"]), k.get("promoted")))
            if v is not None:
                return mk("prom", v)
            return mk("cst", k["uneval"], k.get("promoted"))
        s = k.get("vs", k.get("cty", "?"))
        if s == "()":
            return UNIT
        t = self.p.ty(k["t"]) if "t" in k else {}
        if t.get("k") == "adt" and t.get("adt") == "std::option::Option" and s.endswith("None"):
            return NONE
        return mk("cst", str(s), k.get("t"))

    def opty(self, o):
        return o.place.ty if o.place is not None else o.k.get("t")

    def rvalue(self, fr, st, s, b, i):
        rv = s.rv
        k = rv.kind
        if k == "use":
            return self.operand(fr, st, rv.ops[0])
        if k in ("ref", "rawptr"):
            v = self.place(fr, st, rv.place)
            if not self.muted:
                self.rule.on_ref(self, fr, st, v, k, rv.mut, rv.place, s.sp)
            return v
        if k == "cast":
            v = self.operand(fr, st, rv.ops[0])
            if not self.muted:
                self.rule.on_cast(self, fr, st, v, rv.extra, self.opty(rv.ops[0]), rv.ty, s.sp)
            sj = fr.body.j["blocks"][b]["s"][i][2]
            if len(sj) > 4 and sj[4]:
                return mk("dyn", v, sj[4][0])
            return v
        if k == "bin":
            return self.binop(fr, st, rv, b, i)
        if k == "un":
            v = self.operand(fr, st, rv.ops[0])
            if rv.extra == "Not":
                return neg(v) if self.p.ty(s.place.ty)["s"] == "bool" else mk("bnot", v)
            if rv.extra == "PtrMetadata":
                return sub(v.a[2], v.a[1]) if v.op == "slc" else mk("len", v)
            return mk("un", str(rv.extra), v)
        if k == "discr":
            return discr(st.load(self.place(fr, st, rv.place)))
        if k == "agg":
            vals = [self.operand(fr, st, o) for o in rv.ops]
            return self.aggregate(fr, st, rv, vals, s)
        if k == "repeat":
            return mk("rep", self.operand(fr, st, rv.ops[0]))
        return mk("rv", str(k), str(rv.extra), fr.key, b, i)

    def aggregate(self, fr, st, rv, vals, s):
        adt = rv.extra
        if adt == "array":
            return agg("array", "array", [(("[]", K(i)), x) for i, x in enumerate(vals)])
        if adt == "rawptr" and len(vals) == 2:
            return vals[0] if vals[1] is UNIT else models.slc(vals[0], K(0), vals[1])
        tl = tail(str(adt))
        if tl in TRANSPARENT and len(vals) == 1:
            return vals[0]
        fn = rv.fnames or [str(i) for i in range(len(vals))]
        pre = "closure" if adt == "closure" else rv.variant or tl
        v = agg(str(adt) if adt != "closure" else "closure:" + str(rv.variant), pre, [("%s.%s" % (pre, n), x) for n, x in zip(fn, vals)])
        if not self.muted:
            self.rule.on_agg(self, fr, st, str(adt), pre, v, s.place.ty, s.sp)
        return v

    def binop(self, fr, st, rv, b, i):
        x, y = (self.operand(fr, st, o) for o in rv.ops)
        op = str(rv.extra)
        if op in ("Add", "AddUnchecked"):
            return add(x, y)
        if op in ("Sub", "SubUnchecked"):
            return sub(x, y)
        if op in ("AddWithOverflow", "SubWithOverflow"):
            return agg("tuple", "tuple", [("tuple.0", add(x, y, 1 if op[0] == "A" else -1)), ("tuple.1", FALSE)])
        if op in ("Mul", "MulUnchecked") and (is_k(x) or is_k(y)) and isinstance((x if is_k(x) else y).a[0], int):
            c, o = (x, y) if is_k(x) else (y, x)
            cc, p = lin_parts(o)
            return lin(cc * c.a[0], [(t, k * c.a[0]) for t, k in p])
        if op == "Eq":
            return eq(x, y)
        if op == "Ne":
            return neg(eq(x, y))
        if op == "Lt":
            return lt(x, y)
        if op == "Gt":
            return lt(y, x)
        if op == "Le":
            return neg(lt(y, x))
        if op == "Ge":
            return neg(lt(x, y))
        if op == "BitAnd":
            return x if x is y else (y if x is TRUE else x if y is TRUE else FALSE if FALSE in (x, y) else mk("and", x, y))
        if op == "BitOr":
            return x if x is y else (y if x is FALSE else x if y is FALSE else TRUE if TRUE in (x, y) else mk("or", x, y))
        if op == "Offset":
            return addr_index(x, y)
        return mk("bin", op, x, y)

    # ---- terminators
    def terminator(self, fr, b, t, st):
        k = t.k
        if k == "goto" or k in ("falseedge", "falseunwind"):
            return [("to", st, t.t)]
        if k == "return":
            return [("ret", st, None)]
        if k in ("unreachable",):
            return []
        if k in ("resume", "terminate", "abort"):
            return [("unwind", st, None)]
        if k == "switch":
            v = self.operand(fr, st, t.d)
            isbool = t.d.place is not None and self.p.ty(t.d.place.ty)["s"] == "bool"
            out = []
            known = st.truth(v)
            self.conds[fr.key, b] = v
            for val, tgt in t.ts:
                if known is not None:
                    if known == val:
                        return [("to", st, tgt)]
                    continue
                s2 = st.copy()
                if s2.assume(v if isbool and val == 1 else neg(v) if isbool else eq(v, K(val)), 1):
                    if not self.muted:
                        self.rule.on_branch(self, fr, s2)
                    out.append(("to", s2, tgt))
            if known is not None:
                return [("to", st, t.o)]
            s2 = st.copy()
            ok = all(s2.assume(eq(v, K(val)) if not isbool else v, 0 if not isbool else 1 - val) for val, _ in t.ts)
            if ok and fr.body.blocks[t.o].term.k != "unreachable":
                if v.op == "discr":
                    n = self.variants_of(v.a[0], fr, b)
                    if n and len({x for x, _ in t.ts}) >= n:
                        ok = False
                    elif n:
                        left = set(range(n)) - {x for x, _ in t.ts}
                        fs = s2.facts.get(v)
                        if isinstance(fs, In):
                            left &= fs
                        elif isinstance(fs, frozenset):
                            left -= fs
                        if len(left) == 1:
                            ok = s2.assume(eq(v, K(left.pop())), 1)
                        elif not left:
                            ok = False
                if ok:
                    if not self.muted:
                        self.rule.on_branch(self, fr, s2)
                    out.append(("to", s2, t.o))
            return out
        if k == "assert":
            v = self.operand(fr, st, t.c)
            e = 1 if t.e in (True, 1) else 0
            out = []
            s2 = st.copy()
            if s2.assume(v, e):
                out.append(("to", s2, t.t))
            if self.unwind and isinstance(t.u, int):
                s3 = st.copy()
                if s3.assume(v, 1 - e):
                    out.append(("to", s3, t.u))
            return out
        if k == "drop":
            return self.drop(fr, b, t, st)
        if k == "call":
            return self.call(fr, b, t, st)
        if t.t is not None:
            return [("to", st, t.t)]
        return []

    def variants_of(self, t, fr, b):
        ty = self.tyof.get(t)
        if ty is None and t.op == "ld":
            ty = self.aty.get((t.a[0], t.a[1]))
        if ty is not None:
            a = self.p.ty(ty).get("adt")
            if a in VARIANTS:
                return len(VARIANTS[a])
        return None

    def drop(self, fr, b, t, st):
        p = self.place(fr, st, t.p)
        if not self.muted:
            self.rule.on_drop(self, fr, st, p, t.p.ty, t.sp)
        inst = fr.body.j["blocks"][b]["t"].get("inst")
        outs = []
        site = mk("s", fr.key, b, "t")
        if inst in self.p.bodies:
            body = self.p.bodies[inst]
            if self.can_inline(fr, body):
                for kind, s, v in self.exec(Frame(body, fr, b, t.sp), [p], st.copy()):
                    if kind == "ret":
                        outs.append(("to", s, t.t))
                    elif self.unwind:
                        outs += self.to_unwind(fr, t, s)
                return outs
            self.opaque_effects(st, self.p.mods(inst), [], site)
        outs.append(("to", st, t.t))
        if self.unwind and inst is not None and isinstance(t.u, int):
            outs.append(("to", st.copy(), t.u))
        return outs

    def to_unwind(self, fr, t, s):
        if isinstance(t.u, int):
            return [("to", s, t.u)]
        if t.u == "continue":
            return [("unwind", s, None)]
        return []

    def can_inline(self, fr, body):
        if fr.depth >= self.maxdepth or fr.active(body.id):
            if not fr.active(body.id):
                self.rule.cut(self, fr, body)
            return False
        return self.rule.inline(self, fr, body)

    def opaque_effects(self, st, mods, args, site):
        if self.log is not None and mods:
            self.log[("elems", mods)] = "w"
        if "*" in mods:
            # what a `&mut` parameter of ours points to is out of reach of a callee not given it
            for r in self.pinned:
                if not any(root_path(a)[0] is r for a in args) and () not in st.mem.get(r, {}):
                    st.mem[r] = dict(st.mem.get(r, {}))
                    st.mem[r][()] = st.load(r)
        st.clobber(mods, site)

    def call(self, fr, b, t, st):
        c = Call()
        c.term, c.blk = t, b
        c.site = mk("s", fr.key, b, "t")
        c.sp = t.sp
        c.args = [self.operand(fr, st, a) for a in t.args]
        c.argtys = [self.opty(a) for a in t.args]
        c.destty = t.dest.ty
        k = t.func.k
        if k is None:
            fv = self.operand(fr, st, t.func)
            if fv.op == "fnc":
                c.k, c.path, c.rpath, c.inst, c.name = {}, fv.a[1], fv.a[1], fv.a[0], fv.a[1].split("::")[-1]
            else:
                c.k, c.path, c.rpath, c.inst, c.name = {}, "<indirect>", "<indirect>", None, "<indirect>"
        else:
            c.k, c.path = k, k.get("fn", "?")
            c.rpath, c.inst, c.name = k.get("rfn") or c.path, k.get("inst"), k.get("name") or "?"
        if c.inst is None and c.args and c.args[0].op == "dyn":
            c.inst = c.args[0].a[1]
            c.args = [c.args[0].a[0]] + c.args[1:]
        c.body = self.p.bodies.get(c.inst)
        outs = None
        if not self.muted:
            outs = self.rule.on_call(self, fr, st, c)
        if outs is None:
            outs = self.dispatch(fr, b, st, c)
        res = []
        for o in outs:
            kind, s, v = o if len(o) == 3 else ("ret",) + o
            if kind == "ret":
                if t.t is None:
                    continue
                if v.op in ("call", "ld", "fld", "phi", "param"):
                    self.tyof.setdefault(v, t.dest.ty)
                if not self.muted:
                    self.rule.on_after(self, fr, s, c, v)
                p = self.place(fr, s, t.dest)
                if not self.muted and root_path(p)[0].op != "loc":
                    self.rule.on_store(self, fr, s, p, v, t.dest, t.sp)
                self.write(s, p, v, c.site)
                res.append(("to", s, t.t))
            elif self.unwind:
                res += self.to_unwind(fr, t, s)
        return res

    def dispatch(self, fr, b, st, c):
        m = models.lookup(c)
        few = models.few(self, fr, st, c) if c.body is None or c.body.crate != "sherman" else None
        if few is not None:
            return few
        if m is not None:
            r = m(self, fr, st, c)
            if r is not None:
                if self.unwind and c.name in ("unwrap", "expect", "index", "index_mut", "borrow_mut", "borrow"):
                    r = list(r) + [("unwind", st.copy(), UNIT)]
                return r
        body = c.body
        if body is not None:
            args = self.closure_args(fr, st, c, body)
            if args is not None and self.can_inline(fr, body):
                return self.exec(Frame(body, fr, b, c.sp), args, st.copy())
        # opaque
        if body is None and c.term.t is None:
            return [("unwind", st, UNIT)] if self.unwind else []
        s = st.copy()
        if body is not None:
            self.opaque_effects(s, self.p.mods(body.id), c.args, c.site)
        else:
            self.unknown.add(c.rpath)
        self.forget_args(s, c)
        v = UNIT if self.p.ty(c.destty)["s"] == "()" else mk("call", c.site, c.rpath, tuple(c.args))
        outs = [(s, v)] if c.term.t is not None else []
        if self.unwind and self.may_panic(c):
            outs.append(("unwind", s.copy(), UNIT))
        return outs

    def invoke(self, fr, st, c, body, env, tup):
        """call a closure body with its environment and argument tuple"""
        n = body.argc - 1
        args = [env] + [fld(tup, "tuple.%d" % i) for i in range(n)]
        if body.kind == "Closure" and self.can_inline(fr, body):
            return self.exec(Frame(body, fr, c.blk, c.sp), args, st.copy())
        s = st.copy()
        self.opaque_effects(s, self.p.mods(body.id), c.args, c.site)
        self.forget_args(s, c)
        outs = [(s, UNIT if self.p.ty(c.destty)["s"] == "()" else mk("call", c.site, body.path, (env, tup)))]
        if self.unwind:
            outs.append(("unwind", s.copy(), UNIT))
        return outs

    def may_panic(self, c):
        return True

    def forget_args(self, s, c):
        """locals whose address is passed mutably to an opaque call become unknown"""
        keep = c.body is not None and not self.p.rehandles(c.body.id)
        for v, ty in zip(c.args, c.argtys):
            t = self.p.ty(ty) if keep and ty is not None else {}
            if t.get("k") in ("ref", "ptr") and t.get("inner") is not None and tail(self.p.ty(t["inner"])["s"].split("<")[0]) in (
                    "NodeHandle", "NodeBox", "SharedNodeBox"):
                continue
            self.forget_reach(s, v, ty, c.site, 0)

    def forget_reach(self, s, v, ty, site, d):
        t = self.p.ty(ty) if ty is not None else {}
        r, q = root_path(v)
        if r.op == "loc" and v.op in ("loc", "adr"):
            if t.get("k") in ("ref", "ptr") and not t.get("mut", True):
                return
            self.write_havoc(s, v, site)
        elif v.op == "agg" and d < 4:
            for n, x in v.a[2]:
                self.forget_reach(s, x, None, site, d + 1)

    def closure_args(self, fr, st, c, body):
        if body.kind == "Closure" and c.name in ("call_once", "call_mut", "call"):
            env, tup = c.args[0], c.args[1]
            n = body.argc - 1
            args = [fld(tup, "%s.%d" % (tup.a[1], i)) if tup.op == "agg" else fld(tup, "tuple.%d" % i) for i in range(n)]
            t = self.p.ty(body.locals[1][0])
            et = self.p.ty(c.argtys[0]) if c.argtys[0] is not None else {}
            if t["k"] == "ref" and et.get("k") != "ref" and env.op not in ("adr", "loc"):
                tmp = mk("loc", mk("frame", "env", fr.key, c.site), 0)
                self.write(st, tmp, env, c.site)
                env = tmp
            return [env] + args
        if c.name in ("call_once", "call_mut", "call") and body.argc != len(c.args):
            tup = c.args[1]
            if tup.op == "agg" and body.argc == len(tup.a[2]):
                return [v for _, v in tup.a[2]]
            return None
        if body.argc != len(c.args):
            return None
        return c.args


import models  # noqa: E402  (needs the term constructors above)

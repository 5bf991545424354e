"""What a path does to the arrays of a node: which elements it moves or writes where."""
import absint as A
import nodes, units
from absint import K, T, mk, eq, add, sub, lt, fld, addr_field, adr, root_path, show, discr, is_k

FIELDS = ("Leaf.keys", "Leaf.vals", "Leaf.refs", "Internal.child_ptrs")
ONE = K(1)


def place_of(ptr):
    """(root, field, index) of an element of a node's array"""
    r, q = root_path(ptr)
    if q and q[-1] in FIELDS:
        return r, q[-1], K(0)
    if len(q) > 1 and q[-2] in FIELDS and isinstance(q[-1], tuple):
        return r, q[-2], q[-1][1]
    return None


def source_of(v):
    """(root, field, index) a value was read from"""
    if v.op == "ld" and len(v.a[1]) > 1 and v.a[1][-2] in FIELDS and isinstance(v.a[1][-1], tuple):
        return v.a[0], v.a[1][-2], v.a[1][-1][1]
    if v.op == "agg" and v.a[1] == "Some":
        x = v.a[2][0][1]
        if x.op == "ld" and x.a[1][-1:] == ("Some.0",):
            return source_of(mk("ld", x.a[0], x.a[1][:-1], x.a[2]))
        if x.op == "fld" and x.a[1] == "Some.0":
            return source_of(x.a[0])
        return None
    if v.op == "idx" and v.a[0].op == "hv" and v.a[0].a[1] and v.a[0].a[1][-1] in FIELDS:
        return v.a[0].a[0], v.a[0].a[1][-1], v.a[1]
    if v.op == "idx" and v.a[0].op == "ld" and v.a[0].a[1] and v.a[0].a[1][-1] in FIELDS:
        return v.a[0].a[0], v.a[0].a[1][-1], v.a[1]
    return None


def loopy(i):
    """does an index depend on a loop?"""
    st, seen = [i], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op in ("elem", "lv"):
                return True
            st.extend(x.a)
    return False


def same(st, a, b):
    return a is b or st.truth(eq(a, b)) == 1


class Moves(units.UnitRule):
    """aux: ("blk", field, root, lo, hi, src root, src lo) for block moves, ("each"/"all", "mv", field, root, i, src root, j) for
    moves one by one, ("st", field, root, i, value) for elements written, ("loop", field, root) for others written in loops,
    ("len0", root) for the length a node had, ("new", root) for the struct a node was initialised with"""

    def on_copy(self, eng, fr, st, src, dst, n, c):
        d = place_of(dst)
        if d is None or d[0].op == "loc":
            return
        s = place_of(src)
        r, f, i = d
        if s is not None and s[1] == f:
            st.aux[("blk", f, r, i, add(i, n), s[0], s[2])] = 1
        elif n is ONE:
            self.single(eng, fr, st, r, f, i, st.load(src))
        else:
            st.aux[("loop", f, r)] = 1

    def single(self, eng, fr, st, r, f, i, v):
        s = source_of(v)
        if s is not None and s[1] == f:
            if s[0] is r and s[2] is i:
                st.aux[("fill", f, r, i)] = 1
                return
            st.aux[("each", "mv", f, r, i, s[0], s[2])] = 1
        else:
            st.aux[("st", f, r, i, v)] = 1
        if loopy(i):
            st.aux[("loop", f, r)] = 1

    def on_store(self, eng, fr, st, ptr, val, place, sp):
        r, q = root_path(ptr)
        if r.op == "loc":
            return
        d = place_of(ptr)
        if d is not None:
            if len(q) and q[-1] != d[1]:
                self.single(eng, fr, st, *d, val)
            elif val.op == "upd":
                self.array(eng, fr, st, r, d[1], val)
        elif q[-1:] == ("Leaf.len",):
            st.aux.setdefault(("len0", r), st.load(ptr))
        elif val.op == "agg" and val.a[1] in ("Leaf", "Internal"):
            leaf = fld(val, "Internal.leaf") if val.a[1] == "Internal" else val
            st.aux[("new", r)] = fld(leaf, "Leaf.len")
            for f in FIELDS:
                arr = fld(leaf, f) if f != "Internal.child_ptrs" else fld(val, f) if val.a[1] == "Internal" else None
                if arr is not None:
                    self.array(eng, fr, st, r, f, arr)

    def array(self, eng, fr, st, r, f, arr):
        if arr.op == "upd":
            for path, v in arr.a[1]:
                if len(path) == 1 and isinstance(path[0], tuple):
                    self.single(eng, fr, st, r, f, path[0][1], v)
        elif arr.op not in ("uninit", "rep"):
            st.aux[("loop", f, r)] = 1

    def on_return(self, eng, fr, st, val):
        if fr.depth == 0:
            self.judge(eng, fr, st, None)

    def on_backedge(self, eng, fr, st, h):
        """what was done to a node of this iteration is judged now: it is not known after the loop"""
        was = {event_root(k) for k in eng.entry_aux}
        rs = []
        for k in st.aux:
            r = event_root(k)
            if r is not None and k not in eng.entry_aux and r not in was and r not in rs and not \
                    (k[0] == "st" and loopy(k[3]) or k[0] in ("each", "all")):
                rs.append(r)
        for here in (True, False):
            some = [r for r in rs if (base(r).op != "param") == here]
            if some:
                self.direct = here
                self.judge(eng, fr, st, some)
        self.direct = False
        super().on_backedge(eng, fr, st, h)

    def judge(self, eng, fr, st, only):
        """the obligations of a path at its end (only: about these nodes)"""

    direct = False

    def oblige(self, ok, fr, what, text, dep):
        # what is left undone to a node found in one iteration of a loop is not done later
        super().oblige(ok, fr, what, text, [] if self.direct else dep)

    # ---- what a path did
    @staticmethod
    def moves(st, f, r=None):
        """[(root, lo, hi, src root, src lo)]"""
        out = []
        for k in st.aux:
            if k[0] == "blk" and k[1] == f and (r is None or k[2] is r):
                out.append(k[2:7])
            elif k[0] == "each" and k[1] == "mv" and k[2] == f and (r is None or k[3] is r):
                out.append((k[3], k[4], add(k[4], ONE), k[5], k[6]))
            elif k[0] == "all" and k[1] == "mv" and k[2] == f and (r is None or k[3] is r):
                e, lo, hi = k[-3:]
                d, s = A.span(k[4], e, lo, hi), A.span(k[6], e, lo, hi)
                if d and s:
                    out.append((k[3], d[0], d[1], k[5], s[0]))
                else:
                    out.append(None)
        return [x for x in out if x]

    @staticmethod
    def filled(st, f, r):
        """indexes written"""
        return [k[3] for k in st.aux if k[0] in ("st", "fill") and k[1] == f and k[2] is r]

    @staticmethod
    def writes(st, f, r):
        return [(k[3], k[4]) for k in st.aux if k[0] == "st" and k[1] == f and k[2] is r]

    @staticmethod
    def spans(st, kind, r):
        """ranges of indexes of r for which the event `kind` (noted as ("each", kind, r, index)) happened"""
        out = []
        for k in st.aux:
            if k[0] == "each" and k[1] == kind and k[2] is r:
                out.append((k[3], add(k[3], ONE)))
            elif k[0] == "all" and k[1] == kind and k[2] is r:
                sp = A.span(k[3], *k[-3:])
                if sp:
                    out.append(sp)
        return out

    @staticmethod
    def covers(st, spans, lo, hi):
        """is lo..hi within the union of spans"""
        cur, left = lo, list(spans)
        while True:
            if st.truth(lt(cur, hi)) == 0:
                return True
            for s in left:
                if same(st, s[0], cur) or st.truth(lt(cur, s[0])) == 0 and st.truth(lt(cur, s[1])) == 1:
                    cur = s[1]
                    left.remove(s)
                    break
            else:
                return False


def handed(r):
    """is a node one that the caller of the function under analysis named? (not found by way of others)"""
    while True:
        if r.op == "param":
            return True
        if r.op not in ("fld", "ld", "adr") or r.op == "ld" and any(isinstance(e, str) and e.split(".")[0] in ("Leaf", "Internal") for e in r.a[1]):
            return False
        r = r.a[0]


def base(t):
    while t.op in ("fld", "ld", "adr"):
        t = t.a[0]
    return t


def event_root(k):
    return k[2] if k[0] in ("blk", "st") else k[3] if k[0] in ("each", "all") and k[1] == "mv" else k[1] if k[0] in ("reached", "new") else None


def roots(st):
    out = []
    for k in st.aux:
        r = k[2] if k[0] in ("blk", "st") else k[3] if k[0] in ("each", "all") and k[1] == "mv" else None
        if r is not None and r not in out:
            out.append(r)
    return out

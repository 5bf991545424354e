"""P07: borrows through slice references exclude modification and keep the tree alive."""
import absint as A
import common, nodes, units
from absint import K, T, mk, eq, add, sub, fld, addr_field, adr, root_path, show, discr, is_k
from nodes import marker, inner_marker

TECHNIQUE = ("typestate analysis by abstract interpretation of monomorphic MIR: every write of the borrow state is checked against the "
             "transition relation, every change of the number of borrows is balanced by a guard that is made or destroyed, and "
             "modifying or dropping a tree requires the corresponding state")

STATES = ("NotBorrowed", "Mutable", "Immutable", "Dropping", "Dropped")
GUARDS = ("Borrow", "TemporaryBorrow")
COUNT, FLAG = "Immutable.count", "Immutable.drop_if_zero"


def adt_of(p, ty):
    t = p.ty(ty) if ty is not None else {}
    a = t.get("adt", "")
    return A.tail(a) if a.startswith("sherman") else None


def self_adt(p, b):
    """type whose destructor b is"""
    if not b.path.endswith("as std::ops::Drop>::drop"):
        return None
    t = p.ty(b.locals[1][0])
    return adt_of(p, t.get("inner")) if t.get("k") == "ref" else None


def state_cell(p):
    """is p the address of a borrow state"""
    r, q = root_path(p)
    return any(e == "InnerStore.borrow" for e in q)


def possible(st, v):
    if v.op == "agg":
        return {v.a[1]}
    return {n for i, n in enumerate(STATES) if st.truth(eq(discr(v), K(i))) != 0}


def nz(v):
    """a NonZero is the number it wraps"""
    while v.op == "agg" and len(v.a[2]) == 1:
        v = v.a[2][0][1]
    return v


class Acc(units.UnitRule):
    """common: a number of tokens created less those given away, per path"""
    WHAT = "tokens"

    def inline(self, eng, fr, body):
        if body.crate == "sherman" and "slice_ref" in body.key and self.nblocks(body) <= 30 and self.SMALL > 6 and "collapse" not in body.path:
            return True
        return super().inline(eng, fr, body)

    def bal(self, st, k):
        st.aux["bal"] = st.aux.get("bal", 0) + k

    def on_return(self, eng, fr, st, val):
        if fr.depth == 0:
            b = st.aux.get("bal", 0)
            u = fr.body
            dep = [mk("param", i + 1, u.locals[i + 1][1]) for i in range(u.argc)] if not u.path.endswith("Drop>::drop") else []
            if "bal" in st.aux:
                self.oblige(b == 0, fr, "balance", "%s: on a path to its end, %s" % (u.path, self.explain(b)), dep)


def is_state(eng, v, ty):
    if v.op == "agg":
        return A.tail(v.a[0]) == "BorrowState"
    t = ty if ty is not None else eng.tyof.get(v)
    return adt_of(eng.p, t) == "BorrowState"


class R(Acc):
    def explain(self, b):
        return "%d more borrow(s) are counted than there are guards to end them" % b if b > 0 else \
            "%d guard(s) come into being whose borrow is not counted, or a borrow is ended twice" % -b

    def enter(self, eng, b):
        st = A.St()
        t = self.p.ty(b.locals[1][0]) if b.argc == 1 else {}
        if b.argc == 1 and t.get("s") == "std::ptr::NonNull<()>":
            # only called through a guard, when the last one has gone
            v = mk("param", 1, b.locals[1][1])
            st.assume(eq(discr(st.load(addr_field(v, "InnerStore.borrow"))), K(STATES.index("Dropped"))), 1)
        return eng.run(b, st)

    def on_enter(self, eng, fr, st):
        a = self_adt(self.p, fr.body)
        if a in GUARDS:
            self.bal(st, 1)

    def on_store(self, eng, fr, st, ptr, val, place, sp):
        r, q = root_path(ptr)
        if q[-2:] == ("InnerStore.refs", "RefCell.value") and r.op != "alloc":
            ok = st.aux.get("bs") == "Dropped" or possible(st, st.load(addr_field(r, "InnerStore.borrow"))) == {"Dropped"}
            self.oblige(ok, fr, "references cleared", "%s at %s: what slice references refer to is cleared while the tree may still be borrowed or in use"
                        % (fr.body.path, sp), [r])
        if q[-1:] == ("InnerStore.root",) and val is A.NONE:
            st.aux.pop("gone", None)
        if not is_state(eng, val, place.ty if place is not None else None):
            return
        if r.op in ("alloc", "loc") and not state_cell(ptr):
            return
        old = st.load(ptr)
        if old is UNINIT:
            return
        self.settle(fr, st)
        st.aux["bs"] = val.a[1] if val.op == "agg" else None
        if val.op == "agg":
            bad = self.transition(st, old, val)
            if bad and len(possible(st, old)) > 1:
                # the state that was replaced may be looked at afterwards
                st.aux["pending"] = (old, val, str(sp), st.aux.get("bal", 0))
            else:
                self.verdict(fr, st, bad, old, val, sp)

    def verdict(self, fr, st, bad, old, val, sp):
        self.oblige(not bad, fr, "transition to %s" % val.a[1], "%s at %s: the borrow state becomes %s where it can be %s"
                    % (fr.body.path, sp, val.a[1], " or ".join(sorted(bad or ()))), [old])

    def on_branch(self, eng, fr, st):
        if "pending" in st.aux:
            old, val, sp, _ = st.aux["pending"]
            bad = self.transition(st, old, val)
            if not bad:
                del st.aux["pending"]
                self.verdict(fr, st, bad, old, val, sp)

    def settle(self, fr, st):
        if "pending" in st.aux:
            old, val, sp, _ = st.aux.pop("pending")
            self.verdict(fr, st, self.transition(st, old, val), old, val, sp)

    def transition(self, st, old, val):
        """the states the old one can be, and should not be (accounts for the borrow begun or ended)"""
        was, new = possible(st, old), val.a[1]
        bad = None
        if new == "Mutable":
            bad = was - {"NotBorrowed"}
        elif new == "Dropping":
            bad = was - {"NotBorrowed", "Mutable"}
        elif new in ("NotBorrowed", "Dropped"):
            bad = was - {"Mutable" if new == "NotBorrowed" else "Dropping", "Immutable"}
            if not bad and "Immutable" in was:
                c, f = nz(fld(old, COUNT)), fld(old, FLAG)
                # when this is the last borrow, not on a path on which the tree is only modified
                if new == "Dropped":
                    st.aux["gone"] = 1
                if st.truth(eq(c, K(1))) == 1 and st.truth(f) == (0 if new == "NotBorrowed" else 1):
                    self.bal(st, -1)
                else:
                    bad = {"Immutable (with other borrows left, or where the tree is %sto be dropped)" % ("" if new == "NotBorrowed" else "not ")}
        elif new == "Immutable":
            bad = was - {"NotBorrowed", "Immutable"}
            c2, f2 = nz(fld(val, COUNT)), fld(val, FLAG)
            if not bad and "NotBorrowed" in was:
                if len(was) > 1:
                    bad = None
                elif c2 is K(1) and st.truth(f2) == 0:
                    self.bal(st, 1)
                else:
                    bad = {"NotBorrowed (the first borrow must count 1 and not drop the tree)"}
            elif not bad:
                c, f = nz(fld(old, COUNT)), fld(old, FLAG)
                d = sub(c2, c)
                same = f2 is f or st.truth(f) is not None and st.truth(f) == st.truth(f2)
                if d is K(0) and st.truth(f2) == 1:
                    pass
                elif is_k(d) and d.a[0] in (1, -1) and same:
                    self.bal(st, d.a[0])
                else:
                    bad = {"Immutable (count changed by %s, drop flag from %s to %s)" % (show(d), show(f), show(f2))}
        return bad

    def on_agg(self, eng, fr, st, adt, variant, val, ty, sp):
        a = A.tail(adt) if adt.startswith("sherman") else None
        if a in GUARDS:
            self.bal(st, -1)
        if a == "Borrow":
            b, d = fld(val, "Borrow.borrow"), fld(val, "Borrow.data_ptr")
            self.oblige(same_store(b, d), fr, "guard of one store", "%s at %s: a guard is made that counts on %s but, as the last one, would drop %s"
                        % (fr.body.path, sp, show(b), show(d)), [b, d])

    def on_call(self, eng, fr, st, c):
        if c.name == "forget" and "mem::" in c.rpath:
            if adt_of(self.p, c.argtys[0]) in GUARDS:
                self.bal(st, 1)
        if c.path == "<indirect>" and c.args and self.p.ty(c.argtys[0]).get("s") == "std::ptr::NonNull<()>":
            self.oblige(st.aux.get("bs") == "Dropped", fr, "drop of the tree", "%s at %s: the tree is dropped where its state is not known to be Dropped"
                        % (fr.body.path, c.sp), [])
            st.aux.pop("gone", None)
        if c.body is not None and c.body.crate == "sherman":
            self.touch(eng, fr, st, c)
        return super().on_call(eng, fr, st, c)

    def touch(self, eng, fr, st, c):
        if any(is_root(v) for v in c.args):
            self.settle(fr, st)
        for v, ty in zip(c.args, c.argtys):
            m = marker(self.p, ty) or inner_marker(self.p, ty)
            if m in ("SliceRef", "Immut"):
                # reading through a stored reference
                inner = origin(v)
                if inner is not None and "borrow" not in st.aux:
                    ok = possible(st, st.load(addr_field(inner, "InnerStore.borrow"))) <= {"Immutable"}
                    self.oblige(ok, fr, "read through a reference", "%s at %s: %s is given a slice found through a slice reference, "
                                "without holding a borrow" % (fr.body.path, c.sp, c.name), [inner])
            if m == "Owned" and is_root(v):
                self.rooted(eng, fr, st, c, v, ty)

    def rooted(self, eng, fr, st, c, v, ty):
        t = self.p.ty(ty)
        bs = st.aux.get("bs")
        if t.get("k") == "ref" and t.get("mut"):
            self.oblige(bs == "Mutable", fr, "modified", "%s at %s: the tree is given to %s to be modified where it is not known that nothing is borrowed"
                        % (fr.body.path, c.sp, c.name), [v])
        elif t.get("k") != "ref" and marker(self.p, ty) == "Owned" and c.name not in ("ptr", "borrow"):
            ok = bs in ("Dropping", "Dropped")
            while not ok and v.op == "fld":
                v = v.a[0]
            if v.op == "ld" and "InnerStore.root" in v.a[1]:
                ok = ok or possible(st, st.load(addr_field(v.a[0], "InnerStore.borrow"))) == {"Dropped"}
            self.oblige(ok, fr, "destroyed", "%s at %s: the tree is given up to %s where it is not known that nothing is borrowed"
                        % (fr.body.path, c.sp, c.name), [v])

    def on_return(self, eng, fr, st, val):
        if fr.depth == 0:
            self.settle(fr, st)
            if self_adt(self.p, fr.body) == "TemporaryBorrow":
                # a guard that has been turned into another one has nothing left to end
                f = mk("ld", mk("param", 1, fr.body.locals[1][1]), ("TemporaryBorrow.ownership_transferred",), ())
                if st.truth(f) == 1:
                    self.bal(st, -1)
            dep = [mk("param", 1, fr.body.locals[1][1])] if fr.body.argc else []
            if "bs" not in st.aux:
                return super().on_return(eng, fr, st, val)
            self.oblige("gone" not in st.aux, fr, "kept", "%s: ends the last borrow of a tree that is otherwise gone without dropping the tree"
                        % fr.body.path, [])
            self.oblige(st.aux.get("bs") != "Mutable", fr, "released", "%s: returns with the tree still marked as being modified" % fr.body.path, dep)
        super().on_return(eng, fr, st, val)


UNINIT = A.UNINIT


def origin(v, memo={}):
    """the store v was found in (through its table of references)"""
    if v not in memo:
        memo[v] = None
        if v.op in ("adr", "ld") and "InnerStore.refs" in v.a[1]:
            memo[v] = v.a[0]
        else:
            for x in v.a:
                r = origin(x) if isinstance(x, T) else next(filter(None, (origin(y) for y in flat(x))), None)
                if r is not None:
                    memo[v] = r
                    break
    return memo[v]


def is_root(v):
    """(the address of) the handle of a whole tree"""
    while True:
        if v.op in ("adr", "ld") and ("Root.handle" in v.a[1] or "InnerStore.root" in v.a[1]) or v.op == "fld" and v.a[1] == "Root.handle":
            return True
        if v.op != "fld":
            return False
        v = v.a[0]


def flat(x):
    if isinstance(x, tuple):
        for y in x:
            yield from flat(y)
    elif isinstance(x, T):
        yield x


def same_store(b, d):
    rb, qb = root_path(b)
    rd, qd = root_path(d)
    if qb == ("InnerStore.borrow",) and not qd and rb is rd:
        return True
    for op in ("ld", "fld"):
        if b.op == op and d.op == op and b.a[0] is d.a[0]:
            x, y = b.a[1], d.a[1]
            x, y = (x, y) if op == "ld" else ((x,), (y,))
            if x[-1] == "Borrow.borrow" and y == x[:-1] + ("Borrow.data_ptr",):
                return True
    return False


def want(s):
    w = units.of("AllowSliceRefs", s)
    return lambda b: w(b) or "slice_ref::drop_borrow" in b.path or "::bump_weak" in b.path


def check(c):
    prog = units.program(common.facts_paths())
    names = ("US", "UN") if c.tier == "thorough" else ("US",)
    for s in names:
        bad = units.run(prog, lambda: R(prog), want(s), c)
        for (fn, what), (text, unit) in bad.items():
            c.violation("%s:%s" % (fn, what.replace(" ", "-")), text + " [reached from %s]" % unit)
    c.floor("obligation_sites", 10)
    c.explanation = ("every function of the slice-reference configuration interpreted over all returning paths; obligations are the writes of "
                     "the borrow state, the balance of counted borrows and guards on each path, and the accesses that need a state")
    c.assumptions = ["paths that unwind are not covered (a panic may leave the tree marked as borrowed, which is safe)"]

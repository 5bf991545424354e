"""P08: the table shared by a tree and its slice references is freed once, when the last of them goes."""
import absint as A
import common, units
from absint import K, mk, eq, sub, fld, addr_field, root_path, show, discr, is_k
from p_p07 import Acc, STATES, adt_of, self_adt, possible, want

TECHNIQUE = ("ownership (counting) analysis by abstract interpretation of monomorphic MIR: on every path the number of slice references "
             "made and destroyed is the change of their count, and the shared table is freed exactly where nobody is left")


def rooted_in(v, p, d=0):
    while v.op in ("adr", "ld", "fld"):
        if v.a[0] is p:
            return True
        v = v.a[0]
    return v is p


class R(Acc):
    def explain(self, b):
        return "the count of slice references grows by %d more than the references made" % b if b > 0 else \
            "%d more slice reference(s) are made than are counted, or one is counted off twice" % -b

    def on_enter(self, eng, fr, st):
        a = self_adt(self.p, fr.body)
        if a == "SliceRef":
            self.bal(st, 1)
        if a in ("SliceRef", "SliceRefStore") and fr.depth == 0:
            p = st.load(addr_field(st.load(eng.loc(fr, 1)), a + ".inner"))
            w = st.load(addr_field(p, "InnerStore.weak_count"))
            st.aux["last"] = p
            st.aux["left"] = sub(w, K(1)) if a == "SliceRef" else w

    def on_agg(self, eng, fr, st, adt, variant, val, ty, sp):
        if A.tail(adt) == "SliceRef" and adt.startswith("sherman") and variant == "SliceRef":
            self.bal(st, -1)
        if A.tail(adt) == "InnerStore":
            self.oblige(fld(val, "InnerStore.weak_count") is K(0), fr, "first count", "%s at %s: a new table starts with %s references"
                        % (fr.body.path, sp, show(fld(val, "InnerStore.weak_count"))), [])

    def on_store(self, eng, fr, st, ptr, val, place, sp):
        r, q = root_path(ptr)
        self.dead(eng, fr, st, ptr, sp, "written")
        if q[-1:] == ("InnerStore.borrow",):
            st.aux.pop("others", None)
        weak = q[-1:] == ("InnerStore.weak_count",) or q == () and fr.body.path.endswith("bump_weak_count") or \
            r in st.aux.get("wc", ()) and q == ()
        if weak and r.op != "alloc":
            d = sub(val, st.load(ptr))
            if is_k(d):
                self.bal(st, d.a[0])
            else:
                self.oblige(False, fr, "count", "%s at %s: the count of slice references becomes %s" % (fr.body.path, sp, show(val)), [val])

    def dead(self, eng, fr, st, v, sp, what):
        for k in st.aux:
            if isinstance(k, tuple) and k[0] == "freed" and rooted_in(v, k[1]):
                self.oblige(False, fr, "use after free", "%s at %s: the shared table is %s after it was freed" % (fr.body.path, sp, what), [])

    def table_freed(self, fr):
        f = fr
        for _ in range(3):
            for i in range(f.body.argc):
                t = self.p.ty(f.body.locals[i + 1][0])
                if A.tail(t.get("adt", "")) == "NonNull" and any(isinstance(a, int) and adt_of(self.p, a) == "InnerStore" for a in t["args"]):
                    return True
            if f.parent is None:
                return False
            f = f.parent

    def on_call(self, eng, fr, st, c):
        if c.name == "forget" and "mem::" in c.rpath and adt_of(self.p, c.argtys[0]) == "SliceRef":
            self.bal(st, 1)
        for v, ty in zip(c.args, c.argtys):
            self.dead(eng, fr, st, v, c.sp, "given to %s" % c.name)
        if c.name == "dealloc" and c.body is None and self.table_freed(fr):
            p = root_path(c.args[0])[0]
            w, b = st.load(addr_field(p, "InnerStore.weak_count")), st.load(addr_field(p, "InnerStore.borrow"))
            self.oblige(st.truth(eq(w, K(0))) == 1, fr, "unreferenced", "%s at %s: the shared table is freed where slice references can be left"
                        % (fr.body.path, c.sp), [p])
            self.oblige(possible(st, b) == {"Dropped"}, fr, "dropped", "%s at %s: the shared table is freed where the tree can still be in use (%s)"
                        % (fr.body.path, c.sp, " or ".join(sorted(possible(st, b)))), [p])
            st.aux[("freed", p)] = 1
        return super().on_call(eng, fr, st, c)

    def others(self, st):
        p = st.aux["last"]
        w, b = st.load(addr_field(p, "InnerStore.weak_count")), st.load(addr_field(p, "InnerStore.borrow"))
        n = st.aux.get("bal", 0)
        return st.truth(eq(st.aux["left"], K(0))) == 0 or n == 0 and st.truth(eq(w, K(0))) == 0 or "Dropped" not in possible(st, b)

    def on_branch(self, eng, fr, st):
        if "last" in st.aux:
            st.aux["others"] = 1 if self.others(st) else 0

    def on_return(self, eng, fr, st, val):
        if fr.depth == 0 and "last" in st.aux:
            p = st.aux["last"]
            if ("freed", p) not in st.aux:
                left = st.aux.get("others") or self.others(st)
                self.oblige(left, fr, "leak", "%s: the last user of the shared table can go without freeing it" % fr.body.path, [])
        super().on_return(eng, fr, st, val)


def check(c):
    prog = units.program(common.facts_paths())
    names = ("US", "UN") if c.tier == "thorough" else ("US",)
    for s in names:
        bad = units.run(prog, lambda: R(prog), want(s), c)
        for (fn, what), (text, unit) in bad.items():
            c.violation("%s:%s" % (fn, what.replace(" ", "-")), text + " [reached from %s]" % unit)
    c.floor("obligation_sites", 6)
    c.explanation = ("every function of the slice-reference configuration interpreted over all returning paths; obligations are the balance of "
                     "references made, destroyed and counted on each path, and each freeing of the table and each end of a user of it")
    c.assumptions = ["paths that unwind are not covered (leaking then is safe)"]

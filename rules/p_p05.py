"""P05: reference counts of shared nodes are synchronised between threads."""
import common, units, p_p04, nodes
from absint import K, mk, eq, add, addr_field, adr, root_path, show, is_k

TECHNIQUE = ("memory-ordering typestate analysis by abstract interpretation of monomorphic MIR: every path on which a "
             "reference count proves sole ownership must carry an acquire on that count, every decrement must be a "
             "release, and every increment must exclude wrap-around")

ACQ = ("Acquire", "AcqRel", "SeqCst")
REL = ("Release", "AcqRel", "SeqCst")


def is_count(eng, p, ty):
    r, q = root_path(p)
    return any(e == "Leaf.strong_count" for e in q)


def ordering(v):
    return v.a[1] if v.op == "agg" else None


class R(p_p04.R):
    def need(self, eng, fr, st, p, what, sp):
        if nodes.excl(eng, st, p) != "unique":
            return
        cur = st.load(addr_field(p, "Leaf.strong_count"))
        ld = mk("atomic", "load", cur)
        sb = mk("atomic", "fetch_sub", add(cur, K(1)))
        ok = st.truth(eq(ld, K(1))) == 1 and st.aux.get(("acq", ld)) or \
            st.truth(eq(sb, K(1))) == 1 and st.aux.get(("acq", sb))
        self.oblige(ok, fr, what, "%s at %s: %s of a node (%s) found to be unshared, but the count was read without an acquire on "
                    "this path: another thread's accesses before it gave up its reference are not ordered before this"
                    % (fr.body.path, sp, what, show(p)), [])

    def on_call(self, eng, fr, st, c):
        if "atomic" in c.rpath.lower() and c.args:
            if c.name == "load":
                v = st.load(c.args[0])
                if ordering(c.args[1]) in ACQ:
                    st.aux[("acq", mk("atomic", "load", v))] = 1
                    st.aux[("acq", mk("atomic", "fetch_sub", add(v, K(1))))] = 1
            elif c.name == "fence" and ordering(c.args[0]) in ACQ:
                for k in list(st.aux):
                    if k[0] == "seen":
                        st.aux[("acq", k[1])] = 1
            elif c.name == "fetch_sub":
                t = mk("atomic", "fetch_sub", st.load(c.args[0]))
                o = ordering(c.args[2])
                st.aux[("seen", t)] = 1
                if o in ACQ:
                    st.aux[("acq", t)] = 1
                self.oblige(o in REL, fr, "decrement", "%s at %s: a reference count is decremented with ordering %s: what this thread "
                            "did before is not ordered before another thread's freeing of the memory" % (fr.body.path, c.sp, o), [])
                self.oblige(c.args[1] is K(1), fr, "decrement-amount", "%s at %s: a reference count is decremented by %s"
                            % (fr.body.path, c.sp, show(c.args[1])), [])
            elif c.name == "fetch_add":
                st.aux[("add", mk("atomic", "fetch_add", st.load(c.args[0])))] = 1
                self.oblige(c.args[1] is K(1), fr, "increment-amount", "%s at %s: a reference count is incremented by %s"
                            % (fr.body.path, c.sp, show(c.args[1])), [])
            elif c.name in ("store", "swap", "fetch_and", "fetch_or", "fetch_xor", "fetch_max", "fetch_min"):
                r, q = root_path(c.args[0])
                self.oblige(r.op in ("alloc", "loc"), fr, "overwrite", "%s at %s: a reference count other threads may be using is overwritten"
                            % (fr.body.path, c.sp), [])
        return super().on_call(eng, fr, st, c)

    def on_return(self, eng, fr, st, val):
        for k in [k for k in st.aux if k[0] == "add"]:
            u = st.bound(((k[1], 1),))
            ok = u is not None and u < 1 << 63
            if ok or fr.depth == 0:
                del st.aux[k]
                self.oblige(ok, fr, "overflow", "%s: a reference count is incremented without excluding that it wraps "
                            "around to a small number (forgetting clones is safe, so any count can be reached)" % fr.body.path, [k[1]])


def check(c):
    prog = units.program(common.facts_paths())
    names = ("US", "UN") if c.tier == "thorough" else ("US",)
    for s in names:
        bad = units.run(prog, lambda: R(prog), lambda b, w=units.of("AllowCow", s): w(b) or "StrongCount for std" in b.path, c)
        for (fn, what), (text, unit) in bad.items():
            c.violation("%s:%s" % (fn, what.replace(" ", "-")), text + " [reached from %s]" % unit)
    c.floor("obligation_sites", 4)
    c.explanation = ("every function of the copy-on-write configuration and the counter's implementation interpreted over all paths; "
                     "obligations are the uses of a count as proof of sole ownership, and the decrements and increments")
    c.assumptions = ["orderings are those of the Rust (C++20) memory model; a count only changes through the operations seen"]

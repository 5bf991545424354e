"""Running a rule over every function of a configuration.

Each function is interpreted on its own: what its parameters' types promise (an exclusive handle is
exclusive, ..) is trusted there and established where such values are made. An obligation that fails
only because it depends on a parameter is not a verdict about the function: the function is then
interpreted in place in all of its callers, where the argument is known. It is reported when that
does not discharge it, or when there is no caller inside the crate.
"""
import multiprocessing
import os
import re
import time
from collections import defaultdict
import absint as A

_prog = {}


def program(paths):
    k = tuple(paths)
    if k not in _prog:
        _prog[k] = A.Program(paths[1], paths[0])
    return _prog[k]


def pardep(t, memo={}):
    """does a term mention a parameter?"""
    if isinstance(t, A.T):
        r = memo.get(t)
        if r is None:
            memo[t] = False
            if t.op == "param":
                r = True
            elif t.op in ("loc", "frame", "s"):
                r = False
            else:
                r = any(pardep(x, memo) for x in t.a)
            memo[t] = r
        return r
    if isinstance(t, tuple):
        return any(pardep(x, memo) for x in t)
    return False


class UnitRule(A.Rule):
    """A rule whose obligations are collected per unit"""
    SMALL = 14       # functions with at most this many blocks are interpreted in place
    ALWAYS = ("const_math_hack", "::param::")
    NEVER = ()
    FALLBACK = ((6, None), (3, 6), (1, 0))      # (depth, size) to inline when there are too many paths
    SUMMARIES = True

    def __init__(self, prog):
        self.p = prog
        self.force = set()
        self.fails = {}
        self.obligations = 0
        self.sites = set()
        self.refused = set()

    def start(self, unit):
        self.unit = unit
        self.fails = {}

    def inline(self, eng, fr, body):
        if body.crate in ("core", "alloc"):
            return True
        if body.crate != "sherman":
            return False
        if body.id in self.force:
            return True
        if body.kind in ("Closure", "Shim", "DropGlue"):
            return True
        if any(x in body.path for x in self.NEVER):
            return False
        return any(x in body.key for x in self.ALWAYS) or self.nblocks(body) <= self.SMALL

    @staticmethod
    def nblocks(body):
        return sum(1 for b in body.blocks if not b.cleanup)

    def cut(self, eng, fr, body):
        """a call too deep to be interpreted in place: the functions on the way to it are not fully followed"""
        if body.crate == "sherman" and self.inline(eng, fr, body):
            while fr is not None:
                if fr.body.id in self.force:
                    self.refused.add(fr.body.id)
                fr = fr.parent

    def on_call(self, eng, fr, st, c):
        """a call that is not interpreted in place but always returns a handle of a new node"""
        b = c.body
        if b is not None and b.id in self.force and not eng.can_inline(fr, b):
            self.refused.add(b.id)
        if b is None or b.crate != "sherman" or b.kind not in ("Fn", "AssocFn") or not self.SUMMARIES:
            return None
        v, slots = summary(self.p, b)
        if not slots and eng.can_inline(fr, b):
            return None
        if v is None and not slots:
            return None
        s = st.copy()
        eng.opaque_effects(s, self.p.mods(b.id), c.args, c.site)
        eng.forget_args(s, c)
        if v is None:
            r = A.UNIT if self.p.ty(c.destty)["s"] == "()" else A.mk("call", c.site, c.rpath, tuple(c.args))
            for i in slots:
                if i < len(c.args):
                    s.aux[("excl", s.load(c.args[i]))] = (s.ver.get("Leaf.strong_count"),)
            return [(s, r)] + ([("unwind", s.copy(), A.UNIT)] if eng.unwind else [])
        w = A.mk("call", c.site, c.rpath, tuple(c.args))
        ptr = A.mk("alloc", c.site)
        r = A.agg(v.a[0], v.a[1], [(n, ptr if n == "NodeHandle.ptr" else A.fld(w, n)) for n, _ in v.a[2]])
        eng.tyof.setdefault(r, c.destty)
        s.store(A.addr_field(ptr, "Leaf.strong_count"), A.K(1))
        outs = [(s, r)]
        if eng.unwind:
            outs.append(("unwind", s.copy(), A.UNIT))
        return outs

    def oblige(self, ok, fr, what, text, dep):
        """record one obligation; dep: terms the failure depends on"""
        self.obligations += 1
        self.sites.add((short(fr.body.path), what))
        if ok:
            return
        d = any(pardep(x) for x in dep)
        key = (short(fr.body.path), what)
        old = self.fails.get(key)
        if old is None or old[1] and not d:
            self.fails[key] = (text, d)


class _Plain(UnitRule):
    pass


def summary(prog, b):
    """(the handle returned by b, when on every path it is that of a node allocated by b with one owner,
    parameters that point to a slot which on return holds a node that is exclusive)"""
    memo = prog.__dict__.setdefault("summaries", {})
    if b.id not in memo:
        memo[b.id] = (None, ())
        import nodes
        owned = nodes.marker(prog, b.locals[0][0]) in ("Owned", "UniqueOwned")
        slots = [i for i in range(b.argc) if nodes.isslot(prog, b.locals[i + 1][0])]
        if owned or slots:
            memo[b.id] = summarize(prog, b, owned, slots)
    return memo[b.id]


def summarize(prog, b, owned, slots):
    import nodes
    rule = _Plain(prog)
    rule.on_phi = nodes.keep_excl
    e = A.Engine(prog, rule, maxdepth=10)
    e.MAXSTEPS = 60000
    try:
        outs = e.run(b)
    except A.Limit:
        return None, ()
    got, good = None, set(slots)
    for kind, st, v in outs:
        if kind != "ret":
            continue
        for i in list(good):
            prm = A.mk("param", i + 1, b.locals[i + 1][1])
            if not nodes.excl(e, st, st.load(prm)):
                good.discard(i)
        if owned:
            p = A.fld(v, "NodeHandle.ptr") if v.op == "agg" and v.a[1] == "NodeHandle" else None
            if p is None or p.op != "alloc" or st.load(A.addr_field(p, "Leaf.strong_count")) is not A.K(1):
                owned = False
            got = v
    return (got if owned else None), tuple(good)


def short(path):
    """function path without generic arguments"""
    out, d = [], 0
    for i, ch in enumerate(path):
        if ch == "<":
            d += 1
        elif ch == ">" and path[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(ch)
    s = "".join(out).replace("::::", "::").strip(":")
    if path.startswith("<"):
        ty = path[1:].split("<")[0].split(" as ")[0].split("::")[-1]
        s = ty + "::" + s.split("::")[-1] if "::" in s or s else ty
    return "::".join(s.split("::")[-3:])


def of(cfg, s):
    """selects the functions of a configuration instantiated with slice type s"""
    def want(b):
        if not re.search(r"\b%s\b" % s, b.inst):
            return False
        if "param::" + cfg in b.inst:
            return True
        return cfg == "AllowSliceRefs" and "param::" not in b.inst and any(
            x in b.inst for x in ("slice_ref::", "::SliceRef<", "::SliceRef::<", "::Borrow<", "::Borrow::<"))
    return want


def units(prog, want=None, kinds=("Fn", "AssocFn")):
    for b in prog.bodies.values():
        if b.crate == "sherman" and b.kind in kinds and (want is None or want(b)):
            yield b


def _one(args):
    """interpret one unit; -> (id, fails, incomplete, steps, obligations, sites)"""
    prog, mkrule, bid, force, maxdepth, unwind, maxsteps = args
    b = prog.bodies[bid]
    incomplete = False
    for depth, small in ((maxdepth, None),) + mkrule().FALLBACK:
        rule = mkrule()
        rule.force = force
        if small is not None:
            rule.SMALL = small
        rule.start(b)
        eng = A.Engine(prog, rule, unwind=unwind, maxdepth=depth)
        eng.MAXSTEPS = maxsteps
        try:
            rule.enter(eng, b)
            incomplete = False
            break
        except A.Limit:
            incomplete = True
    return bid, rule.fails, incomplete, eng.steps, rule.obligations, rule.sites, sorted(eng.unknown), rule.refused


_job = None


def _work(bids):
    return [_one(_job[:2] + (b,) + _job[2:]) for b in bids]


def parallel(job, bids):
    """spread units over forked workers (the loaded program is shared copy-on-write)"""
    global _job
    n = min(8, os.cpu_count() or 1, max(1, len(bids) // 8))
    _job = job
    if n <= 1:
        return _work(bids)
    # big functions first, dealt out in small batches
    prog = job[0]
    order = sorted(bids, key=lambda i: -len(prog.bodies[i].blocks))
    batches = [order[i::4 * n] for i in range(4 * n)]
    with multiprocessing.get_context("fork").Pool(n) as pool:
        return [x for xs in pool.imap_unordered(_work, [b for b in batches if b], 1) for x in xs]


def run(prog, mkrule, want, c=None, maxdepth=10, unwind=False, maxsteps=60000, name="functions", skip=(), loose=False, climb=8):
    """run a rule over units; returns {(function, what): (text, chain)} of undischarged obligations"""
    us = [b for b in units(prog, want)]
    ids = {b.id for b in us}
    callers = defaultdict(set)
    for b in us:
        prog.cfg(b)
        for cal in closure_callees(prog, b):
            callers[cal].add(b.id)
    prog.mods(None)
    entry = entries(prog)
    force = set()
    results, refused = {}, {}
    todo = [b.id for b in us]
    bad, incomplete, unknown = {}, set(), set()
    stats = dict(steps=0, runs=0, obligations=0)
    rounds = 0
    sites = set()
    began = time.time()
    while todo and rounds < climb:
        rounds += 1
        nxt = set()
        budget = maxsteps * (4 if rounds > 1 and time.time() - began < 200 else 1)
        for bid, fails, inc, steps, obl, st, unk, ref in parallel((prog, mkrule, frozenset(force), maxdepth, unwind, budget), todo):
            (incomplete.add if inc else incomplete.discard)(bid)
            stats["steps"] += steps
            stats["runs"] += 1
            stats["obligations"] += obl
            sites |= st
            unknown.update(unk)
            results[bid] = fails
            refused[bid] = ref
        for bid in todo if rounds < climb else ():
            if any(dep for _, dep in results[bid].values()) and callers[bid] - {bid} and bid not in force:
                force.add(bid)
                nxt |= callers[bid]
        todo = [i for i in sorted(nxt) if i in ids]
    kept = set().union(*refused.values()) if refused else set()
    undecided = 0
    for i, fails in results.items():
        b = prog.bodies[i]
        for (fn, what), (text, dep) in fails.items():
            if i in force and dep and i not in entry and (i not in kept or loose):
                undecided += i in kept
                continue
            bad.setdefault((fn, what), (text, short(b.path)))
    if c is not None:
        c.count(name, len(us))
        c.count("interpreted_blocks", stats["steps"])
        c.count("obligations", stats["obligations"])
        c.count("obligation_sites", len(sites))
        if undecided:
            c.count("obligations_left_to_callers_not_followed", undecided)
        if incomplete:
            c.count("functions_analysed_partially", len(incomplete))
        for s in sorted(sites):
            c.sample("%s: %s" % s)
    return bad


def closure_callees(prog, b):
    """bodies called from b, directly or through closures and shims it contains"""
    seen, st = set(), [b]
    while st:
        x = st.pop()
        for i in prog.callees(x):
            if i not in seen:
                seen.add(i)
                y = prog.bodies[i]
                if y.crate != "sherman" or y.kind in ("Closure", "Shim", "DropGlue"):
                    st.append(y)
    return seen


def entries(prog):
    """functions of the crate that users call"""
    if "entry" not in prog.__dict__:
        out, seen = set(), set()
        todo = [prog.bodies[i] for _, i in prog.roots if i in prog.bodies]
        while todo:
            b = todo.pop()
            if b.id in seen:
                continue
            seen.add(b.id)
            cs = [prog.bodies[i] for i in prog.callees(b)]
            if b.kind in ("Shim", "DropGlue"):
                own = [x for x in cs if x.crate == "sherman" and x.path.endswith("as std::ops::Drop>::drop")]
                cs = own[:1] or cs
            for x in cs:
                if x.crate == "sherman" and x.kind not in ("Closure", "Shim", "DropGlue"):
                    out.add(x.id)
                else:
                    todo.append(x)
        prog.entry = out
    return prog.entry


def enter(self, eng, b):
    return eng.run(b)


UnitRule.enter = enter

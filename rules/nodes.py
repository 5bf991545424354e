"""Vocabulary shared by the rules about nodes: handles, their access markers, exclusiveness."""
import absint as A
from absint import K, mk, eq, fld, addr_field, root_path, adr

EXCL = ("Mut", "UniqueOwned", "Dropping")


def marker(p, ty):
    """access marker of a node or slice handle type (Immut, Mut, Owned, ..), or None"""
    if ty is None:
        return None
    t = p.ty(ty)
    while A.tail(t.get("adt", "")) in A.TRANSPARENT:
        inner = [a for a in t["args"] if isinstance(a, int)]
        if not inner:
            return None
        t = p.ty(inner[0])
    if t.get("adt", "").endswith(("::NodeHandle", "::SliceHandle")):
        for a in t["args"]:
            if isinstance(a, int):
                s = p.ty(a)["s"]
                if "::borrow::" in s:
                    return s.split("::borrow::")[1].split("<")[0].split("::")[-1]
    return None


def inner_marker(p, ty):
    t = p.ty(ty) if ty is not None else {}
    if t.get("k") in ("ref", "ptr"):
        return marker(p, t["inner"])
    return None


def handle_ptr(v):
    """node pointer of a handle value"""
    if v.op == "agg" and v.a[1] == "SliceHandle":
        v = fld(v, "SliceHandle.node")
    return fld(v, "NodeHandle.ptr")


def isnode(p, ty):
    """Leaf, Internal or AbstractNode"""
    t = p.ty(ty) if ty is not None else {}
    return t.get("adt", "").split("::")[-1] in ("Leaf", "Internal", "AbstractNode") and t["adt"].startswith("sherman")


def isslot(p, ty):
    """&mut to a node pointer"""
    t = p.ty(ty) if ty is not None else {}
    if t.get("k") != "ref" or not t.get("mut"):
        return False
    t = p.ty(t["inner"])
    return A.tail(t.get("adt", "")) == "NonNull" and any(isinstance(a, int) and isnode(p, a) for a in t["args"])


def node_elem(path):
    """first named field of an access path, when it is a node field"""
    for e in path:
        if not isinstance(e, tuple):
            return e if e.startswith(("Leaf.", "Internal.")) else None
    return None


def unique(st, p):
    """is the node at p known to be referenced once (or to have just lost its last reference)?"""
    cur = st.load(addr_field(p, "Leaf.strong_count"))
    if st.truth(eq(mk("atomic", "load", cur), K(1))) == 1:
        return True
    # after `fetch_sub` returned 1 the stored value is the previous one minus one
    prev = A.add(cur, K(1))
    return st.truth(eq(mk("atomic", "fetch_sub", prev), K(1))) == 1


def excl(eng, st, p, depth=0):
    """why the node at p may be written: it is exclusively ours"""
    P = eng.p
    if p.op == "alloc":
        return "fresh"
    if unique(st, p):
        return "unique"
    if st.aux.get(("excl", p)) is not None and st.aux[("excl", p)] == (st.ver.get("Leaf.strong_count"),):
        return "joined"
    if depth > 6:
        return None
    if p.op == "fld":
        if p.a[1] == "NodeHandle.ptr":
            m = marker(P, eng.tyof.get(p.a[0]))
            if m is None and p.a[0].op == "hv":
                m = marker(P, eng.aty.get(p.a[0].a[:2]))
            if m is None and p.a[0].op == "fld" and p.a[0].a[1] == "SliceHandle.node":
                m = marker(P, eng.tyof.get(p.a[0].a[0]))
            if m in EXCL:
                return "handle"
    if p.op == "ld":
        root, path = p.a[0], p.a[1]
        if path and path[-1] == "NodeHandle.ptr":
            m = marker(P, eng.aty.get((root, path[:-1])) or eng.tyof.get(mk("ld", root, path[:-1], p.a[2])))
            if m in EXCL:
                return "handle"
        if path[-2:] == ("Leaf.parent", "Some.0") and len(path) == 2:
            if excl(eng, st, root, depth + 1):
                return "parent"
    if p.op == "fld" and p.a[1] == "Some.0":
        q = p.a[0]
        if q.op == "ld" and q.a[1] == ("Leaf.parent",) and excl(eng, st, q.a[0], depth + 1):
            return "parent"
    ty = eng.tyof.get(p)
    if ty is not None and p.op in ("param", "call", "phi", "lv", "fld", "ld"):
        t = P.ty(ty)
        if t.get("k") == "ref" and t.get("mut") and (isnode(P, t["inner"])):
            return "&mut"
    return None


def keep_excl(eng, a, b, c, t, x, y):
    """at a join: what is exclusive on both sides stays so"""
    c.aux.pop(("excl", t), None)
    if x.op in ("uninit",) or y.op in ("uninit",):
        return
    if excl(eng, a, x) and excl(eng, b, y):
        c.aux[("excl", t)] = (c.ver.get("Leaf.strong_count"),)

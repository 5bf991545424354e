"""What standard-library functions do, in terms of the abstract interpreter's states."""
from absint import (T, mk, K, UNIT, UNINIT, TRUE, FALSE, NONE, some, agg, fld, discr, is_k, add, sub, lt, eq, neg,
                    adr, addr_field, addr_index, root_path, tail, fresh)

TABLE = {}


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def lookup(c):
    if c.body is not None and c.body.crate in ("sherman",) or "sherman::" in c.rpath.split(" as ")[0]:
        return None
    return TABLE.get(norm(c.rpath)) or TABLE.get(norm(c.path)) or TABLE.get(c.name if c.rpath.startswith("<") or "<impl" in c.rpath else "")


def norm(p):
    """path without generic arguments: `std::option::Option::<T>::map` -> `Option::map`"""
    out, d = [], 0
    i = 0
    if p.startswith("<") or "::<impl " in p:
        # <X as Trait>::f  ->  X|Trait::f
        return implnorm(p)
    for ch in p:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    parts = [x for x in "".join(out).split("::") if x]
    return "::".join(parts[-2:])


def implnorm(p):
    k = p.find("<impl ")
    if k >= 0:
        inner, rest = bracket(p, k)
        inner = inner[5:]
        if " for " in inner:
            tr, ty = inner.split(" for ", 1)
            return "%s|%s%s" % (head(ty), head(tr), rest)
        return head(inner) + rest
    inner, rest = bracket(p, 0)
    if " as " in inner:
        ty, tr = inner.rsplit(" as ", 1) if inner.count(" as ") == 1 else inner.split(" as ", 1)
        return "%s|%s%s" % (head(ty), head(tr), rest)
    return head(inner) + rest


def bracket(p, k):
    d = 0
    for i in range(k, len(p)):
        if p[i] == "<":
            d += 1
        elif p[i] == ">" and p[i - 1] != "-":
            d -= 1
            if d == 0:
                return p[k + 1:i], p[i + 1:]
    return p[k + 1:], ""


def head(t):
    t = t.strip()
    if t.startswith("&"):
        t = t[1:].strip()
        for w in ("mut ",):
            if t.startswith(w):
                return "&mut"
        return "&"
    if t.startswith("*"):
        return "*"
    if t.startswith("["):
        return "[]"
    if t.startswith("("):
        return "()"
    return t.split("<")[0].split("::")[-1]


def put(eng, fr, st, p, v, c):
    if not eng.muted and root_path(p)[0].op != "loc":
        eng.rule.on_store(eng, fr, st, p, v, None, c.sp)
    eng.write(st, p, v, c.site)


def ret(st, v=UNIT):
    return [(st, v)]


# ------------------------------------------------------------------ identity
@model("NonNull::cast", "NonNull::as_ptr", "NonNull::as_mut_ptr", "MaybeUninit::as_mut_ptr", "MaybeUninit::as_ptr",
       "UnsafeCell::get", "UnsafeCell::raw_get", "Cell::as_ptr", "Cell::get_mut", "ManuallyDrop|Deref::deref",
       "ManuallyDrop|DerefMut::deref_mut", "MaybeUninit::assume_init_ref", "MaybeUninit::assume_init_mut",
       "UnsafeCell::get_mut", "MaybeUninit::new", "MaybeUninit::assume_init", "ManuallyDrop::new",
       "ManuallyDrop::into_inner", "UnsafeCell::new", "UnsafeCell::into_inner", "Cell::new", "Cell::into_inner",
       "NonZero::get", "NonZero::new_unchecked", "NonNull::new_unchecked", "NonNull|From::from", "*::cast", "*::cast_mut",
       "*::cast_const", "I|IntoIterator::into_iter", "Pin::new_unchecked", "hint::black_box", "convert::identity",
       "|From::from", "NonNull::from", "ptr::from_ref", "ptr::from_mut", "Box::into_raw", "Box::from_raw", "Box::leak",
       "ptr::cast", "const_ptr::cast", "mut_ptr::cast", "NonNull::from_ref", "NonNull::from_mut", "Atomic::new", "hint::must_use")
def ident(eng, fr, st, c):
    return ret(st, c.args[0])


@model("NonNull::as_ref", "NonNull::as_mut")
def nn_ref(eng, fr, st, c):
    # takes &NonNull: the pointer is behind the argument
    return ret(st, st.load(c.args[0]))


@model("*::as_ref", "*::as_mut")
def ptr_ref(eng, fr, st, c):
    return ret(st, some(c.args[0]))


@model("NonNull::new")
def nn_new(eng, fr, st, c):
    p = c.args[0]
    isnull = mk("isnull", p)
    if st.truth(isnull) == 0 or p.op == "adr":
        return ret(st, some(p))
    a, b = st.copy(), st.copy()
    a.assume(isnull, 0)
    b.assume(isnull, 1)
    return [(a, some(p)), (b, NONE)]


@model("*::is_null")
def is_null(eng, fr, st, c):
    return ret(st, mk("isnull", c.args[0]))


@model("NonNull|PartialEq::eq", "NonZero|PartialEq::eq", "ptr::eq", "NonNull::eq", "ptr::addr_eq",
       "u8|PartialEq::eq", "usize|PartialEq::eq", "bool|PartialEq::eq", "u64|PartialEq::eq")
def peq(eng, fr, st, c):
    a, b = (st.load(x) if eng.p.ty(t).get("k") == "ref" else x for x, t in zip(c.args, c.argtys))
    return ret(st, eq(a, b))


@model("&|PartialEq::eq")
def refeq(eng, fr, st, c):
    a, b = st.load(st.load(c.args[0])), st.load(st.load(c.args[1]))
    return ret(st, eq(a, b) if intlike(eng, c.argtys[0], 2) else mk("ueq", a, b))


def intlike(eng, ty, refs):
    t = eng.p.ty(ty)
    for _ in range(refs):
        if t.get("k") not in ("ref", "ptr"):
            return False
        t = eng.p.ty(t["inner"])
    return t["s"] in ("u8", "usize", "u64", "u32", "bool", "isize")


# ------------------------------------------------------------------ user comparisons (UI)
USER = ("UI", "US", "UN")


def deref_ty(eng, ty):
    t = eng.p.ty(ty)
    n = 0
    while t.get("k") in ("ref", "ptr"):
        t = eng.p.ty(t["inner"])
        n += 1
    return t, n


def cmp_args(eng, st, c):
    t, n = deref_ty(eng, c.argtys[0])
    out = []
    for x in c.args[:2]:
        for _ in range(n):
            x = st.load(x)
        out.append(x)
    return t, out


def ult(a, b):
    if a is b:
        return FALSE
    return mk("ult", a, b)


def cmpmodel(name):
    def f(eng, fr, st, c):
        t, (a, b) = cmp_args(eng, st, c)
        ints = t["s"] in ("u8", "usize", "u64", "u32", "isize")
        if not ints and t["s"] not in USER and tail(t["s"]) not in USER:
            return None
        if ints:
            v = {"lt": lambda: lt(a, b), "gt": lambda: lt(b, a), "le": lambda: neg(lt(b, a)), "ge": lambda: neg(lt(a, b)),
                 "eq": lambda: eq(a, b), "ne": lambda: neg(eq(a, b))}[name]()
            return ret(st, v)
        v = {"lt": lambda: ult(a, b), "gt": lambda: ult(b, a), "le": lambda: neg(ult(b, a)), "ge": lambda: neg(ult(a, b)),
             "eq": lambda: TRUE if a is b else mk("ueq", *sorted((a, b), key=lambda x: x.id)),
             "ne": lambda: FALSE if a is b else neg(mk("ueq", *sorted((a, b), key=lambda x: x.id)))}[name]()
        return ret(st, v)
    return f


for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    for _p in ("PartialOrd::", "PartialEq::", "UI|PartialOrd::", "UI|PartialEq::", "&|PartialOrd::", "&|PartialEq::",
               "usize|PartialOrd::", "u8|PartialOrd::", "usize|PartialEq::", "u8|PartialEq::"):
        TABLE[_p + _n] = cmpmodel(_n)


@model("UI|Ord::cmp", "u8|Ord::cmp", "usize|Ord::cmp", "UI|PartialOrd::partial_cmp", "Ord::cmp")
def ucmp(eng, fr, st, c):
    t, (a, b) = cmp_args(eng, st, c)
    ints = t["s"] in ("u8", "usize", "u64", "u32", "isize")
    if not ints and tail(t["s"]) not in USER:
        return None
    outs = []
    LT = (lambda x, y: lt(x, y)) if ints else ult
    O = "std::cmp::Ordering"
    for nm, conds in (("Less", [(LT(a, b), 1)]), ("Greater", [(LT(b, a), 1)]), ("Equal", [(LT(a, b), 0), (LT(b, a), 0)])):
        s = st.copy()
        if all(s.assume(x, v) for x, v in conds):
            if nm == "Equal":
                s.assume(eq(a, b) if ints else mk("ueq", *sorted((a, b), key=lambda x: x.id)), 1)
            v = agg(O, nm, ())
            outs.append((s, some(v) if "partial" in c.rpath else v))
    return outs


@model("UI|DirectionalAdd::add_right", "UI|Add::add")
def uadd(eng, fr, st, c):
    return None if eng.rule.user_opaque else ret(st, mk("uadd", c.args[0], c.args[1]))


@model("UI|DirectionalSub::sub_left")
def usubl(eng, fr, st, c):
    return None if eng.rule.user_opaque else ret(st, mk("usubl", c.args[0], c.args[1]))


@model("UI|DirectionalSub::sub_right", "UI|Sub::sub")
def usub(eng, fr, st, c):
    return None if eng.rule.user_opaque else ret(st, mk("usub", c.args[0], c.args[1]))


@model("UI|Clone::clone", "usize|Clone::clone", "u8|Clone::clone", "NonNull|Clone::clone")
def uclone(eng, fr, st, c):
    return ret(st, st.load(c.args[0]))


# ------------------------------------------------------------------ memory
@model("MaybeUninit::write")
def mu_write(eng, fr, st, c):
    put(eng, fr, st, c.args[0], c.args[1], c)
    return ret(st, c.args[0])


@model("MaybeUninit::uninit", "MaybeUninit::uninit_array", "MaybeUninit::zeroed")
def mu_uninit(eng, fr, st, c):
    return ret(st, UNINIT)


@model("MaybeUninit::assume_init_read", "ptr::read", "*::read", "Cell::get", "NonNull::read", "ptr::read_unaligned", "*::read_unaligned")
def p_read(eng, fr, st, c):
    return ret(st, st.load(c.args[0]))


@model("ManuallyDrop::take")
def md_take(eng, fr, st, c):
    return ret(st, st.load(c.args[0]))


@model("ptr::write", "*::write", "Cell::set", "NonNull::write", "ptr::write_unaligned", "*::write_unaligned")
def p_write(eng, fr, st, c):
    put(eng, fr, st, c.args[0], c.args[1], c)
    return ret(st)


@model("mem::replace", "Cell::replace", "ptr::replace", "*::replace", "NonNull::replace")
def m_replace(eng, fr, st, c):
    old = st.load(c.args[0])
    put(eng, fr, st, c.args[0], c.args[1], c)
    return ret(st, old)


@model("mem::swap", "ptr::swap", "*::swap", "NonNull::swap")
def m_swap(eng, fr, st, c):
    a, b = st.load(c.args[0]), st.load(c.args[1])
    put(eng, fr, st, c.args[0], b, c)
    put(eng, fr, st, c.args[1], a, c)
    return ret(st)


@model("Cell::take", "mem::take")
def c_take(eng, fr, st, c):
    t = eng.p.ty(c.destty)
    if t.get("adt") == "std::option::Option":
        d = NONE
    elif t.get("s") in ("usize", "u8"):
        d = K(0)
    else:
        return None
    old = st.load(c.args[0])
    put(eng, fr, st, c.args[0], d, c)
    return ret(st, old)


@model("mem::drop")
def m_drop(eng, fr, st, c):
    if c.body is not None:
        return None
    if not eng.muted:
        eng.rule.on_drop(eng, fr, st, c.args[0], c.argtys[0], c.sp)
    if eng.unwind:
        return [("ret", st, UNIT), ("unwind", st.copy(), UNIT)]
    return ret(st)


@model("mem::forget")
def m_forget(eng, fr, st, c):
    return ret(st)


@model("mem::size_of", "mem::align_of", "mem::size_of_val")
def m_size(eng, fr, st, c):
    return ret(st, mk("sizeof", c.name, targ(c)))


def targ(c):
    g = c.k.get("args") or c.k.get("gargs") or ()
    return str(g)


@model("mem::transmute_copy")
def m_tc(eng, fr, st, c):
    return ret(st, st.load(c.args[0]))


@model("mem::transmute")
def m_t(eng, fr, st, c):
    return ret(st, c.args[0])


@model("*::add", "*::wrapping_add", "*::offset", "NonNull::add", "NonNull::offset", "*::wrapping_offset")
def p_add(eng, fr, st, c):
    return ret(st, addr_index(c.args[0], c.args[1]))


@model("*::sub", "*::wrapping_sub", "NonNull::sub")
def p_sub(eng, fr, st, c):
    return ret(st, addr_index(c.args[0], sub(K(0), c.args[1])))


@model("ptr::copy", "ptr::copy_nonoverlapping", "*::copy_to", "*::copy_to_nonoverlapping", "*::copy_from", "*::copy_from_nonoverlapping",
       "intrinsics::copy", "intrinsics::copy_nonoverlapping", "NonNull::copy_to", "NonNull::copy_to_nonoverlapping",
       "NonNull::copy_from", "NonNull::copy_from_nonoverlapping")
def p_copy(eng, fr, st, c):
    src, dst, n = c.args
    if "copy_from" in c.name:
        src, dst = dst, src
    if not eng.muted:
        eng.rule.on_copy(eng, fr, st, src, dst, n, c)
    if n is K(1):
        put(eng, fr, st, dst, st.load(src), c)
        return ret(st)
    r, q = root_path(dst)
    if q and isinstance(q[-1], tuple):
        q = q[:-1]
    forget_array(eng, st, adr(r, q), c.site)
    return ret(st)


def forget_array(eng, st, p, site):
    """the elements of the array at p become unknown"""
    r, q = root_path(p)
    if r.op == "loc" or fresh(r):
        v = st.load(p)
        eng.write(st, p, mk("hv", r, q, site, v if v.op in ("hv",) else UNINIT), site)
    else:
        key = next((e for e in reversed(q) if not isinstance(e, tuple)), None)
        if key is None:
            eng.write_havoc(st, p, site)
        else:
            if eng.log is not None:
                eng.log[("w", r, q)] = "w"
            st.clobber(frozenset([key]), site)


@model("ptr::drop_in_place", "*::drop_in_place", "NonNull::drop_in_place")
def p_dip(eng, fr, st, c):
    if not eng.muted:
        eng.rule.on_drop(eng, fr, st, c.args[0], eng.p.ty(c.argtys[0]).get("inner"), c.sp)
    if eng.unwind:
        return [("ret", st, UNIT), ("unwind", st.copy(), UNIT)]
    return ret(st)


# ------------------------------------------------------------------ allocation
@model("alloc::alloc", "alloc::alloc_zeroed", "alloc::realloc")
def a_alloc(eng, fr, st, c):
    p = mk("alloc", c.site)
    eng.tyof[p] = c.destty
    st.mem.pop(p, None)
    st.ver.pop(p, None)
    for k in [k for k in st.facts if k.op == "isnull" and k.a[0] is p]:
        del st.facts[k]
    return ret(st, p)


@model("alloc::dealloc")
def a_dealloc(eng, fr, st, c):
    return ret(st)


@model("alloc::handle_alloc_error")
def a_err(eng, fr, st, c):
    return []


@model("Layout::new", "Layout::align_to", "Layout::from_size_align", "Layout::array", "Layout::for_value", "Layout::from_size_align_unchecked",
       "Layout::pad_to_align", "Layout::size", "Layout::align", "Layout::extend")
def lay(eng, fr, st, c):
    g = mk("layout", c.name, targ(c), tuple(st.load(a) if a.op == "loc" else a for a in c.args))
    t = eng.p.ty(c.destty)
    if t.get("adt") == "std::result::Result":
        return ret(st, agg("std::result::Result", "Ok", (("Ok.0", g),)))
    return ret(st, g)


@model("Box::new")
def box_new(eng, fr, st, c):
    p = mk("alloc", c.site)
    eng.tyof[p] = c.destty
    st.mem.pop(p, None)
    st.ver.pop(p, None)
    eng.write(st, p, c.args[0], c.site)
    return ret(st, p)


# ------------------------------------------------------------------ Option / Result
def lz(d, *fs):
    if is_k(d):
        return None
    return mk("lz", d, tuple(fs))


def optval(st, v, d, f):
    """Option built from another option's discriminant"""
    if d is K(1):
        return some(f())
    if d is K(0):
        return NONE
    t = st.truth(eq(d, K(1)))
    if t == 1:
        return some(f())
    if t == 0:
        return NONE
    return mk("lz", d, (("Some.0", f()),))


@model("Option::as_ref", "Option::as_mut")
def o_as_ref(eng, fr, st, c):
    p = c.args[0]
    v = st.load(p)
    return ret(st, optval(st, v, discr(v), lambda: addr_field(p, "Some.0")))


@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def o_is(eng, fr, st, c):
    d = discr(st.load(c.args[0]))
    return ret(st, eq(d, K(1 if c.name in ("is_some", "is_err") else 0)))


@model("Option::or")
def o_or(eng, fr, st, c):
    a, b = c.args
    return fork_enum(st, a, 2, lambda s: b, lambda s: a)


@model("Option::take", "Option::replace")
def o_take(eng, fr, st, c):
    p = c.args[0]
    old = st.load(p)
    put(eng, fr, st, p, NONE if c.name == "take" else some(c.args[1]), c)
    return ret(st, old)


@model("Option::insert")
def o_insert(eng, fr, st, c):
    put(eng, fr, st, c.args[0], some(c.args[1]), c)
    return ret(st, addr_field(c.args[0], "Some.0"))


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Option::unwrap_unchecked", "Result::unwrap_unchecked")
def o_unwrap(eng, fr, st, c):
    v = c.args[0]
    good, name = (1, "Some.0") if "Option" in c.rpath else (0, "Ok.0")
    outs = []
    a = st.copy()
    if a.assume(eq(discr(v), K(good)), 1):
        outs.append(("ret", a, fld(v, name)))
    if eng.unwind and not c.name.endswith("unchecked"):
        b = st.copy()
        if b.assume(eq(discr(v), K(good)), 0):
            outs.append(("unwind", b, UNIT))
    return outs


@model("Option::copied", "Option::cloned")
def o_copied(eng, fr, st, c):
    v = c.args[0]
    d = discr(v)
    if v.op == "agg" and v.a[1] == "None":
        return ret(st, NONE)
    return ret(st, optval(st, v, d, lambda: st.load(fld(v, "Some.0"))))


def fork_enum(st, v, n, f0, f1):
    """cases on a two-variant enum"""
    outs = []
    for i, f in ((0, f0), (1, f1)):
        s = st.copy()
        if s.assume(eq(discr(v), K(i)), 1):
            outs.append((s, f(s)))
    return outs


@model("Option|Try::branch")
def o_branch(eng, fr, st, c):
    v = c.args[0]
    CF = "std::ops::ControlFlow"
    return fork_enum(st, v, 2, lambda s: agg(CF, "Break", (("Break.0", NONE),)),
                     lambda s: agg(CF, "Continue", (("Continue.0", fld(v, "Some.0")),)))


@model("Result|Try::branch")
def r_branch(eng, fr, st, c):
    v = c.args[0]
    CF = "std::ops::ControlFlow"
    R = "std::result::Result"
    return fork_enum(st, v, 2, lambda s: agg(CF, "Continue", (("Continue.0", fld(v, "Ok.0")),)),
                     lambda s: agg(CF, "Break", (("Break.0", agg(R, "Err", (("Err.0", fld(v, "Err.0")),))),)))


@model("Option|FromResidual::from_residual")
def o_resid(eng, fr, st, c):
    return ret(st, NONE)


@model("Result|FromResidual::from_residual")
def r_resid(eng, fr, st, c):
    return ret(st, agg("std::result::Result", "Err", (("Err.0", fld(c.args[0], "Err.0")),)))


@model("Result::ok")
def r_ok(eng, fr, st, c):
    v = c.args[0]
    return fork_enum(st, v, 2, lambda s: some(fld(v, "Ok.0")), lambda s: NONE)


@model("Option::ok_or")
def o_okor(eng, fr, st, c):
    v = c.args[0]
    R = "std::result::Result"
    return fork_enum(st, v, 2, lambda s: agg(R, "Err", (("Err.0", c.args[1]),)), lambda s: agg(R, "Ok", (("Ok.0", fld(v, "Some.0")),)))


@model("Option::unwrap_or")
def o_unwrap_or(eng, fr, st, c):
    v = c.args[0]
    return fork_enum(st, v, 2, lambda s: c.args[1], lambda s: fld(v, "Some.0"))


@model("Option|PartialEq::eq")
def o_eq(eng, fr, st, c):
    a, b = st.load(c.args[0]), st.load(c.args[1])
    if a.op == "agg" and b.op == "agg":
        if a.a[1] != b.a[1]:
            return ret(st, FALSE)
        if a.a[1] == "None":
            return ret(st, TRUE)
        return ret(st, eq(fld(a, "Some.0"), fld(b, "Some.0")))
    for x, y in ((a, b), (b, a)):
        if y.op == "agg" and y.a[1] == "None":
            return ret(st, eq(discr(x), K(0)))
    outs = []
    for x, y in ((a, b), (b, a)):
        if y.op == "agg" and y.a[1] == "Some":
            s0, s1 = st.copy(), st.copy()
            if s0.assume(eq(discr(x), K(0)), 1):
                outs.append((s0, FALSE))
            if s1.assume(eq(discr(x), K(1)), 1):
                outs.append((s1, eq(fld(x, "Some.0"), fld(y, "Some.0"))))
            return outs
    return ret(st, eq(a, b))


@model("Default::default", "()|Default::default", "Option|Default::default", "UnsafeCell|Default::default", "usize|Default::default")
def dflt(eng, fr, st, c):
    if c.body is not None:
        return None
    t = eng.p.ty(c.destty)
    while t.get("adt", "").split("::")[-1] in ("UnsafeCell", "Cell"):
        t = eng.p.ty(t["args"][0]) if t.get("args") and isinstance(t["args"][0], int) else {"s": "?"}
    if t["s"] == "()":
        return ret(st, UNIT)
    if t.get("adt") == "std::option::Option":
        return ret(st, NONE)
    if t["s"] in ("usize", "u8", "u64"):
        return ret(st, K(0))
    return None


# ------------------------------------------------------------------ numbers
@model("NonZero::new")
def nz_new(eng, fr, st, c):
    v = c.args[0]
    outs = []
    a, b = st.copy(), st.copy()
    if a.assume(eq(v, K(0)), 0):
        outs.append((a, some(v)))
    if b.assume(eq(v, K(0)), 1):
        outs.append((b, NONE))
    return outs


@model("u8::checked_add", "usize::checked_add", "NonZero::checked_add", "u16::checked_add")
def ck_add(eng, fr, st, c):
    r = add(c.args[0], c.args[1])
    if is_k(r):
        return ret(st, some(r))
    ov = mk("overflow", r, str(eng.p.ty(c.argtys[0])["s"]))
    a, b = st.copy(), st.copy()
    outs = []
    if a.assume(ov, 0):
        outs.append((a, some(r)))
    if b.assume(ov, 1):
        outs.append((b, NONE))
    return outs


@model("u8::checked_sub", "usize::checked_sub")
def ck_sub(eng, fr, st, c):
    x = lt(c.args[0], c.args[1])
    outs = []
    a, b = st.copy(), st.copy()
    if a.assume(x, 0):
        outs.append((a, some(sub(c.args[0], c.args[1]))))
    if b.assume(x, 1):
        outs.append((b, NONE))
    return outs


@model("usize::saturating_sub", "u8::saturating_sub")
def sat_sub(eng, fr, st, c):
    x = lt(c.args[0], c.args[1])
    outs = []
    a, b = st.copy(), st.copy()
    if a.assume(x, 0):
        outs.append((a, sub(c.args[0], c.args[1])))
    if b.assume(x, 1):
        outs.append((b, K(0)))
    return outs


@model("usize::wrapping_add", "u8::wrapping_add", "usize::unchecked_add", "u8::unchecked_add")
def w_add(eng, fr, st, c):
    return ret(st, add(c.args[0], c.args[1]))


@model("usize::wrapping_sub", "u8::wrapping_sub", "usize::unchecked_sub", "u8::unchecked_sub")
def w_sub(eng, fr, st, c):
    return ret(st, sub(c.args[0], c.args[1]))


@model("cmp::min", "cmp::max", "Ord::min", "Ord::max", "usize|Ord::min", "usize|Ord::max", "u8|Ord::min", "u8|Ord::max")
def mnmx(eng, fr, st, c):
    a, b = c.args
    if not intlike(eng, c.argtys[0], 0):
        return None
    x = lt(a, b)
    lo = "min" in c.name
    outs = []
    for v, r in ((1, a if lo else b), (0, b if lo else a)):
        s = st.copy()
        if s.assume(x, v):
            outs.append((s, r))
    return outs


@model("usize|From::from", "u8|From::from", "usize|Into::into", "u8|Into::into")
def num_from(eng, fr, st, c):
    return ret(st, c.args[0])


# ------------------------------------------------------------------ atomics
@model("Atomic::load", "Atomic::fetch_add", "Atomic::fetch_sub", "Atomic::store", "Atomic::swap", "atomic::fence")
def atom(eng, fr, st, c):
    if c.name in ("fence",):
        return ret(st)
    v = st.load(c.args[0])
    if c.name == "store":
        put(eng, fr, st, c.args[0], c.args[1], c)
        return ret(st)
    if c.name in ("fetch_add", "fetch_sub"):
        old = mk("atomic", c.name, v)
        put(eng, fr, st, c.args[0], add(v, c.args[1], 1 if c.name == "fetch_add" else -1), c)
        return ret(st, old)
    if c.name == "swap":
        put(eng, fr, st, c.args[0], c.args[1], c)
        return ret(st, v)
    return ret(st, mk("atomic", "load", v))


# ------------------------------------------------------------------ slices
@model("slice::from_raw_parts", "slice::from_raw_parts_mut", "ptr::slice_from_raw_parts", "ptr::slice_from_raw_parts_mut",
       "NonNull::slice_from_raw_parts")
def s_raw(eng, fr, st, c):
    return ret(st, slc(c.args[0], K(0), c.args[1]))


def slc(p, lo, hi):
    r, q = root_path(p)
    if q and isinstance(q[-1], tuple):
        p, lo, hi = adr(r, q[:-1]), add(lo, q[-1][1]), add(hi, q[-1][1])
    return mk("slc", p, lo, hi)


def slen(v):
    return sub(v.a[2], v.a[1]) if v.op == "slc" else mk("len", v)


@model("[]::len", "Vec::len", "[T]::len")
def s_len(eng, fr, st, c):
    if "Vec" in c.rpath:
        return ret(st, mk("ld", c.args[0], ("Vec.len",), st.version(c.args[0], ("Vec.len",))))
    return ret(st, slen(c.args[0]))


@model("[]::is_empty")
def s_empty(eng, fr, st, c):
    return ret(st, eq(slen(c.args[0]), K(0)))


@model("[]|Index::index", "[]|IndexMut::index_mut", "Vec|Index::index", "Vec|IndexMut::index_mut")
def s_index(eng, fr, st, c):
    s, i = c.args
    if "Vec" in c.rpath:
        s = mk("adr", s, ("Vec.buf",)) if s.op != "adr" else addr_field(s, "Vec.buf")
    t = eng.p.ty(c.argtys[1])
    if t["s"] == "usize":
        return ret(st, addr_index(s, i))
    lo0, hi0 = (s.a[1], s.a[2]) if s.op == "slc" else (K(0), mk("len", s))
    base = s.a[0] if s.op == "slc" else s
    a = t.get("adt", "").split("::")[-1]
    f = lambda n: fld(i, n)
    if a == "Range":
        return ret(st, slc(base, add(lo0, f("Range.start")), add(lo0, f("Range.end"))))
    if a == "RangeFrom":
        return ret(st, slc(base, add(lo0, f("RangeFrom.start")), hi0))
    if a == "RangeTo":
        return ret(st, slc(base, lo0, add(lo0, f("RangeTo.end"))))
    if a == "RangeFull":
        return ret(st, s)
    if a == "RangeInclusive":
        return ret(st, slc(base, add(lo0, f("Range.start")), add(lo0, f("Range.end"))))
    if a == "RangeToInclusive":
        return ret(st, slc(base, lo0, add(add(lo0, f("RangeToInclusive.end")), K(1))))
    return None


@model("[]::get_unchecked", "[]::get_unchecked_mut")
def s_getu(eng, fr, st, c):
    if eng.p.ty(c.argtys[1])["s"] == "usize":
        return ret(st, addr_index(c.args[0], c.args[1]))
    return s_index(eng, fr, st, c)


@model("[]::get", "[]::get_mut")
def s_get(eng, fr, st, c):
    if eng.p.ty(c.argtys[1])["s"] != "usize":
        return None
    s, i = c.args
    x = lt(i, slen(s))
    outs = []
    a, b = st.copy(), st.copy()
    if a.assume(x, 1):
        outs.append((a, some(addr_index(s, i))))
    if b.assume(x, 0):
        outs.append((b, NONE))
    return outs


@model("[]::last", "[]::first", "[]::last_mut", "[]::first_mut")
def s_last(eng, fr, st, c):
    s = c.args[0]
    n = slen(s)
    outs = []
    a, b = st.copy(), st.copy()
    if a.assume(eq(n, K(0)), 0):
        outs.append((a, some(addr_index(s, sub(n, K(1)) if c.name.startswith("last") else K(0)))))
    if b.assume(eq(n, K(0)), 1):
        outs.append((b, NONE))
    return outs


@model("[]::as_ptr", "[]::as_mut_ptr")
def s_ptr(eng, fr, st, c):
    s = c.args[0]
    return ret(st, addr_index(s, K(0)) if s.op == "slc" and s.a[1] is not K(0) else (s.a[0] if s.op == "slc" else s))


@model("[]::iter", "[]::iter_mut", "[]|IntoIterator::into_iter", "&|IntoIterator::into_iter", "&mut|IntoIterator::into_iter")
def s_iter(eng, fr, st, c):
    t = eng.p.ty(c.argtys[0])
    s = c.args[0]
    if t.get("k") != "ref":
        if s.op == "agg" and s.a[0] == "array" and len(s.a[2]) <= FEW:
            return ret(st, mk("arrit", K(0), tuple(x for _, x in s.a[2])))
        return None
    n = slen(s)
    if is_k(n) and 0 < n.a[0] <= FEW:
        return ret(st, mk("arrit", K(0), tuple(addr_index(s, K(i)) for i in range(n.a[0]))))
    return ret(st, mk("sliter", s))


# a few known values that are gone through one by one: the engine runs such loops iteration by iteration
FEW = 4


def few(eng, fr, st, c):
    """iterators over a few known values"""
    if not c.args:
        return None
    if c.name in ("enumerate", "rev", "copied", "cloned", "into_iter", "iter", "take", "skip", "zip") and c.args[0].op == "arrit":
        n, xs = c.args[0].a[0].a[0], c.args[0].a[1]
        xs = xs[n:]
        if c.name == "enumerate":
            xs = tuple(tup(K(i), x) for i, x in enumerate(xs))
        elif c.name == "rev":
            xs = xs[::-1]
        elif c.name in ("copied", "cloned"):
            xs = tuple(st.load(x) for x in xs)
        elif c.name in ("take", "skip"):
            if not is_k(c.args[1]):
                return None
            xs = xs[:c.args[1].a[0]] if c.name == "take" else xs[c.args[1].a[0]:]
        elif c.name == "zip":
            w = c.args[1]
            if w.op == "arrit":
                ys = w.a[1][w.a[0].a[0]:]
            elif w.op == "agg" and w.a[0] == "array":
                ys = tuple(x for _, x in w.a[2])
            elif w.op == "agg" and w.a[0] == "std::ops::Range" and is_k(fld(w, "Range.start")):
                ys = tuple(add(fld(w, "Range.start"), K(i)) for i in range(len(xs)))
            else:
                return None
            xs = tuple(tup(x, y) for x, y in zip(xs, ys))
        return ret(st, mk("arrit", K(0), xs))
    if c.name == "next" and c.args[0].op in ("loc", "adr", "param"):
        it = st.load(c.args[0])
        if it.op == "arrit":
            i = it.a[0].a[0]
            if i >= len(it.a[1]):
                return [(done(st, c.args[0]), NONE)]
            s = st.copy()
            s.store(c.args[0], mk("arrit", K(i + 1), it.a[1]))
            if eng.log is not None:
                r, q = root_path(c.args[0])
                eng.log.setdefault(("w", r, q), "few")
            return [(s, some(it.a[1][i]))]
    return None


@model("Iter|Iterator::next", "IterMut|Iterator::next")
def s_next(eng, fr, st, c):
    it = st.load(c.args[0])
    if "slice" not in c.rpath and it.op != "sliter":
        return None
    mark_iter(eng, c.args[0])
    s = it.a[0] if it.op == "sliter" else it
    n = slen(s)
    e = mk("elem", K(0), n, mk("it", c.args[0]))
    outs = []
    a = st.copy()
    if a.assume(eq(n, K(0)), 0):
        a.assume(lt(e, n), 1)
        a.assume(lt(e, K(0)), 0)
        outs.append((a, some(addr_index(s, e))))
    outs.append((done(st, c.args[0]), NONE))
    return outs


def done(st, p):
    b = st.copy()
    b.aux[("done", mk("it", p))] = 1
    return b


def mark_iter(eng, p):
    if eng.log is not None:
        r, q = root_path(p)
        eng.log.setdefault(("w", r, q), "iter")


# ------------------------------------------------------------------ ranges and iteration
@model("RangeInclusive::new")
def ri_new(eng, fr, st, c):
    if not intlike(eng, c.argtys[0], 0):
        return ret(st, agg("std::ops::RangeInclusive", "RangeInclusive",
                           (("RangeInclusive.start", c.args[0]), ("RangeInclusive.end", c.args[1]))))
    return ret(st, agg("std::ops::Range", "Range", (("Range.start", c.args[0]), ("Range.end", add(c.args[1], K(1))))))


@model("Range|Iterator::next", "RangeInclusive|Iterator::next", "Range|Iterator::next_back", "RangeInclusive|Iterator::next_back",
       "Range|DoubleEndedIterator::next_back", "RangeInclusive|DoubleEndedIterator::next_back")
def r_next(eng, fr, st, c):
    p = c.args[0]
    v = st.load(p)
    mark_iter(eng, p)
    lo, hi = fld(v, "Range.start"), fld(v, "Range.end")
    e = mk("elem", lo, hi, mk("it", p))
    outs = []
    a = st.copy()
    if a.assume(lt(lo, hi), 1):
        a.assume(lt(e, hi), 1)
        a.assume(lt(e, lo), 0)
        outs.append((a, some(e)))
    outs.append((done(st, p), NONE))
    return outs


@model("&mut|Iterator::next")
def m_next(eng, fr, st, c):
    return None


# Adapters over slices and ranges: what they yield is a function of a running element
def isiter(v):
    return v.op in ("sliter", "itad") or v.op == "agg" and v.a[0] == "std::ops::Range"


def it_len(v):
    if v.op == "sliter":
        return slen(v.a[0])
    if v.op == "agg":
        return sub(fld(v, "Range.end"), fld(v, "Range.start"))
    k = v.a[0]
    if k == "take":
        return v.a[2]
    if k == "skip":
        return sub(it_len(v.a[1]), v.a[2])
    if k == "zip" and v.a[2].op == "agg" and v.a[1].op != "agg":
        return it_len(v.a[2]) if is_k(fld(v.a[2], "Range.end")) is False else it_len(v.a[1])
    return it_len(v.a[1])


def it_at(eng, fr, st, c, v, e):
    """[(state, item)] for element e of an iterator"""
    if v.op == "sliter":
        return [(st, addr_index(v.a[0], e))]
    if v.op == "agg":
        return [(st, add(fld(v, "Range.start"), e))]
    k = v.a[0]
    if k == "rev":
        return it_at(eng, fr, st, c, v.a[1], sub(sub(it_len(v.a[1]), e), K(1)))
    if k == "skip":
        return it_at(eng, fr, st, c, v.a[1], add(e, v.a[2]))
    if k == "zip":
        out = []
        for s, x in it_at(eng, fr, st, c, v.a[1], e):
            for s2, y in it_at(eng, fr, s, c, v.a[2], e):
                out.append((s2, tup(x, y)))
        return out
    inner = it_at(eng, fr, st, c, v.a[1], e)
    if k == "take":
        return inner
    if k == "enumerate":
        return [(s, tup(e, x)) for s, x in inner]
    if k in ("copied", "cloned"):
        return [(s, s.load(x)) for s, x in inner]
    if k == "map":
        f = v.a[2]
        out = []
        for s, x in inner:
            body = closure_of(eng, c, f)
            if body is None:
                return None
            for o in eng.invoke(fr, s, c, body, f, tup(x)):
                if o[0] == "ret":
                    out.append((o[1], o[2]))
        return out
    return None


def tup(*xs):
    return agg("tuple", "tuple", tuple(("tuple.%d" % i, x) for i, x in enumerate(xs)))


@model("Iterator::take", "Iterator::skip", "Iterator::enumerate", "Iterator::zip", "Iterator::copied", "Iterator::cloned", "Iterator::rev",
       "iter::zip")
def i_adapt(eng, fr, st, c):
    v = c.args[0]
    if not isiter(v):
        return None
    if c.name in ("take", "skip"):
        return ret(st, mk("itad", c.name, v, c.args[1]))
    if c.name == "zip":
        w = c.args[1]
        if w.op != "sliter" and not isiter(w):
            return None
        return ret(st, mk("itad", "zip", v, w))
    if c.name == "rev" and v.op != "itad":
        return ret(st, v)
    return ret(st, mk("itad", c.name, v))


@model("Take|Iterator::next", "Skip|Iterator::next", "Enumerate|Iterator::next", "Zip|Iterator::next", "Copied|Iterator::next",
       "Cloned|Iterator::next", "Rev|Iterator::next")
def ad_next(eng, fr, st, c):
    p = c.args[0]
    v = st.load(p)
    if v.op == "sliter":
        return s_next(eng, fr, st, c)
    if v.op == "agg" and v.a[0] == "std::ops::Range":
        return r_next(eng, fr, st, c)
    if v.op != "itad":
        return None
    mark_iter(eng, p)
    n = it_len(v)
    e = mk("elem", K(0), n, mk("it", p))
    outs = []
    a = st.copy()
    if a.assume(lt(K(0), n), 1):
        a.assume(lt(e, n), 1)
        a.assume(lt(e, K(0)), 0)
        r = it_at(eng, fr, a, c, v, e)
        if r is None:
            return None
        outs += [(s, some(x)) for s, x in r]
    outs.append((done(st, p), NONE))
    return outs


@model("for_each", "any", "all", "find", "position", "Iterator::for_each", "Iterator::any", "Iterator::all", "Iterator::find",
       "Iterator::position")
def i_each(eng, fr, st, c):
    n = c.name
    if n == "for_each":
        v, p = c.args[0], mk("loc", mk("frame", "iter", fr.key, c.site), 0)
    else:
        p = c.args[0]
        v = st.load(p)
    f = c.args[1]
    if not isiter(v) or f.op != "agg" or not f.a[0].startswith("closure:"):
        return None
    body = closure_of(eng, c, f)
    if body is None:
        return None
    st = st.copy()
    env = f
    if eng.p.ty(body.locals[1][0])["k"] == "ref":
        env = mk("loc", mk("frame", "env", fr.key, c.site), 0)
        eng.write(st, env, f, c.site)
    ln = it_len(v)
    e = mk("elem", K(0), ln, mk("it", p)) if v.op != "agg" else mk("elem", fld(v, "Range.start"), fld(v, "Range.end"), mk("it", p))
    e0 = e if v.op != "agg" else sub(e, fld(v, "Range.start"))

    def nxt(s):
        out = []
        a = s.copy()
        if a.assume(lt(K(0), ln), 1):
            a.assume(lt(e0, ln), 1)
            a.assume(lt(e0, K(0)), 0)
            r = it_at(eng, fr, a, c, v, e0)
            if r is None:
                return None
            out += r
        return out + [(done(s, p), None)]

    def one(s, x):
        if n == "find":
            tmp = mk("loc", mk("frame", "item", fr.key, c.site), 0)
            s = s.copy()
            eng.write(s, tmp, x, c.site)
            arg = tmp
        else:
            arg = x
        out = []
        for kind, s2, r in eng.invoke(fr, s, c, body, env, tup(arg)):
            if kind != "ret" or n == "for_each":
                out.append((kind, s2, None))
                continue
            stop = {"any": 1, "all": 0, "find": 1, "position": 1}[n]
            res = {"any": TRUE, "all": FALSE, "find": some(x), "position": some(e0)}[n]
            for w in (0, 1):
                s3 = s2.copy()
                if s3.assume(r, w):
                    out.append(("ret", s3, res if w == stop else None))
        return out

    if nxt(st) is None:
        return None
    end = {"for_each": UNIT, "any": FALSE, "all": TRUE}.get(n, NONE)
    return [("ret" if k == "edge" else k, s, UNIT if k != "edge" else end if t is None else t)
            for k, s, t in eng.each(fr, st, c, nxt, one)]


def closure_of(eng, c, f):
    """the body of a closure value passed to a library call"""
    key = f.a[0][len("closure:"):]
    if c.body is None:
        return None
    memo = eng.p.__dict__.setdefault("closures_below", {})
    got = memo.get((c.body.id, key))
    if got is None:
        seen, todo, got = {c.body.id}, [c.body], []
        while todo:
            b = todo.pop()
            if b.kind == "Closure" and b.key == key:
                got.append(b)
            elif b is c.body or b.crate != "sherman" or b.kind in ("Shim", "Closure"):
                for i in eng.p.callees(b):
                    if i not in seen:
                        seen.add(i)
                        todo.append(eng.p.bodies[i])
        memo[(c.body.id, key)] = got
    return got[0] if len(got) == 1 else None


@model("Range::contains", "RangeInclusive::contains")
def r_contains(eng, fr, st, c):
    r = st.load(c.args[0])
    x = st.load(c.args[1])
    if not intlike(eng, c.argtys[1], 1):
        return None
    a = neg(lt(x, fld(r, "Range.start")))
    b = lt(x, fld(r, "Range.end"))
    if a is FALSE or b is FALSE:
        return ret(st, FALSE)
    if a is TRUE:
        return ret(st, b)
    if b is TRUE:
        return ret(st, a)
    return ret(st, mk("and", a, b))


# ------------------------------------------------------------------ RefCell
@model("RefCell::new")
def rc_new(eng, fr, st, c):
    return ret(st, agg("std::cell::RefCell", "RefCell", (("RefCell.value", c.args[0]),)))


@model("RefCell::borrow", "RefCell::borrow_mut", "RefCell::try_borrow")
def rc_borrow(eng, fr, st, c):
    if c.name == "try_borrow":
        return None
    p = addr_field(c.args[0], "RefCell.value")
    n = "Ref" if c.name == "borrow" else "RefMut"
    return ret(st, agg("std::cell::" + n, n, ((n + ".value", p), (n + ".borrow", mk("cst", "guard", c.args[0])))))


@model("RefCell::take")
def rc_take(eng, fr, st, c):
    p = addr_field(c.args[0], "RefCell.value")
    old = st.load(p)
    put(eng, fr, st, p, mk("dflt", c.destty), c)
    return ret(st, old)


@model("RefCell::get_mut", "RefCell::as_ptr")
def rc_gm(eng, fr, st, c):
    return ret(st, addr_field(c.args[0], "RefCell.value"))


@model("RefCell::into_inner")
def rc_into(eng, fr, st, c):
    return ret(st, fld(c.args[0], "RefCell.value"))


@model("Ref|Deref::deref", "RefMut|Deref::deref", "RefMut|DerefMut::deref_mut")
def ref_deref(eng, fr, st, c):
    g = st.load(c.args[0])
    n = "Ref" if c.rpath.find("RefMut") < 0 else "RefMut"
    return ret(st, fld(g, n + ".value"))


@model("BorrowRefMut::new", "BorrowRef::new", "BorrowRef|Clone::clone")
def brw(eng, fr, st, c):
    return None


# ------------------------------------------------------------------ Vec
@model("Vec::new", "Vec::with_capacity")
def v_new(eng, fr, st, c):
    return ret(st, agg("std::vec::Vec", "Vec", (("Vec.len", K(0)),)))


@model("Vec|Deref::deref", "Vec|DerefMut::deref_mut", "Vec::as_slice", "Vec::as_mut_slice")
def v_deref(eng, fr, st, c):
    p = c.args[0]
    n = st.load(addr_field(p, "Vec.len"))
    return ret(st, slc(addr_field(p, "Vec.buf"), K(0), n))


@model("Vec::push")
def v_push(eng, fr, st, c):
    p = c.args[0]
    n = st.load(addr_field(p, "Vec.len"))
    put(eng, fr, st, addr_index(addr_field(p, "Vec.buf"), n), c.args[1], c)
    put(eng, fr, st, addr_field(p, "Vec.len"), add(n, K(1)), c)
    return ret(st)


@model("Vec::pop")
def v_pop(eng, fr, st, c):
    p = c.args[0]
    n = st.load(addr_field(p, "Vec.len"))
    outs = []
    a, b = st.copy(), st.copy()
    if a.assume(eq(n, K(0)), 0):
        v = a.load(addr_index(addr_field(p, "Vec.buf"), sub(n, K(1))))
        put(eng, fr, a, addr_field(p, "Vec.len"), sub(n, K(1)), c)
        outs.append((a, some(v)))
    if b.assume(eq(n, K(0)), 1):
        outs.append((b, NONE))
    return outs


# ------------------------------------------------------------------ divergence and formatting
@model("hint::unreachable_unchecked", "intrinsics::unreachable")
def unreach(eng, fr, st, c):
    if not eng.muted:
        eng.rule.on_unreachable(eng, fr, st, c)
    return []


@model("rt::panic_fmt", "panicking::panic", "panicking::panic_fmt", "panicking::assert_failed", "panicking::panic_display",
       "panicking::panic_nounwind", "panicking::unreachable_display", "panicking::panic_explicit", "rt::begin_panic",
       "process::abort", "panicking::panic_str_2015", "option::unwrap_failed", "option::expect_failed",
       "resume_unwind", "panic::resume_unwind")
def panics(eng, fr, st, c):
    if not eng.muted:
        eng.rule.on_panic(eng, fr, st, c)
    return [("unwind", st, UNIT)] if eng.unwind and c.name != "abort" else []


@model("Argument::new_debug", "Argument::new_display", "Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::new",
       "panicking::todo_default_msg", "panicking::unreachable_default_msg", "Arguments::new_const", "Arguments::new_v1")
def fmt(eng, fr, st, c):
    return ret(st, mk("cst", "fmt"))


# ------------------------------------------------------------------ closures behind references
@model("&mut|FnMut::call_mut", "&|Fn::call", "&|FnMut::call_mut", "FnMut::call_mut", "FnOnce::call_once", "Fn::call")
def fwd(eng, fr, st, c):
    if c.body is not None:
        return None
    v = c.args[0]
    for _ in range(3):
        if v.op == "dyn":
            break
        if v.op in ("loc", "adr") and root_path(v)[0].op == "loc":
            w = st.load(v)
            if w is UNINIT:
                break
            v = w
        else:
            break
    if v.op == "dyn" and v.a[1] in eng.p.bodies:
        return eng.invoke(fr, st, c, eng.p.bodies[v.a[1]], v.a[0], c.args[1])
    return None


@model("[]::binary_search", "[T]::binary_search")
def s_bsearch(eng, fr, st, c):
    """sorted positions (for rules about searching): where the target is, or between which it would be"""
    if not getattr(eng.rule, "SEARCHES", False) or tail(eng.p.ty(c.argtys[1])["s"].lstrip("&")) not in USER:
        return None
    s, x = c.args[0], st.load(c.args[1])
    lo, hi = (s.a[1], s.a[2]) if s.op == "slc" else (K(0), mk("len", s))
    base = s.a[0] if s.op == "slc" else s
    at = lambda t, i: t.load(addr_index(base, add(lo, i)))
    R = "std::result::Result"
    n = sub(hi, lo)
    outs = []
    i = mk("call", c.site, "binary_search.found", tuple(c.args))
    t = st.copy()
    k = at(t, i)
    if t.assume(lt(i, n), 1) and t.assume(mk("ueq", *sorted((k, x), key=lambda y: y.id)), 1):
        outs.append((t, agg(R, "Ok", (("Ok.0", i),))))
    t = st.copy()
    if t.assume(lt(K(0), n), 1):
        if t.assume(mk("ult", x, at(t, K(0))), 1):
            outs.append((t, agg(R, "Err", (("Err.0", K(0)),))))
    t = st.copy()
    if t.assume(eq(n, K(0)), 1):
        outs.append((t, agg(R, "Err", (("Err.0", K(0)),))))
    for last in (False, True):
        i = mk("call", c.site, "binary_search.after" if last else "binary_search.between", tuple(c.args))
        t = st.copy()
        if t.assume(lt(K(0), i), 1) and (t.assume(eq(i, n), 1) if last else t.assume(lt(i, n), 1)) and \
                t.assume(mk("ult", at(t, sub(i, K(1))), x), 1) and (last or t.assume(mk("ult", x, at(t, i)), 1)):
            outs.append((t, agg(R, "Err", (("Err.0", i),))))
    return outs

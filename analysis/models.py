"""Models of the std functions the crate uses (and may plausibly use after a refactoring)."""
from engine import *

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def clokey(f):
    """Identity of a function value that does not depend on the values it captures."""
    if f.op == "agg" and isinstance(f.a[0], tuple):
        return f.a[0][1]
    if f.op == "fn":
        return f.a[0]
    return f.op


# ------------------------------------------------------------------ identity-like
@model("Deref::deref", "DerefMut::deref_mut", "Borrow::borrow", "BorrowMut::borrow_mut", "ToOwned::to_owned", "String::as_str", "String::into_bytes",
       "str::as_bytes", "String::as_bytes", "Vec::as_slice", "Vec::as_mut_slice", "String::into_boxed_str", "Cow::into_owned", "Pin::new", "Pin::new_unchecked",
       "Pin::as_mut", "Pin::get_mut", "Pin::get_unchecked_mut", "Pin::get_ref", "Pin::into_inner", "Pin::as_ref", "Box::new", "Box::pin", "hint::must_use",
       "IntoFuture::into_future", "Box::into_inner", "slice::to_vec", "slice::into_vec", "String::as_mut_str", "str::as_str", "Box::leak",
       "Option::as_slice", "Path::new", "Arc::new", "Rc::new", "Vec::into_boxed_slice", "String::leak", "hint::black_box", "convert::identity",
       "Vec::into_iter", "String::from_utf8_unchecked", "converts::from_utf8_unchecked", "Chars::as_str", "Cow::to_mut", "mem::drop_in_place", "boxed::box_assume_init_into_vec_unsafe",
       "Box::assume_init", "str::into_string", "str::into_boxed_bytes", "Box::into_pin", "Cow::deref", "MaybeUninit::new", "MaybeUninit::assume_init")
def m_ident(c):
    if c.name in ("String::from_utf8_unchecked", "converts::from_utf8_unchecked"):
        c.E.record_effect(c, "unchecked")
    if c.name in ("ToOwned::to_owned", "slice::to_vec", "Cow::into_owned"):
        return [(c.E.snap1(c.st, c.args[0]), c.st)]
    if c.name == "Chars::as_str":
        return None
    if c.name in ("Deref::deref", "DerefMut::deref_mut", "Pin::as_mut", "Pin::as_ref") and c.tys[0][0] == "ref":
        p = c.tys[0][1]
        if p[0] == "adt" and p[1] == "core::pin::Pin" and p[2]:
            p = p[2][0]
        if p[0] == "ref":  # a pointer held in a cell: the result points where it points
            return [(c.load(0), c.st)]
    return [(c.args[0], c.st)]


@model("Clone::clone", "Option::cloned", "Option::copied", "ToOwned::clone_into")
def m_clone(c):
    return [(c.E.snap1(c.st, c.args[0]), c.st)]


@model("AsRef::as_ref", "AsMut::as_mut", "Cow::as_ref", "Cow::borrow")
def m_asref(c):
    t = c.tys[0]
    base = t
    while base[0] == "ref":
        base = base[1]
    dst = c.targs[-1] if c.targs else None
    if base[0] == "prim" or base[0] == "slice" or (base[0] == "adt" and base[1].split("::")[-1] in ("String", "Vec", "Cow", "Box", "OsStr", "Path", "PathBuf")):
        return [(c.args[0], c.st)]
    if dst is not None and dst == base:
        return [(c.args[0], c.st)]
    if base[0] == "param" and c.name != "Cow::as_ref":
        return [(c.args[0], c.st)]  # `impl AsRef<X>`: the argument stands for the X it gives
    return None


@model("Box::new_uninit", "MaybeUninit::uninit")
def m_uninit(c):
    return [(UNINIT, c.st)]


@model("String::new", "String::with_capacity")
def m_string_new(c):
    if c.name.endswith("with_capacity"):
        c.panic("std:String::with_capacity", [c.snap(0)])
    return [(S(""), c.st)]


@model("Vec::new", "Vec::with_capacity", "VecDeque::new")
def m_vec_new(c):
    if c.name.endswith("with_capacity"):
        c.panic("std:Vec::with_capacity", [c.snap(0)])
    return [(T("agg", "vec", None, ()), c.st)]


@model("Default::default")
def m_default(c):
    t = c.targs[0] if c.targs else c.dty
    if t[0] == "adt":
        n = t[1].split("::")[-1]
        if n == "Option":
            return [(NONE, c.st)]
        if n == "String":
            return [(S(""), c.st)]
        if n == "Vec":
            return [(T("agg", "vec", None, ()), c.st)]
    if t[0] == "prim" and t[1] in ("bool", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "char"):
        return [(I(0), c.st)]
    if t[0] == "prim" and t[1] in ("f32", "f64"):
        return [(T("flt", 0.0), c.st)]
    return None


# ------------------------------------------------------------------ Option / Result
def enum_of(c, i=0):
    t = c.tys[i]
    while t[0] == "ref" or (t[0] == "adt" and t[1] in ("core::pin::Pin", "alloc::boxed::Box") and t[2]):
        t = t[1] if t[0] == "ref" else t[2][0]
    if t[0] == "adt" and t[1] in STD_ENUMS:
        return t[1]
    n = c.name.split("::")[0]
    return {"Option": OPT, "Result": RES}.get(n)


@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err", "Poll::is_ready", "Poll::is_pending")
def m_is(c):
    want = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err", "is_ready": "Ready", "is_pending": "Pending"}[c.name.split("::")[1]]
    adt = {"Option": OPT, "Result": RES, "Poll": POLL}[c.name.split("::")[0]]
    return [(I(int(n == want)), s) for n, p, s in c.E.split(c.st, c.load(0), adt)]


@model("Option::is_some_and", "Option::is_none_or", "Result::is_ok_and")
def m_is_and(c):
    adt = OPT if c.name[0] == "O" else RES
    pos = "Some" if adt == OPT else "Ok"
    out = []
    for n, p, s in c.E.split(c.st, c.args[0], adt):
        if n == pos:
            out += c.apply(s, c.args[1], [p[0]])
        else:
            out.append((I(int(c.name.endswith("none_or"))), s))
    return out


@model("Option::as_ref", "Option::as_mut", "Result::as_ref", "Result::as_mut", "Option::as_deref", "Option::as_deref_mut", "Result::as_deref", "Option::as_pin_mut")
def m_as_ref(c):
    E, adt = c.E, enum_of(c)
    out = []
    l = E.deref(c.st, c.args[0])
    for n, p, s in E.split(c.st, c.load(0), adt):
        if not p:
            out.append((T("agg", adt, n, ()), s))
        elif l is None:
            out.append((T("agg", adt, n, p), s))
        else:
            out.append((T("agg", adt, n, (E.mkref(l[0], l[1] + (("f", 0, n),)),)), s))
    return out


@model("Option::map", "Result::map", "Option::and_then", "Result::and_then", "Result::map_err", "Result::or_else", "Option::or_else", "Option::unwrap_or_else",
       "Result::unwrap_or_else", "Option::map_or", "Option::map_or_else", "Result::map_or", "Result::map_or_else", "Option::ok_or_else", "Option::ok_or", "Option::filter", "Option::unwrap_or",
       "Result::unwrap_or", "Option::unwrap_or_default", "Result::unwrap_or_default", "Option::or", "Result::or", "Option::and", "Result::and", "Result::ok",
       "Result::err", "Option::flatten", "Option::transpose", "Result::transpose", "Option::zip", "Option::inspect", "Result::inspect", "Result::inspect_err", "Option::xor", "Result::flatten")
def m_comb(c):
    E = c.E
    ty, op = c.name.split("::")
    adt = OPT if ty == "Option" else RES
    mk = lambda n, *p: T("agg", adt, n, tuple(p))
    pos, neg = ("Some", "None") if adt == OPT else ("Ok", "Err")
    out = []
    for n, p, s in E.split(c.st, c.args[0], adt):
        if op == "map":
            if n == pos:
                out += [(mk(pos, v), s2) for v, s2 in c.apply(s, c.args[1], [p[0]])]
            else:
                out.append((mk(n, *p), s))
        elif op == "and_then":
            if n == pos:
                out += c.apply(s, c.args[1], [p[0]])
            else:
                out.append((mk(n, *p), s))
        elif op == "map_err":
            if n == "Err":
                out += [(mk("Err", v), s2) for v, s2 in c.apply(s, c.args[1], [p[0]])]
            else:
                out.append((mk(n, *p), s))
        elif op == "or_else":
            if n == neg:
                out += c.apply(s, c.args[1], list(p))
            else:
                out.append((mk(n, *p), s))
        elif op == "unwrap_or_else":
            if n == pos:
                out.append((p[0], s))
            else:
                out += c.apply(s, c.args[1], list(p))
        elif op == "map_or":
            if n == pos:
                out += c.apply(s, c.args[2], [p[0]])
            else:
                out.append((c.args[1], s))
        elif op == "map_or_else":
            if n == pos:
                out += c.apply(s, c.args[2], [p[0]], 1)
            else:
                out += c.apply(s, c.args[1], list(p), 2)
        elif op in ("ok_or_else", "ok_or"):
            if n == pos:
                out.append((ok(p[0]), s))
            elif op == "ok_or":
                out.append((err(c.args[1]), s))
            else:
                out += [(err(v), s2) for v, s2 in c.apply(s, c.args[1], [])]
        elif op == "filter":
            if n == pos:
                cell = E.tempcell(c.fr, s, c.site, "flt", p[0])
                for b, s2 in c.apply(s, c.args[1], [cell]):
                    for tv, s3 in E.fork_bool(s2, b):
                        out.append((some(p[0]) if tv else NONE, s3))
            else:
                out.append((NONE, s))
        elif op == "unwrap_or":
            out.append((p[0] if n == pos else c.args[1], s))
        elif op == "unwrap_or_default":
            if n == pos:
                out.append((p[0], s))
            else:
                t = c.dty
                c2 = Call(E, c.fr, s, "Default::default", None, (t,), None, None, [], [], t, c.site, c.f)
                o = m_default(c2)
                out += o if o else [(T("call", "Default::default", T("ty", E.P.tystr(t), "")), s)]
        elif op == "or":
            out.append((mk(n, *p) if n == pos else c.args[1], s))
        elif op == "and":
            out.append((c.args[1] if n == pos else mk(n, *p), s))
        elif op == "ok":
            out.append((some(p[0]) if n == "Ok" else NONE, s))
        elif op == "err":
            out.append((some(p[0]) if n == "Err" else NONE, s))
        elif op == "flatten":
            out.append((p[0] if n == pos else mk(n, *p), s))
        elif op == "transpose":
            if adt == OPT:
                if n == "None":
                    out.append((ok(NONE), s))
                else:
                    for n2, p2, s2 in E.split(s, p[0], RES):
                        out.append((ok(some(p2[0])) if n2 == "Ok" else err(p2[0]), s2))
            else:
                if n == "Err":
                    out.append((some(err(p[0])), s))
                else:
                    for n2, p2, s2 in E.split(s, p[0], OPT):
                        out.append((some(ok(p2[0])) if n2 == "Some" else NONE, s2))
        elif op in ("inspect", "inspect_err"):
            if (n == pos) == (op == "inspect"):
                cell = E.tempcell(c.fr, s, c.site, "ins", p[0])
                out += [(mk(n, *p), s2) for _, s2 in c.apply(s, c.args[1], [cell])]
            else:
                out.append((mk(n, *p), s))
        elif op == "zip":
            if n == "None":
                out.append((NONE, s))
            else:
                for n2, p2, s2 in E.split(s, c.args[1], OPT):
                    out.append((some(T("agg", "tuple", None, (p[0], p2[0]))) if n2 == "Some" else NONE, s2))
        elif op == "xor":
            for n2, p2, s2 in E.split(s, c.args[1], OPT):
                if n == "Some" and n2 == "None":
                    out.append((some(p[0]), s2))
                elif n == "None" and n2 == "Some":
                    out.append((some(p2[0]), s2))
                else:
                    out.append((NONE, s2))
    return out


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Result::unwrap_err", "Result::expect_err")
def m_unwrap(c):
    E = c.E
    adt = OPT if c.name.startswith("Option") else RES
    want = "Some" if adt == OPT else ("Err" if c.name.endswith("_err") else "Ok")
    out = []
    for n, p, s in E.split(c.st, c.args[0], adt):
        if n == want:
            out.append((p[0], s))
        else:
            c.panic("std:" + c.name, [E.snap(s, c.args[0])], s)
    return out


@model("Option::unwrap_unchecked", "Result::unwrap_unchecked")
def m_unwrap_unchecked(c):
    adt = OPT if c.name.startswith("Option") else RES
    return [(p[0], s) for n, p, s in c.E.split(c.st, c.args[0], adt) if n in ("Some", "Ok")]


@model("Option::take", "mem::take", "Option::replace", "mem::replace", "Option::insert", "Option::get_or_insert_with", "Option::get_or_insert", "Option::take_if")
def m_take(c):
    E = c.E
    l = E.deref(c.st, c.args[0])
    if l is None:
        return None
    old = E.read(c.st, *l)
    s = c.st.copy()
    site = (c.fr.key, c.site[1])
    op = c.name.split("::")[1]
    if c.name == "Option::take":
        E.write(s, l[0], l[1], NONE, site, c.fr.ctx)
        return [(old, s)]
    if c.name == "mem::take":
        t = c.tys[0][1]
        c2 = Call(E, c.fr, s, "Default::default", None, (t,), None, None, [], [], t, c.site, c.f)
        o = m_default(c2)
        if not o:
            o = E.invoke_trait(c.fr, s, "core::default::Default", "default", (t,), [], [], t, c.site)
        res = []
        for d, s2 in (o or [(T("call", "Default::default", T("ty", E.P.tystr(t), "")), s)]):
            s2 = s2.copy()
            E.write(s2, l[0], l[1], d, site, c.fr.ctx)
            res.append((old, s2))
        return res
    if op == "replace":
        v = c.args[1]
        if c.name == "Option::replace":
            v = some(v)
        E.write(s, l[0], l[1], v, site, c.fr.ctx)
        return [(old, s)]
    if op == "insert":
        E.write(s, l[0], l[1], some(c.args[1]), site, c.fr.ctx)
        return [(E.mkref(l[0], l[1] + (("f", 0, "Some"),)), s)]
    if op in ("get_or_insert_with", "get_or_insert"):
        out = []
        for n, p, s2 in E.split(c.st, old, OPT):
            ref = E.mkref(l[0], l[1] + (("f", 0, "Some"),))
            if n == "Some":
                out.append((ref, s2))
            else:
                vs = c.apply(s2, c.args[1], []) if op.endswith("with") else [(c.args[1], s2)]
                for v, s3 in vs:
                    s3 = s3.copy()
                    E.write(s3, l[0], l[1], some(v), site, c.fr.ctx)
                    out.append((ref, s3))
        return out
    return None


@model("mem::swap")
def m_swap(c):
    E = c.E
    a, b = E.deref(c.st, c.args[0]), E.deref(c.st, c.args[1])
    if a is None or b is None:
        return None
    s = c.st.copy()
    va, vb = E.read(s, *a), E.read(s, *b)
    site = (c.fr.key, c.site[1])
    E.write(s, a[0], a[1], vb, site, c.fr.ctx)
    E.write(s, b[0], b[1], va, site, c.fr.ctx)
    return [(UNIT, s)]


@model("mem::drop", "mem::forget")
def m_drop(c):
    return [(UNIT, c.st)]


@model("Try::branch")
def m_branch(c):
    E = c.E
    adt = enum_of(c)
    if adt is None:
        return None
    out = []
    t = c.tys[0]
    for n, p, s in E.split(c.st, c.args[0], adt):
        if adt == RES:
            out.append((T("agg", CF, "Continue", (p[0],)) if n == "Ok" else T("agg", CF, "Break", (err(p[0]),)), s))
        elif adt == OPT:
            out.append((T("agg", CF, "Continue", (p[0],)) if n == "Some" else T("agg", CF, "Break", (NONE,)), s))
        elif adt == POLL:
            # Poll<Result<T,E>>: Ready(Ok(v)) -> Continue(Ready(v)); Ready(Err(e)) -> Break(Err(e)); Pending -> Continue(Pending)
            if n == "Pending":
                out.append((T("agg", CF, "Continue", (T("agg", POLL, "Pending", ()),)), s))
            else:
                for n2, p2, s2 in E.split(s, p[0], RES):
                    out.append((T("agg", CF, "Continue", (T("agg", POLL, "Ready", (p2[0],)),)) if n2 == "Ok" else T("agg", CF, "Break", (err(p2[0]),)), s2))
        else:
            return None
    return out


@model("FromResidual::from_residual")
def m_residual(c):
    E = c.E
    dst = c.dty
    if dst[0] != "adt":
        return None
    if dst[1] == OPT:
        return [(NONE, c.st)]
    wrap = lambda v: err(v)
    rt = dst
    if dst[1] == POLL:
        rt = dst[2][0]
        wrap = lambda v: T("agg", POLL, "Ready", (err(v),))
    if rt[0] == "adt" and rt[1] == RES:
        out = []
        src = c.tys[0]
        et = src[2][1] if src[0] == "adt" and src[1] == RES else None
        ft = rt[2][1]
        for n, p, s in E.split(c.st, c.args[0], RES):
            if n == "Err":
                for v, s2 in E.convert(c, s, p[0], et, ft):
                    out.append((wrap(v), s2))
        return out
    return None


# ------------------------------------------------------------------ conversions
@model("Into::into", "From::from")
def m_into(c):
    src = c.tys[0]
    dst = c.dty
    o = c.E.convert(c, c.st, c.args[0], src, dst)
    return o


@model("TryInto::try_into", "TryFrom::try_from")
def m_try_into(c):
    E = c.E
    src = c.tys[0]
    if c.dty[0] == "adt" and c.dty[1] == RES:
        t = c.dty[2][0]
    else:
        return None
    if c.name == "TryInto::try_into" and len(c.targs) >= 2:
        t = c.targs[1]
    elif len(c.targs) >= 1 and c.name == "TryFrom::try_from":
        t = c.targs[0]
    o = E.invoke_trait(c.fr, c.st, "core::convert::TryFrom", "try_from", (t, src), [c.args[0]], [src], c.dty, c.site)
    if o is not None:
        return o
    o = E.invoke_trait(c.fr, c.st, "core::convert::From", "from", (t, src), [c.args[0]], [src], t, c.site)
    if o is not None:
        return [(ok(v), s) for v, s in o]
    if src == t:
        return [(ok(c.args[0]), c.st)]
    if src[0] == "prim" and t[0] == "prim" and src[1][0] in "iu" and t[1][0] in "iu":
        v = c.args[0]
        if v.op == "int":
            lo, hi = int_range(t[1])
            return [(ok(v), c.st)] if lo <= v.a[0] <= hi else [(err(T("call", "TryFromIntError")), c.st)]
        s1, s2 = c.st.copy(), c.st.copy()
        fits = T("fits", v, E.P.tystr(src), E.P.tystr(t))
        out = []
        if E.assume(s1, fits, TRUE):
            out.append((ok(T("cast", "IntToInt", v, E.P.tystr(src), E.P.tystr(t))), s1))
        if E.assume(s2, fits, FALSE):
            out.append((err(T("call", "TryFromIntError")), s2))
        return out
    # &[T] -> [T; N] and friends stay opaque
    return None


@model("str::parse", "FromStr::from_str")
def m_parse(c):
    E = c.E
    t = c.dty[2][0] if c.dty[0] == "adt" and c.dty[1] == RES else None
    if t is None:
        return None
    if c.name == "str::parse" and c.targs:
        t = c.targs[-1]
    elif c.targs:
        t = c.targs[0]
    o = E.invoke_trait(c.fr, c.st, "core::str::traits::FromStr", "from_str", (t,), [c.args[0]], [c.tys[0]], c.dty, c.site)
    if o is not None:
        return o
    if t[0] == "adt" and t[1].endswith("String"):
        return [(ok(E.snap1(c.st, c.args[0])), c.st)]
    v = c.snap(0)
    return [(T("call", "str::parse", v, T("ty", E.P.tystr(t), "")), c.st)]


@model("ToString::to_string", "SpecToString::spec_to_string")
def m_to_string(c):
    E = c.E
    t = c.tys[0]
    return [(v, s) for v, s in E.display(c.fr, c.st, c.args[0], t, "display", None, c.site)]


# ------------------------------------------------------------------ comparison
@model("PartialEq::eq", "PartialEq::ne")
def m_eq(c):
    E = c.E
    neg = c.name.endswith("ne")
    a, b = c.args[0], c.args[1]
    ta, tb = c.tys[0], c.tys[1]
    while ta[0] == "ref" and ta[1][0] == "ref" and tb[0] == "ref" and tb[1][0] == "ref":
        a, b = E.load(c.st, a), E.load(c.st, b)
        ta, tb = ta[1], tb[1]
    ba, bb = strip_ref(ta), strip_ref(tb)
    if ba == bb and E.P.is_local_adt(ba):
        o = E.invoke_trait(c.fr, c.st, "core::cmp::PartialEq", "eq", (ba, bb), [a, b], [ta, tb], ("prim", "bool"), c.site)
        if o is not None:
            return [(E.notv(v) if neg else v, s) for v, s in o]
    x, y = E.snap(c.st, a), E.snap(c.st, b)
    if ba[0] == "adt" and ba[1] == OPT and x.op in ("agg",) or y.op == "agg" and y.a[0] == OPT:
        # compare structurally
        out = []
        for n1, p1, s1 in E.split(c.st, x, OPT):
            for n2, p2, s2 in E.split(s1, y, OPT):
                if n1 != n2:
                    out.append((I(int(neg)), s2))
                elif n1 == "None":
                    out.append((I(int(not neg)), s2))
                else:
                    it = ba[2][0] if ba[0] == "adt" and ba[2] else ("other", "?")
                    if E.P.is_local_adt(strip_ref(it)):
                        r1, r2 = E.tempcell(c.fr, s2, c.site, "e1", p1[0]), E.tempcell(c.fr, s2, c.site, "e2", p2[0])
                        o = E.invoke_trait(c.fr, s2, "core::cmp::PartialEq", "eq", (strip_ref(it), strip_ref(it)), [r1, r2], [], ("prim", "bool"), c.site)
                        if o is not None:
                            out += [(E.notv(v) if neg else v, s) for v, s in o]
                            continue
                    out += E.eq_terms(s2, p1[0], p2[0], neg)
        return out
    return E.eq_terms(c.st, x, y, neg)


def strip_ref(t):
    while t[0] == "ref":
        t = t[1]
    return t


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def m_ord(c):
    E = c.E
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[c.name.split("::")[1]]
    a, b = E.snap(c.st, c.args[0]), E.snap(c.st, c.args[1])
    return [(E.binop(c.fr, c.st, op, a, b, strip_ref(c.tys[0])), c.st)]


@model("str::eq_ignore_ascii_case", "slice::eq_ignore_ascii_case")
def m_eqic(c):
    E = c.E
    a, b = c.snap(0), c.snap(1)
    if a.op == "str" and b.op == "str":
        return [(I(int(a.a[0].lower() == b.a[0].lower())), c.st)]
    if a.op == "str":
        a, b = b, a
    return E.eq_terms(c.st, lower(a), lower(b), False)


def lower(t):
    if t.op == "str":
        return S(t.a[0].lower())
    if t.op == "call" and t.a[0] == "ascii_lower":
        return t
    if t.op == "cat":
        return T("cat", tuple(lower(p) if p.op == "str" else p for p in t.a[0])) if all(p.op == "str" for p in t.a[0]) else T("call", "ascii_lower", t)
    return T("call", "ascii_lower", t)


def upper(t):
    if t.op == "str":
        return S(t.a[0].upper())
    if t.op == "call" and t.a[0] == "ascii_upper":
        return t
    return T("call", "ascii_upper", t)


@model("str::to_ascii_lowercase", "str::to_lowercase", "slice::to_ascii_lowercase", "char::to_ascii_lowercase", "u8::to_ascii_lowercase")
def m_lower(c):
    v = c.snap(0)
    if c.name == "str::to_lowercase":
        return [(lower(v) if v.op == "str" else T("call", "uni_lower", v), c.st)]
    if v.op == "int":
        return [(I(ord(chr(v.a[0]).lower())) if v.a[0] < 128 else v, c.st)]
    return [(lower(v), c.st)]


@model("str::to_ascii_uppercase", "str::to_uppercase", "char::to_ascii_uppercase", "u8::to_ascii_uppercase")
def m_upper(c):
    v = c.snap(0)
    if c.name == "str::to_uppercase":
        return [(upper(v) if v.op == "str" else T("call", "uni_upper", v), c.st)]
    return [(upper(v), c.st)]


@model("str::make_ascii_lowercase", "slice::make_ascii_lowercase")
def m_make_lower(c):
    E = c.E
    l = E.deref(c.st, c.args[0])
    if l is None:
        return None
    s = c.st.copy()
    E.write(s, l[0], l[1], lower(E.snap(s, E.read(s, *l))), (c.fr.key, c.site[1]), c.fr.ctx)
    return [(UNIT, s)]


@model("str::is_ascii", "slice::is_ascii", "char::is_ascii", "u8::is_ascii")
def m_is_ascii(c):
    v = c.snap(0)
    if v.op == "str":
        return [(I(int(v.a[0].isascii())), c.st)]
    if v.op == "int":
        return [(I(int(v.a[0] < 128)), c.st)]
    return [(T("call", "is_ascii", v), c.st)]


@model("str::len", "String::len", "Vec::len", "slice::len")
def m_len(c):
    return [(c.E.length(c.snap(0)), c.st)]


@model("str::is_empty", "String::is_empty", "Vec::is_empty", "slice::is_empty")
def m_is_empty(c):
    n = c.E.length(c.snap(0))
    return [(c.E.binop(c.fr, c.st, "Eq", n, I(0), ("prim", "usize")), c.st)]


@model("str::trim", "str::trim_start", "str::trim_end")
def m_trim(c):
    v = c.snap(0)
    if v.op == "str":
        return [(S(v.a[0].strip() if c.name.endswith("trim") else v.a[0].lstrip() if c.name.endswith("start") else v.a[0].rstrip()), c.st)]
    return [(T("call", c.name, v), c.st)]


@model("str::to_string")
def m_str_to_string(c):
    return [(c.snap(0), c.st)]


@model("str::starts_with", "str::ends_with", "str::contains", "str::find", "str::rfind", "str::strip_prefix", "str::strip_suffix", "str::split_once", "str::rsplit_once",
       "str::trim_matches", "str::trim_start_matches", "str::trim_end_matches", "str::replace", "str::get", "str::split_at", "str::char_indices", "str::chars", "str::bytes",
       "str::is_char_boundary", "str::matches", "str::repeat", "slice::contains", "slice::get", "slice::first", "slice::last", "slice::join", "slice::concat", "str::splitn", "str::split", "str::rsplit",
       "str::rsplitn", "str::split_terminator", "str::split_whitespace", "str::split_ascii_whitespace", "str::lines", "str::split_inclusive", "slice::starts_with", "slice::ends_with", "slice::chunks", "slice::windows",
       "str::trim_left", "str::trim_right", "str::char_count", "slice::binary_search", "str::split_off")
def m_pure(c):
    """Pure string/slice functions: the result is a term over snapshots, no effect recorded."""
    E = c.E
    op = c.name.split("::")[1]
    args = [c.snap(i) for i in range(len(c.args))]
    if all(a.op == "str" or a.op == "int" for a in args) and c.name.startswith("str::"):
        v = [a.a[0] if a.op == "str" else chr(a.a[0]) if isinstance(a.a[0], int) and a.a[0] < 0x110000 else None for a in args]
        if op == "starts_with":
            return [(I(int(v[0].startswith(v[1]))), c.st)]
        if op == "ends_with":
            return [(I(int(v[0].endswith(v[1]))), c.st)]
        if op == "contains":
            return [(I(int(v[1] in v[0])), c.st)]
    if op == "split_at":
        E.panic("std:str::split_at", c.fr, c.site[1], args, c.st)
        a, b = T("call", "str::split_at.0", *args), T("call", "str::split_at.1", *args)
        return [(T("agg", "tuple", None, (a, b)), c.st)]
    st = c.st
    if any(a.op == "agg" and isinstance(a.a[0], tuple) and a.a[0][0] == "closure" for a in args[1:]):
        # character predicate: summarise it as a term over one symbolic character
        s2 = st
        na = []
        for a, orig in zip(args, c.args):
            if a.op == "agg" and isinstance(a.a[0], tuple) and a.a[0][0] == "closure":
                na.append(E.pred_term(c, st, orig))
            else:
                na.append(a)
        args = na
    if op in ("first", "last") and c.name.startswith("slice"):
        coll = args[0]
        out = []
        for v, s in E.elem_ends(c, st, coll, op):
            out.append((v, s))
        return out
    return [(T("call", c.name, *args), st)]


@model("Index::index", "IndexMut::index_mut")
def m_index(c):
    E = c.E
    base, idx = c.args[0], c.args[1]
    bt = strip_ref(c.tys[0])
    it = c.tys[1]
    iv = E.snap(c.st, idx)
    bv = E.snap(c.st, base)
    if it[0] == "prim" and it[1] == "usize":
        ln = E.length(bv)
        inb = E.binop(c.fr, c.st, "Lt", iv, ln, ("prim", "usize"))
        if E.known(c.st, inb) is not TRUE:
            E.panic("std:index", c.fr, c.site[1], [bv, iv], c.st, tuple(c.tys))
            if E.known(c.st, inb) is FALSE:
                return []
        l = E.deref(c.st, base)
        if l is not None:
            return [(E.mkref(l[0], l[1] + (("i", iv),)), c.st)]
        return [(E.getstep(base, ("i", iv)), c.st)]
    nm = it[1].split("::")[-1] if it[0] == "adt" else "?"
    if nm == "RangeFull":
        return [(base, c.st)]
    E.panic("std:index:" + nm, c.fr, c.site[1], [bv, iv], c.st, tuple(c.tys))
    if iv.op == "agg" and bv.op == "str" and all(x.op == "int" for x in iv.a[2]):
        b = bv.a[0].encode()
        v = [x.a[0] for x in iv.a[2]]
        lo, hi = {"Range": (v[0], v[-1]), "RangeFrom": (v[0], len(b)), "RangeTo": (0, v[0])}.get(nm, (None, None))
        if lo is not None:
            try:
                return [(S(b[lo:hi].decode()), c.st)]
            except Exception:
                pass
    if c.name.endswith("mut"):
        t = T("slice", bv, iv)
        return [(t, c.st)]
    return [(T("slice", bv, iv), c.st)]


# ------------------------------------------------------------------ string building
@model("String::push_str", "String::push", "String::extend", "String::insert_str", "String::insert")
def m_push(c):
    E = c.E
    if c.name.startswith("String::insert"):
        return None
    l = E.deref(c.st, c.args[0])
    if l is None:
        return None
    s = c.st.copy()
    x = c.snap(1)
    if c.name == "String::push":
        x = S(chr(x.a[0])) if x.op == "int" else T("disp", "char", None, x, "char")
    old = E.read(s, *l)
    E.write(s, l[0], l[1], E.cat(E.snap(s, old), x), (c.fr.key, c.site[1]), c.fr.ctx)
    return [(UNIT, s)]


@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex", "Argument::new_octal", "Argument::new_binary", "Argument::new_lower_exp", "Argument::new_pointer")
def m_argument(c):
    mode = c.name.split("new_")[1]
    t = strip1(c.tys[0])
    return [(T("fmtarg", mode, c.args[0], t), c.st)]


def strip1(t):
    return t[1] if t[0] == "ref" else t


def decode_template(b):
    """Pieces of a fmt::Arguments template: literals and placeholders."""
    out, i, nxt = [], 0, 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(("lit", bytes(b[i:i + x]).decode("utf-8", "replace")))
            i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(("lit", bytes(b[i:i + n]).decode("utf-8", "replace")))
            i += n
        else:
            flags = width = prec = None
            idx = None
            if x & 1:
                flags = int.from_bytes(bytes(b[i:i + 4]), "little"); i += 4
            if x & 2:
                width = int.from_bytes(bytes(b[i:i + 2]), "little"); i += 2
            if x & 4:
                prec = int.from_bytes(bytes(b[i:i + 2]), "little"); i += 2
            if x & 8:
                idx = int.from_bytes(bytes(b[i:i + 2]), "little"); i += 2
            if idx is None:
                idx = nxt
            nxt = idx + 1
            out.append(("arg", idx, (flags, width, prec, bool(x & 16), bool(x & 32))))
    return out


@model("Arguments::new", "Arguments::from_str", "Arguments::new_const", "Arguments::from_str_nonconst")
def m_arguments(c):
    E = c.E
    if c.name != "Arguments::new":
        return [(T("agg", "fmtargs", None, (c.snap(0),)), c.st)]
    tpl = c.snap(0)
    arr = E.load(c.st, c.args[1])
    if tpl.op != "bytes":
        if tpl.op == "str":
            tpl = T("bytes", tuple(tpl.a[0].encode()))
        else:
            return None
    pieces = []
    for p in decode_template(tpl.a[0]):
        if p[0] == "lit":
            pieces.append(S(p[1]))
        else:
            a = E.getstep(arr, ("i", I(p[1])))
            pieces.append(T("fmtpiece", a, p[2]))
    return [(T("agg", "fmtargs", None, tuple(pieces)), c.st)]


@model("fmt::format")
def m_format(c):
    return c.E.render(c.fr, c.st, c.args[0], c.site)


@model("Write::write_fmt", "Formatter::write_fmt", "Write::write_str", "Formatter::write_str", "Formatter::pad", "Write::write_char", "Formatter::write_char", "String::write_fmt", "String::write_str")
def m_write(c):
    E = c.E
    l = E.deref(c.st, c.args[0])
    if l is None:
        return None
    # &mut &mut W
    t = c.tys[0]
    v = E.read(c.st, *l)
    while v.op == "ref":
        l = (v.a[0], v.a[1])
        v = E.read(c.st, *l)
    if c.name.endswith("write_fmt"):
        outs = E.render(c.fr, c.st, c.args[1], c.site)
    elif c.name.endswith("char"):
        x = c.snap(1)
        outs = [(S(chr(x.a[0])) if x.op == "int" else T("disp", "char", None, x, "char"), c.st)]
    else:
        outs = [(c.snap(1), c.st)]
    res = []
    for x, s in outs:
        s = s.copy()
        old = E.snap(s, E.read(s, *l))
        E.write(s, l[0], l[1], E.cat(old, x), None, c.fr.ctx)
        res.append((ok(UNIT), s))
    return res


@model("Display::fmt", "Debug::fmt")
def m_display_fmt(c):
    E = c.E
    l = E.deref(c.st, c.args[1])
    if l is None:
        return None
    t = strip1(c.tys[0])
    mode = "display" if c.name.startswith("Display") else "debug"
    res = []
    for x, s in E.display(c.fr, c.st, c.args[0], c.tys[0], mode, None, c.site):
        s = s.copy()
        old = E.snap(s, E.read(s, *l))
        E.write(s, l[0], l[1], E.cat(old, x), None, c.fr.ctx)
        res.append((ok(UNIT), s))
    return res


# ------------------------------------------------------------------ iterators and collections
ITER_PASS = ("rev", "skip", "take", "cloned", "copied", "by_ref", "fuse", "peekable", "step_by", "cycle")


@model(*["Iterator::" + x for x in ITER_PASS])
def m_iter_pass(c):
    op = c.name.split("::")[1]
    if op == "by_ref":
        return [(c.args[0], c.st)]
    if op == "skip":
        return [(T("it", op, c.E.iter_of(c, c.st, c.args[0], c.tys[0]), c.snap(1)), c.st)]
    return [(T("it", op, c.E.iter_of(c, c.st, c.args[0], c.tys[0])), c.st)]


@model("Iterator::map", "Iterator::filter", "Iterator::filter_map", "Iterator::flat_map", "Iterator::take_while", "Iterator::skip_while", "Iterator::map_while", "Iterator::inspect", "Iterator::enumerate",
       "Iterator::chain", "Iterator::zip", "Iterator::flatten")
def m_iter_adapt(c):
    op = c.name.split("::")[1]
    E = c.E
    base = E.iter_of(c, c.st, c.args[0], c.tys[0])
    extra = tuple(c.args[1:])
    if op in ("chain", "zip"):
        extra = (E.iter_of(c, c.st, c.args[1], c.tys[1]),)
    return [(T("it", op, base, *extra), c.st)]


@model("slice::iter", "slice::iter_mut", "HashMap::iter", "HashMap::iter_mut", "HashMap::keys", "HashMap::values", "HashMap::values_mut", "HashSet::iter", "HashMap::into_keys", "HashMap::into_values", "HashMap::drain",
       "Option::iter", "Option::iter_mut", "BTreeMap::iter", "BTreeMap::keys", "BTreeMap::values", "BTreeSet::iter", "VecDeque::iter")
def m_iter_src(c):
    kind = c.name
    return [(T("it", "src", c.args[0], kind), c.st)]


@model("IntoIterator::into_iter")
def m_into_iter(c):
    E = c.E
    v = c.args[0]
    if v.op in ("it", "adv"):
        return [(v, c.st)]
    t = c.tys[0]
    if t[0] == "adt" and E.P.find_impl("core::iter::traits::iterator::Iterator", [t]):
        return [(v, c.st)]
    if t[0] == "adt" and t[1].startswith("core::ops::range::"):
        return [(v, c.st)]
    if t[0] == "param" or t[0] == "alias":
        return [(T("it", "src", v, "into_iter"), c.st)]
    if t[0] == "ref" and t[2] and t[1][0] == "param":
        return [(v, c.st)]
    o = E.invoke_trait(c.fr, c.st, "core::iter::traits::collect::IntoIterator", "into_iter", (t,), [v], [t], c.dty, c.site)
    if o is not None:
        return o
    base = strip_ref(t)
    hm = ""
    if t[0] == "adt" and t[1] == OPT:
        return [(T("it", "src", T("agg", "array", None, tuple(p)), "slice::iter"), s) for n, p, s in E.split(c.st, v, OPT)]
    if base[0] == "adt":
        hm = base[1].split("::")[-1]
    # an iterator type coming from std (Split, Chars, Enumerate ...)
    return [(T("it", "src", v, hm + "::into_iter"), c.st)]


@model("Iterator::next", "DoubleEndedIterator::next_back", "Iterator::nth", "Peekable::next")
def m_next(c):
    E = c.E
    cell = c.args[0]
    l = E.deref(c.st, cell)
    if l is None:
        return None
    it = E.read(c.st, *l)
    while it.op == "ref":
        l = (it.a[0], it.a[1])
        it = E.read(c.st, *l)
    ty = strip_ref(c.tys[0])
    if c.name == "Iterator::nth":
        idx = c.args[1]
    out = []
    s0 = c.st.copy()
    pos = it.a[1] if it.op == "adv" else 0
    inner = it.a[0] if it.op == "adv" else it
    # end of iteration
    s1 = s0.copy()
    # an element
    n = fixed_len(E.snap(s0, inner) if E.fork_fixed else inner) if c.name != "Iterator::nth" else None
    if pos != "*" and n is not None:
        if pos >= n:
            E.exhaust(s0, inner)
            return [(NONE, s0)]
        E.write(s0, l[0], l[1], T("adv", inner, pos + 1), None, None)
        s0.facts[T("active", E.snap(s0, inner))] = TRUE
        p = pos if not c.name.endswith("back") else n - 1 - pos if inner.a[0] == "src" else ("b", pos)
        return [(some(v), s) for v, s in E.elems(c, s0, inner, p)]
    npos = "*" if pos == "*" or pos >= 3 else pos + 1
    E.write(s0, l[0], l[1], T("adv", inner, npos), None, None)
    back = "back" if c.name.endswith("back") else None
    p = pos if back is None else ("b", pos)
    if c.name == "Iterator::nth":
        p = ("n", idx)
    ended = T("ended", inner, p)
    s2 = s0.copy()
    if pos == "*":
        E.exhaust(s2, inner)
        out.append((NONE, s2))
        has = True
        s0.facts.pop(ended, None)
    else:
        if E.assume(s2, ended, TRUE) and not (pos == 0 and self_nonempty(E, inner, c)):
            E.exhaust(s2, inner)
            out.append((NONE, s2))
        has = E.assume(s0, ended, FALSE)
    if has:
        si = E.snap(s0, inner)
        s0.facts[T("active", si)] = TRUE
        s0.facts.pop(T("exhausted", si), None)
        for v, s in E.elems(c, s0, inner, p):
            if E.on_item is not None:
                E.on_item(c.fr, c.site, si, v, s)
            out.append((some(v), s))
    return out


FIXED_MAX = [4]     # loops over literal sequences up to this length are unrolled


def fixed_len(it):
    """Number of elements of an iterator over a short literal sequence, or None."""
    while it.op == "it" and it.a[0] in ("map", "enumerate", "rev", "cloned", "copied", "peekable", "inspect"):
        it = it.a[1]
    if it.op == "it" and it.a[0] == "src" and it.a[1].op == "agg" and it.a[1].a[0] in ("array", "vec") and len(it.a[1].a[2]) <= FIXED_MAX[0]:
        return len(it.a[1].a[2])
    return None


def self_nonempty(E, it, c):
    if it.op == "it" and it.a[0] == "src":
        v = it.a[1]
        if v.op == "call" and v.a[0] in ("str::split", "str::splitn", "str::rsplit", "str::rsplitn"):
            return True
        if v.op == "agg" and v.a[0] in ("array", "vec") and len(v.a[2]) > 0:
            return True
    elif it.op == "call" and it.a[0] in ("str::split", "str::splitn", "str::rsplit", "str::rsplitn"):
        return True
    elif it.op == "it" and it.a[0] in ("map", "enumerate", "rev", "cloned", "copied", "peekable"):
        return self_nonempty(E, it.a[1], c)
    return False


@model("Iterator::find", "Iterator::find_map", "Iterator::position", "Iterator::any", "Iterator::all", "Iterator::rfind", "Iterator::rposition")
def m_find(c):
    E = c.E
    op = c.name.split("::")[1]
    itv = c.load(0) if c.tys[0][0] == "ref" else c.args[0]
    it = E.iter_of(c, c.st, itv, strip_ref(c.tys[0]))
    inner = it.a[0] if it.op == "adv" else it
    out = []
    neg = c.st.copy()
    negs = [neg]
    tag = T("find", op, inner, c.args[1])
    if op in ("any", "all"):
        pt = E.pred_term(c, c.st, c.args[1], inner, byref=False)
        if pt is not None and pt.op != "opaquepred":
            return [(T(op, E.snap(c.st, inner), pt), c.st)]
    for v, s in E.elems(c, c.st, inner, "*"):
        if op == "find" or op == "rfind":
            cell = E.tempcell(c.fr, s, c.site, "find", v)
            for b, s2 in c.apply(s, c.args[1], [cell]):
                for tv, s3 in E.fork_bool(s2, b):
                    if tv:
                        out.append((some(v), s3))
                    else:
                        negs.append(s3)
        elif op == "find_map":
            for b, s2 in c.apply(s, c.args[1], [v]):
                for n, p, s3 in E.split(s2, b, OPT):
                    if n == "Some":
                        out.append((some(p[0]), s3))
        else:
            for b, s2 in c.apply(s, c.args[1], [v]):
                for tv, s3 in E.fork_bool(s2, b):
                    if op == "position" or op == "rposition":
                        if tv:
                            out.append((some(T("posof", E.snap(s3, inner), v)), s3))
                    elif op == "any" and tv:
                        out.append((TRUE, s3))
                    elif op == "all" and not tv:
                        out.append((FALSE, s3))
    neg = c.st.copy()
    neg_facts(E, c, neg, inner, op)
    if op in ("find", "position", "rfind", "rposition") and (E.find_facts or E.chars_of(inner)):
        # none of the characters of the text satisfies the test
        pt = E.pred_term(c, c.st, c.args[1], inner, byref=op in ("find", "rfind"))
        if pt is not None and pt.op != "opaquepred":
            E.assume(neg, T("any", E.snap(c.st, inner), pt), FALSE)
    out.append(({"any": FALSE, "all": TRUE}.get(op, NONE), neg))
    return out


def neg_facts(E, c, st, inner, op):
    pass


@model("Iterator::last", "Iterator::max", "Iterator::min", "Iterator::max_by_key", "Iterator::min_by_key", "Iterator::max_by", "Iterator::min_by", "Iterator::reduce")
def m_last(c):
    E = c.E
    op = c.name.split("::")[1]
    it = E.iter_of(c, c.st, c.args[0], c.tys[0])
    inner = it.a[0] if it.op == "adv" else it
    out = []
    s1, s2 = c.st.copy(), c.st.copy()
    empt = T("ended", inner, 0)
    if not self_nonempty(E, inner, c) and E.assume(s1, empt, TRUE):
        out.append((NONE, s1))
    if E.assume(s2, empt, FALSE):
        for v, s in E.elems(c, s2, inner, op):
            out.append((some(v), s))
    return out


@model("Iterator::count")
def m_count(c):
    it = c.E.iter_of(c, c.st, c.args[0], c.tys[0])
    return [(T("count", c.E.snap(c.st, it)), c.st)]


@model("Iterator::for_each", "Iterator::try_for_each", "Iterator::fold", "Iterator::try_fold")
def m_for_each(c):
    E = c.E
    op = c.name.split("::")[1]
    it = E.iter_of(c, c.st, c.args[0], c.tys[0])
    inner = it.a[0] if it.op == "adv" else it
    fold = op.endswith("fold")
    acc = c.args[1] if fold else UNIT
    f = c.args[2] if fold else c.args[1]
    st = c.st
    errs = []
    key = ("fe", c.fr.ctx, c.site[0])
    for _ in range(6):
        st0, acc0 = st, acc
        for v, s in E.elems(c, st, inner, "*"):
            for r, s2 in c.apply(s, f, ([acc] if fold else []) + [v]):
                if op.startswith("try_"):
                    adt = c.dty[1] if c.dty[0] == "adt" and c.dty[1] in (OPT, RES) else None
                    if adt is None:
                        return None
                    for n, p, s3 in E.split(s2, r, adt):
                        if n in ("Err", "None"):
                            errs.append((T("agg", adt, n, p), s3))
                        else:
                            st = E.join(st, s3, key)
                            acc = E.join_val(acc, p[0], key + ("acc",)) if fold else acc
                else:
                    st = E.join(st, s2, key)
                    if fold:
                        acc = E.join_val(acc, r, key + ("acc",))
        if st.env == st0.env and acc is acc0:
            break
    res = acc
    st = st.copy()
    E.exhaust(st, inner)
    if op.startswith("try_"):
        res = T("agg", c.dty[1], "Ok" if c.dty[1] == RES else "Some", (acc,))
    return [(res, st)] + errs


@model("Iterator::collect", "FromIterator::from_iter")
def m_collect(c):
    E = c.E
    it = E.iter_of(c, c.st, c.args[0], c.tys[0])
    dst = c.dty
    if dst[0] == "adt" and dst[1] not in (RES, OPT):
        o = E.invoke_trait(c.fr, c.st, "core::iter::traits::collect::FromIterator", "from_iter", (dst, ("other", "?")), [it], [c.tys[0]], dst, c.site)
        if o is not None:
            return o
    return E.collect(c, it, dst)


def vjoin(old, coll):
    """The list old followed by the list coll."""
    if coll.op == "agg" and coll.a[0] == "vec" and len(coll.a[2]) <= 4:
        if old.op == "agg" and old.a[0] == "vec" and len(old.a[2]) + len(coll.a[2]) <= 6:
            return T("agg", "vec", None, old.a[2] + coll.a[2])
        if old.op in ("vpush", "vcat") or not coll.a[2]:
            for v in coll.a[2]:
                old = T("vpush", old, v)
            return old
    return T("vcat", old, coll)


@model("Extend::extend", "Vec::extend", "Vec::extend_from_slice", "Vec::append", "Extend::extend_one")
def m_extend(c):
    E = c.E
    l = E.deref(c.st, c.args[0])
    if l is None:
        return None
    t = strip_ref(c.tys[0])
    src = c.args[1]
    if c.name == "Vec::append" or c.name == "Vec::extend_from_slice":
        coll = E.snap(c.st, src)
        if coll.op == "agg" and coll.a[0] == "array":
            coll = T("agg", "vec", None, coll.a[2])
        outs = [(coll, c.st)]
        if c.name == "Vec::append":
            s = c.st.copy()
            l2 = E.deref(s, src)
            if l2:
                E.write(s, l2[0], l2[1], T("agg", "vec", None, ()), (c.fr.key, c.site[1]), c.fr.ctx)
            outs = [(coll, s)]
    else:
        it = E.iter_of(c, c.st, src, c.tys[1])
        outs = E.collect(c, it, ("adt", "alloc::vec::Vec", (("other", "?"),)))
    res = []
    for coll, s in outs:
        s = s.copy()
        old = E.read(s, *l)
        if t[0] == "adt" and t[1].endswith("String"):
            E.write(s, l[0], l[1], E.cat(E.snap(s, old), coll), (c.fr.key, c.site[1]), c.fr.ctx)
        else:
            E.write(s, l[0], l[1], vjoin(old, coll), (c.fr.key, c.site[1]), c.fr.ctx)
        res.append((UNIT, s))
    return res


@model("Vec::push", "VecDeque::push_back", "HashSet::insert", "BTreeSet::insert")
def m_vpush(c):
    E = c.E
    l = E.deref(c.st, c.args[0])
    if l is None:
        return None
    s = c.st.copy()
    old = E.read(s, *l)
    E.write(s, l[0], l[1], T("vpush", old, c.args[1]) if old.op != "agg" or old.a[0] != "vec" or len(old.a[2]) >= 6
            else T("agg", "vec", None, old.a[2] + (c.args[1],)), (c.fr.key, c.site[1]), c.fr.ctx)
    return [(UNIT if not c.name.endswith("insert") else T("call", c.name, E.snap(s, old), c.snap(1)), s)]


@model("HashSet::new", "BTreeSet::new")
def m_set_new(c):
    return [(T("agg", "vec", None, ()), c.st)]


# ------------------------------------------------------------------ ranges
@model("Range::contains", "RangeInclusive::contains", "RangeFrom::contains", "RangeTo::contains", "RangeToInclusive::contains", "RangeBounds::contains")
def m_contains(c):
    E = c.E
    r = c.load(0)
    r = E.snap(c.st, r)
    x = c.snap(1)
    t = strip_ref(c.tys[1])
    nm = strip_ref(c.tys[0])[1].split("::")[-1]
    conds = []
    if r.op == "call" and r.a[0] == "RangeInclusive::new":
        lo, hi = r.a[1], r.a[2]
        conds = [("Le", lo, x), ("Le", x, hi)]
    elif r.op == "agg" and nm == "Range":
        conds = [("Le", r.a[2][0], x), ("Lt", x, r.a[2][1])]
    elif r.op == "agg" and nm == "RangeInclusive":
        conds = [("Le", r.a[2][0], x), ("Le", x, r.a[2][1])]
    elif r.op == "agg" and nm == "RangeFrom":
        conds = [("Le", r.a[2][0], x)]
    elif r.op == "agg" and nm == "RangeTo":
        conds = [("Lt", x, r.a[2][0])]
    elif r.op == "agg" and nm == "RangeToInclusive":
        conds = [("Le", x, r.a[2][0])]
    else:
        return [(T("call", c.name, r, x), c.st)]
    out = []
    cur = [c.st]
    for op, a, b in conds:
        nxt = []
        for s in cur:
            v = E.binop(c.fr, s, op, a, b, t)
            for tv, s2 in E.fork_bool(s, v):
                if tv:
                    nxt.append(s2)
                else:
                    out.append((FALSE, s2))
        cur = nxt
    out += [(TRUE, s) for s in cur]
    return out


@model("RangeInclusive::new")
def m_range_inc(c):
    return [(T("call", "RangeInclusive::new", c.snap(0), c.snap(1)), c.st)]


@model("Ord::min", "Ord::max", "f32::min", "f32::max", "f64::min", "f64::max", "cmp::min", "cmp::max", "f32::clamp", "Ord::clamp")
def m_minmax(c):
    op = c.name.split("::")[1]
    a = [c.snap(i) for i in range(len(c.args))]
    if op in ("min", "max") and all(x.op == "int" for x in a):
        return [(I(min(a[0].a[0], a[1].a[0]) if op == "min" else max(a[0].a[0], a[1].a[0])), c.st)]
    if op in ("min", "max"):
        a.sort()
    return [(T(op, *a), c.st)]


@model("PartialOrd::partial_cmp", "Ord::cmp")
def m_cmp(c):
    return [(T("call", c.name, c.snap(0), c.snap(1)), c.st)]


# ------------------------------------------------------------------ misc
@model("intrinsics::discriminant_value", "mem::discriminant")
def m_discr(c):
    v = c.load(0)
    while v.op == "ref":
        v = c.E.load(c.st, v)
    return [(c.E.discr(v), c.st)]


@model("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def m_callfn(c):
    tup = c.args[1]
    t = c.tys[1]
    n = len(t[1]) if t[0] == "tuple" else 1
    a = list(tup.a[2]) if tup.op == "agg" and tup.a[0] == "tuple" else [c.E.getstep(tup, ("f", i, None)) for i in range(n)]
    f = c.args[0]
    g = f
    if g.op == "ref":
        g = c.E.load(c.st, g)
    if g.op == "zst" or g.op not in ("agg", "fn", "ref"):
        ft = strip_ref(c.tys[0])
        if ft[0] == "fndef":
            f = T("fn", ft[1], ft[2], None, None)
        elif ft[0] == "closure":
            f = T("agg", ("closure", ft[1]), None, ())
        else:
            s = c.st.copy()
            e = T("call", "apply", c.E.snap(s, f), *[c.E.snap(s, x) for x in a])
            c.E.add_effect(c, s, "apply", (c.E.snap(s, f),) + tuple(c.E.snap(s, x) for x in a), e)
            return [(e, s)]
    return c.apply(c.st, f, a)


@model("Future::poll")
def m_poll(c):
    E = c.E
    v = c.args[0]
    n = 0
    while v.op == "ref" and n < 5:
        v = E.load(c.st, v)
        n += 1
    if v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][0] == "coroutine":
        outs = E.run_coroutine(c.fr, c.st, v, c.site)
        return [(T("agg", POLL, "Ready", (r,)), s) for r, s in outs]
    return None


@model("future::get_context")
def m_get_context(c):
    return [(T("par", "cx"), c.st)]


@model("SystemTime::now", "Instant::now")
def m_now(c):
    s = c.st.copy()
    r = T("call", c.name)
    c.E.add_effect(c, s, c.name, (), r)
    return [(r, s)]


@model("Duration::from_secs", "Duration::as_secs", "Duration::from_millis", "Duration::as_millis", "Duration::as_secs_f64", "Duration::subsec_nanos", "Duration::from_nanos")
def m_dur(c):
    v = c.snap(0)
    if c.name == "Duration::as_secs" and v.op == "call" and v.a[0] == "Duration::from_secs":
        return [(v.a[1], c.st)]
    return [(T("call", c.name, v), c.st)]


@model("Duration::from_secs_f64", "Duration::from_secs_f32", "Duration::new", "Duration::mul_f64", "Duration::from_mins", "Duration::from_hours")
def m_dur_panic(c):
    c.panic("std:" + c.name, [c.snap(i) for i in range(len(c.args))])
    return [(T("call", c.name, *[c.snap(i) for i in range(len(c.args))]), c.st)]


@model("Add::add", "Sub::sub", "Mul::mul", "Div::div", "AddAssign::add_assign", "SubAssign::sub_assign")
def m_arith(c):
    a, b = c.snap(0), c.snap(1)
    t = strip_ref(c.tys[0])
    nm = t[1].split("::")[-1] if t[0] == "adt" else t[1] if t[0] == "prim" else "?"
    if nm in ("Duration", "SystemTime", "Instant"):
        c.panic("std:%s::%s" % (nm, c.name.split("::")[1]), [a, b])
    if nm == "String" and c.name in ("Add::add", "AddAssign::add_assign"):
        if c.name == "Add::add":
            return [(c.E.cat(a, b), c.st)]
        return m_push(Call(c.E, c.fr, c.st, "String::push_str", c.d, c.targs, c.r, c.ra, c.args, c.tys, c.dty, c.site, c.f))
    if c.name.endswith("_assign"):
        l = c.E.deref(c.st, c.args[0])
        s = c.st.copy()
        c.E.write(s, l[0], l[1], T("call", c.name, a, b), (c.fr.key, c.site[1]), c.fr.ctx)
        return [(UNIT, s)]
    return [(T("call", c.name, a, b), c.st)]


@model("Vec::remove", "Vec::swap_remove", "Vec::insert", "String::remove", "Vec::split_off", "String::split_off", "String::truncate", "String::insert_str", "String::insert", "slice::copy_from_slice", "slice::split_at", "slice::split_at_mut",
       "slice::swap", "Vec::drain", "String::drain", "String::replace_range", "slice::clone_from_slice", "slice::chunks_exact")
def m_panicky(c):
    if c.name == "Vec::drain":
        full = len(c.args) > 1 and (c.tys[1][0] == "adt" and c.tys[1][1].endswith("RangeFull"))
        old = c.snap(0)
        l = c.E.deref(c.st, c.args[0])
        if l is not None:
            s = c.st.copy()
            if full:
                c.E.write(s, l[0], l[1], T("agg", "vec", None, ()), (c.fr.key, c.site[1]), c.fr.ctx)
                return [(T("it", "src", old, "Vec::into_iter"), s)]
            c.panic("std:" + c.name, [c.snap(i) for i in range(len(c.args))])
            c.E.write(s, l[0], l[1], T("call", "Vec::without", old, c.snap(1)), (c.fr.key, c.site[1]), c.fr.ctx)
            return [(T("it", "src", T("call", "Vec::drain", old, c.snap(1)), "slice::iter"), s)]
    c.panic("std:" + c.name, [c.snap(i) for i in range(len(c.args))])
    if c.name in ("String::truncate",):
        s = c.st.copy()
        l = c.E.deref(s, c.args[0])
        c.E.write(s, l[0], l[1], T("call", "truncate", c.snap(0), c.snap(1)), None, c.fr.ctx)
        return [(UNIT, s)]
    return c.E.opaque(c, None)


@model("String::pop")
def m_string_pop(c):
    E = c.E
    s = c.st.copy()
    l = E.deref(s, c.args[0])
    old = c.snap(0)
    new = S(old.a[0][:-1]) if old.op == "str" else T("call", "truncate", old, I(-1))
    if old.op == "cat" and old.a[0][-1].op == "str" and len(old.a[0][-1].a[0]) >= 1:
        new = E.cat(*(old.a[0][:-1] + (S(old.a[0][-1].a[0][:-1]),)))
    E.write(s, l[0], l[1], new, None, c.fr.ctx)
    return [(T("call", "String::pop", old), s)]


@model("converts::from_utf8", "String::from_utf8", "str::from_utf8")
def m_from_utf8(c):
    v = c.snap(0)
    if v.op == "str":
        return [(ok(v), c.st)]
    s1, s2 = c.st.copy(), c.st.copy()
    t = T("call", "is_utf8", v)
    out = []
    if c.E.known(c.st, T("call", "is_ascii", v)) is TRUE:
        return [(ok(v), c.st)]
    if c.E.assume(s1, t, TRUE):
        out.append((ok(v), s1))
    if c.E.assume(s2, t, FALSE):
        out.append((err(T("call", "Utf8Error", v)), s2))
    return out


@model("u64::checked_add", "usize::checked_add", "u64::checked_sub", "usize::checked_sub", "u32::checked_add", "u32::checked_sub", "u64::checked_mul", "usize::checked_mul")
def m_checked(c):
    E = c.E
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[c.name.split("_")[1]]
    a, b = c.snap(0), c.snap(1)
    t = strip_ref(c.tys[0])
    v = E.binop(c.fr, c.st, op + "WithOverflow", a, b, t)
    out = []
    for tv, s in E.fork_bool(c.st, v.a[2][1]):
        out.append((NONE if tv else some(v.a[2][0]), s))
    return out


@model("u64::saturating_sub", "usize::saturating_sub", "u64::saturating_add", "usize::saturating_add", "u64::wrapping_add", "u64::wrapping_sub", "usize::wrapping_sub", "usize::wrapping_add", "u64::min", "usize::min")
def m_sat(c):
    return [(T(c.name.split("::")[1], c.snap(0), c.snap(1)), c.st)]


@model("TypeId::of", "any::type_name")
def m_typeid(c):
    t = c.targs[0] if c.targs else ("other", "?")
    return [(T("call", c.name, T("ty", c.E.P.tystr(t), "")), c.st)]


# ------------------------------------------------------------------ engine helpers that need the models
def _install():
    def snap1(self, st, v):
        """Value behind one or more references (a clone)."""
        while v.op == "ref":
            v = self.read(st, v.a[0], v.a[1])
        if v.op not in CONST_OPS and v.op not in ("agg",):
            h = st.env.get(("H", v))
            if h is not None:
                return h
        return v

    def record_effect(self, c, tag):
        pass

    def exhaust(self, st, it):
        """Iteration `it` has been followed to its end here."""
        it = self.snap(st, it)
        st.facts.pop(T("active", it), None)
        st.facts[T("exhausted", it)] = TRUE

    def add_effect(self, c, s, name, args, res=None):
        e = Eff("call", name, tuple(args), (c.fr.key, c.site[1]), dict(s.facts), c.fr.ctx, res)
        if e not in s.eff:
            s.eff = s.eff + (e,)

    def notv(self, v):
        if v.op == "int":
            return I(1 - v.a[0])
        if v.op == "un" and v.a[0] == "Not":
            return v.a[1]
        return T("un", "Not", v)

    def fork_bool(self, st, v):
        k = self.known(st, v)
        if k is not None and k.op == "int":
            return [(bool(k.a[0]), st)]
        out = []
        for b in (True, False):
            s = st.copy()
            if self.assume(s, v, I(int(b))):
                out.append((b, s))
        return out

    def eq_terms(self, st, x, y, neg=False):
        kx, ky = self.known(st, x), self.known(st, y)
        x1, y1 = (kx if kx is not None else x), (ky if ky is not None else y)
        if is_const(x1) and is_const(y1):
            if x1.op == "bytes" or y1.op == "bytes":
                bx = x1.a[0] if x1.op == "bytes" else tuple(str(x1.a[0]).encode())
                by = y1.a[0] if y1.op == "bytes" else tuple(str(y1.a[0]).encode())
                r = bx == by
            else:
                r = x1 is y1
            return [(I(int(r != neg)), st)]
        # comparing a case-normalised text with a constant that cannot be its result
        for a, b in ((x1, y1), (y1, x1)):
            if b.op == "str" and a.op == "call" and a.a[0] in ("ascii_lower", "uni_lower") and b.a[0] != b.a[0].lower():
                self.never.add(b.a[0])
                return [(I(int(neg)), st)]
            if b.op == "str" and a.op == "call" and a.a[0] in ("ascii_upper", "uni_upper") and b.a[0] != b.a[0].upper():
                self.never.add(b.a[0])
                return [(I(int(neg)), st)]
        if x is y and x.op not in ("elem",):
            return [(I(int(not neg)), st)]
        if y.id < x.id and not is_const(y) or is_const(x):
            x, y = y, x
        t = T("eq", x, y)
        return [(T("un", "Not", t) if neg else t, st)]

    def invoke_trait(self, fr, st, trait, meth, targs, args, tys, dty, site):
        """Call a crate-local implementation of trait<targs>::meth, or None."""
        hit = None
        ims = self.P.impl_by_trait.get(trait, [])
        n = len(ims[0]["targs"]) if ims else 0
        cands = []
        for im in ims:
            if targs and targs[0][0] in ("param", "alias"):
                break
            b = {}
            ok_ = True
            for p, a in zip(im["targs"], targs):
                if a[0] == "other":
                    continue
                if not self.P.unify(p, a, b):
                    ok_ = False
                    break
            if ok_:
                cands.append((im, b))
        if len(cands) > 1:
            c2 = [x for x in cands if x[0]["targs"][0][0] != "param" and (len(x[0]["targs"]) < 2 or x[0]["targs"][1][0] != "param")]
            if len(c2) == 1:
                cands = c2
        if len(cands) != 1:
            return None
        im, b = cands[0]
        for it in im["items"]:
            if it["name"] == meth and it["def"] in self.P.bodies:
                if self.P.short(it["def"]) in self.opaque_fns:
                    return None
                h = self.hooks.get(self.P.short(it["def"]))
                if h is not None:
                    c = Call(self, fr, st, self.P.short(it["def"]), it["def"], tuple(targs), None, None, args, tys, dty, site, None)
                    o = h(c)
                    if o is not None:
                        return o
                return self.inline(fr, st, it["def"], b, args, site)
        return None

    STRINGY = {"String", "str", "Cow", "Box", "Vec", "slice", "PathBuf", "OsString", "Path", "OsStr", "Arc", "Rc"}

    def tyname(t):
        t = strip_ref(t)
        if t[0] == "adt":
            return t[1].split("::")[-1]
        if t[0] == "prim":
            return t[1]
        if t[0] == "slice" or t[0] == "array":
            return "slice"
        return "?"

    def convert(self, c, st, v, src, dst):
        """Outcomes of <dst as From<src>>::from(v)."""
        if src == dst and src is not None:
            return [(v, st)]
        if src is not None:
            o = self.invoke_trait(c.fr, st, "core::convert::From", "from", (dst, src), [v], [src], dst, c.site)
            if o is not None:
                return o
            if src[0] == "adt":
                o = self.invoke_trait(c.fr, st, "core::convert::Into", "into", (src, dst), [v], [src], dst, c.site)
                if o is not None:
                    return o
            a, b = tyname(src), tyname(dst)
            if a in STRINGY and b in STRINGY:
                return [(self.snap1(st, v), st)]
            if dst[0] == "adt" and dst[1] == OPT and dst[2] and dst[2][0] == src:
                return [(some(v), st)]
            if src[0] == "prim" and dst[0] == "prim":
                return [(self.cast("IntToInt" if dst[1][0] in "iu" else "IntToFloat", v, src, dst), st)]
            if dst[0] == "ref" and src[0] == "ref" and strip_ref(src) == strip_ref(dst):
                return [(v, st)]
        x = self.snap(st, v)
        return [(T("call", "From::from", x, T("ty", self.P.tystr(src) if src else "?", self.P.tystr(dst))), st)]

    # -------------------------------------------------------------- strings
    def cat(self, *parts):
        out = []
        for p in parts:
            ps = p.a[0] if p.op == "cat" else (p,)
            for x in ps:
                if x.op == "str" and x.a[0] == "":
                    continue
                if x.op == "str" and out and out[-1].op == "str":
                    out[-1] = S(out[-1].a[0] + x.a[0])
                else:
                    out.append(x)
        if not out:
            return S("")
        if len(out) == 1 and (out[0].op == "str"):
            return out[0]
        return T("cat", tuple(out))

    def display(self, fr, st, v, ty, mode, spec, site, d=0):
        """Outcomes (text term, state) of formatting v."""
        t = strip_ref(ty)
        while v.op == "ref":
            nv = self.read(st, v.a[0], v.a[1])
            if nv.op != "ref":
                break
            v = nv
        val = self.load(st, v) if v.op == "ref" else v
        if t[0] == "adt" and t[1] == "alloc::boxed::Box" and t[2]:
            t = t[2][0]
        trait = {"display": "core::fmt::Display", "debug": "core::fmt::Debug", "lower_hex": "core::fmt::LowerHex"}.get(mode)
        plain = spec is None or not any(spec)
        if val.op == "agg" and val.a[0] == "fmtargs":
            return self.render(fr, st, val, site)
        if trait and self.P.is_local_adt(t):
            s = st.copy()
            buf = ("L", fr.ctx, ("fmt", site, d))
            s.env[buf] = S("")
            if v.op == "ref":
                arg = v
            else:
                arg = self.tempcell(fr, s, site, ("disp", d), v) if v.op in ("agg", "upd", "str") else v
            o = self.invoke_trait(fr, s, trait, "fmt", (t,), [arg, T("ref", buf, ())], [], None, (("fmt", site[0], d, mode), site[1]))
            if o is not None:
                out = []
                for r, s2 in o:
                    txt = self.snap(s2, self.rootval(s2, buf))
                    s2 = s2.copy()
                    s2.env.pop(buf, None)
                    if txt.op == "str" and txt.a[0] == "" :
                        pass
                    out.append((txt, s2))
                return out
        x = self.snap(st, val)
        n = tyname(t)
        if mode == "display" and plain and n in ("str", "String", "Cow"):
            return [(x, st)]
        if mode == "display" and plain and x.op == "int" and t[0] == "prim" and t[1][0] in "iu":
            return [(S(str(x.a[0])), st)]
        if mode == "display" and plain and x.op == "int" and t == ("prim", "char"):
            return [(S(chr(x.a[0])), st)]
        if mode == "display" and plain and x.op == "int" and t == ("prim", "bool"):
            return [(S("true" if x.a[0] else "false"), st)]
        return [(T("disp", mode, spec, x, self.P.tystr(t)), st)]

    def render(self, fr, st, args, site):
        a = args
        if a.op == "ref":
            a = self.load(st, a)
        if a.op != "agg" or a.a[0] != "fmtargs":
            return [(T("call", "fmt::format", self.snap(st, a)), st)]
        outs = [((), st)]
        for i, p in enumerate(a.a[2]):
            nxt = []
            for acc, s in outs:
                if p.op == "fmtpiece":
                    fa, spec = p.a
                    if fa.op == "fmtarg":
                        sp = spec if any(spec) else None
                        for x, s2 in self.display(fr, s, fa.a[1], fa.a[2], fa.a[0], sp, (("r", site[0], i), site[1]), i):
                            nxt.append((acc + (x,), s2))
                    else:
                        nxt.append((acc + (T("disp", "?", None, self.snap(s, fa), "?"),), s))
                else:
                    nxt.append((acc + (p,), s))
            outs = nxt[:self.cap] if len(nxt) > self.cap else nxt
        return [(self.cat(*acc), s) for acc, s in outs]

    # -------------------------------------------------------------- iteration
    def iter_of(self, c, st, v, ty):
        while v.op == "ref":
            nv = self.load(st, v)
            if nv.op in ("it", "adv", "ref"):
                v = nv
            else:
                break
        if v.op in ("it",):
            return v
        if v.op == "adv":
            return v
        b = strip_ref(ty)
        if b[0] == "adt" and b[1].startswith("core::ops::range::"):
            return T("it", "src", v, "range")
        if b[0] == "adt" and self.P.is_local_adt(b):
            return T("it", "local", v, b)
        return T("it", "src", v, "opaque")

    def elems(self, c, st, it, pos):
        """Possible (element, state) of iterator term `it`."""
        if it.op == "adv":
            it = it.a[0]
        if it.op == "phi":
            out = []
            for x in self.flat(it):
                out += self.elems(c, st, x, "*")
            return out
        if it.op != "it":
            return self.coll_elems(c, st, it, pos, "opaque")
        k = it.a[0]
        if k == "src":
            return self.coll_elems(c, st, it.a[1], pos, it.a[2])
        if k in ITER_PASS:
            out = []
            if k in ("rev", "skip", "step_by", "cycle"):
                pos = (k, pos) + tuple(it.a[2:])
            for v, s in self.elems(c, st, it.a[1], pos):
                if k in ("cloned", "copied"):
                    v = self.snap1(s, v)
                out.append((v, s))
            return out
        if k == "enumerate":
            return [(T("agg", "tuple", None, (T("ixof", self.snap(s, it.a[1]), pos), v)), s) for v, s in self.elems(c, st, it.a[1], pos)]
        if k == "zip":
            out = []
            for v, s in self.elems(c, st, it.a[1], pos):
                for w, s2 in self.elems(c, s, it.a[2], pos):
                    out.append((T("agg", "tuple", None, (v, w)), s2))
            return out
        if k == "chain":
            return self.elems(c, st, it.a[1], pos) + self.elems(c, st, it.a[2], pos)
        if k in ("map", "map_while", "filter_map", "flat_map"):
            out = []
            for v, s in self.elems(c, st, it.a[1], pos):
                for w, s2 in c.apply(s, it.a[2], [v], ("el", clokey(it.a[2]))):
                    if k == "map":
                        out.append((w, s2))
                    elif k == "flat_map":
                        i2 = self.iter_of(c, s2, w, ("other", "?"))
                        out += self.elems(c, s2, i2, "*")
                    else:
                        for n, p, s3 in self.split(s2, w, OPT):
                            if n == "Some":
                                out.append((p[0], s3))
            return out
        if k == "flatten":
            out = []
            for v, s in self.elems(c, st, it.a[1], pos):
                if v.op == "agg" and v.a[0] in (OPT, RES):
                    if v.a[1] in ("Some", "Ok"):
                        out.append((v.a[2][0], s))
                else:
                    out += self.elems(c, s, self.iter_of(c, s, v, ("other", "?")), "*")
            return out
        if k in ("filter", "take_while", "skip_while", "inspect"):
            out = []
            for v, s in self.elems(c, st, it.a[1], pos):
                cell = self.tempcell(c.fr, s, c.site, ("fl", clokey(it.a[2])), v)
                for b, s2 in c.apply(s, it.a[2], [cell], ("fl", clokey(it.a[2]))):
                    if k in ("inspect", "skip_while"):
                        out.append((v, s2))
                        continue
                    for tv, s3 in self.fork_bool(s2, b):
                        if tv:
                            out.append((v, s3))
            return out
        if k == "local":
            return [(T("elem", self.snap(st, it.a[1]), pos), st)]
        return [(T("elem", self.snap(st, it), pos), st)]

    def coll_elems(self, c, st, v, pos, kind):
        x = v
        ref = None
        while x.op == "ref":
            ref = x
            x = self.read(st, x.a[0], x.a[1])
        if kind == "range":
            return [(T("elem", self.snap(st, x), pos), st)]
        if kind.startswith(("HashSet", "BTreeSet", "BinaryHeap")) and x.op in ("agg", "vpush", "vcat", "coll", "phi", "par", "fld"):
            # the order of these containers is not the order of insertion
            sn = self.snap(st, x)
            sn = T("call", "HashSet::items", sn) if kind.startswith("HashSet") else T("mut", "slice::sort", sn, ())
            return [(T("elem", sn, pos), st)]
        if x.op == "agg" and x.a[0] in ("array", "vec"):
            fs = x.a[2]
            if isinstance(pos, int) and len(fs) > pos:
                fs = fs[pos:pos + 1]
                return [(fs[0], st)]
            if isinstance(pos, int):
                return []
            if pos == "last" and fs:
                return [(fs[-1], st)]
            return [(y, st.copy()) for y in fs]
        if x.op == "vpush":
            if pos == "last":
                return [(x.a[1], st)]
            return self.coll_elems(c, st, x.a[0], "*", kind) + [(x.a[1], st.copy())]
        if x.op == "vcat":
            return self.coll_elems(c, st, x.a[0], "*", kind) + self.coll_elems(c, st.copy(), x.a[1], "*", kind)
        if x.op == "coll":
            return [(y, st.copy()) for y in x.a[1]]
        if x.op == "phi":
            out = []
            for y in self.flat(x):
                if y.op in ("agg", "vpush", "vcat", "coll"):
                    out += self.coll_elems_np(c, st, y, kind)
                else:
                    out.append((T("elem", self.snap(st, y), "*"), st.copy()))
            seen, o2 = set(), []
            for y, s in out:
                if y not in seen:
                    seen.add(y)
                    o2.append((y, s))
            return o2
        if x.op == "agg" and x.a[0] == OPT:
            return [(y, st) for y in x.a[2]]
        sn = self.snap(st, x)
        tag = pos
        if kind.startswith("HashMap") or kind.startswith("HashSet") or kind.startswith("BTreeMap"):
            meth = kind.split("::")[1]
            if meth in ("keys", "into_keys"):
                return [(T("elem", T("call", "HashMap::keys", sn), tag), st)]
            if meth in ("values", "values_mut", "into_values"):
                return [(T("elem", T("call", "HashMap::values", sn), tag), st)]
            if kind.startswith("HashMap") or kind.startswith("BTreeMap"):
                return [(T("agg", "tuple", None, (T("elem", T("call", "HashMap::keys", sn), tag), T("elem", T("call", "HashMap::values", sn), tag))), st)]
        if sn.op == "call" and sn.a[0] == "str::char_indices":
            return [(T("agg", "tuple", None, (T("cidx", sn.a[1], tag), T("elem", T("call", "str::chars", sn.a[1]), tag))), st)]
        return [(T("elem", sn, tag), st)]

    def coll_elems_np(self, c, st, y, kind):
        """Elements of one incoming value of a phi, not descending into the phi again."""
        out = []
        work, seen = [y], set()
        while work:
            z = work.pop()
            while z.op == "ref":
                z = self.read(st, z.a[0], z.a[1])
            if z in seen:
                continue
            seen.add(z)
            if z.op == "vpush":
                out.append((z.a[1], st.copy()))
                work.append(z.a[0])
            elif z.op == "vcat":
                work += [z.a[0], z.a[1]]
            elif z.op == "coll":
                out += [(w, st.copy()) for w in z.a[1]]
            elif z.op == "agg" and z.a[0] in ("array", "vec"):
                out += [(w, st.copy()) for w in z.a[2]]
            elif z.op == "phi":
                work += self.flat(z)
            else:
                out.append((T("elem", self.snap(st, z), "*"), st.copy()))
        return out

    def elem_ends(self, c, st, coll, op):
        s1, s2 = st.copy(), st.copy()
        out = []
        if coll.op == "agg" and coll.a[0] in ("array", "vec"):
            if not coll.a[2]:
                return [(NONE, st)]
            return [(some(coll.a[2][0 if op == "first" else -1]), st)]
        e = T("ended", T("it", "src", coll, "slice::iter"), 0)
        if self.assume(s1, e, TRUE):
            out.append((NONE, s1))
        if self.assume(s2, e, FALSE):
            out.append((some(T("elem", coll, "last" if op == "last" else 0)), s2))
        return out

    def collect(self, c, it, dst):
        st = c.st
        n = fixed_len(it)
        if n is not None and dst[0] == "adt" and dst[1] == "alloc::vec::Vec":
            done = [((), st)]
            for p in range(n):
                done = [(vs + (v,), s2) for vs, s in done for v, s2 in self.elems(c, s, it, p)]
                if len(done) > 8:
                    break
            else:
                for vs, s in done:
                    self.exhaust(s, it)
                return [(T("agg", "vec", None, vs), s) for vs, s in done]
        elems = self.elems(c, st, it, "*")
        vals, errs = [], []
        sj = st
        adt = dst[1] if dst[0] == "adt" and dst[1] in (RES, OPT) else None
        for v, s in elems:
            if adt:
                for n, p, s2 in self.split(s, v, adt):
                    if n in ("Ok", "Some"):
                        vals.append(self.snap(s2, p[0]))
                        sj = self.join(sj, s2, ("col", c.fr.ctx, c.site[0]))
                    else:
                        errs.append((T("agg", adt, n, p), s2))
            else:
                vals.append(self.snap(s, v))
                sj = self.join(sj, s, ("col", c.fr.ctx, c.site[0]))
        uniq = []
        for v in vals:
            if v not in uniq:
                uniq.append(v)
        coll = T("coll", self.snap(st, it), tuple(uniq))
        if self.on_coll is not None:
            self.on_coll(coll, [(self.snap(s, v), s.facts) for v, s in elems])
        sj = sj.copy()
        self.exhaust(sj, it.a[0] if it.op == "adv" else it)
        if adt:
            return [(T("agg", adt, "Ok" if adt == RES else "Some", (coll,)), sj)] + errs
        return [(coll, sj)]

    def chars_of(self, it):
        while it.op == "it" and it.a[0] in ("src", "copied", "cloned", "rev") or it.op == "adv":
            it = it.a[1] if it.op == "it" else it.a[0]
        return it.op == "call" and it.a[0] in ("str::chars", "str::bytes", "String::chars")

    def pred_term(self, c, st, f, inner=None, byref=False):
        """A closure over one element summarised as a term over T('it'), if it has a single boolean result."""
        x = T("chr")
        s = st.copy()
        if byref:
            x = self.tempcell(c.fr, s, c.site, "pred", x)
        p0, c0 = self.record, self.cap
        self.record, self.cap = False, max(self.cap, 64)  # a test against many characters keeps one outcome per character
        try:
            outs = c.apply(s, f, [x], ("pred",))
        finally:
            self.record, self.cap = p0, c0
        # express as disjunction of facts
        terms = []
        for v, s2 in outs:
            new = tuple(sorted(((k, w) for k, w in s2.facts.items() if k not in st.facts), key=lambda e: e[0].id))
            terms.append((v, new))
        if any(s2.eff != st.eff for _, s2 in outs):
            return T("opaquepred", c.site[1])
        return T("pred", tuple(sorted(terms, key=lambda e: (e[0].id, tuple(k.id for k, _ in e[1])))))

    for f in (snap1, exhaust, record_effect, add_effect, notv, fork_bool, eq_terms, invoke_trait, convert, cat, display, render, iter_of, elems, coll_elems, coll_elems_np, elem_ends, collect, pred_term, chars_of):
        setattr(Engine, f.__name__, f)
    Engine.tyname = staticmethod(tyname)


_install()


@model("once::once", "iter::once")
def m_once(c):
    return [(T("it", "src", T("agg", "array", None, (c.args[0],)), "slice::iter"), c.st)]


@model("empty::empty", "iter::empty")
def m_iter_empty(c):
    return [(T("it", "src", T("agg", "array", None, ()), "slice::iter"), c.st)]

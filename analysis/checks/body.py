"""B01 length limit, B02 constructors, B04 chain."""
from checks import prop
from checks.headers import Report_like
from checks.messages import engine, fields, snaps, cont, carried
from lib import *
from prove import Prover

BODY = "body::Body"


def slots(P):
    """(declared length, bytes delivered, reader, media type) fields, found by type and by what the accessors read."""
    fs = fields(P, BODY)
    ln = [i for i, n, t in fs if t[0] == "adt" and t[1] == OPT and t[2][0] == ("prim", "u64")]
    rd = [i for i, n, t in fs if t[0] == "prim" and t[1] in ("u64", "usize", "u128")]
    bx = [i for i, n, t in fs if t[0] == "adt" and t[1].endswith("boxed::Box") or "dyn" in str(t)]
    mm = [i for i, n, t in fs if t[0] == "adt" and t[1] == OPT and t[2][0][0] == "adt" and t[2][0][1].endswith("::Mime")]
    if len(ln) != 1 or len(rd) != 1 or len(bx) != 1 or len(mm) != 1:
        raise MissingAnchor("length, bytes read, reader and media type fields of Body")
    return ln[0], rd[0], bx[0], mm[0]


def slice_len(E, t):
    """(term of the length of a possibly sliced buffer, the unsliced buffer)."""
    if t.op == "slice":
        base, r = t.a
        if r.op == "agg":
            n = r.a[0].split("::")[-1]
            lo, hi = None, None
            if n == "Range":
                lo, hi = r.a[2]
            elif n == "RangeTo":
                lo, hi = I(0), r.a[2][0]
            elif n == "RangeFrom":
                return None, base
            if hi is not None and lo is I(0):
                return hi, base
            if hi is not None:
                return T("bin", "Sub", hi, lo), base
    if t.op == "call" and t.a[0].startswith("slice::split_at"):
        if t.a[0].endswith(".0"):
            return t.a[2], t.a[1]
    if t.op == "agg" and t.a[0] in ("array", "vec"):
        return I(len(t.a[2])), t
    return T("len", t), t


def within(E, facts, n, rem, total, done):
    """n <= total - done under the facts?"""
    pv = Prover(E, facts)
    for r in rem:
        if pv.le(n, r):
            return True
    return False


@prop("B01")
def b01(R, P, W):
    """poll_read, poll_fill_buf and consume of Body over every path. With a declared length L and a count C of delivered bytes: the inner reader is only
    given a buffer whose length is proven at most L - C (or the call returns zero bytes), the slice handed out by poll_fill_buf is proven no longer than
    L - C, the count grows by exactly the number of bytes reported by the reader (or consumed) on every path that delivers, and by nothing else;
    no other function of the crate writes the count or reads from a body's inner reader."""
    fl, fc, fr_, fm = slots(P)
    p0 = T("par", 0)
    L, C = T("fld", T("fld", p0, None, fl), "Some", 0), T("fld", p0, None, fc)
    rem = [T("bin", "Sub", L, C), T("saturating_sub", L, C)]

    def limited(E, s, n, st_facts):
        return within(E, st_facts, n, rem, L, C)

    def unknown_len(facts):
        return facts.get(T("discr", T("fld", p0, None, fl))) is I(0)

    k = P.fn1(ty=BODY, name="poll_read", trait="AsyncRead")
    E = new_engine(P)
    delivered = 0
    for v, s in E.run(k):
        v = E.snap(s, v)
        calls = [e for e in s.eff if e.kind == "call" and e.name.split("::")[-1].startswith("poll_")]
        for e in calls:
            if e.name.split("::")[-1] not in ("poll_read",):
                R.undec("poll_read:inner:" + e.name, "unexpected inner operation", P.where(k))
                continue
            buf = e.args[-1]
            n, base = slice_len(E, buf)
            if unknown_len(e.facts):
                R.ob("poll_read:unlimited", base is T("par", 2), "without a declared length the caller's buffer is not passed on", P.where(k))
                continue
            good = n is not None and limited(E, s, n, e.facts)
            R.ob("poll_read:limit", good, "the inner reader may fill %s bytes, which is not shown to be at most length - bytes_read" % str(n)[:160], P.where(k))
        now = E.snap(s, E.read(s, ("H", p0), (("f", fc, None),)))
        okv = ready_ok(v)
        if okv is None:
            R.ob("poll_read:count-idle", now is C, "the count changes on a path that delivers nothing: %s" % str(now)[:120], P.where(k))
            continue
        delivered += 1
        check_count(R, E, "poll_read", okv, now, C, P.where(k), s)
        if not calls:
            R.ob("poll_read:zero", okv is I(0), "returns %s bytes without reading" % okv, P.where(k))
        else:
            R.ob("poll_read:reports", any(x.op == "call" and x.a[0].endswith("poll_read") for x in subterms(okv, E)), "reports %s instead of what the reader delivered" % str(okv)[:120], P.where(k))
    R.ob("poll_read:delivers", delivered > 0, "poll_read never returns data", P.where(k))
    R.count("read paths", delivered)

    k = P.fn1(ty=BODY, name="poll_fill_buf", trait="AsyncBufRead")
    E = new_engine(P)
    delivered = 0
    for v, s in E.run(k):
        v = E.snap(s, v)
        okv = ready_ok(v)
        now = E.snap(s, E.read(s, ("H", p0), (("f", fc, None),)))
        R.ob("poll_fill_buf:count", now is C, "poll_fill_buf changes the count although nothing was consumed", P.where(k))
        if okv is None:
            continue
        delivered += 1
        if unknown_len(s.facts):
            continue
        n, base = slice_len(E, okv)
        good = n is not None and limited(E, s, n, s.facts)
        R.ob("poll_fill_buf:limit", good, "poll_fill_buf hands out %s bytes, which is not shown to be at most length - bytes_read" % str(n)[:160], P.where(k))
    R.count("read paths", delivered)
    R.ob("poll_fill_buf:delivers", delivered > 0, "poll_fill_buf never returns data", P.where(k))

    k = P.fn1(ty=BODY, name="consume", trait="AsyncBufRead")
    E = new_engine(P)
    for v, s in E.run(k):
        now = E.snap(s, E.read(s, ("H", p0), (("f", fc, None),)))
        cs = [e for e in s.eff if e.kind == "call" and e.name.split("::")[-1] == "consume"]
        if len(cs) != 1:
            R.ob("consume:inner", False, "consume performs %d consume operations on the reader" % len(cs), P.where(k))
            continue
        amt = cs[0].args[-1]
        check_count(R, E, "consume", amt, now, C, P.where(k), s)
        pv = Prover(E, s.facts)
        R.ob("consume:inner", pv.le(amt, T("par", 1)), "consumes %s of the reader instead of at most the given amount" % str(amt)[:100], P.where(k))
        R.count("read paths")
    # nobody else touches the count or the reader
    path = P.adt(BODY)
    own = {P.body_owner(x) for x in P.fn(ty=BODY, name="poll_read", trait="AsyncRead") + P.fn(ty=BODY, name="poll_fill_buf", trait="AsyncBufRead") + P.fn(ty=BODY, name="consume", trait="AsyncBufRead")}
    for kk, b in P.bodies.items():
        tys = [P.ty(t) for t in b["body"]["locals"]]
        for blk in b["body"]["blocks"]:
            for st in blk["s"]:
                if st[0] != "=" or not st[1][1]:
                    continue
                last = st[1][1][-1]
                if last != "*" and last[0] == "f" and last[1] == fc and owner_ty(P, tys, st[1]) == path:
                    o = P.body_owner(kk)
                    reach = o in own or called_from_own(P, o, own)
                    R.ob("writes-count:" + P.short(o), reach, "%s writes the count of delivered bytes" % P.short(o), "%s line %s" % (P.where(o), st[3]))
                    R.count("writes of the count")
    R.floor("read paths", 4)


def called_from_own(P, k, own):
    """k is a private helper of the reading functions only."""
    callers = set()
    for kk, b in P.bodies.items():
        for blk in b["body"]["blocks"]:
            t = blk["t"]
            if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
                f = t[1][1]["fn"]
                if f["d"] == k or f.get("r") == k:
                    callers.add(P.body_owner(kk))
    return bool(callers) and callers <= own | {k} and not P.defs[k].get("exported")


def owner_ty(P, tys, place):
    """Type path of the struct whose field the last projection designates."""
    ty = tys[place[0]]
    for p in place[1][:-1]:
        if p == "*":
            ty = ty[1] if ty[0] in ("ref", "ptr") else (ty[2][0] if ty[0] == "adt" and ty[2] else ty)
        elif p[0] == "f":
            ty = P.ty(p[2])
    return ty[1] if ty[0] == "adt" else None


def ready_ok(v):
    """The Ok payload of Poll::Ready(Ok(x)) or None."""
    if v.op == "agg" and v.a[0] == POLL and v.a[1] == "Ready":
        r = v.a[2][0]
        if r.op == "agg" and r.a[0] == RES:
            return r.a[2][0] if r.a[1] == "Ok" else None
        return T("fld", r, "Ok", 0)
    if v.op == "agg":
        return None
    return T("fld", v, "Ready", 0)


def uncast(t):
    while t.op == "cast" and t.a[0] == "IntToInt":
        t = t.a[1]
    return t


def check_count(R, E, lab, n, now, C, where, s):
    """now == C + n"""
    if n is I(0):
        good = now is C
    else:
        good = False
        if now.op == "bin" and now.a[0] == "Add":
            a, b = now.a[1], now.a[2]
            good = a is C and uncast(b) is uncast(n) or b is C and uncast(a) is uncast(n)
        elif now.op in ("saturating_add", "wrapping_add"):
            good = now.a[0] is C and uncast(now.a[1]) is uncast(n)
        elif now.op == "min":
            good = None
    if good is None:
        R.undec(lab + ":count", "clamped count")
    else:
        R.ob(lab + ":count", good, "%s delivers %s bytes and the count becomes %s" % (lab, str(n)[:120], str(now)[:160]), where)


# ------------------------------------------------------------------------------------------------ B02
MEDIA = {"empty": "application/octet-stream", "from_reader": "application/octet-stream", "from_bytes": "application/octet-stream", "from_string": "text/plain;charset=utf-8",
         "from_json": "application/json", "from_form": "application/x-www-form-urlencoded"}


def essence(t):
    """Canonical text of a constant Mime term."""
    if t.op == "agg" and t.a[0] == OPT and t.a[1] == "Some":
        t = t.a[2][0]
    if not (t.op == "agg" and t.a[0].endswith("Mime")):
        return None
    e = strconst(t.a[2][0])
    if e is None:
        return None
    out = e
    for x in subterms(t.a[2][-1]):
        pass
    u = t.a[2][3] if len(t.a[2]) > 3 else None
    return out, u


def data_terms(E, t):
    """Possible representations of the bytes held by a reader term."""
    out = []
    for x in subterms(t, E):
        out.append(x)
    return out


@prop("B02")
def b02(R, P, W):
    """Every constructor of Body analysed symbolically: the declared length is the length term of exactly the data placed in the reader (0 for empty, the
    given length for from_reader, the metadata length for files), the media type is the documented constant (for files: sniffed, else guessed, else
    the default), and the delivered count is 0. Conversions into Body agree with the constructor for their type."""
    fl, fc, fr_, fm = slots(P)
    cons = {}
    for k, d in P.defs.items():
        if d.get("krate") == P.crate and d["kind"] == "AssocFn" and "self_ty" in d and k in P.bodies and P.ty(d["self_ty"])[0] == "adt" and P.ty(d["self_ty"])[1] == P.adt(BODY):
            cons[k] = d
    n = 0
    for k, d in sorted(cons.items()):
        nm = d["name"]
        if nm not in MEDIA and nm not in ("from_path", "from_file", "from_file_with_path", "from"):
            continue
        E = new_engine(P)
        lab = P.short(k).replace("http_types::", "")
        outs = E.run_async(k) if d.get("async") else E.run(k)
        got = 0
        for v, s in outs:
            v = E.snap(s, v)
            if v.op == "agg" and v.a[0] == RES:
                if v.a[1] == "Err":
                    continue
                v = v.a[2][0]
            for b in E.flat(v):
                if b.op != "agg" or b.a[0] != P.adt(BODY):
                    if nm == "from" and b.op in ("fld", "call"):
                        R.undec(lab + ":shape", "result %s" % str(b)[:100], P.where(k))
                    else:
                        R.undec(lab + ":shape", "result %s" % str(b)[:100], P.where(k))
                    continue
                got += 1
                ln, ct, rd, mm = b.a[2][fl], b.a[2][fc], b.a[2][fr_], b.a[2][fm]
                R.ob(lab + ":unread", ct is I(0), "a new body counts %s bytes as read" % ct, P.where(k))
                conv = None
                if nm == "from":
                    src = P.tystr(P.ty(d["inputs"][0]))
                    conv = {"String": "from_string", "&str": "from_string", "Vec<u8>": "from_bytes", "&[u8]": "from_bytes", "Value": "from_json", "Vec<u8, Global>": "from_bytes"}.get(src)
                    if conv is None:
                        R.undec(lab + ":conversion", "no constructor recorded for %s" % src, P.where(k))
                        continue
                kind = conv or nm
                # length
                if kind == "empty":
                    R.ob(lab + ":length", ln is some(I(0)), "declared length is %s" % str(ln)[:120], P.where(k))
                elif kind == "from_reader":
                    R.ob(lab + ":length", ln is T("par", 1), "declared length is %s instead of the given one" % str(ln)[:120], P.where(k))
                    R.ob(lab + ":data", any(x is T("par", 0) for x in subterms(rd, E)), "the reader is %s" % str(rd)[:120], P.where(k))
                elif kind in ("from_bytes", "from_string", "from_json", "from_form"):
                    good, why = False, "declared length is %s" % str(ln)[:160]
                    if ln.op == "agg" and ln.a[1] == "Some":
                        x = uncast(ln.a[2][0])
                        if x.op == "len":
                            data = x.a[0]
                            good = holds(E, rd, data)
                            why = "declared length is the length of %s, the body holds %s" % (str(data)[:100], str(rd)[:140])
                        elif x.op == "int":
                            good = False
                    R.ob(lab + ":length", good, why, P.where(k))
                else:
                    xs = subterms(ln, E)
                    meta = [x for x in xs if x.op == "call" and x.a[0].endswith("len")]
                    md = any(x.op == "call" and "metadata" in x.a[0].lower() for x in xs)
                    R.ob(lab + ":length", ln.op == "agg" and ln.a[1] == "Some" and md, "declared length of a file body is %s" % str(ln)[:160], P.where(k))
                # media type
                if kind in MEDIA:
                    want = MEDIA[kind].split(";")[0]
                    es = essence(mm)
                    R.ob(lab + ":mime", es is not None and es[0].split(";")[0] == want, "media type is %s, documented %s" % (str(mm)[:120], MEDIA[kind]), P.where(k))
                    if kind == "from_string" and es:
                        R.ob(lab + ":charset", es[1] is not I(0), "the charset of text bodies is missing", P.where(k))
                else:
                    R.ob(lab + ":mime", mm.op == "agg" and mm.a[1] == "Some" or mm.op == "phi", "a file body may have no media type", P.where(k))
        if got:
            n += 1
        elif not any(x == lab + ":shape" for x in R.undecided):
            R.ob(lab + ":returns", False, "never returns a body", P.where(k))
    k = [k for k, d in cons.items() if d["name"] == "len" and not d.get("impl_trait")]
    E = new_engine(P)
    for v, s in E.run(k[0]):
        R.ob("len", E.snap(s, v) is T("fld", T("par", 0), None, fl), "len() is %s" % v, P.where(k[0]))
    k = [k for k, d in cons.items() if d["name"] == "is_empty" and not d.get("impl_trait")]
    E = new_engine(P)
    L = T("fld", T("par", 0), None, fl)
    for v, s in E.run(k[0]):
        v = E.snap(s, v)
        d = E.known(s, T("discr", L))
        if v is NONE:
            good = d is I(0)
        elif v.op == "agg" and v.a[1] == "Some":
            x = v.a[2][0]
            y = T("fld", L, "Some", 0)
            kx = E.known(s, x)
            kz = E.known(s, T("eq", y, I(0)))
            if kx is not None:
                kl = s.facts.get(y)
                zero = True if kl is I(0) else False if isinstance(kl, tuple) and I(0) in kl[1] else None
                if zero is None:
                    e = [w for f, w in s.facts.items() if f.op in ("eq", "bin") and y in f.a and I(0) in f.a]
                    zero = (e[0] is TRUE) if e else None
                good = None if zero is None else (kx is TRUE) == zero
            else:
                good = x.op in ("eq",) and y in x.a and I(0) in x.a or x.op == "bin" and x.a[0] == "Eq" and y in x.a and I(0) in x.a
        else:
            good = False
        if good is None:
            R.undec("is_empty", "shape")
        else:
            R.ob("is_empty", good, "is_empty() is %s" % str(v)[:100], P.where(k[0]))
    R.count("constructors", n)
    R.floor("constructors", 8)


def holds(E, rd, data):
    """The reader term is built around exactly `data`."""
    xs = subterms(rd, E)
    if any(x is data for x in xs):
        return True
    # bytes of the same text
    for x in xs:
        if x.op == "call" and x.a[0] in ("String::into_bytes", "str::as_bytes") and x.a[1] is data:
            return True
    return False


# ------------------------------------------------------------------------------------------------ B04
@prop("B04")
def b04(R, P, W):
    """Body::chain over every path: the reader is the chaining of self then other (in that order, both unread rests, i.e. the bodies themselves and not
    their inner readers), the count starts at 0, and the length is Some only where both lengths were Some, and is then the sum of the two
    remainders length - bytes_read."""
    fl, fc, fr_, fm = slots(P)
    k = P.fn1(ty=BODY, name="chain")
    E = new_engine(P)
    p0, p1 = T("par", 0), T("par", 1)
    l0, l1 = T("fld", p0, None, fl), T("fld", p1, None, fl)

    def rest(p, l):
        a, b = T("fld", l, "Some", 0), T("fld", p, None, fc)
        return {T("bin", "Sub", a, b), T("saturating_sub", a, b)}
    n = somes = 0
    for v, s in E.run(k):
        v = E.snap(s, v)
        if v.op != "agg" or v.a[0] != P.adt(BODY):
            R.undec("chain:shape", str(v)[:100], P.where(k))
            continue
        n += 1
        ln, ct, rd, mm = v.a[2][fl], v.a[2][fc], v.a[2][fr_], v.a[2][fm]
        R.ob("chain:unread", ct is I(0), "the joined body starts with %s bytes counted" % ct, P.where(k))
        ch = [x for x in subterms(rd, E) if x.op == "call" and x.a[0].split("::")[-1] == "chain"]
        R.ob("chain:order", len(ch) == 1 and ch[0].a[1] is p0 and ch[0].a[2] is p1, "the joined reader is %s" % str(rd)[:140], P.where(k))
        d0, d1 = E.known(s, T("discr", l0)), E.known(s, T("discr", l1))
        if ln is NONE:
            both = d0 is I(1) and d1 is I(1)
            over = any(f.op == "ovf" and w is TRUE for f, w in s.facts.items())
            R.ob("chain:none", not both or over, "the length is dropped although both are known", P.where(k))
        elif ln.op == "agg" and ln.a[1] == "Some":
            somes += 1
            R.ob("chain:some", d0 is I(1) and d1 is I(1), "a length is declared although one of the two is unknown", P.where(k))
            x = ln.a[2][0]
            good = None
            if x.op in ("bin", "saturating_add", "wrapping_add") and (x.op != "bin" or x.a[0] == "Add"):
                a, b = x.a[-2], x.a[-1]
                good = a in rest(p0, l0) and b in rest(p1, l1) or b in rest(p0, l0) and a in rest(p1, l1)
            lf = linsum(x)
            want = {T("fld", l0, "Some", 0): 1, T("fld", l1, "Some", 0): 1, T("fld", p0, None, fc): -1, T("fld", p1, None, fc): -1}
            R.ob("chain:sum", bool(good) or lf == want, "the joined length is %s" % str(x)[:160], P.where(k))
            R.ob("chain:no-wrap", x.op != "wrapping_add", "the joined length wraps", P.where(k))
        else:
            R.undec("chain:length", str(ln)[:100], P.where(k))
    R.ob("chain:known", somes > 0, "the joined length is never known", P.where(k))
    R.count("paths of chain", n)
    R.floor("paths of chain", 2)


def linsum(t):
    """Linear combination {term: coefficient}."""
    out = {}

    def go(x, c):
        if x.op == "bin" and x.a[0] in ("Add", "Sub"):
            go(x.a[1], c)
            go(x.a[2], c if x.a[0] == "Add" else -c)
        elif x.op == "saturating_sub":
            go(x.a[0], c)
            go(x.a[1], -c)
        else:
            out[x] = out.get(x, 0) + c
    go(t, 1)
    return out

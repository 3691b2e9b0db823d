"""T01-T05: tables between enumerations and their textual or numeric forms."""
import re
from checks import prop
from checks.headers import Report_like
from checks.errors import mod_of
from lib import *
import table
from table import ev, select, lookup

METHODS = {"Acl": "ACL", "BaselineControl": "BASELINE-CONTROL", "Bind": "BIND", "Checkin": "CHECKIN", "Checkout": "CHECKOUT", "Connect": "CONNECT", "Copy": "COPY", "Delete": "DELETE",
           "Get": "GET", "Head": "HEAD", "Label": "LABEL", "Link": "LINK", "Lock": "LOCK", "Merge": "MERGE", "MkActivity": "MKACTIVITY", "MkCalendar": "MKCALENDAR", "MkCol": "MKCOL",
           "MkRedirectRef": "MKREDIRECTREF", "MkWorkspace": "MKWORKSPACE", "Move": "MOVE", "Options": "OPTIONS", "OrderPatch": "ORDERPATCH", "Patch": "PATCH", "Post": "POST", "Pri": "PRI",
           "PropFind": "PROPFIND", "PropPatch": "PROPPATCH", "Put": "PUT", "Rebind": "REBIND", "Report": "REPORT", "Search": "SEARCH", "Trace": "TRACE", "Unbind": "UNBIND",
           "Uncheckout": "UNCHECKOUT", "Unlink": "UNLINK", "Unlock": "UNLOCK", "Update": "UPDATE", "UpdateRedirectRef": "UPDATEREDIRECTREF", "VersionControl": "VERSION-CONTROL"}
# the "safe" column of the IANA method registry, restricted to the methods above
SAFE = {"Get", "Head", "Options", "Pri", "PropFind", "Report", "Search", "Trace"}
STATUS = {"Continue": 100, "SwitchingProtocols": 101, "EarlyHints": 103, "Ok": 200, "Created": 201, "Accepted": 202, "NonAuthoritativeInformation": 203, "NoContent": 204, "ResetContent": 205,
          "PartialContent": 206, "MultiStatus": 207, "ImUsed": 226, "MultipleChoice": 300, "MovedPermanently": 301, "Found": 302, "SeeOther": 303, "NotModified": 304, "TemporaryRedirect": 307,
          "PermanentRedirect": 308, "BadRequest": 400, "Unauthorized": 401, "PaymentRequired": 402, "Forbidden": 403, "NotFound": 404, "MethodNotAllowed": 405, "NotAcceptable": 406,
          "ProxyAuthenticationRequired": 407, "RequestTimeout": 408, "Conflict": 409, "Gone": 410, "LengthRequired": 411, "PreconditionFailed": 412, "PayloadTooLarge": 413, "UriTooLong": 414,
          "UnsupportedMediaType": 415, "RequestedRangeNotSatisfiable": 416, "ExpectationFailed": 417, "ImATeapot": 418, "MisdirectedRequest": 421, "UnprocessableEntity": 422, "Locked": 423,
          "FailedDependency": 424, "TooEarly": 425, "UpgradeRequired": 426, "PreconditionRequired": 428, "TooManyRequests": 429, "RequestHeaderFieldsTooLarge": 431,
          "UnavailableForLegalReasons": 451, "InternalServerError": 500, "NotImplemented": 501, "BadGateway": 502, "ServiceUnavailable": 503, "GatewayTimeout": 504,
          "HttpVersionNotSupported": 505, "VariantAlsoNegotiates": 506, "InsufficientStorage": 507, "LoopDetected": 508, "NotExtended": 510, "NetworkAuthenticationRequired": 511}
VERSION = {"Http0_9": "HTTP/0.9", "Http1_0": "HTTP/1.0", "Http1_1": "HTTP/1.1", "Http2_0": "HTTP/2", "Http3_0": "HTTP/3"}
CODING = {"Gzip": "gzip", "Deflate": "deflate", "Brotli": "br", "Zstd": "zstd", "Identity": "identity"}
SCHEME = {"Basic": "Basic", "Bearer": "Bearer", "Digest": "Digest", "Hoba": "HOBA", "Mutual": "Mutual", "Negotiate": "Negotiate", "OAuth": "OAuth", "ScramSha1": "SCRAM-SHA-1",
          "ScramSha256": "SCRAM-SHA-256", "Vapid": "vapid"}
CLEAR = {"Cache": '"cache"', "Cookies": '"cookies"', "Storage": '"storage"', "ExecutionContexts": '"executionContexts"'}
SOURCE = {"SameOrigin": "'self'", "Src": "'src'", "None": "'none'", "UnsafeInline": "'unsafe-inline'", "Data": "data:", "Mediastream": "mediastream:", "Https": "https:", "Blob": "blob:",
          "Filesystem": "filesystem:", "StrictDynamic": "'strict-dynamic'", "UnsafeEval": "'unsafe-eval'", "Wildcard": "*"}
CACHE = {"Immutable": "immutable", "MaxAge": "max-age", "MaxStale": "max-stale", "MinFresh": "min-fresh", "MustRevalidate": "must-revalidate", "NoCache": "no-cache", "NoStore": "no-store",
         "NoTransform": "no-transform", "OnlyIfCached": "only-if-cached", "Private": "private", "ProxyRevalidate": "proxy-revalidate", "Public": "public", "SMaxAge": "s-maxage",
         "StaleIfError": "stale-if-error", "StaleWhileRevalidate": "stale-while-revalidate"}
DELTA = {"MaxAge", "MinFresh", "SMaxAge", "StaleIfError", "StaleWhileRevalidate"}


def lit(adt, v, *fs):
    return T("agg", adt, v, tuple(fs))


def rows(P, key, cap=1500):
    E = new_engine(P, cap=cap)
    return E, E.run(key)


def where_ty(P, name, path=None):
    """The type called `name`; where several modules have one, the one whose path contains `path`."""
    c = [a for a in P.adts if a.split("::")[-1] == name and P.is_local_adt(("adt", a, ()))] if path else [P.adt(name)]
    c = [a for a in c if path is None or ("::" + path + "::") in ("::" + a)]
    if len(c) != 1:
        raise MissingAnchor("type %s %s" % (name, path or ""))
    return c[0]


def fns(P, adt, name, trait=None, targ=None):
    return [k for k in P.fn(name=name, trait=trait, targ=targ) if "self_ty" in P.defs[k] and P.ty(P.defs[k]["self_ty"])[1:2] == (adt,)]


def conv(P, trait, to, frm, meth):
    """Functions of impl trait<frm> for to, both given as predicates on types."""
    r = []
    for im in P.impl_by_trait.get(trait, []):
        a = im["targs"]
        if len(a) == 2 and to(a[0]) and frm(a[1]):
            r += [it["def"] for it in im["items"] if it["name"] == meth and it["def"] in P.bodies]
    return r


def is_adt(a):
    return lambda t: t[0] == "adt" and t[1] == a


def is_prim(n):
    return lambda t: t == ("prim", n)


def is_str(t):
    return t[0] == "ref" and t[1] == ("prim", "str")


# ------------------------------------------------------------------ printing
def written(E, P, key, mode):
    """value function giving the text an outcome shows."""
    def as_ref(v, s, env):
        return ev(E, E.snap(s, v), env)

    def fmt(v, s, env):
        m = s.env.get(("H", T("par", 1)))
        if m is None:
            return None
        e = dict(env)
        e[T("par", 1)] = S("")
        return ev(E, E.snap(s, m), e)

    def ser(v, s, env):
        cs = [e for e in s.eff if e.kind == "call" and "Serializer::serialize_" in e.name]
        if len(cs) != 1:
            return None
        x = ev(E, E.snap(s, cs[0].args[-1]), env)
        return x

    def value(v, s, env):
        w = E.snap(s, v)
        while w.op == "agg" and len(w.a[2]) == 1 and not w.a[1] and isinstance(w.a[0], str) and w.a[0] not in ("array", "vec", "tuple"):
            w = w.a[2][0]
        return ev(E, w, env)
    return {"ref": as_ref, "fmt": fmt, "ser": ser, "value": value}[mode]


def print_table(R, P, key, adt, expect, mode, label, payload=None):
    E, outs = rows(P, key)
    f = written(E, P, key, mode)
    R.count("printing tables")
    for v, want in expect.items():
        R.count("printed rows")
        for name, val, text in (payload(v, want) if payload else [(v, lit(adt, v), want)]):
            env = {T("par", 0): val}
            r = lookup(E, outs, env, lambda o, s: f(o, s, env))
            k = "%s:%s" % (label, name)
            if r[0] == "one":
                got = r[1].a[0] if r[1].op in ("str", "int") else str(r[1])
                R.ob(k, got == text, "%s of %s gives %r, not %r" % (label, name, got, text), P.where(key))
            elif r[0] == "none":
                R.ob(k, False, "%s of %s has no outcome: it cannot be printed" % (label, name), P.where(key))
            else:
                R.undec(k, r[1], P.where(key))


# ------------------------------------------------------------------ parsing
def member(E, s, v, adt, env):
    """("ok", member), ("err",) or None: what a parsing outcome gives under env (members as (name, payload terms))."""
    w = E.snap(s, v)
    wrapped = None
    while w.op == "agg" and w.a[0] in (RES, OPT):
        if w.a[1] == "Err" or w.a[1] == "None":
            return ("err",)
        w = E.snap(s, w.a[2][0])
        wrapped = True
    if w.op == "call" and ("Error::" in w.a[0]):
        return ("err",)
    x = ev(E, w, env)
    if x is not None and x.op == "int":
        for n, d, nf in E.variants(adt):
            if I(d) is x and nf == 0:
                return ("ok", lit(adt, n))
        return ("ok", x)
    if x is not None and x.op == "agg" and x.a[0] == adt:
        return ("ok", x)
    if w.op == "agg" and w.a[0] == adt:
        return ("ok", lit(adt, w.a[1], *w.a[2]))
    return None


def refused(t, s):
    return None


def norm(t):
    """(innermost term, normalisers applied) of a text compared with a constant."""
    seq = []
    while t.op == "call" and t.a[0] in ("ascii_lower", "ascii_upper", "uni_lower", "uni_upper", "str::trim", "str::trim_start", "str::trim_end"):
        seq.append(t.a[0])
        t = t.a[1]
    return t, seq


def pinned(E, s, inp):
    """Constant texts the conditions equate the input with: [(constant, normalisers)]."""
    out = []
    for f, x in s.facts.items():
        if isinstance(x, T) and x.op == "str":
            t, seq = norm(f)
            if t is inp:
                out.append((x.a[0], seq))
    return out


def mutations(name, names, fold):
    """Texts near `name` that are no member's text."""
    c = [name + "x", "x" + name, name[:-1], name[1:], name + " ", " " + name, name + "\t", name + ",", name[:1], name.replace("-", ""), name.replace("-", "_"), name * 2,
         name.replace("S", "\u017f").replace("s", "\u017f"), name.replace("K", "\u212a").replace("k", "\u212a"), name + "\0"]
    known = {n.lower() if fold else n for n in names}
    return [x for x in dict.fromkeys(c) if (table.ascii_map(x, False) if fold else x) not in known]


def parse_table(R, P, key, adt, names, label, inp, fold, exact, variants=None):
    """Parsing each member's own text yields that member (in any case if fold); with exact, no other text parses."""
    E, outs = rows(P, key)
    R.count("parsing tables")
    val = {}

    def at(text, what, want):
        env = {inp: S(text)}
        r = lookup(E, outs, env, lambda o, s: member(E, s, o, adt, env))
        R.count("parsed rows")
        k = "%s:%s" % (label, what)
        if r[0] == "one":
            got = r[1][1] if r[1][0] == "ok" else None
            R.ob(k, got is want, "%s of %r %s" % (label, text, "is refused" if got is None else "gives %s%s" % (got, "" if want is None else ", not %s" % want)), P.where(key))
        elif r[0] == "none":
            if want is not None:
                R.ob(k, False, "%s of %r has no outcome" % (label, text), P.where(key))
        else:
            R.undec(k, r[1], P.where(key))
    for v, n in names.items():
        at(n, v, lit(adt, v))
        if fold:
            for i, m in enumerate(dict.fromkeys((n.lower(), n.upper(), n.title(), n.swapcase()))):
                if m != n:
                    at(m, "%s:case%d" % (v, i), lit(adt, v))
        if exact:
            for i, m in enumerate(mutations(n, names.values(), fold)):
                at(m, "%s:other" % v, None)
    if exact:
        at("", "empty", None)
        for o, s in outs:
            g = member(E, s, o, adt, {})
            if g is None or g[0] != "ok":
                continue
            v = g[1].a[1] if g[1].op == "agg" else None
            R.count("accepting paths")
            pins = [c for c, seq in pinned(E, s, inp) if all(q in (("ascii_lower", "ascii_upper") if fold else ()) for q in seq)]
            good = [c for c in pins if (c.lower() == names.get(v, "").lower() if fold else c == names.get(v))]
            if good:
                R.ob("%s:%s:only" % (label, v), True)
            elif pins:
                R.ob("%s:%s:only" % (label, v), False, "%s accepts %r as %s" % (label, pins[0], v), P.where(key))
            else:
                R.undec("%s:%s:only" % (label, v), "this accepting path does not compare the text with a constant", P.where(key))


def text_parser(P, adt):
    """Inherent functions reading a member of adt from one text (crate-private: found by type, not by name)."""
    out = []
    for k in fns(P, adt, None):
        d = P.defs[k]
        ins = [P.ty(i) for i in d["inputs"]]
        if len(ins) == 1 and is_str(ins[0]):
            o = P.ty(d["output"])
            while o[0] == "adt" and o[1] in (OPT, RES):
                o = o[2][0]
            if o == ("adt", adt, ()):
                out.append(k)
    return out


def need(ks, what):
    if len(ks) != 1:
        raise MissingAnchor("%s (%d found)" % (what, len(ks)))
    return ks[0]


@prop("T01")
def t01(R, P, W):
    """Method: AsRef<str>, Display and the serializer, read as tables over the 39 variants, give each variant's own registered name; FromStr, TryFrom<&str>
    and the deserializer's visitor, read as tables over the names (and other letter cases of them), give back that variant; every accepting path is
    conditioned on the text being, letter case aside, the name of the variant it returns; is_safe is true exactly on the registered safe methods."""
    a = P.adt("Method")
    vs = [v["name"] for v in P.adts[a]["variants"]]
    R.ob("members", set(vs) == set(METHODS), "the members of Method are not the registered ones: %s" % sorted(set(vs) ^ set(METHODS)), "")
    names = {v: METHODS[v] for v in vs if v in METHODS}
    R.count("members", len(names))
    print_table(R, P, need(fns(P, a, "as_ref", "AsRef"), "Method::as_ref"), a, names, "ref", "as_ref")
    print_table(R, P, need(fns(P, a, "fmt", "Display"), "Method Display"), a, names, "fmt", "Display")
    print_table(R, P, need(fns(P, a, "serialize", "Serialize"), "Method Serialize"), a, names, "ser", "serialize")
    p0, p1 = T("par", 0), T("par", 1)
    parse_table(R, P, need(fns(P, a, "from_str", "FromStr"), "Method::from_str"), a, names, "from_str", p0, True, True)
    parse_table(R, P, need(conv(P, "core::convert::TryFrom", is_adt(a), is_str, "try_from"), "Method::try_from(&str)"), a, names, "try_from", p0, True, True)
    k = need(fns(P, a, "is_safe"), "Method::is_safe")
    E, outs = rows(P, k)
    for v in vs:
        env = {p0: lit(a, v)}
        r = lookup(E, outs, env, lambda o, s: ev(E, o, env))
        if r[0] == "one":
            R.ob("is_safe:" + v, (r[1] is TRUE) == (v in SAFE), "is_safe(%s) is %s" % (v, r[1]), P.where(k))
        else:
            R.undec("is_safe:" + v, str(r), P.where(k))
    R.floor("members", 39)
    R.floor("printing tables", 3)
    R.floor("parsing tables", 2)


def alnum(s):
    return re.sub("[^a-z0-9]", "", s.lower())


def int_table(R, P, key, adt, label, inp, ty):
    """A function from an integer to a status: exactly the known numbers are accepted."""
    E, outs = rows(P, key)
    lo, hi = int_range(ty)
    nums = {n: v for v, n in STATUS.items()}

    def at(x, tag):
        env = {inp: I(x)}
        r = lookup(E, outs, env, lambda o, s: member(E, s, o, adt, env))
        R.count("numbers looked up")
        want = nums.get(x)
        k = "%s:%s" % (label, tag)
        if r[0] == "one":
            got = r[1][1] if r[1][0] == "ok" else None
            gv = got.a[1] if got is not None and got.op == "agg" else got
            R.ob(k, gv == want, "%s of %d %s" % (label, x, "is refused" if got is None else "gives %s" % gv), P.where(key))
        elif r[0] == "none":
            if want is not None:
                R.ob(k, False, "%s of %d has no outcome" % (label, x), P.where(key))
        else:
            R.undec(k, r[1], P.where(key))
    R.count("number tables")
    for v, n in STATUS.items():
        if lo <= n <= hi:
            at(n, v)
        al = [n + k * 2 ** b for b in (8, 16, 32) for k in (-2, -1, 1, 2)] + [-n, 2 ** 64 + n]
        for x in al:
            if lo <= x <= hi and x not in nums:
                at(x, v + ":alias")
    for x in list(range(max(lo, 0), min(hi, 1023) + 1)) + [lo, hi, hi - 1, lo + 1]:
        if x not in nums:
            at(x, "others")
    for o, s in outs:
        g = member(E, s, o, adt, {})
        if g is None or g[0] != "ok" or g[1].op != "agg":
            continue
        R.count("accepting paths")
        v = g[1].a[1]
        pins = {x.a[0] for f, x in s.facts.items() if isinstance(x, T) and x.op == "int" and f is inp}
        if STATUS.get(v) in pins:
            R.ob("%s:%s:only" % (label, v), True)
        else:
            # through a conversion that preserves the value
            cs = [f for f, x in s.facts.items() if isinstance(x, T) and x.op == "int" and x.a[0] == STATUS.get(v) and f.op == "cast" and f.a[1] is inp]
            fit = any(f.op == "fits" and f.a[0] is inp and x is TRUE for f, x in s.facts.items())
            if cs:
                ok_ = fit or widening(cs[0].a[2], cs[0].a[3])
                R.ob("%s:%s:only" % (label, v), ok_, "%s: the number is truncated from %s to %s before it is looked up" % (label, cs[0].a[2], cs[0].a[3]), P.where(key))
            else:
                R.undec("%s:%s:only" % (label, v), "this accepting path does not compare the number with a constant", P.where(key))


def widening(a, b):
    (l1, h1), (l2, h2) = int_range(a), int_range(b)
    return l2 <= l1 and h1 <= h2


def to_number(R, P, key, adt, label):
    E, outs = rows(P, key)
    R.count("number tables")
    for v, n in STATUS.items():
        env = {T("par", 0): lit(adt, v)}
        r = lookup(E, outs, env, lambda o, s: ev(E, E.snap(s, o), env))
        if r[0] == "one":
            x = E.discr(r[1]) if r[1].op == "agg" else r[1]
            R.ob("%s:%s" % (label, v), x is I(n), "%s of %s gives %s, not %d" % (label, v, x, n), P.where(key))
        else:
            R.undec("%s:%s" % (label, v), str(r), P.where(key))


@prop("T02")
def t02(R, P, W):
    """StatusCode: every variant's number is the registered one; the conversion to u16, the serializer and Display give that number; TryFrom<u16> and each
    integer visitor, read as tables, accept exactly the registered numbers (every accepting path compares the undiminished number with its variant's);
    canonical_reason is a distinct phrase naming the variant; each class predicate holds exactly for its hundreds; comparison with u16 compares the number."""
    a = P.adt("StatusCode")
    vs = {v["name"]: int(v["discr"]) for v in P.adts[a]["variants"]}
    R.ob("members", vs == STATUS, "the members of StatusCode differ from the registered ones: %s" % sorted(set(vs.items()) ^ set(STATUS.items())), "")
    R.count("members", len(vs))
    p0 = T("par", 0)
    to_number(R, P, need(conv(P, "core::convert::From", is_prim("u16"), is_adt(a), "from"), "u16::from(StatusCode)"), a, "u16::from")
    int_table(R, P, need(conv(P, "core::convert::TryFrom", is_adt(a), is_prim("u16"), "try_from"), "StatusCode::try_from(u16)"), a, "try_from", p0, "u16")
    # reasons
    k = need(fns(P, a, "canonical_reason"), "StatusCode::canonical_reason")
    E, outs = rows(P, k)
    seen = {}
    for v in STATUS:
        env = {p0: lit(a, v)}
        r = lookup(E, outs, env, lambda o, s: ev(E, E.snap(s, o), env))
        if r[0] != "one" or r[1].op != "str":
            R.undec("reason:" + v, str(r), P.where(k))
            continue
        t = r[1].a[0]
        R.ob("reason:" + v, alnum(t) in (alnum(v), alnum(v) + "s"), "the reason phrase of %s is %r" % (v, t), P.where(k))
        R.ob("reason-distinct:" + v, t not in seen, "%s and %s share the reason phrase %r" % (v, seen.get(t), t), P.where(k))
        seen[t] = v
        R.count("reasons")
    # classes
    for f, h in (("is_informational", 1), ("is_success", 2), ("is_redirection", 3), ("is_client_error", 4), ("is_server_error", 5)):
        k = need(fns(P, a, f), "StatusCode::" + f)
        E, outs = rows(P, k)
        R.count("class predicates")
        for v, n in STATUS.items():
            env = {p0: lit(a, v)}
            r = lookup(E, outs, env, lambda o, s: ev(E, o, env))
            if r[0] == "one":
                R.ob("%s:%s" % (f, v), (r[1] is TRUE) == (n // 100 == h), "%s of %s (%d) is %s" % (f, v, n, r[1]), P.where(k))
            else:
                R.undec("%s:%s" % (f, v), str(r), P.where(k))
    # comparisons with numbers
    for im in P.impl_by_trait.get("core::cmp::PartialEq", []):
        t = im["targs"]
        if len(t) == 2 and (is_adt(a)(t[0]) and t[1] == ("prim", "u16") or t[0] == ("prim", "u16") and is_adt(a)(t[1])):
            for it in im["items"]:
                if it["def"] in P.bodies and it["name"] in ("eq", "ne"):
                    R.count("comparisons")
                    E, outs = rows(P, it["def"])
                    si = 0 if is_adt(a)(t[0]) else 1
                    for v, n in STATUS.items():
                        for m in (n, n + 1, n - 1, n ^ 256, n + 100):
                            env = {T("par", si): lit(a, v), T("par", 1 - si): I(m)}
                            r = lookup(E, outs, env, lambda o, s: ev(E, o, env))
                            lab = "%s(%s,%s)" % (it["name"], P.tystr(t[0]), P.tystr(t[1]))
                            if r[0] == "one":
                                R.ob("%s:%s" % (lab, v), (r[1] is TRUE) == ((m == n) == (it["name"] == "eq")), "%s: %s against %d is %s" % (lab, v, m, r[1]), P.where(it["def"]))
                            else:
                                R.undec("%s:%s" % (lab, v), str(r), P.where(it["def"]))
    # Display: number and own reason
    k = need(fns(P, a, "fmt", "Display"), "StatusCode Display")
    E, outs = rows(P, k)
    f = written(E, P, k, "fmt")
    for v, n in STATUS.items():
        env = {p0: lit(a, v)}
        r = lookup(E, outs, env, lambda o, s: f(o, s, env))
        if r[0] == "one" and r[1].op == "str":
            R.ob("display:" + v, re.search(r"(^|\D)%d(\D|$)" % n, r[1].a[0]) is not None and alnum(v) in alnum(r[1].a[0]), "%s prints as %r" % (v, r[1].a[0]), P.where(k))
        else:
            R.undec("display:" + v, str(r), P.where(k))
    serde_status(R, P, a)
    R.floor("members", 59)
    R.floor("number tables", 8)
    R.floor("class predicates", 5)
    R.floor("comparisons", 2)


def visitors(P, adt):
    """{visitor type path: {method: fn}} of the serde visitors producing adt."""
    tr = [t for t in P.impl_by_trait if t.endswith("de::Visitor")]
    out = {}
    for t in tr:
        for im in P.impl_by_trait[t]:
            ms = {it["name"]: it["def"] for it in im["items"] if it["def"] in P.bodies}
            for m, k in ms.items():
                o = P.ty(P.defs[k]["output"])
                if m.startswith("visit_") and o[0] == "adt" and o[1] == RES and produces(P, im, o, adt):
                    out.setdefault(im["self"][1], {})[m] = k
    return out


def produces(P, im, o, adt):
    t = o[2][0]
    if t == ("adt", adt, ()):
        return True
    if t[0] == "alias" or t[0] == "other":
        # Self::Value
        f = P.where(next(it["def"] for it in im["items"] if it["def"] in P.bodies)).split(":")[0]
        return any(P.where(k).split(":")[0] == f for k in P.fn(ty=adt.split("::")[-1], name="fmt", trait="Display"))
    return False


def serde_status(R, P, a):
    vis = visitors(P, a)
    R.count("visitors", len(vis))
    for vt, ms in vis.items():
        for m, k in sorted(ms.items()):
            t = m[len("visit_"):]
            if t[0] in "iu" and t[1:].isdigit():
                int_table(R, P, k, a, m, T("par", 1), t)
            else:
                R.undec("visitor:" + m, "not an integer visitor", P.where(k))
    if not vis:
        R.ob("visitors", False, "no deserialization visitor for StatusCode found", "")
    k = need(fns(P, a, "serialize", "Serialize"), "StatusCode Serialize")
    E, outs = rows(P, k)
    for o, s in outs:
        cs = [e for e in s.eff if e.kind == "call" and "Serializer::serialize_" in e.name]
        R.ob("serialize:int", len(cs) == 1 and re.search(r"serialize_u(16|32|64)$", cs[0].name), "StatusCode is serialized through %s" % cs, P.where(k))
    f = written(E, P, k, "ser")
    for v, n in STATUS.items():
        env = {T("par", 0): lit(a, v)}
        r = lookup(E, outs, env, lambda o, s: f(o, s, env))
        if r[0] == "one":
            x = E.discr(r[1]) if r[1].op == "agg" else r[1]
            R.ob("serialize:" + v, x is I(n), "%s is serialized as %s" % (v, x), P.where(k))
        else:
            R.undec("serialize:" + v, str(r), P.where(k))


def deserialize_uses(R, P, adt, hints, vis):
    k = need(fns(P, adt, "deserialize", "Deserialize"), adt + " Deserialize")
    E, outs = rows(P, k)
    name = adt.split("::")[-1]
    for v, s in outs:
        cs = [e for e in s.eff if e.kind == "call" and "Deserializer::deserialize_" in e.name]
        okc = len(cs) == 1
        R.ob(name + ":deserialize:once", okc, "%s::deserialize asks the format %d times" % (name, len(cs)), P.where(k))
        if not okc:
            continue
        h = cs[0].name.split("deserialize_")[-1]
        R.ob(name + ":deserialize:hint", h in hints, "%s::deserialize asks for %s, which serializing does not write" % (name, h), P.where(k))
        va = cs[0].args[-1]
        R.ob(name + ":deserialize:visitor", va.op == "agg" and va.a[0] in vis, "%s::deserialize hands %s to the format" % (name, va), P.where(k))
        w = E.snap(s, v)
        R.ob(name + ":deserialize:result", w is E.snap(s, cs[0].res) if cs[0].res is not None else w.op == "call" and w.a[0] == cs[0].name, "%s::deserialize changes what the visitor accepted" % name, P.where(k))


@prop("T03")
def t03(R, P, W):
    """For each textual enumeration: every printing function (AsRef, Display, as_str, conversion to HeaderValue, serializer), read as a table over the
    variants, gives the variant's own documented text, and every parsing function (FromStr, from_str, visitor), read as a table over those texts, gives
    back the variant. Directives with a number of seconds print and read back that number."""
    enum_tables(R, P)
    R.floor("members", 56)
    R.floor("printing tables", 13)
    R.floor("parsing tables", 7)


def enum_tables(R, P, wire=False):
    """The tables of every textual enumeration (wire: only of those that headers are both written and read with)."""
    p0, p1 = T("par", 0), T("par", 1)
    v = P.adt("Version")
    jobs = []

    def job(f, *a, **kw):
        jobs.append((f, a, kw))

    def members(adt, names, label):
        vs = {x["name"] for x in P.adts[adt]["variants"]}
        R.ob(label + ":members", vs == set(names), "%s has other members than the documented ones: %s" % (label, sorted(vs ^ set(names))), "")
        R.count("members", len(vs))
        return {n: t for n, t in names.items() if n in vs}
    n = members(v, VERSION, "Version")
    job(print_table, need(fns(P, v, "as_ref", "AsRef"), "Version::as_ref"), v, n, "ref", "Version::as_ref")
    job(print_table, need(fns(P, v, "fmt", "Display"), "Version Display"), v, n, "fmt", "Version::Display")
    job(print_table, need(fns(P, v, "serialize", "Serialize"), "Version Serialize"), v, n, "ser", "Version::serialize")
    for vt, ms in visitors(P, v).items():
        for m, k in sorted(ms.items()):
            if m in ("visit_str", "visit_string", "visit_borrowed_str"):
                job(parse_table, k, v, n, "Version::" + m, p1, False, True)
    for path in ("content", "transfer"):
        a = where_ty(P, "Encoding", path)
        n = dict(CODING)
        if path == "transfer":
            n["Chunked"] = "chunked"
        n = members(a, n, path + "::Encoding")
        job(print_table, need(fns(P, a, "fmt", "Display"), path + "::Encoding Display"), a, n, "fmt", path + "::Encoding::Display")
        job(print_table, need(conv(P, "core::convert::From", lambda t: t[0] == "adt" and t[1].endswith("::HeaderValue"), is_adt(a), "from"), path + "::Encoding into HeaderValue"), a, n, "value", path + "::Encoding::HeaderValue")
        job(parse_table, need(text_parser(P, a), path + "::Encoding::from_str"), a, n, path + "::Encoding::from_str", p0, False, False)
    a = P.adt("AuthenticationScheme")
    n = members(a, SCHEME, "AuthenticationScheme")
    job(print_table, need(fns(P, a, "fmt", "Display"), "AuthenticationScheme Display"), a, n, "fmt", "AuthenticationScheme::Display")
    job(parse_table, need(fns(P, a, "from_str", "FromStr"), "AuthenticationScheme::from_str"), a, n, "AuthenticationScheme::from_str", p0, True, False)
    a = P.adt("ClearDirective")
    n = members(a, CLEAR, "ClearDirective")
    job(print_table, need(fns(P, a, "as_str"), "ClearDirective::as_str"), a, n, "ref", "ClearDirective::as_str")
    job(print_table, need(fns(P, a, "fmt", "Display"), "ClearDirective Display"), a, n, "fmt", "ClearDirective::Display")
    job(parse_table, need(fns(P, a, "from_str", "FromStr"), "ClearDirective::from_str"), a, n, "ClearDirective::from_str", p0, False, False)
    a = where_ty(P, "Source", "csp")
    n = members(a, SOURCE, "Source")
    job(print_table, need(fns(P, a, "as_ref", "AsRef"), "Source::as_ref"), a, n, "ref", "Source::as_ref")
    job(print_table, need(fns(P, a, "fmt", "Display"), "Source Display"), a, n, "fmt", "Source::Display")
    # cache directives
    a = P.adt("CacheDirective")
    n = members(a, CACHE, "CacheDirective")
    secs = (0, 7, 3600, 2 ** 32 + 5, 2 ** 63)

    def dur(x):
        return T("agg", "Duration", None, (I(x), I(0)))

    def payload(var, key):
        if var in DELTA:
            return [(var, lit(a, var, dur(x)), "%s=%d" % (key, x)) for x in secs]
        if var == "MaxStale":
            return [(var, lit(a, var, NONE), key)] + [(var + ":some", lit(a, var, some(dur(x))), "%s=%d" % (key, x)) for x in secs]
        return [(var, lit(a, var), key)]
    job(print_table, need(conv(P, "core::convert::From", lambda t: t[0] == "adt" and t[1].endswith("::HeaderValue"), is_adt(a), "from"), "CacheDirective into HeaderValue"), a, n, "value",
        "CacheDirective::HeaderValue", payload)

    def cache_parse(R, P):
        k = need(text_parser(P, a), "CacheDirective::from_str")
        E, outs = rows(P, k)
        R.count("parsing tables")
        for var, key in n.items():
            for name, val, text in payload(var, key):
                for t in (text, text.upper(), " " + text + " "):
                    env = {p0: S(t)}
                    r = lookup(E, outs, env, lambda o, s: member(E, s, o, a, env))
                    R.count("parsed rows")
                    if r[0] == "one":
                        got = r[1][1] if r[1][0] == "ok" else None
                        R.ob("CacheDirective::from_str:" + name, got is val, "CacheDirective::from_str of %r gives %s" % (t, got), P.where(k))
                    elif r[0] == "none":
                        R.ob("CacheDirective::from_str:" + name, False, "CacheDirective::from_str of %r has no outcome" % t, P.where(k))
                    else:
                        R.undec("CacheDirective::from_str:" + name, r[1], P.where(k))
    jobs.append((cache_parse, (), {}))

    def one(j):
        r = Report_like()
        f, args, kw = j
        f(r, P, *args, **kw)
        return r.plain()
    if wire:
        jobs = [j for j in jobs if j[0] is cache_parse or not [x for x in j[1] if isinstance(x, str) and x.startswith(("Version::", "Source::"))]]
    for d in pmap(one, jobs):
        R.merge(d)


@prop("T05")
def t05(R, P, W):
    """Method, Version, StatusCode: deserialize hands exactly one request to the format, for the kind serialize writes, with the visitor analysed here and
    returns its answer unchanged; every visitor method, read as a table, accepts exactly the members' own texts (numbers), with the letter-case rule of
    the parser, and yields the member the parser yields."""
    p1 = T("par", 1)
    a = P.adt("Method")
    v = visitors(P, a)
    R.count("visitors", len(v))
    for vt, ms in v.items():
        for m, k in sorted(ms.items()):
            if m in ("visit_str", "visit_string", "visit_borrowed_str"):
                parse_table(R, P, k, a, METHODS, "Method::" + m, p1, True, True)
            else:
                R.undec("Method::" + m, "not a text visitor", P.where(k))
    deserialize_uses(R, P, a, ("str", "string", "any", "identifier"), v)
    print_table(R, P, need(fns(P, a, "serialize", "Serialize"), "Method Serialize"), a, METHODS, "ser", "Method::serialize")
    a = P.adt("Version")
    v = visitors(P, a)
    R.count("visitors", len(v))
    for vt, ms in v.items():
        for m, k in sorted(ms.items()):
            if m in ("visit_str", "visit_string", "visit_borrowed_str"):
                parse_table(R, P, k, a, VERSION, "Version::" + m, p1, False, True)
            else:
                R.undec("Version::" + m, "not a text visitor", P.where(k))
    deserialize_uses(R, P, a, ("str", "string", "any", "identifier"), v)
    print_table(R, P, need(fns(P, a, "serialize", "Serialize"), "Version Serialize"), a, VERSION, "ser", "Version::serialize")
    a = P.adt("StatusCode")
    serde_status(R, P, a)
    deserialize_uses(R, P, a, ("any", "u16", "u32", "u64"), visitors(P, a))
    R.floor("visitors", 3)
    R.floor("parsing tables", 2)
    R.floor("number tables", 5)

"""H01 ASCII names and values, H02 lower-case names, H10 quoted text."""
from checks import prop
from lib import *
from textflow import *
from quotes import *


def world(P, name):
    HV, HN = P.adt("HeaderValue"), P.adt("HeaderName")
    if name == "ascii":
        return World(P, Chars("ascii", lambda c: c < 128, (HV, HN), foreign=("Url", "Ipv4Addr", "Ipv6Addr", "IpAddr", "SocketAddr")), foreign_bad=("Cookie",),
                     foreign_text=("http::HeaderValue::as_bytes", "http::header::HeaderValue::as_bytes"))
    if name == "lower":
        return World(P, Chars("lower", lambda c: not 65 <= c <= 90, (HN,), fold=True))
    if name == "noquote":
        return World(P, Chars("noquote", lambda c: c not in (34, 92), (HN,)))
    if name == "nodquote":
        return World(P, Chars("noquote", lambda c: c != 34, (HN,)))


def reporter(R, W, label):
    def rep(d, k, st, why, where, txt=""):
        name = W.dname(d)
        key = "%s:%s" % (name, W.P.short(k).replace("http_types::", "") if k else "public")
        if d[0] == "field" and d[1] in (W.HV, W.HN) and k:
            key = "%s:%s" % (d[1].split("::")[-1], route(W.P, k))
        elif k:
            key = "%s:%s" % (name, route(W.P, k))
        R.count("routes" if st != "none" else "routes without a value")
        if st == "ok":
            R.ob(key, True, "", where)
        elif st == "bad":
            R.ob(key, False, "%s holds %s, which %s" % (name, why, label), where)
        elif st == "unk":
            R.undec(key, "%s: %s" % (name, why), where)
    return rep


def route(P, k):
    d = P.defs[k]
    s = P.short(k).replace("http_types::", "")
    if d.get("impl_trait"):
        t = [P.tystr(P.ty(i)) for i in d["inputs"]]
        s += "(%s)" % ", ".join(t)
    return s


@prop("H01")
def h01(R, P, W_):
    """Backward value-flow of header text: for every construction of a HeaderValue or HeaderName in safe code, every source of its text is an ASCII literal,
    a rendered number, text tested on that path, or a field that is ASCII wherever its type is built or written (demands closed over the crate). The
    unchecked constructors stay unsafe."""
    W = world(P, "ascii")
    R.count("worlds")
    for n in ("HeaderName", "HeaderValue"):
        for k in P.fn(ty=n, name="from_bytes_unchecked"):
            R.ob("unsafe:%s" % n, bool(P.defs[k].get("unsafe")), "%s::from_bytes_unchecked can be called from safe code" % n, P.where(k))
    first = [("field", W.HV, None, 0), ("field", W.HN, None, 0)]
    seen = close(W, first, reporter(R, W, "need not be ASCII"))
    R.count("demands", len(seen))
    R.floor("routes", 300)
    for d in sorted(seen, key=str):
        R.samples.append({"demand": W.dname(d)})


def is_name_key(E, t):
    return t.op == "agg" and len(t.a[2]) == 1


@prop("H02")
def h02(R, P, W_):
    """Backward value-flow of name text: at every construction of a HeaderName in safe code the text is a lower-case literal, is folded to lower case on that
    path, or comes from another HeaderName; for a private constructor the same holds of the argument at every call. Equality of names compares exactly that text,
    hashing feeds exactly that text, and the map of Headers is keyed by HeaderName, so two spellings of a name meet in one entry."""
    W = world(P, "lower")
    close(W, [("field", W.HN, None, 0)], reporter(R, W, "need not be lower case"))
    R.floor("routes", 40)
    for n in ("from_bytes_unchecked",):
        for k in P.fn(ty="HeaderName", name=n):
            lower_out(R, P, W, k)
    same_name(R, P, W)


def lower_out(R, P, W, k):
    """The unsafe constructor folds as well: its contract only waives the ASCII test."""
    for d, st, why, where, deps, txt in run_root(W, k, [("field", W.HN, None, 0)]):
        key = "unchecked:%s" % P.defs[k]["name"]
        if st == "ok" and not deps:
            R.ob(key, True)
        elif st == "unk":
            R.undec(key, why, where)
        else:
            R.ob(key, False, "%s stores its text without folding it to lower case" % P.short(k), where)


def same_name(R, P, W):
    hn = W.HN
    p0, p1 = T("par", 0), T("par", 1)
    text = T("fld", p0, None, 0)
    found = 0
    for im in P.impls:
        if im["self"] != ("adt", hn, ()) or im.get("trait", "").split("::")[-1] not in ("PartialEq", "Hash"):
            continue
        tr = im["trait"].split("::")[-1]
        if tr == "PartialEq" and im["targs"] and ("adt", hn, ()) not in im["targs"][:2][-1:]:
            continue
        for it in im["items"]:
            k = it["def"]
            if k not in P.bodies:
                continue
            E = new_engine(P, hooks=False)
            if it["name"] == "eq":
                found += 1
                for v, s in E.run(k):
                    v = E.snap(s, v)
                    want = (T("eq", text, T("fld", p1, None, 0)), T("eq", T("fld", p1, None, 0), text))
                    if v in want or v.op == "int" and any(s.facts.get(w) is v for w in want):
                        R.ob("eq", True)
                    elif v.op == "int" or not any(x in (p0, p1) for x in subterms(v, E)):
                        R.ob("eq", False, "two names compare %s without their texts being compared" % ("equal" if v is I(1) else "unequal" if v is I(0) else str(v)[:60]), P.where(k))
                    else:
                        fs = {x for x in subterms(v, E) if x.op == "fld" and x.a[0] in (p0, p1)}
                        folded = [x for x in subterms(v, E) if x.op == "call" and x.a[0] in ("str::eq_ignore_ascii_case", "ascii_lower")]
                        if folded:
                            R.ob("eq", True)
                        else:
                            R.undec("eq", "comparison not recognised: %s" % str(v)[:120], P.where(k))
            elif it["name"] == "hash":
                found += 1
                fed = []
                for v, s in E.run(k):
                    fed += [e for e in s.eff if e.kind == "call" and "ash" in e.name]
                good = any(x is text or x is p0 for e in fed for a in e.args for x in subterms(a, E))
                derived = all(a is text or a.op == "par" or a.op == "mut" or text in subterms(a, E) for e in fed for a in e.args)
                if not fed:
                    R.undec("hash", "no call that feeds the hasher was recognised", P.where(k))
                else:
                    R.ob("hash", good and derived, "hashing a name does not depend on its text alone", P.where(k))
    R.ob("impls", found >= 2, "HeaderName lacks its own comparison or hashing")
    hs = P.adt("Headers")
    maps = [P.ty(f["ty"]) for v in P.adts[hs]["variants"] for f in v["fields"] if P.ty(f["ty"])[0] == "adt" and P.ty(f["ty"])[1].endswith("Map")]
    R.ob("keyed", bool(maps) and all(m[2][0] == ("adt", hn, ()) for m in maps), "the entries of Headers are not keyed by HeaderName")


def walk_quotes(W, k, cap=40):
    """Quote states of every header value built in one function: [(ends, unknowns, [(sink, text, status, why, deps)], text)]."""
    P = W.P
    E = new_engine(P, cap=cap)
    phif, collf, built = {}, {}, []

    def on_phi(t, v, st):
        phif.setdefault(t, []).append((v, st.facts, E.snap(st, v) if v.op != "phi" and E.may_ref(v) else v))

    def on_agg(fr, st, adt, variant, ops, site):
        if adt == W.HV:
            built.append((E.snap(st, ops[0]), st.facts))
    E.on_phi, E.on_agg, E.on_coll = on_phi, on_agg, lambda c, xs: collf.setdefault(c, xs)
    E.run(k)
    out, done, cache = [], set(), {}
    for t, facts in built:
        if t in done:
            continue
        done.add(t)
        w = Walk(W, E, k, phif, collf, cache)
        ends = w.text(t, facts)
        sinks = []
        for x, fss in sorted(w.sinks.items(), key=lambda e: str(e[0])):
            seen = set()
            for f in fss:
                F = Flow(W, E, k, W.exported(k), phif, f, cache)
                f = F.canon(f)
                if id(f) in seen:
                    continue
                seen.add(id(f))
                F.need(f, x)
                st, why = F.status()
                sinks.append((str(x)[:120], st, why, sorted(F.deps, key=str)))
        out.append((sorted(ends), sorted(w.unk), sinks, str(t)[:160]))
    return out


def walk_safe(W, k):
    try:
        return walk_quotes(W, k)
    except RecursionError:
        return [([OUT], ["analysis too deep"], [], "")]


@prop("H10")
def h10(R, P, W_):
    """Every header value text is read symbolically as a header reader would (outside quotes, inside, after a backslash). Text written inside quotes is either
    one character right after a backslash, or comes only from sources without quotes and backslashes: literals, numbers, characters and strings tested on that
    path, or fields that are so wherever their type is built or written (demands closed over the crate). For entity-tags, whose grammar has no escapes, only
    the quote is excluded. No value ends inside an open quote."""
    tag = P.adt("ETag")
    Ws = {False: world(P, "noquote"), True: world(P, "nodquote")}
    W = Ws[False]
    roots = sorted(k for k in W.routes(("field", W.HV, None, 0)) if not P.defs[k].get("unsafe"))

    def tagroot(k):
        st = P.defs[k].get("self_ty")
        tys = ([P.ty(st)] if st is not None else []) + [P.ty(i) for i in P.defs[k].get("inputs") or []]
        return any(base(t)[:2] == ("adt", tag) for t in tys)
    res = pmap(lambda k: walk_safe(Ws[tagroot(k)], k), roots)
    first = {False: set(), True: set()}
    quoted = 0
    for k, out in zip(roots, res):
        where, name = P.where(k), route(P, k)
        for ends, unk, sinks, txt in out:
            R.count("texts")
            if unk:
                R.undec("text:%s" % name, unk[0], where)
            elif not (P.defs[k].get("exported") and not sinks and ends == [OUT]):
                R.ob("closed:%s" % name, ends in ([OUT], []), "%s can leave a quote open: %s" % (P.short(k), txt), where)
            for x, st, why, deps in sinks:
                quoted += 1
                key = "quoted:%s" % name
                if st == "bad":
                    R.ob(key, False, "%s writes %s between quotes without escaping it: %s" % (P.short(k), x, why), where)
                elif st == "unk":
                    R.undec(key, "%s: %s" % (x, why), where)
                else:
                    R.ob(key, True)
                    for dep in deps:
                        first[dep[0] == "field" and dep[1] == tag or tagroot(k)].add(tuple(dep))
    R.count("parts written inside quotes", quoted)
    for b in (False, True):
        if first[b]:
            seen = close(Ws[b], sorted(first[b], key=str), reporter(R, Ws[b], "can hold a quote"))
            for d in sorted(seen, key=str):
                R.samples.append({"demand": Ws[b].dname(d)})
    R.floor("texts", 40)

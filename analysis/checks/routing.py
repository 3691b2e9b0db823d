"""M05 where a request came from and where it is going."""
from checks import prop
from checks.media import canon, cfacts
from lib import *

# accessor, key in Forwarded, the header fields asked after it, the accessor (or what is reached through it) asked last
WAYS = [("host", "host", ["x-forwarded-host", "host"], ("url", "host_str")),
        ("remote", "for", ["x-forwarded-for"], ("peer_addr", None))]


def field_of(x):
    """The header field name that a lookup term asks for."""
    if x.op == "call" and x.a[0] == "HashMap::get":
        return strconst(x.a[2])
    return None


def sources(t):
    return {field_of(x) for x in subterms(t)} - {None}


@prop("M05")
def m05(R, P, W):
    """Every path of the two accessors: what it answers with is a part of exactly one source, and each source before that one in the documented order has been
    asked (a header field other than Forwarded must be known to be absent; in Forwarded the key must have been looked for).  Nothing is answered only on paths
    that know all sources to be absent.  Lists separated by commas are read from their first entry and field lines from the first one; in Forwarded the value
    belongs to a pair whose key is known to be the one asked for.  Setting the query changes nothing of the target but the query, and nothing else of the request;
    a query that cannot be written changes nothing at all."""
    fns = {P.short(k).split("::")[-1]: k for k in P.bodies if P.short(k).startswith("http_types::Request::") and P.short(k).count("::") == 2}
    for nm, key, fields, (lastfn, method) in WAYS:
        if nm not in fns or lastfn not in fns:
            raise MissingAnchor("Request::" + (nm if nm not in fns else lastfn))
        E = new_engine(P, cap=200)
        base = set()
        for v, s in E.run(fns[lastfn]):
            v = canon(E.snap(s, v))
            base |= {v.a[2][0]} if v.op == "agg" and v.a[1] == "Some" else {v} if v.op != "agg" else set()
        present = [canon(x) for x in base]
        E = new_engine(P, cap=200)
        w = P.where(fns[nm])
        order = ["forwarded"] + fields
        seen = set()
        for v, s in E.run(fns[nm]):
            R.count("outcomes")
            v, fa = canon(E.snap(s, v)), cfacts(s.facts)
            asked = {}
            for k, x in fa.items():
                if k.op == "discr" and field_of(k.a[0]):
                    asked[field_of(k.a[0])] = x
            src = sources(v)
            if v is NONE or v.op == "agg" and v.a[1] == "None":
                for f in order[1:]:
                    R.ob("%s:none:%s" % (nm, f), asked.get(f) in (I(0), FALSE), "Request::%s answers nothing without knowing that there is no %s field" % (nm, f), w)
                R.ob("%s:none:forwarded" % nm, "forwarded" in asked, "Request::%s answers nothing without having asked the Forwarded field" % nm, w)
                R.ob("%s:none:last" % nm, not method and any(k.op == "discr" and any(p in subterms(p) and k.a[0] in subterms(p) for p in present) and x in (I(0), FALSE) for k, x in fa.items()),
                     "Request::%s answers nothing without knowing that there is no %s" % (nm, lastfn), w)
                continue
            own = any(p in subterms(v) for p in present)
            if len(src) + own != 1:
                R.undec(nm + ":source", "answers %s" % str(v)[:80], w)
                continue
            f = next(iter(src)) if src else lastfn
            seen.add(f)
            if src and f not in order:
                R.ob(nm + ":source", False, "Request::%s answers with a part of the field %s" % (nm, f), w)
                continue
            i = order.index(f) if src else len(order)
            for g in order[:i]:
                k2 = "%s:%s:before:%s" % (nm, f, g)
                if g == "forwarded":
                    R.ob(k2, g in asked, "Request::%s answers with %s without having asked the Forwarded field" % (nm, f), w)
                else:
                    R.ob(k2, asked.get(g) in (I(0), FALSE), "Request::%s answers with %s although there may be a %s field, which comes before it" % (nm, f, g), w)
            # what of the source
            if not src:
                if method:
                    names = {x.a[0].rsplit("::", 1)[-1] for x in subterms(v) if x.op == "call"}
                    R.ob(nm + ":" + f + ":part", names == {method}, "Request::%s gives %s of the target" % (nm, sorted(names)), w)
                continue
            lines = {x.a[1] for x in subterms(v) if x.op == "idx" and any(field_of(y) == f for y in subterms(x.a[0])) and not any(y.op in ("coll", "elem") for y in subterms(x.a[0]))}
            if f != "host":
                lines |= {x.a[1] if isinstance(x.a[1], T) else I(x.a[1]) if isinstance(x.a[1], int) else S(str(x.a[1])) for x in subterms(v)
                          if x.op == "elem" and not any(y.op == "call" and y.a[0].startswith("str::") for y in subterms(x.a[0])) and f in sources(x.a[0])}
                if not lines:
                    R.undec(nm + ":" + f + ":line", "line taken in a way not understood", w)
                R.ob(nm + ":" + f + ":line", lines <= {I(0)}, "Request::%s reads line %s of the %s field" % (nm, lines, f), w)
            if f == "forwarded":
                pairs = []
                for k, x in fa.items():
                    if k.op == "eq" and "forwarded" in sources(k):
                        c = [strconst(y) for y in k.a if strconst(y) is not None]
                        if c:
                            pairs.append((c[0], x in (TRUE, I(1))))
                x = v.a[2][0] if v.op == "agg" and v.a[2] else v
                if x.op == "idx" and x.a[0].op == "coll" and any(y.op == "call" and y.a[0] == "str::split" and y.a[-1] is I(61) for y in subterms(x.a[0])):
                    R.ob(nm + ":forwarded:value", x.a[1] is I(1), "Request::%s gives part %s of a pair of the Forwarded field" % (nm, x.a[1]), w)
                elif x.op == "elem" and x.a[0].op == "call" and x.a[0].a[0] == "str::split" and x.a[0].a[-1] is I(61) and x.a[1] in (0, I(0)):
                    R.ob(nm + ":forwarded:value", False, "Request::%s gives the key of a pair of the Forwarded field" % nm, w)
                if pairs:
                    R.ob(nm + ":forwarded:key", (key, True) in pairs, "Request::%s gives the value of %s of the Forwarded field" % (nm, [c for c, t in pairs if t] or "another key"), w)
                elif not any(strconst(y) == key for k in fa for y in subterms(k)):
                    R.ob(nm + ":forwarded:key", False, "Request::%s gives a value of the Forwarded field whose key it has not compared with %s" % (nm, key), w)
                else:
                    R.undec(nm + ":forwarded:key", "the key is compared in a way not understood", w)
            elif f.startswith("x-forwarded"):
                cut = [x for x in subterms(v) if x.op == "call" and x.a[0].startswith("str::") and ("split" in x.a[0])]
                els = [x for x in subterms(v) if x.op == "elem" and x.a[0] in cut]
                if els:
                    R.ob(nm + ":" + f + ":first", all(x.a[1] in (0, I(0), "0") and x.a[0].a[0] in ("str::split", "str::splitn", "str::split_once", "str::split_terminator") and x.a[0].a[-1] is I(44) for x in els),
                         "Request::%s does not take the first entry of the %s field" % (nm, f), w)
                elif cut or any(y is I(44) for k in fa for y in subterms(k)):
                    R.undec(nm + ":" + f + ":first", "entry taken in a way not understood", w)
                else:
                    R.ob(nm + ":" + f + ":first", any(x.op in ("sub", "call") for x in subterms(v)) and any(x.op == "sub" or x.op == "call" and x.a[0].startswith("str::") for x in subterms(v)),
                         "Request::%s gives the whole %s field, not its first entry" % (nm, f), w)
        for f in order + [lastfn]:
            R.ob("%s:uses:%s" % (nm, f), f in seen, "Request::%s never answers with %s" % (nm, f), w)
    R.floor("outcomes", 10)

    k = fns.get("set_query")
    if k is None:
        raise MissingAnchor("Request::set_query")
    E = new_engine(P, cap=200)
    w = P.where(k)
    p0 = T("par", 0)
    url = None
    for v, s in new_engine(P).run(fns["url"]):
        url = canon(E.snap(s, v))
    for v, s in E.run(k):
        R.count("outcomes of set_query")
        v = canon(E.snap(s, v))
        m = s.env.get(("H", p0))
        m = canon(E.snap(s, m)) if m is not None else p0
        if v.op == "agg" and v.a[1] == "Err":
            R.ob("query:error", m is p0, "Request::set_query changes the request although it gives an error", w)
            continue
        if not (m.op == "upd" and m.a[0] is p0):
            R.ob("query:set", m is not p0, "Request::set_query gives success without setting the query", w)
            continue
        for step, x in m.a[1]:
            if url.op == "fld" and step[0] == "f" and step[1] == url.a[2]:
                ops = []
                while x.op == "mut":
                    ops.append(x)
                    x = x.a[1]
                R.ob("query:only", x is url and all(o.a[0].endswith("::set_query") for o in ops) and ops, "Request::set_query changes more of the target than its query (%s)" % ", ".join(o.a[0] for o in ops), w)
                if ops:
                    given = ops[0].a[2]
                    R.ob("query:text", any(y.op == "call" and T("par", 1) in y.a for o in given if isinstance(o, T) for y in subterms(o)) if isinstance(given, tuple) else True,
                         "Request::set_query does not set the query it was given", w)
            else:
                R.ob("query:other", False, "Request::set_query changes another part of the request", w)
    R.floor("outcomes of set_query", 2)

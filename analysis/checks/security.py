"""S01: the security helpers."""
from checks import prop
from checks.tables import lit, where_ty
from lib import *
from table import ev, select

FRAME = {"SameOrigin": "sameorigin", "Deny": "deny"}
REFERRER = {"NoReferrer": "no-referrer", "NoReferrerDowngrade": "no-referrer-when-downgrade", "SameOrigin": "same-origin", "Origin": "origin", "StrictOrigin": "strict-origin",
            "CrossOrigin": "origin-when-cross-origin", "StrictCrossOrigin": "strict-origin-when-cross-origin", "UnsafeUrl": "unsafe-url"}
HSTS, XSS, NOSNIFF, DNS = "max-age=5184000", "1; mode=block", "nosniff", "on"
VALUES = "HeaderValues"


def texts(E, s, t, env):
    """The texts of a value list, as constants or terms."""
    w = E.snap(s, t)
    while w.op == "agg" and len(w.a[2]) == 1 and w.a[0] not in ("array", "vec"):
        w = w.a[2][0]
    if w.op == "agg" and w.a[0] in ("array", "vec"):
        out = []
        for x in w.a[2]:
            while x.op == "agg" and len(x.a[2]) == 1:
                x = x.a[2][0]
            y = ev(E, x, env)
            out.append(y.a[0] if y is not None and y.op == "str" else x)
        return out
    return None


def map_ops(E, s, env):
    """What a path does to the header map: [(op, name, texts)], or (None, why)."""
    ops = []
    for e in s.eff:
        if e.kind == "call" and e.name.startswith(("HashMap::", "OccupiedEntry::", "VacantEntry::", "Entry::")):
            n = e.name.split("::")[1]
            if n in ("get", "contains_key", "len", "is_empty", "iter", "get_mut", "reserve"):
                continue
            if n in ("insert", "remove"):
                k = strconst(E.snap(s, e.args[1]))
                if k is None:
                    return None, "%s of a name that is not a constant" % n
                v = None
                if n == "insert":
                    if ops and ops[-1][:2] == ("remove", k):
                        ops.pop()       # taken out and put back
                    lst = E.getstep(E.snap(s, e.args[2]), ("f", 0, None))
                    if lst.op in ("vcat", "vpush") and any(x.op == "call" and x.a[0] in ("HashMap::remove", "HashMap::get") and strconst(x.a[2]) == k for x in subterms(lst.a[0])):
                        ops.append(("append", k, texts(E, s, lst.a[1] if lst.op == "vcat" else T("agg", "vec", None, (lst.a[1],)), env)))
                        continue
                    v = texts(E, s, e.args[2], env)
                    if v is None:
                        return None, "insertion of an unknown value list"
                ops.append(("set" if n == "insert" else "remove", k, v))
                continue
            return None, "unknown operation %s on the header map" % e.name
        if e.kind == "write":
            loc, path, v = e.args
            w = E.snap(s, v)
            k = None
            for x in subterms(loc):
                if x.op == "call" and x.a[0] in ("HashMap::get_mut", "Entry::or_insert", "Entry::or_insert_with"):
                    k = strconst(x.a[2])
            if k is not None and w.op in ("vcat", "vpush"):
                ops.append(("append", k, texts(E, s, w.a[-1] if w.op == "vcat" else T("agg", "vec", None, (w.a[-1],)), env)))
                continue
            if k is None and not any(x.op == "par" and x.a[0] == 0 for x in subterms(loc)):
                continue
            return None, "a write through the headers parameter that is not understood"
    return ops, ""


@prop("S01")
def s01(R, P, W):
    """Each function of the security module taking headers, analysed with inlining down to the hash map: on every path it performs exactly the documented
    operation (insertion of the documented lower-case name with the documented one value, or removal), for every row of its option; `default`
    performs exactly the six documented ones."""
    def helper(name, n):
        r = [k for k in P.fn(name=name) if P.defs[k]["path"].split("::")[0] == "security" and len(P.defs[k]["inputs"]) == n and "self_ty" not in P.defs[k]]
        if len(r) != 1:
            raise MissingAnchor("security::" + name)
        return r[0]
    p1 = T("par", 1)
    fo, ro = where_ty(P, "FrameOptions"), where_ty(P, "ReferrerOptions")
    frame = {"none": (NONE, "sameorigin")}
    ref = {"none": (NONE, "no-referrer")}
    for a, tab, dst in ((fo, FRAME, frame), (ro, REFERRER, ref)):
        vs = {v["name"] for v in P.adts[a]["variants"]}
        R.ob(a.split("::")[-1] + ":members", vs == set(tab), "members of %s are not the documented ones: %s" % (a, sorted(vs ^ set(tab))), "")
        for v, t in tab.items():
            if v in vs:
                dst[v] = (some(lit(a, v)), t)
    given = T("par", 1, "value")
    cases = [("dns_prefetch_control", 1, [("", {}, [("set", "x-dns-prefetch-control", DNS)])]),
             ("frameguard", 2, [(n, {p1: v}, [("set", "x-frame-options", t)]) for n, (v, t) in frame.items()]),
             ("hsts", 1, [("", {}, [("set", "strict-transport-security", HSTS)])]),
             ("nosniff", 1, [("", {}, [("set", "x-content-type-options", NOSNIFF)])]),
             ("xss_filter", 1, [("", {}, [("set", "x-xss-protection", XSS)])]),
             ("referrer_policy", 2, [(n, {p1: v}, [("add", "referrer-policy", t)]) for n, (v, t) in ref.items()]),
             ("powered_by", 2, [("none", {p1: NONE}, [("remove", "x-powered-by", None)]), ("some", {T("discr", p1): I(1)}, [("set", "x-powered-by", "given")])]),
             ("default", 1, [("", {}, [("set", "x-dns-prefetch-control", DNS), ("set", "x-content-type-options", NOSNIFF), ("set", "x-frame-options", "sameorigin"), ("remove", "x-powered-by", None),
                                       ("set", "strict-transport-security", HSTS), ("set", "x-xss-protection", XSS)])])]
    for name, n, rws in cases:
        k = helper(name, n)
        R.count("helpers")
        E = new_engine(P, cap=200)
        outs = E.run(k)
        for rn, env, want in rws:
            key = name + (":" + rn if rn else "")
            R.count("rows")
            yes, maybe = select(E, outs, env)
            if not yes + maybe:
                R.ob(key, False, "%s has no path for this option" % name, P.where(k))
            for v, s in yes + maybe:
                R.count("paths")
                ops, why = map_ops(E, s, env)
                if ops is None:
                    R.undec(key, why, P.where(k))
                    continue
                got = []
                bad = None
                for op, nm, tx in ops:
                    if op == "remove":
                        got.append((op, nm, None))
                    elif tx is None or len(tx) != 1:
                        bad = "%s of %s with %s values" % (op, nm, "?" if tx is None else len(tx))
                    else:
                        t = tx[0]
                        if isinstance(t, T):
                            t = "given" if all(x.a[0] == 1 for x in subterms(t) if x.op == "par") and any(x.op == "par" for x in subterms(t)) else str(t)[:60]
                        got.append((op, nm, t))
                def absent(nm):
                    return any(x is not None and (f.op == "discr" and f.a[0].op == "call" and f.a[0].a[0] in ("HashMap::get_mut", "HashMap::get", "HashMap::remove") and nm in str(f.a[0].a[2]) or
                               f.op == "call" and f.a[0] == "HashMap::contains_key" and nm in str(f.a[2])) and x is I(0) for f, x in s.facts.items())
                w = [("set" if op == "add" and ("set", nm, t) in got and absent(nm) else "append" if op == "add" else op, nm, t) for op, nm, t in want]
                R.ob(key, bad is None and sorted(got, key=str) == sorted(w, key=str), "%s does %s, not %s" % (name, bad or got, w), P.where(k))
    R.floor("helpers", 8)
    R.floor("rows", 19)


def texts_in(E, t):
    return [x.a[0] for x in subterms(t, E) if x.op == "str"]


@prop("S02")
def s02(R, P, W):
    """Every builder method of ContentSecurityPolicy (exported, returning the policy) records exactly one directive, the one it is named after (underscores for
    dashes), with the source it was given, and changes nothing else; report_only alone decides which of the two header names apply sets; the value apply
    sets joins with "; " every flag directive and, per recorded directive, its name and all of its sources."""
    adt = P.adt("ContentSecurityPolicy")
    p0, p1 = T("par", 0), T("par", 1)
    flag = None
    for k in sorted(P.fn(ty="ContentSecurityPolicy")):
        d = P.defs[k]
        if not d.get("exported") or not d["inputs"]:
            continue
        i0, out = P.ty(d["inputs"][0]), P.ty(d["output"])
        if i0[0] != "ref" or i0[1] != ("adt", adt, ()) or out[0] != "ref" or out[1] != ("adt", adt, ()):
            continue
        m, w = d["name"], P.where(k)
        E = new_engine(P, cap=64)
        outs = E.run(k)
        R.count("builder methods")
        if m == "report_only":
            for v, s in outs:
                x = s.env.get(("H", p0))
                x = E.snap(s, x) if x is not None else p0
                ok = x.op == "upd" and x.a[0] is p0 and len(x.a[1]) == 1 and x.a[1][0][1] is TRUE
                R.ob(m, ok and not any(e.kind == "call" for e in s.eff), "report_only does not only set its flag: %s" % str(x)[:120], w)
                if ok:
                    flag = x.a[1][0][0]
            continue
        want = m.replace("_", "-")
        for v, s in outs:
            R.count("paths")
            R.ob(m + ":self", strip(E, s, v) is p0, "%s returns something else than the policy" % m, w)
            wr = [e for e in s.eff if e.kind == "write"]
            keys = [strconst(E.snap(s, e.args[1])) for e in s.eff if e.kind == "call" and e.name in ("HashMap::entry", "HashMap::get_mut", "HashMap::insert", "BTreeMap::entry", "BTreeMap::get_mut", "BTreeMap::insert")]
            if m == "report_to":
                # a list of serialized endpoints: zero iterations record nothing
                for e in wr:
                    ts = [x for x in texts_in(E, e.args[-1]) if x.strip()]
                    R.ob(m + ":name", any(x.strip() == want or x.startswith(want + " ") for x in ts), "%s records %s, not %s" % (m, ts[:3], want), w)
                continue
            if len(d["inputs"]) == 1:
                x = s.env.get(("H", p0))
                x = E.snap(s, x) if x is not None else p0
                ts = [y for y in texts_in(E, x) if y.strip()]
                R.ob(m + ":name", ts == [want], "%s records %s, not %s" % (m, ts, want), w)
                R.ob(m + ":only", len(wr) == 1, "%s changes %d places of the policy" % (m, len(wr)), w)
                continue
            if keys:
                R.ob(m + ":name", keys == [want], "%s records its source under %s, not %s" % (m, keys, want), w)
                given = [e for e in wr if any(y is p1 for y in subterms(e.args[-1], E))]
                R.ob(m + ":source", len(given) >= 1, "%s does not record the source it is given" % m, w)
            else:
                R.undec(m, "no map entry found", w)
    if flag is None:
        R.undec("apply", "the report-only flag was not identified", "")
    k = need_apply(P, adt)
    E = new_engine(P, cap=128)
    w = P.where(k)
    for v, s in E.run(k):
        R.count("paths")
        ops = [e for e in s.eff if e.kind == "call" and e.name == "HashMap::insert"]
        rm = [e for e in s.eff if e.kind == "call" and e.name in ("HashMap::remove", "HashMap::clear")]
        R.ob("apply:one", len(ops) == 1 and not rm, "apply performs %d insertions and %d removals" % (len(ops), len(rm)), w)
        if len(ops) != 1:
            continue
        n = strconst(E.snap(s, ops[0].args[1]))
        fv = next((x for f, x in s.facts.items() if flag is not None and f is E.getstep(p0, flag)), None) if flag is not None else None
        if fv is not None:
            want = "content-security-policy" + ("-report-only" if fv is TRUE else "")
            R.ob("apply:name", n == want, "apply sets %s with the report-only flag %s" % (n, fv), w)
        else:
            R.ob("apply:name", False if n else True, "apply sets %s without looking at the report-only flag" % n, w)
        val = E.snap(s, ops[0].args[2])
        joins = [x for x in subterms(val) if x.op == "call" and x.a[0] == "slice::join"]
        if len(joins) != 1:
            R.undec("apply:value", "the value is not one join of a list", w)
            continue
        R.ob("apply:separator", joins[0].a[2] is S("; "), "directives are separated by %s" % joins[0].a[2], w)
        todo, done, kinds = [joins[0].a[1]], set(), set()
        while todo:
            y = todo.pop()
            if y in done:
                continue
            done.add(y)
            for x in E.flat(y):
                while x.op == "mut":
                    x = x.a[1]
                if x.op == "phi":
                    todo += list(E.incoming(x))
                elif x.op == "vpush":
                    kinds.add("directive")
                    R.count("rendered directives")
                    directive_text(R, E, x.a[1], w)
                elif x.op == "fld":
                    kinds.add("flags")
                    R.ob("apply:flags", x.a[0] is p0, "the flag directives are taken from %s" % str(x)[:100], w)
                elif x.op in ("vec", "agg") and not any(z for z in x.a if isinstance(z, (T, tuple))):
                    pass
                else:
                    kinds.add("?")
        if "?" in kinds:
            R.undec("apply:value", "a part of the list is not understood", w)
        else:
            R.ob("apply:complete", "flags" in kinds, "the value is made without the flag directives", w)
    R.floor("builder methods", 20)


def directive_text(R, E, t, w):
    """A directive with sources is its name, a blank, and its sources with blanks between them."""
    parts = t.a[0] if t.op == "cat" else ()
    plain = t.op == "cat" and not any(x.op in ("phi", "coll", "it", "vpush") for p in parts for x in (subterms(p, E) if p.op != "call" or p.a[0] != "slice::join" else ()) if x.op != "it")
    if len(parts) == 3 and parts[1] is S(" ") and "keys" in str(parts[0]) and parts[2].op == "call" and parts[2].a[0] == "slice::join" and parts[2].a[2] is S(" ") and "values" in str(parts[2].a[1]):
        R.ob("apply:directive", True)
    elif plain:
        R.ob("apply:directive", False, "a directive is rendered as %s" % str(t)[:150], w)
    else:
        ts = [x for x in texts_in(E, t) if x not in ("", " ")]
        R.ob("apply:directive", not ts, "a directive is rendered with %r in it" % ts[:1], w)
        R.undec("apply:directive", "how its sources are put together was not followed", w)


def strip(E, s, v):
    """The value a chain of field updates started from."""
    v = E.snap(s, E.read(s, v.a[0], v.a[1]) if v.op == "ref" else v)
    roots, seen, stack = set(), set(), [v]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "upd":
            stack.append(x.a[0])
        elif x.op == "phi":
            stack.extend(E.incoming(x))
        else:
            roots.add(x)
    return next(iter(roots)) if len(roots) == 1 else v


def need_apply(P, adt):
    r = [k for k in P.fn(name="apply") if "self_ty" in P.defs[k] and P.ty(P.defs[k]["self_ty"])[1:2] == (adt,)]
    if len(r) != 1:
        raise MissingAnchor("ContentSecurityPolicy::apply")
    return r[0]

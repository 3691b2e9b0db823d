"""H05 typed-header names, H06 field-line selection, H07 absence."""
from checks import prop
from lib import *

# Header name each typed header is documented under (module documentation and RFCs), confirmed by reading.
NAMES = {
    "Accept": "accept", "AcceptEncoding": "accept-encoding", "Age": "age", "Allow": "allow", "Authorization": "authorization", "BasicAuth": "authorization",
    "CacheControl": "cache-control", "ClearSiteData": "clear-site-data", "ContentEncoding": "content-encoding", "ContentLength": "content-length",
    "ContentLocation": "content-location", "ContentType": "content-type", "Date": "date", "ETag": "etag", "Expect": "expect", "Expires": "expires",
    "Forwarded": "forwarded", "IfMatch": "if-match", "IfModifiedSince": "if-modified-since", "IfNoneMatch": "if-none-match",
    "IfUnmodifiedSince": "if-unmodified-since", "LastModified": "last-modified", "Referer": "referer", "RetryAfter": "retry-after",
    "ServerTiming": "server-timing", "SourceMap": "sourcemap", "StrictTransportSecurity": "strict-transport-security", "TE": "te",
    "TimingAllowOrigin": "timing-allow-origin", "TraceContext": "traceparent", "TransferEncoding": "transfer-encoding", "Vary": "vary",
    "WwwAuthenticate": "www-authenticate",
}
# Forwarded is documented to fall back to the X-Forwarded-* fields.
EXTRA = {"Forwarded": {"x-forwarded-for", "x-forwarded-by", "x-forwarded-proto", "x-forwarded-host"}}
# Headers whose value is a comma-separated list (all field lines count).
LIST = {"Accept", "AcceptEncoding", "Allow", "CacheControl", "ClearSiteData", "IfMatch", "IfNoneMatch", "ServerTiming", "TE", "TimingAllowOrigin", "Vary", "Forwarded"}

MAP_READ = ("HashMap::get", "HashMap::contains_key", "HashMap::get_key_value", "HashMap::entry")
MAP_WRITE = ("HashMap::insert", "HashMap::remove", "HashMap::get_mut", "HashMap::clear", "HashMap::retain", "HashMap::extend", "HashMap::drain", "HashMap::entry", "HashMap::remove_entry",
             "HashMap::values_mut", "HashMap::iter_mut")


def lookups(E, outs):
    """All (operation, header name) on the header map in the outcomes."""
    acc = set()

    def f(x):
        if x.op == "call" and x.a[0].startswith("HashMap::") and len(x.a) > 2 and isinstance(x.a[2], T):
            acc.add((x.a[0], strconst(x.a[2])))
    seen = set()
    for v, s in outs:
        walk(v, f, seen, E)
        for k in s.facts:
            walk(k, f, seen, E)
        for e in s.eff:
            walk(e.args, f, seen, E)
            if e.kind == "call" and e.name.startswith("HashMap::"):
                acc.add((e.name, strconst(e.args[1]) if len(e.args) > 1 else None))
    return acc


def is_none(v):
    """Outcome class of a Result<Option<_>, _>: 'none', 'some', 'err' or '?'."""
    if v.op == "agg" and v.a[0] == RES:
        if v.a[1] == "Err":
            return "err"
        o = v.a[2][0]
        if o.op == "agg" and o.a[0] == OPT:
            return "none" if o.a[1] == "None" else "some"
    return "?"


def flat_outcomes(E, outs):
    """Outcomes with top-level phis expanded as far as possible."""
    res = []
    for v, s in outs:
        vs = [v]
        if v.op == "agg" and v.a[0] == RES and v.a[1] == "Ok" and v.a[2][0].op == "phi":
            vs = [ok(x) for x in E.flat(v.a[2][0])]
        elif v.op == "phi":
            vs = E.flat(v)
        for x in vs:
            res.append((x, s))
    return res


def read_one(P, item):
    name, adt, hn = item
    r = {"obs": [], "undec": [], "counts": {}, "samples": []}
    fk = from_headers_fn(P, adt)
    if fk is None:
        r["obs"].append((name + ":from_headers", False, "typed header %s has no from_headers" % name, ""))
        return name, r, None
    E = new_engine(P)
    E.broken = []

    def head(fr, bb, s):
        own = None
        for k in s.facts:
            if k.op == "active":
                E.broken.append((fr, bb, k.a[0], s))
    E.on_head = head
    E.joined = []
    E.on_phi = lambda phi, v, st: E.joined.append((phi, v, dict(st.facts)))
    outs = E.run(fk)
    return name, r, (E, fk, outs)


@prop("H05")
def h05(R, P, W):
    """For every implementation of Header for a crate type: header_name() yields one constant name in all paths; every lookup reachable from its
    from_headers uses that name (Forwarded also its documented X-Forwarded-* fallback); the name is the documented one; apply_header inserts exactly
    header_value() under header_name() and performs no other write to the map."""
    tr, hs = typed_headers(P)

    def one(h):
        name, adt, hn, hv, ap, im = h
        r = Report_like()
        E = new_engine(P)
        outs = E.run(hn)
        got = {strconst(v) for v, s in outs}
        want = NAMES.get(name)
        if want is None:
            r.undec(name + ":documented", "no documented name recorded for this type", P.where(hn))
            want = next(iter(got)) if len(got) == 1 else None
        r.ob(name + ":header_name", got == {want}, "header_name() of %s is %r, documented name is %r" % (name, sorted(map(str, got)), want), P.where(hn))
        fk = from_headers_fn(P, adt)
        if fk:
            E = new_engine(P)
            outs = E.run(fk)
            looks = {n for op, n in lookups(E, outs)}
            r.ob(name + ":reads", want in looks, "%s::from_headers never looks up %r (it looks up %s)" % (name, want, sorted(map(str, looks))), P.where(fk))
            bad = {n for n in looks if n != want and n not in EXTRA.get(name, ())}
            r.ob(name + ":reads-only", not bad, "%s::from_headers looks up %s, its header is %r" % (name, sorted(map(str, bad)), want), P.where(fk))
            r.count("from_headers functions")
            r.samples.append({"type": name, "header_name": sorted(map(str, got)), "looked_up": sorted(map(str, looks)), "where": P.where(fk)})
        if ap:
            check_apply(P, r, name, ap)
        for k in P.fn(ty=name, name="apply"):
            check_inherent_apply(P, r, name, k, want)
        r.count("typed headers")
        return r.plain()

    for d in pmap(one, hs):
        R.merge(d)
    # the default apply_header and the blanket impl for references
    dflt = [k for k, d in P.defs.items() if d.get("trait") == tr and d.get("name") == "apply_header" and k in P.bodies]
    for k in dflt:
        check_apply(P, R, "Header", k)
    for im in P.impl_by_trait[tr]:
        if im["self"][0] == "ref":
            for it in im["items"]:
                if it["name"] in ("header_name", "header_value"):
                    E = new_engine(P)
                    outs = E.run(it["def"])
                    okk = all(v.op == "call" and v.a[0] == "http_types::Header::" + it["name"] and v.a[1].op == "par" for v, s in outs)
                    R.ob("&T:" + it["name"], okk, "the Header impl for references does not forward %s" % it["name"], P.where(it["def"]))
    R.floor("typed headers", 33)
    R.floor("from_headers functions", 33)


def check_apply(P, R, name, key):
    E = new_engine(P)
    E.opaque_fns |= {"http_types::Header::header_name", "http_types::Header::header_value"}
    outs = E.run(key)
    n = 0
    for v, s in outs:
        ins = []
        for e in s.eff:
            if e.kind == "call" and e.name in MAP_WRITE:
                if e.name == "HashMap::insert":
                    ins.append(e)
                elif e.name != "HashMap::get_mut":
                    R.ob(name + ":apply-writes", False, "apply_header also performs %s" % e.name, P.where(key))
        good = False
        for e in ins:
            a = e.args
            hn = [x for x in subterms(a[1], E) if x.op == "call" and x.a[0].endswith("::header_name")]
            hvs = [x for x in subterms(a[2], E) if x.op == "call" and x.a[0].endswith("::header_value")]
            if hn and hn[0].a[1] is T("par", 0) and hvs and hvs[0].a[1] is T("par", 0):
                good = True
            else:
                R.ob(name + ":apply-other", False, "apply_header writes something else: %s" % (e,), P.where(key))
        n += 1
        R.ob(name + ":apply", good and len(ins) == 1, "apply_header does not insert header_value() under header_name() exactly once on every path", P.where(key))
    R.ob(name + ":apply-paths", n > 0, "apply_header never completes", P.where(key))
    R.count("apply functions")


def check_inherent_apply(P, R, name, key, want):
    E = new_engine(P)
    outs = E.run(key)
    for op, n in lookups(E, outs):
        R.ob(name + ":apply-name", n == want, "%s::apply touches %r instead of %r" % (name, n, want), P.where(key))
    R.count("apply functions")


def Report_like():
    from report import Report
    return Report("w", "", 0)


def field_terms(E, outs, names):
    """Base terms X (the list of field lines) for lookups of a name: HashMap::get(..).Some.0 and its inner vector."""
    base = set()

    def f(x):
        if x.op == "fld" and x.a[0].op == "call" and x.a[0].a[0] == "HashMap::get" and strconst(x.a[0].a[2]) in names:
            base.add(x)
    seen = set()
    for v, s in outs:
        walk(v, f, seen, E)
        for k in s.facts:
            walk(k, f, seen, E)
    return base


def rooted(t, base):
    """Whether t is the list of field lines itself (the HeaderValues or its inner vector)."""
    while True:
        if t in base:
            return True
        if t.op == "fld" and t.a[1] is None and t.a[2] == 0:
            t = t.a[0]
            continue
        return False


def iter_root(t, base):
    """(is an iteration over the field lines, adapters) for an iterator term."""
    ad = []
    while t.op in ("it", "adv"):
        if t.op == "adv":
            t = t.a[0]
            continue
        if t.a[0] in ("src", "local"):
            t = t.a[1]
            break
        ad.append(t.a[0])
        t = t.a[1]
    return rooted(t, base), ad


LASTPOS = ("last", ("b", 0), ("rev", 0))


def positions(E, terms, base):
    """Positions of field lines the terms depend on."""
    pos = set()

    def f(x):
        if x.op in ("elem", "idx") and isinstance(x.a[0], T):
            t = x.a[0]
            r, ad = iter_root(t, base)
            if r:
                p = x.a[1]
                pos.add("idx:%s" % (p,) if isinstance(p, T) and p.op != "int" else p.a[0] if isinstance(p, T) else p)
        elif x.op == "fld" and x.a[0].op == "call" and x.a[0].a[0] in ("slice::get", "slice::first"):
            if rooted(x.a[0].a[1], base):
                i = x.a[0].a[2] if len(x.a[0].a) > 2 else I(0)
                pos.add(i.a[0] if i.op == "int" else "idx")
    seen = set()
    for t in terms:
        walk(t, f, seen, E)
    return pos


CUT = {"take", "skip", "step_by", "take_while", "skip_while", "map_while", "cycle"}


@prop("H06")
def h06(R, P, W):
    """Every typed header is classified as list or single-valued (RFC grammar, frozen table). A single-valued header's accepted outcomes depend on
    the last field line only. A list header's accepted outcomes are reached only after the iteration over all field lines has been followed to its
    end from the first one with no truncating or reversing adapter, and no comma-separated iteration inside a line is abandoned midway; the list
    that reaches the accepted value is never shortened, restarted or filled from the front, and whether an item is kept is not decided by the state
    of the list or by a flag earlier items set."""
    tr, hs = typed_headers(P)

    def one(h):
        name, adt, hn, hv, ap, im = h
        r = Report_like()
        n, _, got = read_one(P, (name, adt, hn))
        if got is None:
            return r.plain()
        E, fk, outs = got
        want = NAMES.get(name)
        if want is None:
            r.undec(name, "not classified", P.where(fk))
            return r.plain()
        base = field_terms(E, outs, {want})
        somes = [(v, s) for v, s in flat_outcomes(E, outs) if is_none(v) in ("some", "?")]
        r.count("typed headers")
        r.ob(name + ":reached", bool(base), "%s::from_headers does not read %r" % (name, want), P.where(fk))
        if name not in LIST:
            for v, s in somes:
                ex = any(k.op == "exhausted" and iter_root(k.a[0], base)[0] for k in s.facts)
                ps = positions(E, [v], base) | positions(E, [k for k in s.facts if k.op not in ("ended", "exhausted", "active")], base)
                bad = [p for p in ps if p not in LASTPOS]
                if not bad:
                    if ps:
                        r.ob(name + ":last", True, "uses the last field line", P.where(fk))
                    else:
                        r.undec(name + ":last", "no dependence on a field line visible", P.where(fk))
                elif ex:
                    r.undec(name + ":last", "iterates over all lines", P.where(fk))
                else:
                    r.ob(name + ":last", False, "%s::from_headers uses field line %s although only the last line counts" % (name, bad), P.where(fk))
            r.samples.append({"type": name, "kind": "single", "where": P.where(fk)})
        else:
            for v, s in somes:
                full = False
                why = "the iteration over the field lines is not followed to its end"
                for k in s.facts:
                    if k.op == "exhausted":
                        ro, ad = iter_root(k.a[0], base)
                        if ro and not CUT & set(ad) and "rev" not in ad:
                            full = True
                        elif ro:
                            why = "field lines pass through %s" % ad
                for x in subterms(v, E):
                    if x.op == "coll":
                        ro, ad = iter_root(x.a[0], base)
                        if ro and not CUT & set(ad) and "rev" not in ad:
                            full = True
                r.ob(name + ":all-lines", full, "%s::from_headers accepts without reading every field line: %s (lines used: %s)" % (name, why, sorted(map(str, positions(E, [v], base)))), P.where(fk))
                # a comma iteration left midway
                for k in s.facts:
                    if k.op == "active" and comma_iter(k.a[0]):
                        r.ob(name + ":all-items", False, "%s::from_headers accepts while items of a line are still unread" % name, P.where(fk))
            for fr, bb, it, s in E.broken:
                if comma_iter(it):
                    # the loop's own iterator is the one its head re-enters with; any other active comma iteration was abandoned
                    if not loop_owns(E, fr, bb, it, s):
                        r.ob(name + ":all-items", False, "%s: a loop over comma-separated items is left before its end and reading goes on with the next line" % name, P.where(fr.key))
            commas = {x for v, s in outs for x in subterms(v, E) if x.op == "call" and x.a[0].startswith("str::split") and len(x.a) > 2 and x.a[-1] is I(44)}
            for v, s in outs:
                for k in s.facts:
                    commas |= {x for x in subterms(k, E) if x.op == "call" and x.a[0].startswith("str::split") and x.a[-1] is I(44)}
            if commas:
                r.ob(name + ":commas", all(x.a[0] in ("str::split", "str::split_terminator") for x in commas), "%s::from_headers limits the split on commas" % name, P.where(fk))
            else:
                r.undec(name + ":commas", "no split on commas visible", P.where(fk))
            r.ob(name + ":all-items", True, "", P.where(fk))
            kept(E, somes, base, r, name, P.where(fk))
            r.samples.append({"type": name, "kind": "list", "where": P.where(fk), "accepting_outcomes": len(somes)})
        return r.plain()

    for d in pmap(one, hs):
        R.merge(d)
    R.floor("typed headers", 33)


SHRINKS = {"Vec::clear", "Vec::truncate", "Vec::pop", "Vec::remove", "Vec::swap_remove", "Vec::drain", "Vec::split_off"}


def kept(E, somes, base, r, name, where):
    """The lists that end up in an accepted value: items are only ever added at the end, and whether one is added is not decided by what the list
    (or a flag set by earlier items) holds."""
    into = {}
    for phi, v, f in E.joined:
        into.setdefault(phi, []).append((v, f))
    roots = set()
    for v, s in somes:
        roots |= {x for x in subterms(v) if x.op == "phi" and x in into}
    # lists: phis joined from vec()/vpush, followed through plain phi edges only
    lists, todo = set(), list(roots)
    seen = set()
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        for v, f in into.get(p, ()):
            x = v
            while x.op == "mut" or x.op == "vpush":
                lists.add(p)
                x = x.a[1] if x.op == "mut" else x.a[0]
            if x.op == "vec" or x.op == "agg" and x.a[0] == "vec":
                lists.add(p)
            if x.op == "phi":
                todo.append(x)
    grown = {p for p in lists}
    while True:
        more = {p for p in seen if p not in grown and any(v in grown for v, f in into.get(p, ()))}
        if not more:
            break
        grown |= more
    lists = grown

    def over(x):
        return any(y in lists for y in subterms(x))
    pushes = []
    for p in lists:
        for v, f in into[p]:
            x = v
            while x.op in ("mut", "vpush"):
                if x.op == "mut":
                    if x.a[0] in SHRINKS and not has_empty(x.a[1]):
                        r.ob(name + ":kept", False, "%s::from_headers takes items out of the list it has read (%s)" % (name, x.a[0]), where)
                    elif x.a[0] == "Vec::insert" and first_arg(x.a[2]) is I(0) and over(x.a[1]):
                        r.ob(name + ":order", False, "%s::from_headers puts items in front of the ones it has read before" % name, where)
                    x = x.a[1]
                else:
                    x = x.a[0]
            if v.op == "vpush" and v.a[0] in lists:
                pushes.append((p, v, f))
            # a later line's turn that starts over with an empty list
            later = any(k.op == "active" and iter_root(k.a[0], base)[0] for k in f) and not any(
                k.op == "ended" and not comma_iter(k.a[0]) for k in f)
            if later and not over(v) and (v.op == "vec" or v.op == "agg" and v.a[0] == "vec"):
                r.ob(name + ":kept", False, "%s::from_headers starts the list anew for every line" % name, where)
    decided = {}
    for p, v, f in pushes:
        for k, w in f.items():
            if k.op in ("active", "ended", "exhausted"):
                continue
            decided.setdefault(k, []).append(w)
    for k, ws in decided.items():
        if len(ws) == len(pushes) and len(set(map(str, ws))) == 1 and pushes:
            ph = [x for x in subterms(k) if x.op == "phi" and x in seen_or_flag(E, k, into)]
            if ph and not any(x.op == "elem" for x in subterms(k)):
                r.ob(name + ":kept", False, "%s::from_headers keeps an item only if %s" % (name, str(k)[:80]), where)
    r.ob(name + ":kept", True, "", where)
    r.count("lists followed", len(lists))
    r.count("additions to lists", len(pushes))


def first_arg(x):
    if isinstance(x, T):
        x = x.a[2] if x.op == "agg" else x.a
    return x[0] if x else None


def has_empty(x):
    return x.op == "vec" and not x.a or x.op == "agg" and x.a[0] == "vec" and not x.a[2]


def seen_or_flag(E, k, into):
    """The phis of a fact that carry state from one turn to the next and hold nothing of the current item."""
    out = set()
    for x in subterms(k):
        if x.op != "phi" or x not in into:
            continue
        vs = [v for v, f in into[x]]
        if not any(v.op in ("vpush", "mut") for v in vs) and of_item(E, x, into):
            continue
        out.add(x)
    return out


def of_item(E, phi, into):
    """Whether something of an item reaches the joined value, through other joins too."""
    done, todo = set(), [phi]
    while todo:
        p = todo.pop()
        if p in done:
            continue
        done.add(p)
        for v in [v for v, f in into.get(p, ())] or E.incoming(p):
            for y in subterms(v):
                if y.op == "elem":
                    return True
                if y.op == "phi":
                    todo.append(y)
    return False


def comma_iter(it):
    t = it
    while t.op in ("it", "adv"):
        t = t.a[0] if t.op == "adv" else t.a[1]
        if not isinstance(t, T):
            return False
    return t.op == "call" and t.a[0].startswith("str::split") and t.a[-1] is I(44)


def fresh_in_loop(E, body, head):
    """Locals that get a new value as a whole somewhere in the loop with this head."""
    blocks = body["blocks"]
    succ = {}
    for i, b in enumerate(blocks):
        t = b["t"]
        succ[i] = {"goto": lambda: [t[1]], "switch": lambda: [x[1] for x in t[3]] + [t[4]], "drop": lambda: [t[1]], "call": lambda: [t[4]] if t[4] >= 0 else [],
                   "assert": lambda: [t[5]], "yield": lambda: [t[1]]}.get(t[0], lambda: [])()

    def reach(start, stop):
        seen, todo = set(), list(start)
        while todo:
            n = todo.pop()
            if n in seen or n == stop:
                continue
            seen.add(n)
            todo += succ[n]
        return seen
    outside = reach([0], head)
    pred = {}
    for n, ss in succ.items():
        for m in ss:
            pred.setdefault(m, []).append(n)
    loop, todo = {head}, [n for n in pred.get(head, ()) if n not in outside]
    while todo:
        n = todo.pop()
        if n not in loop:
            loop.add(n)
            todo += pred.get(n, ())
    out = set()
    for n in loop:
        for st in blocks[n]["s"]:
            if st[0] == "=" and not st[1][1]:
                out.add(st[1][0])
        t = blocks[n]["t"]
        if t[0] == "call" and not t[3][1]:
            out.add(t[3][0])
    return out


def loop_owns(E, fr, bb, it, s):
    """Whether an iterator cell over `it` that outlives the turns of this loop is live at its head (so that the loop keeps advancing it)."""
    fresh = fresh_in_loop(E, fr.body, bb)
    for r, v in s.env.items():
        if r[0] == "L" and r[1] == fr.ctx and r[2] in fresh:
            continue
        if v.op == "adv":
            if E.snap(s, v.a[0]) is it:
                return True
        elif v.op in ("agg",):
            for x in v.a[2]:
                if x.op == "adv" and E.snap(s, x.a[0]) is it:
                    return True
    return False


@prop("H07")
def h07(R, P, W):
    """In from_headers of every typed header: an outcome is Ok(None) exactly when the lookup of the header's name (for Forwarded: of all its names)
    found nothing on that path; absence never gives an error; presence never gives Ok(None)."""
    tr, hs = typed_headers(P)

    def one(h):
        name, adt, hn, hv, ap, im = h
        r = Report_like()
        n, _, got = read_one(P, (name, adt, hn))
        if got is None:
            return r.plain()
        E, fk, outs = got
        want = NAMES.get(name)
        if want is None:
            E2 = new_engine(P)
            g = {strconst(v) for v, s in E2.run(hn)}
            want = next(iter(g)) if len(g) == 1 else None
        names = {want} | EXTRA.get(name, set())
        r.count("typed headers")
        nn = na = 0
        for v, s in flat_outcomes(E, outs):
            absent, present = set(), set()
            for k, w in s.facts.items():
                if k.op == "discr" and k.a[0].op == "call" and k.a[0].a[0] == "HashMap::get":
                    nm = strconst(k.a[0].a[2])
                    if w is I(0):
                        absent.add(nm)
                    elif w is I(1):
                        present.add(nm)
                if k.op == "call" and k.a[0] == "HashMap::contains_key" and w in (TRUE, FALSE):
                    (present if w is TRUE else absent).add(strconst(k.a[2]))
            # an empty list of lines for a present name cannot occur (H04)
            base = field_terms(E, outs, names)
            if any(k.op == "ended" and w is TRUE and k.a[1] in (0, "last", ("b", 0)) and iter_root(k.a[0], base)[0] for k, w in s.facts.items()):
                continue
            cls = is_none(v)
            if cls == "?":
                inner = v.a[2][0] if v.op == "agg" and v.a[1] == "Ok" else v
                if inner.op == "call" and any(x.op == "agg" for x in inner.a if isinstance(x, T)):
                    pass
                # Ok(f(..)) whose Option-ness is carried by a term: look at what is known of it
                d = E.known(s, T("discr", inner))
                cls = {0: "none", 1: "some"}.get(d.a[0], "?") if d is not None and d.op == "int" else "?"
            if name in EXTRA:
                # the fallback fields: Ok(None) requires the main name absent
                if cls == "none":
                    nn += 1
                    r.ob(name + ":none-means-absent", want in absent, "%s::from_headers can answer None although %r is present" % (name, want), P.where(fk))
                if cls == "err" and want in absent and not present:
                    r.ob(name + ":absent-no-error", False, "%s::from_headers fails although no field is present" % name, P.where(fk))
                continue
            if cls == "none":
                nn += 1
                r.ob(name + ":none-means-absent", want in absent, "%s::from_headers answers None on a path where %r has not been found absent" % (name, want), P.where(fk))
            elif want in absent:
                na += 1
                r.ob(name + ":absent-means-none", False, "%s::from_headers gives %s although %r is absent" % (name, "an error" if cls == "err" else "a value", want), P.where(fk))
            elif cls == "some" or cls == "err":
                pass
            else:
                r.undec(name + ":" + str(cls), "result %s" % str(v)[:80], P.where(fk))
        r.ob(name + ":has-none", nn > 0 or name in EXTRA, "%s::from_headers never answers None" % name, P.where(fk))
        r.ob(name + ":none-means-absent", True, "", P.where(fk))
        r.ob(name + ":absent-means-none", True, "", P.where(fk))
        r.samples.append({"type": name, "outcomes": len(outs), "none_outcomes": nn, "where": P.where(fk)})
        return r.plain()

    for d in pmap(one, hs):
        R.merge(d)
    R.floor("typed headers", 33)

"""C01 conversions to and from the http crate."""
from checks import prop
from checks.errors import part
from checks.headers import Report_like
from checks.messages import fields
from lib import *

TOKEN = set("!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
SAME = {"headers::header_name::HeaderName": "http::header::name::HeaderName", "headers::header_value::HeaderValue": "http::header::value::HeaderValue",
        "method::Method": "http::method::Method", "status_code::StatusCode": "http::status::StatusCode", "version::Version": "http::version::Version",
        "headers::headers::Headers": "http::header::map::HeaderMap", "request::Request": "http::request::Request", "response::Response": "http::response::Response"}
SAME.update({v: k for k, v in SAME.items()})
KEEPERS = ("append", "try_append")
REPLACERS = ("insert", "try_insert")
SELECT = ("filter", "filter_map", "take", "skip", "take_while", "skip_while", "step_by", "map_while", "dedup", "last", "nth", "zip")
ALTER = ("trim", "to_lowercase", "to_uppercase", "ascii_lower", "ascii_upper", "replace", "split", "strip_prefix", "strip_suffix", "trim_start", "trim_end", "trim_matches",
         "escape_default", "from_utf8_lossy", "truncate")


def conversions(P):
    """[(key, from adt, to adt, fallible)] between this crate's types and the http crate's."""
    out = []
    for k, d in P.defs.items():
        if k not in P.bodies or d.get("name") not in ("from", "try_from") or d.get("self_ty") is None or not d.get("inputs"):
            continue
        t, i = P.ty(d["self_ty"]), P.ty(d["inputs"][0])
        if t[0] == "adt" and i[0] == "adt" and SAME.get(i[1]) == t[1] and (t[1].startswith("http::") != i[1].startswith("http::")):
            out.append((k, i[1], t[1], d["name"] == "try_from"))
    return sorted(out)


def digits(name):
    d = "".join(c for c in name if c.isdigit())
    return d[:-1] if len(d) == 2 and d[1] == "0" and d[0] in "23" else d


def short(n):
    return str(n).replace("http_types::", "").replace("crate::", "")


def last(n):
    return str(n).split("::")[-1]


def nest(x, isroot):
    """How many collections an element was taken out of, starting from the collection isroot recognises; -1 if it is not from there."""
    n = 0
    while True:
        if isroot(x):
            return n
        if x.op in ("elem", "idx"):
            n += 1
            x = x.a[0]
        elif x.op in ("fld", "it", "adv", "ref"):
            nx = [y for y in x.a if isinstance(y, T)]
            if not nx:
                return -1
            x = nx[0]
        elif x.op == "call" and len(x.a) > 1:
            if last(x.a[0]) in ("into_parts", "into_iter", "iter", "keys", "values", "iter_mut", "values_mut", "drain", "as_ref", "clone", "to_owned", "get_all"):
                x = x.a[1]
            else:
                return -1
        elif x.op == "agg" and len(x.a[2]) == 1:
            x = x.a[2][0]
        else:
            return -1


def indices(x, isroot):
    """The positions at which an element was taken out of the collection and the collections within it."""
    if nest(x, isroot) < 0:
        return None
    out = []
    while not isroot(x):
        if x.op == "elem":
            out.append(x.a[1])
            x = x.a[0]
        elif x.op == "call":
            x = x.a[1]
        elif x.op == "agg":
            x = x.a[2][0]
        else:
            x = [y for y in x.a if isinstance(y, T)][0]
    return tuple(out)


def successors(t):
    op = t[0]
    if op in ("goto", "drop", "yield"):
        return [t[1]]
    if op == "switch":
        return [x[1] for x in t[3]] + [t[4]]
    if op == "call":
        return [t[4]] if t[4] >= 0 else []
    if op == "assert":
        return [t[5]]
    return []


class Copy:
    """Follows one conversion of a header collection: what every turn of every loop (and every call of every closure) over it did with its element."""

    def __init__(self, R, P, key, name, where, local, root, opaque):
        self.R, self.P, self.key, self.name, self.where, self.local, self.root = R, P, key, name, where, local, root
        self.next_at = {}      # (context, block) of a next() call -> [(iterator, element)]
        self.turns = self.sinks = 0
        E = self.E = new_engine(P, cap=48)
        E.on_item, E.on_head, E.on_apply = self.item, self.head, self.applied
        hs = {k for k in P.bodies if P.defs[k].get("self_ty") is not None and P.ty(P.defs[k]["self_ty"])[:2] == ("adt", HEADERS)}
        E.opaque_fns |= {P.short(k) for k in hs if P.defs[k].get("name") in KEEPERS + REPLACERS}
        E.opaque_fns |= opaque
        for n in SELECT:
            for pre in ("Iterator::", "DoubleEndedIterator::", "slice::"):
                E.hooks[pre + n] = self.selects
        self.leafdepth = 2 if local else 1

    def element(self, v):
        """The collection element a yielded value consists of: (depth, element) or None."""
        E = self.E
        xs = [v] + (list(v.a[2]) if v.op == "agg" else [])
        for x in xs:
            while x.op == "fld":
                x = x.a[0]
            if x.op == "elem":
                n = nest(x, self.root)
                if n > 0:
                    return n, x
        return None

    def selects(self, c):
        """An adaptor that leaves elements out, applied to the headers or to the values of one."""
        v = c.snap(0)
        if any(nest(t, self.root) >= 0 for t in subterms(v, self.E)):
            self.R.ob(self.name + ":all", False, "%s leaves values out: it goes over the headers through `%s`" % (self.name, last(c.name)), self.where)
        return None

    def within(self, x, t):
        """Does a term mention this element (the key and the value of a map entry count as the same element)?"""
        want = indices(x, self.root)
        return any(y.op == "elem" and indices(y, self.root) == want for y in subterms(t, self.E))

    def item(self, fr, site, it, v, s):
        v = self.E.snap(s, v)
        e = self.element(v)
        if e is None:
            return
        self.R.count("iterations over headers")
        for t in subterms(it, self.E):
            if t.op == "it" and t.a[0] in SELECT:
                self.R.ob(self.name + ":all", False, "%s leaves values out: it goes over the headers through `%s`" % (self.name, t.a[0]), self.where)
        ctx, bb = fr.ctx, site[0]
        while True:
            self.next_at.setdefault((ctx, bb), {}).setdefault(e, set()).add(it)
            if ctx >= len(self.E.ctxinfo) or ctx < 0:
                return
            parent, st = self.E.ctxinfo[ctx]
            if not isinstance(parent, int) or parent < 0 or not isinstance(st, tuple) or len(st) < 2:
                return
            ctx, bb = parent, st[1]

    def loop_item(self, fr, bb):
        """Elements yielded by the next() call that drives the loop with this head."""
        blocks = fr.body["blocks"]
        heads = self.E.cfg(fr.body)[1]
        seen, todo = set(), [bb]
        while todo:
            b = todo.pop(0)
            if b in seen or (b in heads and b != bb):
                continue
            seen.add(b)
            r = self.next_at.get((fr.ctx, b))
            if r:
                return r
            if len(seen) > 12:
                break
            todo.extend(successors(blocks[b]["t"]))
        return {}

    def kept(self, s, x):
        """Was a value of element x stored on this path?  Returns the facts recording it."""
        out = []
        for k, f in s.facts.items():
            if k.op == "stored" and self.within(x, k.a[1]):
                out.append(k)
        return out

    def judge(self, s, n, x, what):
        """One turn over element x (already complete) must have stored its value, or gone over all the values below it."""
        E = self.E
        self.turns += 1
        self.R.count("turns checked")
        if n >= self.leafdepth:
            ks = self.kept(s, x)
            if not ks and any(k.op in ("exhausted", "ended") and f in (1, TRUE) and self.within(x, k) for k, f in s.facts.items()):
                return      # gone over everything found under this element
            if not ks and not self.local:
                nm = E.getstep(x, ("f", 0, None))
                d = s.facts.get(T("discr", nm))
                if d is not None and E.P is not None and d in (0, I(0)):
                    # a value that follows its name: droppable only where no name was seen yet
                    if any(k.op == "discr" and f in (0, I(0)) and k.a[0].op in ("phi", "agg") for k, f in s.facts.items()):
                        return
                    if not any(k.op == "discr" and k.a[0].op == "phi" for k in s.facts) and not isinstance(x.a[1], str):
                        return      # the first element always has a name
            self.R.ob(self.name + ":kept", bool(ks), "%s drops a header value: %s that neither stores the value nor fails" % (self.name, what), self.where)
            for k in ks:
                self.stored(s, k, x)
        else:
            over = False
            for k, f in s.facts.items():
                if k.op in ("exhausted", "ended") and f in (1, TRUE):
                    if self.within(x, k):
                        over = True
            if not over and any(k.op == "stored" and self.within(x, k) for k in s.facts):
                over = True
            self.R.ob(self.name + ":every-name", over, "%s drops the values of a header: %s that does not go over its values" % (self.name, what), self.where)

    def stored(self, s, k, x):
        how, val, nm = k.a[0], k.a[1], k.a[2]
        if last(how) in REPLACERS:
            first = False
            if not self.local:
                d = s.facts.get(T("discr", self.E.getstep(x, ("f", 0, None))))
                first = d in (1, I(1))
            self.R.ob(self.name + ":append", first, "%s replaces the values stored so far: it uses %s for each value of a header" % (self.name, last(how)), self.where)
        ns = subterms(nm, self.E)
        elems = [t for t in ns if t.op == "elem"]
        good = any(nest(t, self.root) > 0 for t in elems)
        self.R.ob(self.name + ":name", good, "%s stores a value under %s, which is not the name it came with" % (self.name, str(nm)[:120]), self.where)
        if good and any(t is x for t in ns) and self.local:
            self.R.ob(self.name + ":name", False, "%s uses a header's value as its name" % self.name, self.where)
        bad = sorted({last(t.a[0]) for t in subterms(val, self.E) if t.op == "call" and last(t.a[0]) in ALTER and t.a[0] != "anyhow::Error::msg"})
        self.R.ob(self.name + ":same", not bad, "%s alters header values (%s)" % (self.name, ", ".join(bad)), self.where)

    def head(self, fr, bb, s):
        for (n, x), its in self.loop_item(fr, bb).items():
            if self.current(s, x, its):
                self.judge(s, n, x, "there is a turn of the loop")

    def current(self, s, x, its):
        """Has the state just finished a turn over element x of one of these iterations (rather than arrived at the loop for the first time)?"""
        starry = x.a[1] == "*" or not isinstance(x.a[1], (int, T))
        for k, f in s.facts.items():
            if k.op == "active" and f in (1, TRUE):
                for c in self.E.flat(k.a[0]) if k.a[0].op == "phi" else [k.a[0]]:
                    if c in its:
                        first = any(k2.op == "ended" and k2.a[1] == 0 and self.E.snap(s, k2.a[0]) is c for k2 in s.facts)
                        return first == (not starry)
        return False

    def applied(self, fr, key, args, outs):
        for a in args:
            e = self.element(a)
            if e is None:
                continue
            n, x = e
            for v, s in outs:
                v = self.E.snap(s, v)
                for v in self.E.flat(v):
                    if v.op == "agg" and v.a[0] == RES and v.a[1] == "Err":
                        continue
                    if self.within(x, v):
                        continue
                    self.judge(s, n, x, "there is a call of its closure")


def run_copy(R, P, k, name, where, local, root, opaque):
    C = Copy(R, P, k, name, where, local, root, opaque)
    E = C.E
    base = E.opaque

    def opaque(c, key):
        outs = base(c, key)
        n = last(c.name)
        if n in KEEPERS + REPLACERS and len(c.args) == 3 and ("HeaderMap" in c.name or "Headers" in c.name):
            R.count("store sites reached")
            nm, val = E.snap(c.st, c.args[1]), E.snap(c.st, c.args[2])
            C.sinks += ("http::" in c.name) == local
            for v, s in outs:
                s.facts[T("stored", c.name, val, nm)] = 1
        return outs
    E.opaque = opaque
    outs = E.run(k)
    return C, E, outs


def carried_types(P, adt):
    """What a message carries that the other crate has a place for: {kind: type path}."""
    return {"method": "method::Method", "target": "url::Url", "headers": HEADERS, "version": "version::Version", "body": "body::Body", "status": "status_code::StatusCode"}


@prop("C01")
def c01(R, P, W):
    """Every conversion between this crate's and the http crate's types.  Header collections: every turn of every loop (call of every closure) over the source
    that neither fails nor stops stores the element's value with `append` under the name it came with (`insert` only for a value that starts a name), and no
    adaptor that leaves elements out is used; every successful path has gone through the whole source.  Messages: method, target, version, status and body of
    the result are computed from those of the argument, and the only header not copied is a Content-Type taken from the body when there is none.  Versions map
    one to one.  Conversions of names and values change nothing but the case of names.  No path of a TryFrom panics; a From panics only at the listed places."""
    convs = conversions(P)
    hs = helpers(P)
    hn = {P.short(h) for h in hs}
    ops = {P.short(k) for k, src, dst, f in convs if last(src) in ("Method", "StatusCode", "Version")} | \
        {P.short(k) for k in P.bodies if P.defs[k].get("name") in ("from_str", "try_from") and P.short(k) in ("<Method as FromStr>::from_str", "<StatusCode as TryFrom>::try_from")}
    opaque = hn | ops
    for h in hs:
        a, b = hs[h]
        name, w = P.defs[h]["name"], P.where(h)
        for local, i in ((True, a), (False, b)):
            Q = Report_like()
            C, E, outs = run_copy(Q, P, h, name, w, local, rooted(P, i, None), opaque - {P.short(h)})
            if C.sinks:
                R.merge(Q.plain())
                R.count("header copying functions")
                collection(R, P, C, E, outs, name, w, "map", rooted(P, i, None), {P.short(x) for x in hs}, local)
                break
        else:
            R.undec(name + ":direction", "takes both kinds of header collections but stores into neither", w)
    for k, src, dst, fallible in convs:
        R.count("conversions")
        kind = last(src)
        name = "%s from %s" % (("http::" if dst.startswith("http::") else "") + last(dst), ("http::" if src.startswith("http::") else "") + last(src))
        w = P.where(k)
        if kind in ("Headers", "HeaderMap", "Request", "Response"):
            C, E, outs = run_copy(R, P, k, name, w, not src.startswith("http::"), rooted(P, 0, src), opaque - {P.short(k)})
            collection(R, P, C, E, outs, name, w, kind, rooted(P, 0, src), hn, not src.startswith("http::"))
            if kind in ("Request", "Response"):
                message(R, P, E, outs, name, w, src, dst)
        else:
            E = new_engine(P, cap=64)
            outs = E.run(k)
            scalar_conv(R, P, E, outs, name, w, src, dst)
        panics(R, P, k, name, fallible)
    R.floor("conversions", 14)
    R.floor("store sites reached", 4)
    R.floor("turns checked", 6)


def rooted(P, i, src):
    """Recognises the header collection a conversion starts from: the argument, or the header part of a message."""
    par = T("par", i)
    if src is None or last(src) in ("Headers", "HeaderMap"):
        return lambda x: x is par
    if not src.startswith("http::"):
        idx = [j for j, n, t in fields(P, src) if t[:2] == ("adt", HEADERS)]
        return lambda x: x.op == "fld" and x.a[0] is par and x.a[2] in idx

    def f(x):
        return from_part(P, None, None, x, par, src, "headers")
    return f


def helpers(P):
    """Functions given both kinds of header collections: {key: (index of Headers, index of HeaderMap)}."""
    out = {}
    for k, d in sorted(P.defs.items()):
        if k not in P.bodies or d.get("kind") == "Closure" or not d.get("inputs"):
            continue
        at = {}
        for i, t in enumerate(d["inputs"]):
            t = P.ty(t)
            while t[0] == "ref":
                t = t[1]
            if t[0] == "adt":
                at[t[1]] = i
        if HEADERS in at and SAME[HEADERS] in at:
            out[k] = (at[HEADERS], at[SAME[HEADERS]])
    return out


def oks(E, outs):
    for v, s in outs:
        for x in (E.flat(v) if v.op == "phi" else [v]):
            x = E.snap(s, x)
            if x.op == "agg" and x.a[0] == RES:
                if x.a[1] == "Ok":
                    yield x.a[2][0], s
                continue
            yield x, s


def collection(R, P, C, E, outs, name, w, kind, par, hn, local):
    for v, s in oks(E, outs):
        R.count("successful paths")
        done = False
        for f, b in s.facts.items():
            if f.op in ("exhausted", "ended") and b in (1, TRUE):
                for t in subterms(f, E):
                    if t.op in ("it",) and nest(t, par) == 0:
                        done = True
        done = done or any(e.kind == "call" and short(e.name) in {short(h) for h in hn} and any(isinstance(a, T) and any(par(t) for t in subterms(a, E)) for a in e.args) for e in s.eff)
        R.ob(name + ":exhausted", done, "%s can return successfully before all headers were copied" % name, w)
    for v, s in outs:
        for e in s.eff:
            if e.kind != "call" or last(e.name) not in KEEPERS + REPLACERS or len(e.args) != 3 or not ("HeaderMap" in e.name or "Headers" in e.name):
                continue
            c = strconst(e.args[1])
            if c is None or ("http::" in e.name) != local:
                continue
            R.count("headers not copied")
            absent = any(f.op == "discr" and b in (0, I(0)) and f.a[0].op == "call" and last(f.a[0].a[0]) == "get" and strconst(f.a[0].a[2]) == c for f, b in dict(e.facts or {}).items()) or \
                any(f.op == "call" and last(f.a[0]) in ("contains_key", "contains") and strconst(f.a[2]) == c and b in (0, I(0)) for f, b in dict(e.facts or {}).items())
            full = any(f.op == "discr" and b in (0, I(0)) and (f.a[0].op == "phi" or f.a[0].op == "call" and short(f.a[0].a[0]) in {short(h) for h in hn}) for f, b in dict(e.facts or {}).items()) or \
                any(f.op in ("exhausted", "ended") and b in (1, TRUE) and any(t.op == "it" and nest(t, par) == 0 for t in subterms(f, E)) for f, b in dict(e.facts or {}).items())
            R.ob(name + ":adds", c == "content-type" and absent, "%s adds a %s header of its own" % (name, c), w)
            R.ob(name + ":adds-late", full, "%s stores a %s header before the headers were copied, which then come on top of it" % (name, c), w)


def message(R, P, E, outs, name, w, src, dst):
    par = T("par", 0)
    tolocal = not dst.startswith("http::")
    for v, s in oks(E, outs):
        for kind, path in carried_types(P, src).items():
            loc = dst if tolocal else src
            fs = [(i, t) for i, n, t in fields(P, loc) if t == ("adt", path, ()) or t[:2] == ("adt", path) or (t[:2] == ("adt", OPT) and t[2] and t[2][0][:2] == ("adt", path))]
            if len(fs) != 1 or kind == "headers":
                continue
            i = fs[0][0]
            hn = {"target": "uri"}.get(kind, kind)
            if tolocal:
                if v.op != "agg" or v.a[0] != loc:
                    R.undec(name + ":shape", "result is %s" % str(v)[:80], w)
                    continue
                t = E.snap(s, v.a[2][i])
                xs = subterms(t, E)
                parts = [x for x in xs if from_part(P, E, s, x, par, src, hn)]
                R.ob(name + ":" + kind, bool(parts), "the %s of the result of %s is %s, which is not computed from the argument's" % (kind, name, str(t)[:120]), w)
            else:
                f = E.getstep(par, ("f", i, None))
                xs = subterms(v, E)
                if fs[0][1][1] == OPT and s.facts.get(T("discr", f)) in (0, I(0)):
                    continue
                got = f in xs or any(f in subterms(a, E) for e in s.eff if e.kind == "write" for a in e.args[2:] if isinstance(a, T))
                R.ob(name + ":" + kind, got, "%s does not carry the %s over" % (name, kind), w)
                t = v
            acc = {last(x.a[0]) for x in subterms(t, E) if x.op == "call" and ("Uri::" in x.a[0] or "Url::" in x.a[0])}
            if kind == "target":
                if acc & {"path", "authority", "host", "host_str", "scheme", "port"}:
                    R.ob(name + ":whole-target", bool(acc & {"query", "path_and_query"}), "%s rebuilds the target from %s, without its query" % (name, sorted(acc)), w)
            R.count("message parts")


def from_part(P, E, s, x, par, src, hn):
    if x.op == "fld" and x.a[0].op == "fld" and x.a[0].a[0].op == "call" and last(x.a[0].a[0].a[0]) == "into_parts" and x.a[0].a[2] == 0:
        parts = src.rsplit("::", 1)[0] + "::Parts"
        names = [f["name"] for f in P.adts[parts]["variants"][0]["fields"]] if parts in P.adts else []
        return x.a[2] < len(names) and names[x.a[2]] == hn
    if hn == "body" and x.op == "fld" and x.a[2] == 1 and x.a[0].op == "call" and last(x.a[0].a[0]) == "into_parts":
        return True
    if x.op == "call" and last(x.a[0]) in (hn, "into_" + hn, hn + "_mut") and len(x.a) > 1 and par in subterms(x.a[1]):
        return True
    return False


def scalar_conv(R, P, E, outs, name, w, src, dst):
    par = T("par", 0)
    kind = last(src)
    if kind == "Version":
        seen = {}
        enum = "http::version::Http" if src.startswith("http::") else src
        by = {int(v["discr"]): v["name"] for v in P.adts[enum]["variants"]}
        for v, s in oks(E, outs):
            d = [b for f, b in s.facts.items() if f.op == "discr" and par in subterms(f)]
            d = [b.a[0] if isinstance(b, T) and b.op == "int" else b for b in d]
            if len(d) != 1 or not isinstance(d[0], int):
                R.undec(name + ":version", "path without a decided source version", w)
                continue
            tgt = v.a[1] if v.op == "agg" and v.a[1] else str(v.a[0]) if v.op == "constdef" else None
            if tgt is None:
                R.undec(name + ":version", "result %s" % str(v)[:80], w)
                continue
            tgt = str(tgt).split("::")[-1]
            a, b = digits(by[d[0]]), digits(tgt)
            R.count("versions")
            R.ob(name + ":" + by[d[0]], a == b, "%s turns version %s into %s" % (name, by[d[0]], tgt), w)
            seen[d[0]] = True
        want = {d for d, n in by.items() if not n.startswith("__")}
        R.ob(name + ":total", set(seen) >= want, "%s has no answer for %s" % (name, sorted(by[d] for d in want - set(seen))), w)
        return
    for v, s in oks(E, outs):
        R.count("successful paths")
        # a lookup among constants (method and status tables are decided by T01 to T03) shows up as facts about the text
        dep = par in subterms(v, E) or any(par in subterms(f, E) for f in s.facts)
        R.ob(name + ":from-argument", dep, "%s returns %s whatever the argument" % (name, str(v)[:100]), w)
        if kind in ("HeaderName", "HeaderValue"):
            bad = sorted({last(x.a[0]) for x in subterms(v, E) if x.op == "call" and last(x.a[0]) in ALTER and not (kind == "HeaderName" and last(x.a[0]) in ("ascii_lower", "to_lowercase"))})
            R.ob(name + ":same", not bad, "%s alters the text (%s)" % (name, ", ".join(bad)), w)
            if not dst.startswith("http::"):
                asc = any("ascii" in f.op or (f.op == "call" and "ascii" in f.a[0]) for f, b in s.facts.items() if b in (1, TRUE))
                R.ob(name + ":ascii", asc, "%s accepts text without checking that it is ASCII" % name, w)


def panics(R, P, k, name, fallible):
    """Panics that a caller's argument can cause."""
    E = new_engine(P, cap=64)
    E.run(k)
    for p in E.panics:
        R.count("panic sites")
        if p.kind == "std:Vec::with_capacity":
            continue
        why = harmless(P, E, p)
        if why:
            continue
        fn = P.short(p.fn) if p.fn in P.defs else str(p.fn)
        what = short(p.args[0].a[0]).replace("http::", "") if p.args and isinstance(p.args[0], T) and p.args[0].op == "call" else ""
        R.ob("%s:panic:%s" % (name, what), False, "%s panics (%s in %s) on a value the other side cannot represent" % (name, p.kind, fn), P.where(p.fn) if p.fn in P.defs else "")


def harmless(P, E, p):
    for f, b in dict(p.facts).items():
        # the enumeration has a variant that is never built
        if f.op != "discr":
            continue
        b = b.a[0] if isinstance(b, T) and b.op == "int" else b
        if isinstance(b, int) and b in {int(v["discr"]) for v in P.adts["http::version::Http"]["variants"] if v["name"].startswith("__")} and p.kind.endswith("begin_panic"):
            return "no such version"
        if isinstance(b, tuple) and b[0] == "!":
            full = {int(v["discr"]) for v in P.adts["http::version::Http"]["variants"] if not v["name"].startswith("__")}
            got = {x.a[0] if isinstance(x, T) else x for x in b[1]}
            if got >= full:
                return "no such version"
    if not p.args:
        return None
    a = p.args[0]
    if not isinstance(a, T):
        return None
    if a.op == "call" and a.a[0] == "str::parse":
        xs = E.flat(a.a[1])
        if all(x.op == "str" and x.a[0] and set(x.a[0]) <= TOKEN for x in xs):
            return "tokens only"
    if a.op == "call" and last(a.a[0]) == "from_u16" and a.a[1].op == "discr":
        return "status codes lie between 100 and 999"
    if a.op == "call" and "Builder::" in a.a[0] and last(a.a[0]) in ("headers_mut", "body"):
        ok = True
        for t in subterms(a, E):
            if t.op == "call" and "Builder::" in t.a[0] and last(t.a[0]) in ("method", "uri", "version", "status", "header"):
                if last(t.a[0]) == "header":
                    ok = False
        return "built from typed parts" if ok else None
    return None

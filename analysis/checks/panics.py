"""P01 parsing never panics."""
import signal
from checks import prop
from checks.headers import Report_like
from checks.dates import Dates
from checks.parsing import err_terms
from lib import *
import bounds
import table
from models import strip_ref
from bounds import Bounds, INF

READERS = ("from_headers", "from_forwarded_header", "from_x_headers", "from_credentials", "parse", "sniff", "from_extension", "from_bytes", "from_string")
STEPS = {"str::" + x for x in ("trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "split", "splitn", "split_at.0", "split_at.1", "split_at", "strip_prefix", "strip_suffix", "find", "rfind", "get",
                               "chars", "char_indices", "bytes", "parse", "starts_with", "ends_with", "contains", "rsplit", "split_once", "rsplit_once", "as_bytes", "split_whitespace", "lines", "is_char_boundary")}
STEPS |= {"is_utf8", "is_ascii", "ascii_lower", "ascii_upper", "str::eq_ignore_ascii_case", "str::is_empty", "char::is_whitespace", "HashMap::get", "Iterator::position", "slice::first", "slice::last", "slice::iter", "String::as_str", "char::to_digit", "char::len_utf8", "Duration::from_secs", "Duration::from_millis", "Duration::as_secs"}


def text_like(t):
    while t[0] == "ref":
        t = t[1]
    return t in (("prim", "str"), ("slice", ("prim", "u8"))) or t[0] == "adt" and t[1].split("::")[-1] in ("String", "Vec", "Cow", "Url", "Headers")


def readers(P):
    """The functions a caller gives untrusted text or header fields to."""
    out = []
    for k, d in sorted(P.defs.items(), key=lambda x: x[1]["path"]):
        if not P.is_local(k) or k not in P.bodies or d["kind"] not in ("Fn", "AssocFn"):
            continue
        nm, tr = d.get("name"), d.get("impl_trait", "").split("::")[-1]
        if nm in READERS and not tr:
            out.append(k)
        elif tr == "FromStr" or tr == "Visitor" and nm.startswith("visit"):
            out.append(k)
        elif tr == "TryFrom" and nm == "try_from" and text_like(P.ty(d["inputs"][0])):
            out.append(k)
    return out


def fold_ranges(P, D):
    """Ranges of the fields of a date that the text reader returns."""
    E, outs = D.table(D.from_str)
    acc = {}
    n = 0
    for v, s in outs:
        for w in E.flat(E.snap(s, v)):
            if w.op == "agg" and w.a[1] == "Err":
                continue
            x = w.a[2][0] if w.op == "agg" else T("fld", w, "Ok", 0)
            n += 1
            p = Bounds(E, s.facts, bounds.World(E))
            vs = P.adts[D.adt]["variants"][0]["fields"]
            for i, f in enumerate(vs):
                t = E.snap(s, E.getstep(x, ("f", i, None)))
                ty = P.ty(f["ty"])
                lo, hi = p.rng(t)
                if ty[0] == "prim":
                    a, b = int_range(ty[1])
                    lo, hi = max(lo, a), min(hi, b)
                o = acc.get(i, (INF, -INF))
                acc[i] = (min(o[0], lo), max(o[1], hi))
    return acc, n


OURS = ("str::", "slice::", "String::", "Iterator::", "Vec::", "Option::", "Result::", "Cow::", "Chars::", "HashMap::", "char::", "Duration::", "Ord::", "PartialEq::", "cmp::")


def understood(x):
    """The reasoning interprets this step, or it is a source of arbitrary values (a function of another crate)."""
    if x.op == "call":
        n = str(x.a[0])
        return n in STEPS or not n.startswith(OURS) and not n.startswith(("http_types", "crate")) and "::" in n
    return x.op not in ("upd", "opaque", "havoc", "unknown", "it", "any", "all", "pred", "proj")


def plain(E, t):
    """Nothing in the term is beyond what the bounds reasoning interprets."""
    return all(understood(x) and (x.op != "phi" or E.incoming(x)) for x in subterms(t, E))


def known_facts(E, facts, bases):
    """Every fact about these texts is of a kind the reasoning interprets."""
    for f, v in facts.items():
        xs = subterms(f)
        if any(b in xs for b in bases) and not all(understood(x) or x.op == "it" for x in xs):
            return False
    return True


def check(P, E, W, p):
    """('ok'|'bad'|'unk', message) for a recorded possible panic."""
    B = Bounds(E, p.facts, W)
    k, a = p.kind, p.args
    if k.endswith("with_capacity"):
        return "ok", ""
    if B.infeasible():
        return "ok", ""

    def no(msg, *terms):
        """Not proved: a violation if everything that bears on it is interpreted, otherwise undecided."""
        terms = [t for t in terms if t.op != "int"]
        if len(terms) == 1 and B.parent(terms[0]) is not None and plain(E, terms[0]) and B.rng(T("len", terms[0]))[0] <= 0:
            # a piece of some text, of which nothing shows that it is not empty
            return ("bad" if known_facts(E, p.facts, terms) else "unk"), msg
        for t in terms:
            if not plain(E, t) or any(x.op == "phi" for x in subterms(t)):
                return "unk", msg
        return ("bad" if known_facts(E, p.facts, terms) else "unk"), msg

    def off(msg, t, k):
        """Not proved to be a character boundary: the character before it is known to be possibly wider than a byte."""
        if all(plain(E, x) for x in E.flat(t)) and B.may_split(t, k):
            return "bad", "may split: " + msg
        return no(msg, t, k)

    if k.startswith("std:index:"):
        if a[1].op != "agg":
            return "unk", "a range that is not built here"
        t = strip_ref(p.tys[0]) if p.tys else ("other",)
        is_text = not (t[0] in ("slice", "array") or t[0] == "adt" and t[1].endswith("::Vec"))
        r = B.range_ok(a[0], a[1], is_text)
        if r is True:
            return "ok", ""
        if isinstance(r, tuple):
            return off("[%s] needs %s to be on a character boundary" % (a[1], r[0]), a[0], r[0])
        return no("[%s] needs %s" % (a[1], r), a[0], *a[1].a[2])
    if k == "std:index":
        L = E.length(a[0])
        return ("ok", "") if B.le(a[1], L, -1) else no("index %s below the length of %s" % (a[1], a[0]), a[0], a[1])
    if k.endswith("split_at"):
        if not B.le(a[1], T("len", a[0])):
            return no("split_at(%s) within the text" % a[1], a[0], a[1])
        return ("ok", "") if B.boundary(a[0], a[1]) else off("split_at(%s) on a character boundary" % a[1], a[0], a[1])
    if k.startswith("assert:Overflow"):
        op = k.split(":")[2]
        if len(a) == 2 and op in ("Add", "Sub", "Mul"):
            x, y = a
            if op == "Sub" and p.tys[0][0] == "prim" and p.tys[0][1].startswith("u") and B.le(y, x):
                return "ok", ""
            (la, ha), (lb, hb) = B.rng(x), B.rng(y)
            lim = int_range(p.tys[0][1]) if p.tys and p.tys[0][0] == "prim" else (0, -1)
            if -INF < la and ha < INF and -INF < lb and hb < INF:
                vals = [la + lb, ha + hb] if op == "Add" else [la - hb, ha - lb] if op == "Sub" else [u * v for u in (la, ha) for v in (lb, hb)]
                if lim[0] <= min(vals) and max(vals) <= lim[1]:
                    return "ok", ""
                if tabulated(E, B, op, x, y, lim):
                    return "ok", ""
            return no("%s %s %s does not overflow" % (x, op, y), x, y)
        return "unk", "overflow of %s" % op
    if k.startswith("assert:BoundsCheck"):
        return ("ok", "") if B.le(a[1], a[0], -1) else no("index %s below %s" % (a[1], a[0]), a[0], a[1])
    if k.startswith(("assert:DivisionByZero", "assert:RemainderByZero")):
        lo, hi = B.rng(a[-1])
        return ("ok", "") if lo > 0 or hi < 0 else no("division by %s" % a[-1], *a)
    if k in ("std:Option::unwrap", "std:Option::expect", "std:Result::unwrap", "std:Result::expect", "std:Result::unwrap_err", "std:Result::expect_err", "std:Option::unwrap_none"):
        src = [f.a[0] for f, v in p.facts.items() if f.op == "discr"]
        return no("%s of a value that may be absent" % k[4:], *(list(a) if not (a and a[0].op == "agg") else src[-1:]))
    if k == "std:Duration::new":
        lo, hi = B.rng(a[1])
        return ("ok", "") if 0 <= lo and hi < 10 ** 9 else no("Duration::new(%s)" % (a,), *a)
    if k == "std:Duration::div":
        lo, hi = B.rng(a[1])
        return ("ok", "") if lo > 0 or hi < 0 else no("division of a duration by %s" % a[1], *a)
    if k in ("std:Duration::from_secs_f64", "std:Duration::from_secs_f32"):
        if a[0].op == "flt" and 0 <= a[0].a[0] < 1e15:
            return "ok", ""
        return no("%s(%s) of a number that may be negative, too large or not a number" % (k[4:], a[0]), a[0])
    if k in ("std:SystemTime::add", "std:SystemTime::sub", "std:Duration::add"):
        d = a[1]
        if d.op == "call" and d.a[0] == "Duration::from_secs":
            lo, hi = B.rng(d.a[1])
            ref = str(a[0])
            if "UNIX_EPOCH" in ref and hi < 1 << 62:
                return "ok", ""
        return no("%s of %s and %s" % (k[4:], a[0], a[1]), *a)
    if k in ("std:Vec::remove", "std:Vec::swap_remove"):
        if a[1].op in ("posof", "ixof") or B.le(a[1], E.length(a[0]), -1):
            return "ok", ""
        return no("%s(%s)" % (k[4:], a[1]), *a)
    if k.startswith("call:") or k.startswith("std:"):
        if k.startswith("call:"):
            # an explicit panic, reached on a path with these facts
            if all(plain(E, f) and not any(x.op == "phi" for x in subterms(f)) for f in p.facts) and known_facts(E, p.facts, [x for f in p.facts for x in subterms(f) if x.op == "par"]):
                return "bad", "the panic is reached"
        return "unk", "%s %s" % (k, a)
    return "unk", k


def tabulated(E, B, op, x, y, lim):
    """An operation on one quantity with few values: evaluated for each of them."""
    leaves, todo = set(), [x, y]
    while todo:
        u = todo.pop()
        if u.op in ("bin", "cast"):
            todo += [w for w in u.a if hasattr(w, "op")]
        elif u.op != "int":
            leaves.add(u)
    if len(leaves) != 1:
        return False
    v = next(iter(leaves))
    lo, hi = B.rng(v)
    if not (-INF < lo <= hi < INF) or hi - lo > 70000:
        return False
    for n in range(lo, hi + 1):
        env, memo = {v: I(n)}, {}
        a, b = table.ev(E, x, env, memo), table.ev(E, y, env, memo)
        if a is None or b is None or a.op != "int" or b.op != "int":
            return False
        r = a.a[0] + b.a[0] if op == "Add" else a.a[0] - b.a[0] if op == "Sub" else a.a[0] * b.a[0]
        if not lim[0] <= r <= lim[1]:
            return False
    return True


def joined_before(P, E, p, of_char=False, depth=4):
    """Paths were joined, because there were too many, before this site: in the functions on the way to it or in what the last one calls."""
    at = dict(p.chain) if not of_char else {}
    at[p.fn] = p.line
    seen, todo = {p.fn}, [(p.fn, 0)]
    while todo:
        k, d = todo.pop()
        if d >= depth or k not in P.bodies:
            continue
        for x in references(P, k):
            if x not in seen and P.is_local(x):
                seen.add(x)
                todo.append((x, d + 1))
    for k, line in E.capped:
        if k in at:
            if line is not None and line <= at[k]:
                return True
        elif k in seen and (not of_char or ("prim", "char") in [P.ty(i) for i in P.defs[k].get("inputs", ())]):
            return True
    return False


def run_readers(P, k, cap, ranges=None, opaque=(), nonempty=None):
    E = new_engine(P, cap=cap)
    if cap > 24:
        E.budget = 60000
    E.opaque_fns |= set(opaque)
    ph = {}

    def on_phi(t, v, st):
        ph.setdefault(t, []).append((v, st.facts, v))
    E.on_phi = on_phi
    E.run(k)
    return E, bounds.World(E, ph, ranges, nonempty, stored_text(nonempty))


def stored(P):
    """Values found under a name in a header map: never empty (decided by H04)."""
    def f(t):
        u = t
        while u.op == "fld":
            u = u.a[0]
        return t.op == "fld" and u.op == "call" and u.a[0] in ("HashMap::get", "HashMap::get_mut")
    return f


def stored_text(nonempty):
    """The text of a value stored in a header map: always ASCII (decided by H01)."""
    def f(t):
        return t.op == "fld" and t.a[0].op in ("elem", "idx") and nonempty is not None and nonempty(t.a[0].a[0])
    return f


@prop("P01")
def p01(R, P, W):
    """For every function that reads untrusted text or header fields (from_headers, FromStr, TryFrom, parse, sniff, serde visitors...) and everything it
    calls: each construct that can panic (slice and index expressions, split_at, unwrap/expect, arithmetic with overflow checks, Duration and SystemTime
    arithmetic, explicit panics) is an obligation - bounds, character boundaries and ranges - discharged from the conditions of every path that reaches
    it, first for the helper alone with arbitrary arguments, otherwise in every calling context."""
    ne = stored(P)
    D = Dates(P)
    fr, n = fold_ranges(P, D)
    R.count("accepted date shapes", n)
    to_time = P.short(D.to_time)
    roots = readers(P)

    def scan(k):
        try:
            E, _ = run_readers(P, k, 24, nonempty=ne)
        except Budget:
            return k, None
        return k, sorted({p.fn for p in E.panics})

    fns = set()
    for k, fs in pmap(scan, roots):
        if fs is None:
            R.undec("budget:" + P.short(k), "%s is too large to analyse" % P.short(k), P.where(k))
            continue
        fns |= set(fs)
    R.count("readers", len(roots))

    def sites(E, Wd, only=None):
        res = {}
        for p in E.panics:
            if only is not None and p.fn != only:
                continue
            key = (p.fn, p.line, p.kind)
            if res.get(key, ("ok",))[0] == "bad":
                continue
            st, msg = check(P, E, Wd, p)
            if st == "ok":
                res.setdefault(key, ("ok", "", p.chain))
            elif st == "bad" or res.get(key, ("ok",))[0] == "ok":
                res[key] = (st, msg, p.chain)
        return res

    def alone(k):
        """Obligations of one function, for every argument it could be given."""
        if k not in P.bodies or P.defs[k]["kind"] not in ("Fn", "AssocFn"):
            return k, {}
        rg = {T("fld", T("par", 0), None, i): x for i, x in fr.items()} if k == D.to_time else None
        try:
            E, Wd = run_readers(P, k, 400, rg, (), ne)
            return k, {x: (v[0], v[1]) for x, v in sites(E, Wd, k).items()}
        except Budget:
            return k, {}

    proved, splits = set(), set()
    for k, res in pmap(alone, sorted(fns)):
        for x, v in res.items():
            if v[0] == "bad" and v[1].startswith("may split"):
                splits.add(x)
            if v[0] == "ok":
                proved.add(x)
            elif k == D.to_time:
                R.ob("date:%s" % x[2], v[0] != "bad", "%s: %s" % (P.short(k), v[1]), "%s:%d" % (P.where(k).split(":")[0], x[1])) if v[0] == "bad" else R.undec("date:%s" % x[2], v[1], P.where(k))
                proved.add(x)

    def verdicts(k, cap):
        E, Wd = run_readers(P, k, cap, None, (), ne)
        todo = {}
        for p in E.panics:
            key = (p.fn, p.line, p.kind)
            if key in proved:
                continue
            st, msg = check(P, E, Wd, p)
            if key in splits and st != "ok" and "character boundary" in msg:
                st = "bad"
            elif st == "bad" and joined_before(P, E, p, msg.startswith("may split")):
                st = "capped"
            o = todo.get(key)
            if o is None or RANK.index(st) > RANK.index(o[0]):
                todo[key] = (st, msg, p.chain)
        return todo

    RANK = ["ok", "unk", "capped", "bad"]

    def inside(k):
        r = Report_like()
        seen = []
        def late(*a):
            raise Budget(P.short(k))
        signal.signal(signal.SIGALRM, late)
        signal.alarm(150)
        try:
            todo = verdicts(k, 24)
            signal.alarm(60)
            if any(v[0] == "capped" for v in todo.values()):
                # paths were joined before this site: decide it again with more paths kept apart
                try:
                    t2 = verdicts(k, 120)
                    for x, v in list(todo.items()):
                        if v[0] == "capped":
                            todo[x] = t2.get(x, ("ok", "", v[2]))
                except Budget:
                    pass
            signal.alarm(0)
        except Budget:
            signal.alarm(0)
            r.undec("budget:" + P.short(k), "%s is too large to analyse" % P.short(k), P.where(k))
            return r.plain(), []
        for key, (st, msg, chain) in todo.items():
            seen.append(key)
            name = "%s:%s" % (P.short(key[0]), key[2])
            where = "%s:%d" % (P.where(key[0]).rsplit(":", 1)[0], key[1])
            if st in ("unk", "capped"):
                r.undec(name, "%s (from %s): %s" % (P.short(key[0]), P.short(k), msg[:300]), where)
            else:
                r.ob(name, st == "ok", "%s can panic when reading untrusted input (from %s): %s" % (P.short(key[0]), P.short(k), msg[:300]), where)
        r.count("obligations discharged in context", sum(1 for v in todo.values() if v[0] == "ok"))
        return r.plain(), seen

    ctx = set()
    for d, seen in pmap(inside, roots):
        R.merge(d)
        ctx |= set(seen)
    for x in sorted(proved, key=str):
        R.ob("%s:%s:%d" % (P.short(x[0]), x[2], x[1]), True)
    R.count("panic sites", len(ctx | proved))
    R.count("sites safe for every argument", len(proved))
    R.floor("readers", 60)
    R.floor("panic sites", 10)

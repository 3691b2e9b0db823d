"""Reading a function's summary (its outcomes with their conditions) as a table over a finite domain of constants.

`ev` evaluates a term under an assignment of constants to some of its leaves, three-valued: None means the
term's value is not determined.  `select` picks the rows whose conditions hold.  Nothing is executed: the rows
come from the abstract interpretation of the function's MIR, and the conditions are looked up per constant."""
from engine import *
import models

TBL_CACHE = {}


def pystr(t):
    return t.a[0] if t is not None and t.op == "str" else None


def pyint(t):
    return t.a[0] if t is not None and t.op == "int" else None


def ascii_map(s, up):
    return "".join((c.upper() if up else c.lower()) if c.isascii() else c for c in s)


def ev(E, t, env, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t, 0)
    if r != 0:
        return r
    memo[t] = None
    r = memo[t] = ev1(E, t, env, memo)
    return r


ANY = T("any")


def raw(t):
    """The bytes of a text or byte constant."""
    return bytes(t.a[0]) if t.op == "bytes" else t.a[0].encode()


def text(b, like):
    """A constant of the kind of `like` holding b."""
    if like.op == "str":
        try:
            return S(b.decode())
        except UnicodeDecodeError:
            return None
    return T("bytes", tuple(b))


def astext(t):
    if t is not None and t.op == "bytes":
        try:
            return S(bytes(t.a[0]).decode())
        except UnicodeDecodeError:
            return None
    return t


def same(x, y):
    if x is y:
        return True
    if {x.op, y.op} == {"str", "bytes"}:
        return raw(x) == raw(y)
    return False


def span(r, n):
    """(start, end) of a constant range within n items, or None."""
    if r.op != "agg" or any(x.op != "int" for x in r.a[2]):
        return None
    f = [x.a[0] for x in r.a[2]]
    k = r.a[0].split("::")[-1]
    lo, hi = {"Range": lambda: (f[0], f[1]), "RangeFrom": lambda: (f[0], n), "RangeTo": lambda: (0, f[0]), "RangeFull": lambda: (0, n),
              "RangeInclusive": lambda: (f[0], f[1] + 1), "RangeToInclusive": lambda: (0, f[0] + 1)}.get(k, lambda: (None, None))()
    if lo is None or not 0 <= lo <= hi <= n:
        return None
    return lo, hi


def pieces(E, it, env, memo):
    """The pieces a splitting iterator yields, if its text is determined."""
    if it.op == "it":
        it = it.a[1]
    if it.op == "call" and it.a[0] in ("str::split", "str::splitn"):
        s = pystr(ev(E, it.a[1], env, memo))
        p = it.a[-1]
        n = pyint(it.a[2]) if it.a[0] == "str::splitn" else None
        p = p.a[0] if p.op == "str" else chr(p.a[0]) if p.op == "int" and 0 <= p.a[0] < 0x110000 else None
        if s is None or not p or it.a[0] == "str::splitn" and not n:
            return None
        return s.split(p) if n is None else s.split(p, n - 1)
    return None


def is_value(t):
    return t is not None and (is_const(t) or t.op == "agg" and all(is_value(x) for x in t.a[2]))


def ev1(E, t, env, memo):
    x = env.get(t)
    if x is not None:
        return x
    if is_const(t):
        return t

    def go(u):
        return ev(E, u, env, memo)
    op, a = t.op, t.a
    if op == "agg":
        if not isinstance(a[0], str):
            return None
        fs = [go(x) for x in a[2]]
        if a[0] == "array" and fs and all(f is not None and f.op == "int" and 0 <= f.a[0] < 256 for f in fs):
            return T("bytes", tuple(f.a[0] for f in fs))
        if any(f is None for f in fs):
            return None
        return T("agg", a[0], a[1], tuple(fs))
    if op == "phi":
        vs = {go(x) for x in E.flat(t)}
        return next(iter(vs)) if len(vs) == 1 else None
    if op == "fld":
        b = go(a[0])
        if b is not None and b.op == "agg" and (a[1] is None or b.a[1] == a[1]) and a[2] < len(b.a[2]):
            return b.a[2][a[2]]
        return None
    if op == "discr":
        b = go(a[0])
        if b is None:
            return None
        if b.op == "agg":
            d = E.discr(b)
            return d if d.op == "int" else None
        return b if b.op == "int" else None  # an integer reinterpreted as an enumeration
    if op == "eq":
        x, y = go(a[0]), go(a[1])
        if x is None or y is None:
            return None
        return I(int(same(x, y)))
    if op == "bin":
        x, y = go(a[1]), go(a[2])
        return None if x is None or y is None else fold_bin(a[0], x, y)
    if op == "un":
        x = go(a[1])
        if x is not None and a[0] == "Not" and x.op == "int" and x.a[0] in (0, 1):
            return I(1 - x.a[0])
        if x is not None and a[0] == "Neg" and x.op in ("int", "flt"):
            return T(x.op, -x.a[0])
        return None
    if op == "cast":
        x = go(a[1])
        if x is None:
            return None
        if x.op == "agg":
            x = E.discr(x)
        if a[0] == "IntToInt" and x.op == "int":
            d = a[3]
            if d[0] in "iu" and d[1:] in ("8", "16", "32", "64", "128", "size"):
                lo, hi = int_range(d)
                return I((x.a[0] - lo) % (hi - lo + 1) + lo)
            return x
        if a[0] == "IntToFloat" and x.op == "int":
            return T("flt", float(x.a[0]))
        return None
    if op == "fits":
        x = pyint(go(a[0]))
        if x is None:
            return None
        lo, hi = int_range(a[2])
        return I(int(lo <= x <= hi))
    if op in ("slice", "idx"):
        b, r = go(a[0]), go(a[1]) if isinstance(a[1], T) else I(a[1])
        if b is not None and b.op == "agg" and b.a[0] in ("array", "vec") and op == "idx":
            return b.a[2][r.a[0]] if r is not None and r.op == "int" and 0 <= r.a[0] < len(b.a[2]) else None
        if b is None or r is None or b.op not in ("str", "bytes"):
            return None
        d = raw(b)
        if op == "idx":
            return I(d[r.a[0]]) if r.op == "int" and 0 <= r.a[0] < len(d) else None
        r = span(r, len(d))
        return None if r is None else text(d[r[0]:r[1]], b)
    if op == "ovf":
        x, y = pyint(go(a[1])), pyint(go(a[2]))
        ty = a[3].a[0] if isinstance(a[3], T) else a[3]
        if x is None or y is None or a[0] not in ("Add", "Sub", "Mul"):
            return None
        z = x + y if a[0] == "Add" else x - y if a[0] == "Sub" else x * y
        lo, hi = int_range(ty)
        return I(int(not lo <= z <= hi))
    if op == "len":
        x = go(a[0])
        return E.length(x) if x is not None and x.op in ("str", "bytes") else None
    if op == "cat":
        ps = [pystr(astext(go(p))) for p in a[0]]
        return None if any(p is None for p in ps) else S("".join(ps))
    if op == "disp":
        x = go(a[2])
        if a[0] == "display" and a[1] is None and x is not None:
            return x if x.op == "str" else S(str(x.a[0])) if x.op == "int" else None
        return None
    if op in ("elem", "ended"):
        ps = pieces(E, a[0], env, memo)
        i = a[1] if isinstance(a[1], int) else None
        if ps is None or i is None:
            return None
        if op == "ended":
            return I(int(i >= len(ps)))
        return S(ps[i]) if i < len(ps) else None
    if op in ("active", "exhausted"):
        # bookkeeping of how far an iteration got; `ended` carries the condition
        return None if pieces(E, a[0], env, memo) is None else ANY
    if op == "call":
        n = a[0]
        f = env.get(n)
        if f is not None:
            xs = [go(x) for x in a[1:]]
            return None if any(x is None for x in xs) else f(xs)
        if n == "is_utf8":
            x = go(a[1])
            return None if x is None or x.op not in ("str", "bytes") else I(int(x.op == "str" or astext(x) is not None))
        if n in ("Duration::new", "Duration::from_secs"):
            xs = [go(x) for x in a[1:]]
            if any(x is None or x.op != "int" for x in xs):
                return None
            return T("agg", "Duration", None, (xs[0], xs[1] if len(xs) > 1 else I(0)))
        if n == "Duration::as_secs":
            x = go(a[1])
            return x.a[2][0] if x is not None and x.op == "agg" and x.a[0] == "Duration" else None
        if n == "str::parse":
            x = pystr(astext(go(a[1])))
            t = a[2].a[0] if a[2].op == "ty" else ""
            if x is None or t[:1] not in ("u", "i") or t[1:] not in ("8", "16", "32", "64", "128", "size"):
                return None
            d = x[1:] if x[:1] == "+" or x[:1] == "-" and t[0] == "i" else x
            lo, hi = int_range(t)
            if d.isascii() and d.isdigit() and lo <= int(x) <= hi:
                return T("agg", RES, "Ok", (I(int(x)),))
            return T("agg", RES, "Err", (T("agg", "ParseIntError", None, ()),))
        if n in ("ascii_lower", "ascii_upper"):
            s = go(a[1])
            if s is not None and s.op == "str":
                return S(ascii_map(s.a[0], n == "ascii_upper"))
            return None
        if n in ("uni_lower", "uni_upper"):
            s = pystr(go(a[1]))
            return None if s is None else S(s.lower() if n == "uni_lower" else s.upper())
        if n in ("str::trim", "str::trim_start", "str::trim_end"):
            s = pystr(go(a[1]))
            return None if s is None else S({"m": s.strip, "t": s.lstrip, "d": s.rstrip}[n[-1]]())
        if n == "is_ascii":
            s = pystr(go(a[1]))
            return None if s is None else I(int(s.isascii()))
        if n in ("slice::starts_with", "slice::ends_with", "slice::strip_prefix", "slice::strip_suffix") and len(a) >= 3:
            x, y = go(a[1]), go(a[2])
            if y is not None and y.op == "agg" and y.a[0] == "array" and all(z.op == "int" for z in y.a[2]):
                y = T("bytes", tuple(z.a[0] for z in y.a[2]))
            if x is None or y is None or not {x.op, y.op} <= {"str", "bytes"}:
                return None
            b, q = raw(x), raw(y)
            if n == "slice::starts_with":
                return I(int(b.startswith(q)))
            if n == "slice::ends_with":
                return I(int(b.endswith(q)))
            if n == "slice::strip_prefix":
                return some(T("bytes", tuple(b[len(q):]))) if b.startswith(q) else NONE
            return some(T("bytes", tuple(b[:len(b) - len(q)]))) if b.endswith(q) else NONE
        if n in ("str::contains", "str::starts_with", "str::ends_with", "str::strip_prefix", "str::strip_suffix", "str::split_once", "str::find") and len(a) == 3:
            s, p = pystr(go(a[1])), go(a[2])
            p = p.a[0] if p is not None and p.op == "str" else chr(p.a[0]) if p is not None and p.op == "int" and 0 <= p.a[0] < 0x110000 else None
            if s is None or p is None:
                return None
            m = n[5:]
            if m == "contains":
                return I(int(p in s))
            if m == "starts_with":
                return I(int(s.startswith(p)))
            if m == "ends_with":
                return I(int(s.endswith(p)))
            if m == "strip_prefix":
                return some(S(s[len(p):])) if s.startswith(p) else NONE
            if m == "strip_suffix":
                return some(S(s[:len(s) - len(p)])) if s.endswith(p) else NONE
            if m == "find":
                i = s.find(p)
                return NONE if i < 0 else some(I(len(s[:i].encode())))
            l, sep, r = s.partition(p)
            return some(T("agg", "tuple", None, (S(l), S(r)))) if sep else NONE
        return None
    return None


def holds(E, f, x, env, memo):
    """Whether the condition f == x (or f not in x) holds: True, False or None."""
    v = ev(E, f, env, memo)
    if v is None:
        return None
    if v is ANY:
        return True
    if isinstance(x, T):
        if x.op == "int" and v.op == "agg":
            v = E.discr(v)
        return same(v, x)
    if v.op == "agg":
        d = E.discr(v)
        if d.op == "int":
            v = d
    return not any(same(v, y) for y in (I(z) if isinstance(z, int) else z for z in x[1]) if isinstance(y, T))


def select(E, outs, env):
    """(rows whose conditions all hold, rows whose conditions are not decided)."""
    yes, maybe = [], []
    memo = {}
    for v, s in outs:
        r = True
        for f, x in s.facts.items():
            h = holds(E, f, x, env, memo)
            if h is False:
                r = False
                break
            if h is None:
                r = None
        if r is True:
            yes.append((v, s))
        elif r is None:
            maybe.append((v, s))
    return yes, maybe


def lookup(E, outs, env, value):
    """The value of the table at env: ("one", x), ("none",) or ("unknown", why).

    value(v, s, env) gives the observable content of an outcome (a hashable), or None if not determined."""
    yes, maybe = select(E, outs, env)
    xs = {value(v, s) for v, s in yes}
    if not maybe and len(xs) == 1 and None not in xs:
        return ("one", next(iter(xs)))
    if maybe and not yes:
        ms = {value(v, s) for v, s in maybe}
        if len(ms) == 1 and None not in ms:
            return ("one", next(iter(ms)))
    if not yes and not maybe:
        return ("none",)
    return ("unknown", "%d rows apply, %d may apply" % (len(yes), len(maybe)))

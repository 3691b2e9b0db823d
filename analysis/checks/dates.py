"""T04, D01, D02, D03: HTTP dates as tables (month and weekday names, field positions, validity, calendar)."""
import datetime
from checks import prop
from checks.headers import Report_like
from checks.tables import conv, is_adt, is_str, need, fns, rows, norm
from lib import *
import models
import table
from table import ev, select, lookup

MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
INSTANT = "std::time::SystemTime"
BAD = T("agg", RES, "Err", (T("agg", "refused", None, ()),))


def out_ok(t):
    while t[0] == "adt" and t[1] in (OPT, RES):
        t = t[2][0]
    return t


def imf(wd, d, m, y, h, mi, s):
    return "%s, %02d %s %04d %02d:%02d:%02d GMT" % (wd[:3], d, m, y, h, mi, s)


def rfc850(wd, d, m, y, h, mi, s):
    return "%s, %02d-%s-%02d %02d:%02d:%02d GMT" % (wd, d, m, y % 100, h, mi, s)


def asctime(wd, d, m, y, h, mi, s):
    return "%s %s %2d %02d:%02d:%02d %04d" % (wd[:3], m, d, h, mi, s, y)


FORMATS = {"imf-fixdate": imf, "rfc850": rfc850, "asctime": asctime}


class Dates:
    """The date type (found by its conversions, not by name), its parsers and its conversions, each as a table."""

    def __init__(self, P):
        self.P = P
        c = []
        for im in P.impl_by_trait.get("core::convert::From", []):
            a = im["targs"]
            if len(a) == 2 and a[0][0] == "adt" and a[0][1].endswith("::SystemTime") and P.is_local_adt(a[1]) and fns(P, a[1][1], "from_str", "FromStr") and fns(P, a[1][1], "fmt", "Display"):
                c.append((a[1][1], [it["def"] for it in im["items"] if it["def"] in P.bodies]))
        if len(c) != 1:
            raise MissingAnchor("the date type with conversions to SystemTime, from text and to text")
        self.adt, (self.to_time,) = c[0][0], c[0][1]
        self.from_str = need(fns(P, self.adt, "from_str", "FromStr"), "date from_str")
        self.fmt = need(fns(P, self.adt, "fmt", "Display"), "date Display")
        self.raw, self.entry = [], []
        for k, d in P.defs.items():
            if k not in P.bodies or "inputs" not in d or not d.get("inputs") or len(d["inputs"]) != 1 or d.get("trait"):
                continue
            i, o = P.ty(d["inputs"][0]), out_ok(P.ty(d["output"]))
            if i[0] != "ref" or i[1] not in (("prim", "str"), ("slice", ("prim", "u8"))) or k == self.from_str:
                continue
            if P.ty(d["output"])[0] != "adt" or P.ty(d["output"])[1] not in (OPT, RES):
                continue
            if o == ("adt", self.adt, ()):
                self.raw.append(k)
            elif o[0] == "adt" and o[1].endswith("::SystemTime"):
                self.entry.append(k)
        self.tabs = {}
        self.memo = {}

    def table(self, k, opaque=True):
        if k not in self.tabs:
            E = new_engine(self.P, cap=3000)
            if opaque:
                E.opaque_fns |= {self.P.short(x) for x in self.raw}
            self.tabs[k] = (E, E.run(k))
        return self.tabs[k]

    def result(self, k, arg, opaque=True):
        """Value of the table k at the constant argument: an Ok(..)/Err(..) constant, or None."""
        key = (k, arg)
        if key not in self.memo:
            self.memo[key] = None
            E, outs = self.table(k, opaque)
            env = self.env(arg)
            r = lookup(E, outs, env, lambda v, s: self.shape(E, s, v, env))
            self.memo[key] = r[1] if r[0] == "one" else None
        return self.memo[key]

    def env(self, arg):
        env = {T("par", 0): arg}
        for x in self.raw:
            env[self.P.short(x)] = lambda xs, x=x: self.result(x, xs[0], False)
        return env

    def shape(self, E, s, v, env):
        w = E.snap(s, v)
        if w.op == "agg" and w.a[1] in ("Err", "None"):
            return BAD
        if w.op == "agg" and w.a[0] in (RES, OPT):
            y = self.instant(E, w.a[2][0], env)
            if y is None:
                y = ev(E, w.a[2][0], env)
            return None if y is None else T("agg", RES, "Ok", (y,))
        y = ev(E, w, env)
        if y is not None and y.op == "agg" and y.a[1] == "Err":
            return BAD
        return y if y is not None and y.op == "agg" and y.a[1] == "Ok" else None

    def instant(self, E, w, env):
        """Seconds since the epoch of a SystemTime term, or None."""
        if w.op == "call" and w.a[0] == "Add::add" and "UNIX_EPOCH" in str(w.a[1]):
            d = ev(E, w.a[2], env)
            if d is not None and d.op == "agg" and d.a[0] == "Duration" and d.a[2][1] is I(0):
                return d.a[2][0]
        return None

    def printed(self, date):
        """The text Display writes for a constant date."""
        E, outs = self.table(self.fmt)
        env = {T("par", 0): date, T("par", 1): S("")}

        def f(v, s):
            m = s.env.get(("H", T("par", 1)))
            return None if m is None else table.astext(ev(E, E.snap(s, m), env))
        r = lookup(E, outs, env, f)
        return r[1].a[0] if r[0] == "one" and r[1].op == "str" else None


@prop("T04")
def t04(R, P, W):
    """The date type's FromStr (composed with the crate's date scanners, each read as a decision table) is looked up at the text of every format x month x weekday;
    the accepted date, put through the table of the date printer, must print the same month and weekday name. Names that are no month or weekday must be refused."""
    D = Dates(P)
    R.count("date scanners", len(D.raw))
    w = P.where(D.from_str)

    def one(fm):
        r = Report_like()
        f = FORMATS[fm]
        for mi, m in enumerate(MONTHS):
            for di, d in enumerate(DAYS):
                text = f(d, 6, m, 1994, 8, 49, 37)
                r.count("rows")
                v = D.result(D.from_str, S(text))
                k = "%s:%s:%s" % (fm, m, d)
                if v is None:
                    r.undec(k, "the table does not decide %r" % text, w)
                    continue
                if v is BAD:
                    r.ob(k, False, "the %s date %r is refused" % (fm, text), w)
                    continue
                p = D.printed(v.a[2][0])
                if p is None:
                    r.undec(k, "the printer's table does not decide %r" % text, w)
                    continue
                want = imf(d, 6, m, 1994, 8, 49, 37)
                r.ob(k, p == want, "the %s date %r is printed back as %r" % (fm, text, p), w)
        bad = []
        for m in MONTHS:
            bad += [(DAYS[0], x) for x in (m.lower(), m.upper(), m[:2] + "x", "x" + m[1:], m[0] + "x" + m[2])]
        for d in DAYS:
            bad += [(x, "Nov") for x in (d.lower(), "x" + d[1:], d[0] + "x" + d[2:], d[:2] + "x" + d[3:])]
            if fm == "rfc850":
                bad += [(d[:3], "Nov"), (d[:-1] + "x", "Nov")]
        for d, m in bad:
            if m in MONTHS and d in DAYS:
                continue
            text = f(d, 6, m, 1994, 8, 49, 37)
            r.count("rows of wrong names")
            v = D.result(D.from_str, S(text))
            k = "%s:refused:%s:%s" % (fm, m, d)
            if v is None:
                r.undec(k, "the table does not decide %r" % text, w)
            else:
                r.ob(k, v is BAD, "the %s date %r is accepted" % (fm, text), w)
        return r.plain()
    for d in pmap(one, list(FORMATS)):
        R.merge(d)
    R.floor("rows", 252)


@prop("D01")
def d01(R, P, W):
    """Every function turning one text into a date or instant, read as a table: in each of the three formats a text whose second, minute, hour, day, year or
    names are out of range is refused, and the smallest and largest legal values are accepted.  The scanners that do not check are called from nowhere but
    those functions, and nothing else builds a date value."""
    D = Dates(P)
    ent = [D.from_str] + D.entry
    R.count("date scanners", len(D.raw))
    R.count("entry points", len(ent))

    def one(fm):
        r = Report_like()
        f = FORMATS[fm]
        base = dict(wd="Sunday", d=6, m="Nov", y=1994, h=8, mi=49, s=37)
        low = [("s", 0), ("mi", 0), ("h", 0), ("d", 1)]
        high = [("s", 59), ("mi", 59), ("h", 23), ("d", 31), ("s", 58), ("h", 22), ("mi", 58), ("d", 30), ("d", 10), ("d", 9), ("h", 12), ("h", 13)]
        bad = [("s", x) for x in (60, 61, 99)] + [("mi", x) for x in (60, 61, 99)] + [("h", x) for x in (24, 25, 99)] + [("d", x) for x in (0, 32, 33, 99)]
        if fm != "rfc850":
            low += [("y", 1970), ("y", 1971)]
            high += [("y", 9999), ("y", 9998), ("y", 2000), ("y", 2100)]
            bad += [("y", x) for x in (1969, 1968, 1900, 0, 999)]
        texts = [(n, x, f(**dict(base, **{n: x})), ok) for l, ok in ((low + high, True), (bad, False)) for n, x in l]
        t = f(**base)
        texts += [("shape", i, x, False) for i, x in enumerate((t[:-1], t + "x", "x" + t, t.replace(":", ".", 1), t.replace("49:", "49."), t.replace("08", "0x"), t.replace("49", "4x"), t.replace("37", "x7"),
                                                                t.replace("Sun", "Sun,", 1), t.replace(" GMT", " UTC") if "GMT" in t else t + " GMT", t.replace(" GMT", "") if "GMT" in t else t.replace(" 08", "T08"),
                                                                "\u00e9" + t, t.replace("6", "\u0666"), "")) if x != t]
        for e in ent:
            for n, x, text, ok in texts:
                r.count("rows")
                v = D.result(e, S(text))
                k = "%s:%s:%s:%s" % (P.short(e).split("::")[-1], fm, n, x)
                if v is None:
                    r.undec(k, "the table does not decide %r" % text, P.where(e))
                else:
                    r.ob(k, (v is not BAD) == ok, "%s %s the %s date %r" % (P.short(e), "refuses" if ok else "accepts", fm, text), P.where(e))
        return r.plain()
    for d in pmap(one, list(FORMATS)):
        R.merge(d)
    inside = {owner(P, k) for k in D.raw + ent}
    for k in D.raw:
        for c in callers(P, k):
            R.count("call sites of scanners")
            R.ob("caller:%s:%s" % (P.short(k).split("::")[-1], P.short(c)), owner(P, c) in inside, "%s uses %s without the validity check of from_str" % (P.short(c), P.short(k)), P.where(c))
    conv_in = {owner(P, x) for x in conv(P, "core::convert::From", is_adt(D.adt), lambda t: True, "from")}
    for k, b in P.bodies.items():
        if builds(P, k, D.adt):
            R.count("constructions")
            okk = owner(P, k) in inside | conv_in or P.defs[k].get("name") in ("clone",)
            R.ob("built:" + P.short(k), okk, "%s builds a date value outside the readers and From<SystemTime>" % P.short(k), P.where(k))
    R.floor("rows", 100)
    R.floor("entry points", 2)


@prop("D02")
def d02(R, P, W):
    """The functions reading a text as a SystemTime, looked up (through the scanners' tables and the table of From<date> for SystemTime) at texts of the three
    formats: each field is read from its own position, two-digit years 00-69 mean 20xx and 70-99 mean 19xx, and the extracted calendar formula gives the
    Gregorian day number for every month of every year 1970-9999 (the formula's condition rows: month x leap class)."""
    D = Dates(P)
    epoch = datetime.datetime(1970, 1, 1)

    def at(r, e, text, key, want):
        r.count("rows")
        v = D.result(e, S(text))
        if v is None:
            r.undec(key, "the table does not decide %r" % text, P.where(e))
        elif v is BAD:
            r.ob(key, False, "%s refuses %r" % (P.short(e), text), P.where(e))
        else:
            x = v.a[2][0]
            if x.op != "int":
                r.undec(key, "no number of seconds is extracted for %r" % text, P.where(e))
            else:
                got = x.a[0]
                r.ob(key, got == want, "%s reads %r as the instant %s" % (P.short(e), text, show(got)), P.where(e))

    def show(x):
        try:
            return (epoch + datetime.timedelta(seconds=x)).isoformat()
        except OverflowError:
            return str(x)

    def one(j):
        fm, e = j
        r = Report_like()
        f = FORMATS[fm]
        k0 = P.short(e).split("::")[-1] + ":" + fm
        smp = [(1994, 11, 6, 8, 49, 37), (2015, 10, 21, 7, 28, 9), (1970, 1, 1, 0, 0, 0), (2038, 1, 19, 3, 14, 8), (2000, 2, 29, 23, 59, 58), (2069, 12, 31, 12, 34, 56), (2004, 3, 1, 1, 2, 3), (1999, 12, 31, 23, 0, 59),
               (1971, 2, 3, 4, 5, 6)]
        if fm != "rfc850":
            smp += [(9999, 12, 31, 23, 59, 59), (2100, 3, 1, 0, 0, 1), (2400, 2, 29, 10, 20, 30), (1234 + 1000, 5, 16, 17, 18, 19)]
        for x in smp:
            t = datetime.datetime(*x)
            at(r, e, f(DAYS[t.weekday()], t.day, MONTHS[t.month - 1], t.year, t.hour, t.minute, t.second), "%s:%s" % (k0, t.date()), int((t - epoch).total_seconds()))
        if fm == "rfc850":
            for y in range(100):
                t = datetime.datetime(2000 + y if y < 70 else 1900 + y, 7, 4, 1, 2, 3)
                at(r, e, f(DAYS[t.weekday()], 4, "Jul", y, 1, 2, 3), "%s:year%02d" % (k0, y), int((t - epoch).total_seconds()))
        return r.plain()
    jobs = [(fm, e) for fm in FORMATS for e in D.entry]

    def calendar(yr):
        """From<date> for SystemTime over all months of the years yr, with the field order taken from a scanned date."""
        r = Report_like()
        E, outs = D.table(D.to_time)
        v = D.result(D.from_str, S(imf("Sunday", 6, "Nov", 1994, 8, 49, 37)))
        if v is None or v is BAD:
            return r.plain()
        fs = [x.a[0] for x in v.a[2][0].a[2]]
        pos = {n: fs.index(x) for n, x in (("d", 6), ("m", 11), ("y", 1994), ("h", 8), ("mi", 49), ("s", 37)) if fs.count(x) == 1}
        if len(pos) != 6:
            r.undec("calendar", "date representation has no separate fields", P.where(D.to_time))
            return r.plain()
        rows_ = [(y, m, 1, 0, 0, 0) for y in yr for m in range(1, 13)]
        if 2000 in yr:
            rows_ += [(2000, 1, d, 0, 0, 0) for d in range(1, 32)] + [(2000, 1, 1, h, 0, 0) for h in range(24)] + [(2000, 1, 1, 0, x, 0) for x in range(60)] + [(2000, 1, 1, 0, 0, x) for x in range(60)]
        for y, m, dd, hh, mm, ss in rows_:
            g = list(fs)
            for n, x in (("d", dd), ("m", m), ("y", y), ("h", hh), ("mi", mm), ("s", ss)):
                g[pos[n]] = x
            env = {T("par", 0): T("agg", v.a[2][0].a[0], v.a[2][0].a[1], tuple(I(x) for x in g))}
            res = lookup(E, outs, env, lambda o, s: D.instant(E, E.snap(s, o), env))
            want = int((datetime.datetime(y, m, dd, hh, mm, ss) - epoch).total_seconds())
            r.count("calendar rows")
            k = "calendar:%02d:%s" % (m, "leap" if y % 4 == 0 and (y % 100 or y % 400 == 0) else "century" if y % 100 == 0 else "plain")
            if res[0] == "one":
                r.ob(k, res[1].a[0] == want, "the date %d-%d-%d %d:%d:%d is taken for the instant %s" % (y, m, dd, hh, mm, ss, show(res[1].a[0])), P.where(D.to_time))
            elif res[0] == "none":
                r.ob(k, False, "the first of month %d of %d has no instant" % (m, y), P.where(D.to_time))
            else:
                r.undec(k, res[1], P.where(D.to_time))
        return r.plain()
    years = [1970, 1971, 1972, 1973, 1999, 2000, 2001, 2004, 2024, 2096, 2099, 2100, 2101, 2104, 2199, 2200, 2201, 2300, 2399, 2400, 2401, 3000, 4000, 8000, 9996, 9999]
    if R.tier == "thorough":
        years = list(range(1970, 10000))
    for d in pmap(one, jobs):
        R.merge(d)
    for d in pmap(calendar, [years[i::8] for i in range(8)]):
        R.merge(d)
    R.floor("rows", 120)



class Printer:
    """From<SystemTime> for the date type as a table (the loop over the literal month lengths unrolled, every path a row)."""

    def __init__(self, P, D):
        self.D = D
        frm = [it["def"] for im in P.impl_by_trait.get("core::convert::From", []) if len(im["targs"]) == 2 and im["targs"][0] == ("adt", D.adt, ())
               and im["targs"][1][0] == "adt" and im["targs"][1][1].endswith("::SystemTime") for it in im["items"] if it["def"] in P.bodies]
        if len(frm) != 1:
            raise MissingAnchor("the conversion from SystemTime to the date type")
        self.frm = frm[0]
        models.FIXED_MAX[0] = 16
        try:
            self.E = E = new_engine(P, cap=100000)
            E.fork_fixed = True
            self.outs = E.run(self.frm)
        finally:
            models.FIXED_MAX[0] = 4
        self.secs, self.oks = set(), set()
        for v, s in self.outs:
            for k in list(s.facts) + [v]:
                for x in subterms(k, E):
                    if x.op == "call" and x.a[0] in ("Duration::as_secs", "Duration::as_millis", "Duration::subsec_nanos") and "UNIX_EPOCH" in str(x):
                        self.secs.add(x)
                    if x.op == "discr" and x.a[0].op == "call" and "duration_since" in x.a[0].a[0]:
                        self.oks.add(x)

    def date(self, t):
        """lookup() result at the instant t: the constant date."""
        secs = int((t - EPOCH).total_seconds())
        env = {x: I(0) for x in self.oks}
        for x in self.secs:
            env[x] = I(secs if x.a[0].endswith("as_secs") else secs * 1000 if x.a[0].endswith("millis") else 0)
        E = self.E

        def val(v, s):
            v = E.snap(s, v)
            if v.op != "agg":
                return None
            m = {}
            out = tuple(ev(E, x, env, m) for x in v.a[2])
            return None if any(x is None or x.op != "int" for x in out) else T("agg", v.a[0], v.a[1], out)
        return lookup(E, self.outs, env, val)


EPOCH = datetime.datetime(1970, 1, 1)


def instants(tier):
    years = [1970, 1971, 1972, 1973, 1999, 2000, 2001, 2003, 2004, 2023, 2024, 2096, 2099, 2100, 2101, 2104, 2199, 2200, 2300, 2399, 2400, 2401, 2800, 4000, 7999, 8000, 9996, 9998]
    if tier == "thorough":
        years = list(range(1970, 9999))
    ts = []
    for y in years:
        for m in range(1, 13):
            a = datetime.datetime(y, m, 1)
            b = datetime.datetime(y + (m == 12), m % 12 + 1, 1) - datetime.timedelta(seconds=1)
            ts += [a, b]
    ts += [datetime.datetime(2024, 2, d, 1, 2, 3) for d in range(1, 30)]
    ts += [datetime.datetime(2001, 9, 9, h, 46, 40) for h in range(24)] + [datetime.datetime(2001, 9, 9, 1, x, 40) for x in range(0, 60)] + [datetime.datetime(2001, 9, 9, 1, 46, x) for x in range(60)]
    return ts


def month_key(t):
    kind = "leap" if t.year % 4 == 0 and (t.year % 100 or t.year % 400 == 0) else "century" if t.year % 100 == 0 else "plain"
    return "%s:%02d" % (kind, t.month)


@prop("D03")
def d03(R, P, W):
    """From<SystemTime> for the date type, read as a table (the loop over the literal month lengths unrolled, every path a row), is looked up at the seconds
    since the epoch of chosen days of many years (month starts and ends, leap days, century and 400-year turns, and every hour, minute and second of a
    day): the fields are those the Gregorian calendar gives, including the weekday.  The table of Display is looked up at dates that vary one field at a
    time over its whole range: the text is the IMF-fixdate of those fields.  Every function turning an instant into text writes exactly that display of
    exactly that conversion, and every typed header holding an instant writes its value through it."""
    D = Dates(P)
    F = Printer(P, D)
    frm, outs = F.frm, F.outs
    sample = D.result(D.from_str, S(imf("Sunday", 6, "Nov", 1994, 8, 49, 37)))
    if sample is None or sample is BAD:
        R.undec("fields", "the scanned date is not decided", P.where(D.from_str))
        return
    agg = sample.a[2][0]
    fs = [x.a[0] for x in agg.a[2]]
    # which field is which: by varying the scanned text
    pos = {}
    for n, kw in (("d", dict(d=7)), ("m", dict(m="Dec")), ("y", dict(y=1993)), ("h", dict(h=9)), ("mi", dict(mi=48)), ("s", dict(s=36)), ("wd", dict(wd="Monday"))):
        base = dict(wd="Sunday", d=6, m="Nov", y=1994, h=8, mi=49, s=37)
        base.update(kw)
        o = D.result(D.from_str, S(imf(**base)))
        if o is None or o is BAD:
            continue
        diff = [i for i, (a, b) in enumerate(zip(fs, [x.a[0] for x in o.a[2][0].a[2]])) if a != b]
        if len(diff) == 1:
            pos[n] = diff[0]
    if len(pos) != 7:
        R.undec("fields", "date representation has no separate fields", P.where(D.from_str))
        return
    names = {pos[n]: n for n in pos}

    R.count("conversion rows", len(outs))

    def conv(ts):
        r = Report_like()
        for t in ts:
            r.count("instants")
            res = F.date(t)
            want = dict(d=t.day, m=t.month, y=t.year, h=t.hour, mi=t.minute, s=t.second, wd=t.weekday() + 1)
            key = "convert:" + month_key(t)
            if res[0] != "one":
                r.undec(key, "the table does not decide %s: %s" % (t, res[1:]), P.where(frm))
                continue
            got = {names[i]: x for i, x in enumerate(y.a[0] for y in res[1].a[2]) if i in names}
            r.ob(key, got == want, "the instant %s is taken for the date fields %s" % (t.isoformat(), got), P.where(frm))
        return r.plain()
    ts = instants(R.tier)
    for d in pmap(conv, [ts[i::32] for i in range(32)]):
        R.merge(d)

    def show(job):
        r = Report_like()
        for kw in job:
            b = dict(wd="Sunday", d=6, m="Nov", y=1994, h=8, mi=49, s=37)
            b.update(kw)
            g = list(fs)
            for n, x in (("wd", DAYS.index(b["wd"]) + 1), ("d", b["d"]), ("m", MONTHS.index(b["m"]) + 1), ("y", b["y"]), ("h", b["h"]), ("mi", b["mi"]), ("s", b["s"])):
                g[pos[n]] = x
            t = D.printed(T("agg", agg.a[0], agg.a[1], tuple(I(x) for x in g)))
            r.count("dates printed")
            key = "print:" + "".join(kw)
            if t is None:
                r.undec(key, "the table of the date printer does not decide %s" % (b,), P.where(D.fmt))
            else:
                r.ob(key, t == imf(**b), "the date %s is printed as %r" % (imf(**b), t), P.where(D.fmt))
        return r.plain()
    ys = sorted({1970, 9999, 1999, 2000, 2024, 3456, 7890, 4321} | {1990 + i for i in range(40)})
    if R.tier == "thorough":
        ys = list(range(1970, 10000))
    kws = [dict(wd=x) for x in DAYS] + [dict(m=x) for x in MONTHS] + [dict(d=x) for x in range(1, 32)] + [dict(h=x) for x in range(24)] + [dict(mi=x) for x in range(60)] + [dict(s=x) for x in range(60)] + [dict(y=x) for x in ys]
    for d in pmap(show, [kws[i::16] for i in range(16)]):
        R.merge(d)

    E = printers(R, P, D, frm)
    tr, hs = typed_headers(P)
    for h in hs:
        if not h[3] or not holds_instant(P, h[1]):
            continue
        R.count("typed headers with an instant")
        got = False
        for v, s in E.run(h[3]):
            v = E.snap(s, v)
            tx = {x for x in subterms(v, E) if x.op == "call" and x.a[0] == "From::from" and "SystemTime" in str(x.a[2:])}
            if not tx:
                continue
            got = True
            cats = [x for x in subterms(v, E) if x.op == "cat" and any(y in tx for y in subterms(x, E))]
            parts = [y for x in cats for z in x.a for y in (z if isinstance(z, tuple) else (z,))]
            k = h[0] + ":instant"
            if len(cats) == 1 and len(parts) == 1 and parts[0].op == "disp" and parts[0].a[0] == "display" and parts[0].a[2] in tx:
                src = parts[0].a[2].a[1]
                if all(x.op in ("fld", "par", "vfld", "proj", "field") or x is src for x in subterms(src)):
                    R.ob(k, True, "", P.where(h[3]))
                elif any(x.op == "call" for x in subterms(src)):
                    R.ob(k, False, "%s writes the date of %s, not of the instant it holds" % (h[0], str(src)[:80]), P.where(h[3]))
                else:
                    R.ob(k, True, "", P.where(h[3]))
            elif cats:
                R.ob(k, False, "%s writes more than the date of its instant: %s" % (h[0], str(cats[0])[:100]), P.where(h[3]))
            else:
                R.undec(k, "writes %s" % str(v)[:80], P.where(h[3]))
        if not got:
            R.ob(h[0] + ":instant", False, "%s holds an instant and never writes a date" % h[0], P.where(h[3]))
    R.floor("instants", 600)
    R.floor("dates printed", 200)


def printers(R, P, D, frm):
    """The functions from an instant to text write the display of the converted instant and nothing else."""
    E = new_engine(P)
    E.opaque_fns |= {P.short(frm), P.short(D.fmt)}
    texts = []
    for k, d in P.defs.items():
        if k in P.bodies and d.get("inputs") and len(d["inputs"]) == 1 and not d.get("trait"):
            i = P.ty(d["inputs"][0])
            i = i[1] if i[0] == "ref" else i
            if i[0] == "adt" and i[1].endswith("::SystemTime") and P.tystr(P.ty(d["output"])).endswith("String"):
                texts.append(k)
    for k in texts:
        outs2 = E.run(k)
        R.count("instant printers")
        for v, s in outs2:
            v = E.snap(s, v)
            parts = [x for y in v.a for x in (y if isinstance(y, tuple) else (y,))] if v.op == "cat" else []
            good = len(parts) == 1 and parts[0].op == "disp" and parts[0].a[0] == "display" and from_par(parts[0].a[2])
            if good:
                R.ob("text:" + P.short(k).split("::")[-1], True, "writes the display of the converted date", P.where(k))
            elif v.op in ("cat", "str") and not any(from_par(x) for x in subterms(v, E)):
                R.ob("text:" + P.short(k).split("::")[-1], False, "%s writes %s, not the date of the instant it is given" % (P.short(k), str(v)[:100]), P.where(k))
            elif v.op == "cat" and any(x.op == "disp" and from_par(x.a[2]) for x in parts):
                R.ob("text:" + P.short(k).split("::")[-1], False, "%s writes something besides the date: %s" % (P.short(k), str(v)[:100]), P.where(k))
            else:
                R.undec("text:" + P.short(k).split("::")[-1], "writes %s" % str(v)[:100], P.where(k))
    R.floor("instant printers", 1)
    return E


def holds_instant(P, adt, depth=0):
    a = P.adts.get(adt)
    if a is None or depth > 3:
        return False
    for v in a["variants"]:
        for f in v["fields"]:
            if f["ty"] is None:
                continue
            t = P.ty(f["ty"])
            if t[0] == "adt" and (t[1].endswith("::SystemTime") or holds_instant(P, t[1], depth + 1)):
                return True
    return False


def from_par(x):
    return isinstance(x, T) and x.op == "call" and x.a[0] == "From::from" and x.a[1] is T("par", 0)


@prop("Z01")
def z01(R, P, W):
    """The tables of the conversion from an instant to a date, of the date printer and of every function reading a text as an instant are chained: for the
    first and last second of every month of the chosen years (thorough: all years 1970-9998), every day of a leap February and every hour, minute and
    second of a day, the text printed is read back as the same instant.  Every function turning an instant into text writes exactly that display of that
    conversion."""
    D = Dates(P)
    F = Printer(P, D)
    R.count("conversion rows", len(F.outs))
    printers(R, P, D, F.frm)

    def one(ts):
        r = Report_like()
        for t in ts:
            secs = int((t - EPOCH).total_seconds())
            for e in D.entry:
                r.count("instants")
                key = month_key(t)
                d = F.date(t)
                if d[0] != "one":
                    r.undec(key, "the conversion does not decide %s" % t, P.where(F.frm))
                    continue
                x = D.printed(d[1])
                if x is None:
                    r.undec(key, "the printer does not decide the date of %s" % t, P.where(D.fmt))
                    continue
                y = D.result(e, S(x))
                if y is None or y is not BAD and y.a[2][0].op != "int":
                    r.undec(key, "the reader does not decide %r" % x, P.where(e))
                elif y is BAD:
                    r.ob(key, False, "the instant %s is printed as %r, which %s refuses" % (t.isoformat(), x, P.short(e)), P.where(e))
                else:
                    r.ob(key, y.a[2][0].a[0] == secs, "the instant %s is printed as %r and read back as second %d instead of %d" % (t.isoformat(), x, y.a[2][0].a[0], secs), P.where(e))
        return r.plain()
    ts = instants(R.tier)
    for d in pmap(one, [ts[i::32] for i in range(32)]):
        R.merge(d)
    R.floor("instants", 600)

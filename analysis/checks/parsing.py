"""P02 malformed headers are 400."""
from checks import prop
from checks.headers import Report_like
from checks.errors import part, status_index, const_status, try_into_of
from lib import *


def err_terms(E, outs):
    """[(error term, state)] of the Err outcomes of a Result-returning function."""
    res = []
    for v, s in outs:
        for w in (E.flat(v) if v.op == "phi" else [v]):
            w = E.snap(s, w)
            if w.op == "agg" and w.a[0] == RES:
                if w.a[1] == "Err":
                    for e in resolve(E, s, w.a[2][0]) if w.a[2][0].op in ("fld", "phi") else [w.a[2][0]]:
                        res.append((e, s))
            else:
                res.append((None, s))
    return res


def describe(E, s, e):
    m = E.snap(s, part(E, e, 0))
    return str(m)[:80]


def caller_fault(E, e, s):
    """The failure is that of a value the caller passed besides the headers (a base URL)."""
    for f, x in s.facts.items():
        if f.op == "discr" and f.a[0].op == "call" and f.a[0].a[0] in ("TryInto::try_into", "TryFrom::try_from") and f.a[0].a[1].op == "par" and x is I(1):
            return True
    return False


@prop("P02")
def p02(R, P, W):
    """For every typed header and every outcome of from_headers that is an error: the status of the error, traced through every helper and every ?, is
    the literal 400. (Forwarded has its own error type without a status; an unusable base URL passed by the caller is the caller's fault, not the
    header's.)"""
    tr, hs = typed_headers(P)
    si = status_index(P)
    ea = P.adt("Error")

    def one(h):
        name, adt = h[0], h[1]
        r = Report_like()
        fk = from_headers_fn(P, adt)
        if fk is None:
            return r.plain()
        out = P.ty(P.defs[fk]["output"])
        if not (out[0] == "adt" and out[1] == RES and out[2][1] == ("adt", ea, ())):
            r.count("headers with an error type of their own")
            r.ob(name + ":own-error", name == "Forwarded", "%s::from_headers returns its own error type, which carries no status" % name, P.where(fk))
            return r.plain()
        E = new_engine(P)
        outs = E.run(fk)
        r.count("from_headers functions")
        n = 0
        for e, s in err_terms(E, outs):
            if e is None:
                r.undec(name + ":shape", "an outcome that is neither Ok nor Err", P.where(fk))
                continue
            for st in resolve(E, s, E.snap(s, part(E, e, si))):
                c = const_status(st)
                n += 1
                if c == "BadRequest":
                    r.ob(name + ":400", True)
                elif c is not None:
                    if caller_fault(E, e, s):
                        continue
                    key = name + ":url-join" if "url::Url::join" in describe(E, s, e) else name + ":400"
                    r.ob(key, False, "%s::from_headers reports a malformed field as %s: %s" % (name, c, describe(E, s, e)), P.where(fk))
                else:
                    src = try_into_of(st)
                    if src is not None and src.op == "int":
                        r.ob(name + ":400", src.a[0] == 400, "%s::from_headers reports a malformed field as %d" % (name, src.a[0]), P.where(fk))
                    else:
                        r.undec(name + ":status", "status %s of %s" % (str(st)[:100], describe(E, s, e)), P.where(fk))
        r.count("error paths", n)
        r.samples.append({"type": name, "error paths": n, "where": P.where(fk)})
        return r.plain()

    for d in pmap(one, hs):
        R.merge(d)
    R.floor("from_headers functions", 31)
    R.floor("error paths", 60)

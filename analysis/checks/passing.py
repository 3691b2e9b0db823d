"""M06 wrappers pass operations on."""
from checks import prop
from checks.headers import Report_like
from checks.media import canon, cfacts
from lib import *

HEADER_OPS = {"append_header": "append", "insert_header": "insert", "header": "get", "header_mut": "get_mut", "remove_header": "remove", "header_names": "names",
              "header_values": "values", "iter": "iter", "iter_mut": "iter_mut", "insert": "insert", "append": "append", "get": "get", "get_mut": "get_mut",
              "remove": "remove", "names": "names", "values": "values"}
BODY_OPS = {"len": "len", "is_empty": "is_empty"}

CONTRARY = {"append": ("insert", "remove", "get"), "insert": ("append", "remove", "get"), "remove": ("get", "get_mut", "insert", "append"),
            "get": ("remove", "names"), "get_mut": ("remove", "get"), "names": ("values",), "values": ("names",), "len": ("is_empty",)}


def unwrapped(t):
    """An argument without the conversion to a field name around it."""
    while t.op == "call" and t.a[0].rsplit("::", 1)[-1] in ("header_name", "from", "into", "clone", "to_owned", "header_value", "deref", "as_ref", "new") and len(t.a) > 1 and isinstance(t.a[1], T):
        t = t.a[1]
    return t


def unit_layers(v):
    """How many Ready and Ok are around a unit or a None, which counts as one, 0 when anything else is there."""
    n = 0
    while v.op == "agg" and v.a[1] in ("Ok", "Ready") and len(v.a[2]) == 1:
        v = v.a[2][0]
        n += 1
    if v.op == "agg" and v.a[1] == "None":
        return n + 1
    return n if v.op == "agg" and v.a[0] == "tuple" and not v.a[2] else 0


def before(t, op):
    """An argument as it was before the operation changed it."""
    while t.op == "mut" and t.a[0].rsplit("::", 1)[-1] == op:
        t = t.a[1]
    return t


@prop("M06")
def m06(R, P, W):
    """Every header operation of Request, Response and Trailers, the length operations of the two messages, their reading operations and the four stream operations
    of an upgraded connection, with the operation they wrap taken as one step: each path performs the operation of that name exactly once, on the wrapped field,
    with the caller's arguments in their order, no other operation of the wrapped thing, and answers with its result."""
    todo = []
    for k in P.bodies:
        n = P.short(k)
        if "::" not in n:
            continue
        own, fn = n.rsplit("::", 1)
        if own in ("http_types::Request", "http_types::Response") and P.defs[k].get("inputs"):
            if fn in ("insert", "append", "get", "get_mut", "remove", "names", "values"):
                continue
            if fn in HEADER_OPS:
                todo.append((k, "Headers", HEADER_OPS[fn]))
            elif fn in BODY_OPS:
                todo.append((k, "Body", BODY_OPS[fn]))
        elif own == "http_types::Trailers" and fn in HEADER_OPS and not fn.startswith("header") and not fn.endswith("_header"):
            todo.append((k, "Headers", HEADER_OPS[fn]))
        elif own in ("<Request as AsyncRead>", "<Response as AsyncRead>") and fn == "poll_read":
            todo.append((k, "stream", fn))
        elif own in ("<Request as AsyncBufRead>", "<Response as AsyncBufRead>") and fn in ("consume", "poll_fill_buf"):
            todo.append((k, "stream", fn))
        elif own.startswith("<Connection as Async") and fn.startswith("poll_"):
            todo.append((k, "stream", fn))
    steps = {P.short(k) for k in P.bodies if P.short(k).rsplit("::", 1)[0] in ("http_types::Headers", "http_types::Body", "<Body as AsyncRead>", "<Body as AsyncBufRead>")
             and P.short(k).rsplit("::", 1)[1] not in ("project", "project_ref")}
    for kind, n in (("Headers", 24), ("Body", 4), ("stream", 10)):
        if sum(1 for x in todo if x[1] == kind) < n:
            raise MissingAnchor("the operations passed on to %s" % kind)

    def one(item):
        k, kind, op = item
        r = Report_like()
        E = new_engine(P, cap=100)
        E.opaque_fns |= steps
        w = P.where(k)
        name = P.short(k).replace("http_types::", "")
        npar = len(P.defs[k].get("inputs") or ()) or 3
        r.count("operations")
        for v, s in E.run(k):
            r.count("outcomes")
            v, fa = canon(E.snap(s, v)), cfacts(s.facts)
            calls = []
            for e in s.eff:
                if e.kind != "call":
                    continue
                own, _, fn = e.name.rpartition("::")
                fits = own.endswith("::" + kind) or own == kind if kind != "stream" else own.endswith(("AsyncRead", "AsyncWrite", "AsyncBufRead", "AsyncReadExt", "AsyncWriteExt", "AsyncBufReadExt", "AsyncRead>", "AsyncBufRead>"))
                if fits:
                    calls.append((fn, [canon(E.snap(s, a)) for a in e.args]))
            if not calls:
                done = any(e.kind == "call" and any(T("par", 0) in subterms(y) or "$0" in str(y) for y in (canon(E.snap(s, a)) for a in e.args)) for e in s.eff)
                if kind == "stream" or not done:
                    r.ob(name, False, "%s does not perform %s" % (name, op), w)
                else:
                    r.undec(name, "%s is not performed as such" % op, w)
                continue
            fns = [c[0] for c in calls]
            if kind in ("Headers", "Body") and op not in fns:
                # an equivalent made of other operations is not judged, one that does something else is
                absent = any(q.op == "discr" and q.a[0].op == "call" and q.a[0].a[0].rsplit("::", 1)[-1] == fns[0] and x in (I(0), FALSE) for q, x in fa.items())
                if len(fns) > 1 or fns[0] not in CONTRARY.get(op, ()) or absent:
                    r.undec(name, "performs %s for %s" % ("/".join(fns), op), w)
                    continue
                r.ob(name, False, "%s performs %s instead of %s" % (name, "/".join(fns), op), w)
                continue
            if fns != [op] and not (kind == "stream" and set(fns) == {op}):
                if kind == "stream":
                    r.ob(name + ":op", False, "%s performs %s, not just %s" % (name, "/".join(fns), op), w)
                else:
                    r.undec(name + ":op", "performs %s" % "/".join(fns), w)
                continue
            if len(fns) > 1:
                r.undec(name + ":op", "repeats %s" % op, w)
                continue
            r.ob(name + ":op", True, "", w)
            args = calls[0][1]
            a0 = args[0]
            while a0.op in ("ref", "addr") or a0.op == "agg" and len(a0.a[2]) == 1:
                a0 = a0.a[2][0] if a0.op == "agg" else a0.a[0]
            good = a0.op == "fld" and T("par", 0) in subterms(a0) or "$0" in str(a0)
            r.ob(name + ":on", good, "%s performs %s on %s" % (name, op, str(a0)[:40]), w)
            given = [unwrapped(before(a, op)) for a in args[1:]]
            for i, g in enumerate(given):
                p = T("par", i + 1)
                if g is p:
                    r.ob(name + ":arg%d" % (i + 1), True, "", w)
                elif p not in subterms(g) and "$%d" % (i + 1) not in str(g):
                    r.ob(name + ":arg%d" % (i + 1), False, "%s does not give argument %d to %s" % (name, i + 1, op), w)
                else:
                    r.undec(name + ":arg%d" % (i + 1), "gives %s" % str(g)[:60], w)

            def result(t):
                return t.op == "call" and t.a[0].rsplit("::", 1)[-1] == op
            x = v
            if result(v):
                r.ob(name + ":result", True, "", w)
            elif v.op == "agg" and v.a[1] in ("Some", "Ok", "Err", "Ready") and len(v.a[2]) == 1:
                x = v.a[2][0]
                while x.op == "fld" or x.op == "agg" and len(x.a[2]) == 1 and x.a[1] in ("Some", "Ok", "Err", "Ready"):
                    x = x.a[0] if x.op == "fld" else x.a[2][0]
                if result(x):
                    r.ob(name + ":result", True, "", w)
                elif any(result(y) for y in subterms(v)):
                    r.undec(name + ":result", "answers %s" % str(v)[:80], w)
                elif unit_layers(v) and sum(1 for q, y in fa.items() if q.op == "discr" and y in (I(0), FALSE) and any(result(z) for z in subterms(q))) >= unit_layers(v):
                    # nothing but its success to tell
                    r.ob(name + ":result", True, "", w)
                else:
                    r.ob(name + ":result", False, "%s answers %s, not the result of %s" % (name, str(v)[:40], op), w)
            elif any(result(y) for y in subterms(v)) or any(result(y) for q in fa for y in subterms(q)):
                told = {x for q, x in fa.items() if q.op == "discr" and result(q.a[0])}
                none = v.op == "agg" and v.a[1] == "None"
                if none or v.op == "agg" and v.a[1] == "Pending":
                    same, other = ((I(0), FALSE), (I(1), TRUE)) if none else ((I(1), TRUE), (I(0), FALSE))
                    if any(x in other for x in told) or kind == "Body" and not any(x in same for x in told):
                        r.ob(name + ":result", False, "%s answers %s where %s does not" % (name, v.a[1], op), w)
                    elif any(x in same for x in told):
                        r.ob(name + ":result", True, "", w)
                    else:
                        r.undec(name + ":result", "answers %s" % v.a[1], w)
                else:
                    r.undec(name + ":result", "answers %s" % str(v)[:80], w)
            elif op == "consume":
                r.ob(name + ":result", True, "", w)
            else:
                r.ob(name + ":result", False, "%s answers %s, not the result of %s" % (name, str(v)[:40], op), w)
        return r.plain()

    for d in pmap(one, todo):
        R.merge(d)
    R.floor("operations", 36)

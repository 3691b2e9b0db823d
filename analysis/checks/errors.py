"""E01 Status attachment, E02 error statuses, X01 extensions."""
from checks import prop
from checks.messages import fields, field_of, adt_in
from lib import *

STATUS = "http_types::StatusCode"


def error_adt(P):
    return P.adt("Error")


def status_index(P):
    a = error_adt(P)
    r = [i for i, n, t in fields(P, a) if t[0] == "adt" and t[1].endswith("StatusCode")]
    if len(r) != 1:
        raise MissingAnchor("one StatusCode field in Error")
    return r[0]


def part(E, t, i):
    """Field i of a term of struct type, resolved through partial updates."""
    return E.getstep(t, ("f", i, None))


def try_into_of(t):
    """The term x of TryInto::try_into(x).Ok.0 (a conversion that succeeded), or None."""
    if t.op == "fld" and t.a[0].op == "call" and t.a[0].a[0] in ("TryInto::try_into", "TryFrom::try_from"):
        return t.a[0].a[1]
    return None


def const_status(t):
    """Variant name of a literal status term."""
    if t.op == "agg" and str(t.a[0]).endswith("StatusCode"):
        return t.a[1]
    return None


def n_calls(E, outs_eff, name):
    return [e for e in outs_eff if e.kind == "call" and e.name == name]


@prop("E01")
def e01(R, P, W):
    """Every implementation of the Status trait: on the success variant `status` and `with_status` return exactly Ok(payload) and neither convert the
    status nor call the closure; on the failure variant they return Err(e) where e's status is the (converted) argument, respectively the result of the
    single call of the closure, and e's cause is the original failure (other fields of an existing Error unchanged)."""
    trs = [t for t in P.impl_by_trait if t.endswith("status::Status")]
    if len(trs) != 1:
        raise MissingAnchor("trait Status")
    si = status_index(P)
    ea = error_adt(P)
    p0, p1 = T("par", 0), T("par", 1)
    for im in P.impl_by_trait[trs[0]]:
        st = im["self"]
        what = st[1].split("::")[-1] if st[0] == "adt" else str(st)
        own_err = what == "Result" and adt_in(tuple(st[2:]), ea)
        tag = "Result<T,Error>" if own_err else ("Result<T,E>" if what == "Result" else what)
        good_v, bad_v = ("Ok", "Err") if what == "Result" else ("Some", "None")
        for it in im["items"]:
            if it["name"] not in ("status", "with_status") or it["def"] not in P.bodies:
                continue
            key = it["def"]
            lazy = it["name"] == "with_status"
            E = new_engine(P)
            outs = E.run(key)
            R.count("Status methods")
            K = "%s::%s" % (tag, it["name"])
            kinds = set()
            for v, s in outs:
                for v in (E.flat(v) if v.op == "phi" else [v]):
                    v = E.snap(s, v)
                    d = E.known(s, T("discr", p0))
                    if v.op != "agg" or v.a[0] != RES:
                        src = [x for x in subterms(v, E) if x is p0]
                        R.undec(K + ":shape", "outcome %s is not a plain Ok or Err" % str(v)[:120], P.where(key))
                        continue
                    pay = v.a[2][0]
                    kinds.add(v.a[1])
                    if v.a[1] == "Ok":
                        want = T("fld", p0, good_v, 0)
                        R.ob(K + ":success", pay is want or pay is E.getstep(p0, ("f", 0, good_v)), "%s of a success returns %s instead of the success value" % (K, str(pay)[:160]), P.where(key))
                        called = [e for e in s.eff if e.kind == "call" and e.name in ("apply", "TryInto::try_into", "TryFrom::try_from")]
                        R.ob(K + ":lazy", not called, "%s computes the status although there was no failure: %s" % (K, called[:2]), P.where(key))
                        continue
                    stt = E.snap(s, part(E, pay, si))
                    src = try_into_of(stt)
                    if lazy:
                        good = src is not None and src.op == "call" and src.a[0] == "apply" and src.a[1] is p1
                        R.ob(K + ":once", len(n_calls(E, s.eff, "apply")) == 1, "%s calls the closure %d times for one failure" % (K, len(n_calls(E, s.eff, "apply"))), P.where(key))
                    else:
                        good = src is p1
                    R.ob(K + ":status", good, "%s of a failure gives an error with status %s, not the one asked for" % (K, str(stt)[:160]), P.where(key))
                    for i, n, t in fields(P, ea):
                        if i == si:
                            continue
                        f = E.snap(s, part(E, pay, i))
                        if own_err:
                            w = E.getstep(T("fld", p0, "Err", 0), ("f", i, None))
                            R.ob(K + ":keeps-" + n, f is w, "%s changes `%s` of the existing error: %s" % (K, n, str(f)[:120]), P.where(key))
                        elif what == "Result" and t[0] == "adt" and "anyhow" in t[1]:
                            xs = subterms(f, E)
                            R.ob(K + ":cause", T("fld", p0, "Err", 0) in xs and not any(x.op == "call" and x.a[0].endswith("::msg") for x in xs) and not any(x.op == "disp" for x in xs),
                                 "%s does not keep the original failure as the cause: %s" % (K, str(f)[:160]), P.where(key))
            R.ob(K + ":both", kinds >= {"Ok", "Err"}, "%s never returns %s" % (K, sorted({"Ok", "Err"} - kinds)), P.where(key))
    R.floor("Status methods", 6)


def ret_error(P, d):
    """How a function's declared output contains the crate's Error: 'plain', 'result' or None."""
    t = P.ty(d["output"])
    ea = error_adt(P)
    if t[0] == "adt" and t[1] == ea:
        return "plain"
    if t[0] == "adt" and t[1] == RES and adt_in(tuple(t[2:]), ea):
        return "result"
    return None


@prop("E02")
def e02(R, P, W):
    """Every function of the error module that returns an Error: its status is the converted status argument if it takes one, the receiver's status if it
    takes an existing Error, and 500 otherwise. set_status writes only the status field, with its argument. status(), AsRef and AsMut designate the status
    field. No other method taking &mut Error writes the status. The expansions of the exported macros (type-checked in the witness crate) produce an
    error from new_adhoc alone (500), or followed by exactly one set_status with the literal given, and do so only on the failing branch."""
    ea = error_adt(P)
    si = status_index(P)
    for k, d in sorted(P.defs.items()):
        if k not in P.bodies or d.get("output") is None or not P.bodies[k].get("body") or mod_of(P, k) != "error":
            continue
        form = ret_error(P, d)
        ins = [P.ty(x) for x in d["inputs"]]
        name = P.short(k).replace("http_types::", "")
        if form:
            E = new_engine(P)
            outs = E.run(k)
            R.count("functions returning an Error")
            recv = [i for i, t in enumerate(ins) if t[0] == "adt" and t[1] == ea]
            preds = status_params(P, d, ins)
            for v, s in outs:
                for v in (E.flat(v) if v.op == "phi" else [v]):
                    v = E.snap(s, v)
                    if form == "result":
                        if not (v.op == "agg" and v.a[0] == RES):
                            R.undec(name + ":shape", str(v)[:120], P.where(k))
                            continue
                        if v.a[1] == "Ok":
                            continue
                        v = v.a[2][0]
                    stt = E.snap(s, part(E, v, si))
                    src = try_into_of(stt)
                    if preds:
                        R.ob(name + ":status", src is not None and src.op == "par" and src.a[0] in preds, "%s gives the error status %s instead of the one passed" % (name, str(stt)[:120]), P.where(k))
                    elif recv:
                        w = E.getstep(T("par", recv[0]), ("f", si, None))
                        R.ob(name + ":status", stt is w, "%s changes the status of an existing error to %s" % (name, str(stt)[:120]), P.where(k))
                    else:
                        R.ob(name + ":500", const_status(stt) == "InternalServerError", "%s builds an error without a status, but its status is %s" % (name, str(stt)[:120]), P.where(k))
        # nothing but set_status writes the status of an existing error
        muts = [i for i, t in enumerate(ins) if is_mut_ref(t, ea)]
        for i in muts:
            E = new_engine(P)
            outs = E.run(k)
            R.count("methods on &mut Error")
            for v, s in outs:
                cur = E.read(s, ("H", T("par", i)), ())
                stt = E.snap(s, part(E, cur, si))
                preds = status_params(P, d, ins)
                if preds:
                    src = try_into_of(stt)
                    R.ob(name + ":sets", src is not None and src.op == "par" and src.a[0] in preds, "%s leaves the status %s instead of its argument" % (name, str(stt)[:120]), P.where(k))
                    for j, fn, t in fields(P, ea):
                        if j != si:
                            R.ob(name + ":only", E.snap(s, part(E, cur, j)) is E.getstep(T("par", i), ("f", j, None)), "%s also changes `%s`" % (name, fn), P.where(k))
                else:
                    R.ob(name + ":keeps-status", stt is E.getstep(T("par", i), ("f", si, None)), "%s changes the status to %s" % (name, str(stt)[:120]), P.where(k))
        # readers of the status
        t = P.ty(d["output"])
        o = t[1] if t[0] == "ref" else t
        if o[0] == "adt" and o[1].endswith("StatusCode") and ins and ins[0][0] == "ref" and ins[0][1] == ("adt", ea, ()):
            E = new_engine(P)
            R.count("status readers")
            w = E.getstep(T("par", 0), ("f", si, None))
            for v, s in E.run(k):
                r = E.deref(s, v)
                x = E.snap(s, v)
                if t[0] == "ref" and r is not None:
                    x = E.snap(s, E.read(s, *r))
                R.ob(name + ":reads", x is w or (t[0] == "ref" and r is not None and r[0] == ("H", T("par", 0)) and [y[1] for y in r[1]] == [si]), "%s does not give the status field but %s" % (name, str(x)[:120]), P.where(k))
    R.floor("functions returning an Error", 6)
    R.floor("status readers", 2)
    R.floor("methods on &mut Error", 2)
    macros(R, P, W)


def mod_of(P, k):
    f = P.where(k).split(":")[0]
    return f.split("/")[-1].replace(".rs", "")


def is_mut_ref(t, ea):
    return t[0] == "ref" and t[1][0] == "adt" and t[1][1] == ea and t[2] is True


def status_params(P, d, ins):
    """Indices of the parameters whose type is a type parameter bounded by TryInto<StatusCode>, or a status."""
    out = []
    for i, t in enumerate(ins):
        if t[0] == "adt" and t[1].endswith("StatusCode"):
            out.append(i)
        elif t[0] == "param" and any("<%s as std::convert::TryInto<status_code::StatusCode>>," % t[1] in b for b in d.get("preds", [])):
            out.append(i)
    return out


def macro_status(t):
    """Status of an error built in another crate: a number, 500 for constructors without one, None when unknown."""
    if t.op == "mut" and t.a[0].endswith("Error::set_status"):
        return t.a[2][0].a[0] if t.a[2][0].op == "int" else None
    if t.op == "call":
        n = t.a[0]
        if n.endswith("new_adhoc") or n in ("From::from", "Into::into") or n.endswith("Error::from_display") or n.endswith("Error::from_debug") or n.endswith("<Error as From>::from"):
            return 500
        if n.endswith("Error::new") or n.endswith("Error::from_str"):
            return t.a[1].a[0] if t.a[1].op == "int" else None
    return None


def macros(R, P, W):
    for k in sorted(W.bodies):
        name = W.short(k).replace("crate::", "")
        if not name.startswith(("plain_", "status_")):
            continue
        E = Engine(W)
        outs = E.run(k)
        want = 418 if name.startswith("status_") else 500
        kinds = set()
        for v, s in outs:
            if not (v.op == "agg" and v.a[0] == RES):
                v = err(v)
            kinds.add(v.a[1])
            good = not s.facts
            if "ensure" in name:
                c = [E.known(s, T("par", 0)), E.known(s, T("bin", "Eq", T("par", 0), T("par", 1))), E.known(s, T("bin", "Ne", T("par", 0), T("par", 1)))]
                if "ensure_eq" in name:
                    holds = c[1] is TRUE or c[2] is FALSE
                    fails = c[1] is FALSE or c[2] is TRUE
                else:
                    holds, fails = c[0] is TRUE, c[0] is FALSE
                good = holds if v.a[1] == "Ok" else fails
            R.ob("macro:%s:branch:%s" % (name, v.a[1]), good, "the expansion in %s returns %s under %s" % (name, v.a[1], s.facts), W.where(k))
            if v.a[1] == "Err":
                st = macro_status(E.snap(s, v.a[2][0]))
                if st is None:
                    R.undec("macro:" + name, "status of %s" % str(v)[:160], W.where(k))
                    continue
                R.ob("macro:%s:status" % name, st == want, "the expansion in %s gives an error with status %d instead of %d" % (name, st, want), W.where(k))
                R.count("macro expansions")
        R.ob("macro:%s:fails" % name, "Err" in kinds and (("Ok" in kinds) == ("ensure" in name)), "the expansion in %s returns %s" % (name, sorted(kinds)), W.where(k))
    R.floor("macro expansions", 20)


READ = ("HashMap::get", "HashMap::contains_key", "HashMap::get_mut", "HashMap::get_key_value")


@prop("X01")
def x01(R, P, W):
    """Every method of Extensions that has a type parameter: each keyed operation on the map uses TypeId::of of that parameter, each downcast is to that
    parameter, there is no whole-map write; insert stores exactly its argument once on every path and returns the entry it displaced; remove removes the
    entry on every path where there is a map and returns it; get/get_mut return the entry found; contains is true exactly when the entry is present.
    Methods without a type parameter only empty the map or create an empty one."""
    ea = P.adt("Extensions")
    p0, p1 = T("par", 0), T("par", 1)
    for k in sorted(P.bodies):
        d = P.defs[k]
        if d.get("self_ty") is None or d.get("kind") != "AssocFn":
            continue
        st = P.ty(d["self_ty"])
        if st != ("adt", ea, ()):
            continue
        name = d["name"]
        g = d.get("generics") or []
        E = new_engine(P)
        outs = E.run(k)
        ty_terms = set()
        K = "Extensions::" + name
        if not g:
            if name in ("fmt",):
                continue
            R.count("untyped methods")
            for v, s in outs:
                tgt = E.snap(s, E.read(s, ("H", p0), ())) if d["inputs"] else E.snap(s, v)
                m = part(E, tgt, 0)
                good = m is NONE or (m.op == "call" and ("default" in m.a[0].lower() or m.a[0].endswith("::new"))) or any(x.op == "mut" and x.a[0] == "HashMap::clear" for x in subterms(m, E))
                if name in ("clear", "new", "default"):
                    if d["inputs"] and E.known(s, T("discr", E.getstep(p0, ("f", 0, None)))) is I(0):
                        good = True
                    R.ob(K + ":empty", good, "%s leaves the map as %s" % (K, str(m)[:160]), P.where(k))
            continue
        R.count("typed methods")
        for v, s in outs:
            ev = E.snap(s, v)
            calls = set()

            def note(x):
                if x.op in ("call", "mut") and isinstance(x.a[0], str):
                    calls.add((x.a[0], x.a[1], tuple(x.a[2]) if x.op == "mut" else x.a[2:]))
            seen = set()
            walk(ev, note, seen, E)
            for f in s.facts:
                walk(f, note, seen, E)
            for e in s.eff:
                if e.kind == "call":
                    calls.add((e.name, e.args[0] if e.args else None, tuple(e.args[1:])))
                    walk(e.args, note, seen, E)
            walk(E.snap(s, E.read(s, ("H", p0), ())), note, seen, E)
            for n, o, args in calls:
                if n.startswith("HashMap::") and n not in ("HashMap::len", "HashMap::is_empty"):
                    if n in ("HashMap::clear", "HashMap::drain", "HashMap::retain", "HashMap::iter_mut", "HashMap::values_mut", "HashMap::values", "HashMap::iter"):
                        R.ob(K + ":key", False, "%s uses %s, which touches entries of every type" % (K, n), P.where(k))
                        continue
                    key = args[0] if args else None
                    if n.startswith("HashMap::new") or key is None:
                        continue
                    good = isinstance(key, T) and key.op == "call" and key.a[0] == "TypeId::of" and len(key.a) > 1 and key.a[1].op == "ty" and key.a[1].a[0] == g[0]
                    R.ob(K + ":key", good, "%s uses the key %s instead of the id of its own type" % (K, key), P.where(k))
                if n in ("Any::downcast_ref", "Any::downcast_mut", "Box::downcast", "Any::is", "Box::downcast_unchecked"):
                    tt = [y for y in args if isinstance(y, T) and y.op == "ty"]
                    R.ob(K + ":downcast", all(y.a[0] == g[0] for y in tt), "%s downcasts to another type: %s" % (K, tt), P.where(k))
            # what each outcome says about presence
            d_map = E.known(s, T("discr", E.getstep(p0, ("f", 0, None))))
            hit = None
            dc_fail = False
            for f, x in s.facts.items():
                if f.op == "discr" and f.a[0].op == "call":
                    if f.a[0].a[0].startswith("HashMap::"):
                        hit = (f.a[0], x)
                    if "downcast" in f.a[0].a[0] and ((f.a[0].a[0] == "Box::downcast" and x is I(1)) or (f.a[0].a[0] != "Box::downcast" and x is I(0))):
                        dc_fail = True
                if f.op == "call" and f.a[0] == "HashMap::contains_key":
                    hit = (f, x)
            if dc_fail:
                continue  # the value under a type's id is of that type
            if name in ("contains",):
                if hit is not None and ev.op == "int":
                    R.ob(K + ":answer", (ev is TRUE) == (hit[1] is I(1)), "%s answers %s when the entry is %s" % (K, ev, "present" if hit[1] is I(1) else "absent"), P.where(k))
                elif hit is None and ev is TRUE:
                    R.ob(K + ":answer", False, "%s answers true without looking the entry up" % K, P.where(k))
                elif hit is None and ev is FALSE:
                    R.ob(K + ":answer", d_map is I(0), "%s answers false without looking the entry up" % K, P.where(k))
                elif ev.op == "call" and ev.a[0] == "HashMap::contains_key":
                    R.ob(K + ":answer", True)
                else:
                    R.undec(K + ":answer", str(ev)[:120], P.where(k))
                continue
            if name == "insert":
                m = E.snap(s, E.read(s, ("H", p0), ()))
                ins = [x for x in subterms(m, E) if x.op == "mut" and x.a[0] == "HashMap::insert"]
                R.ob(K + ":stores", len(ins) == 1 and ins[0].a[2][1] is p1, "%s does not store exactly its argument: %s" % (K, [str(x)[:120] for x in ins]), P.where(k))
            if name == "remove" and d_map is not I(0):
                m = E.snap(s, E.read(s, ("H", p0), ()))
                rm = [x for x in subterms(m, E) if x.op == "mut" and x.a[0] in ("HashMap::remove", "HashMap::remove_entry")]
                if not (hit is not None and hit[0].a[0] in READ and hit[1] is I(0)):
                    R.ob(K + ":removes", len(rm) == 1, "%s leaves the entry in the map" % K, P.where(k))
            if name in ("insert", "remove", "get", "get_mut"):
                if hit is not None and hit[1] is I(1):
                    R.ob(K + ":returns", ev is not NONE and any(x is hit[0] for x in subterms(ev, E)), "%s does not return the entry that was there: %s" % (K, str(ev)[:160]), P.where(k))
                elif ev is not NONE and ev.op == "agg" and not any(x.op == "call" and x.a[0].startswith("HashMap::") for x in subterms(ev, E)):
                    R.ob(K + ":returns", False, "%s returns %s, which was not in the map" % (K, str(ev)[:160]), P.where(k))
                elif ev is NONE and name != "insert":
                    R.ob(K + ":none", d_map is I(0) or (hit is not None and hit[1] is I(0)), "%s returns None without having looked the entry up" % K, P.where(k))
    R.floor("typed methods", 5)

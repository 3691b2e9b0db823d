"""N01 negotiation, N02 weights, Z03 preference order."""
from checks import prop
from checks.errors import status_index, const_status, part
from lib import *
from table import ev, select


def peel(E, t):
    """The value a wrapper or a field-by-field copy stands for."""
    while t.op == "agg" and isinstance(t.a[0], str) and t.a[0] not in ("array", "vec", "tuple"):
        fs = t.a[2]
        if len(fs) == 1:
            t = fs[0]
            continue
        xs = [(x.a[0], x.a[2]) for x in fs if x.op == "fld"]
        if len(xs) == len(fs) and len(fs) > 0 and all(x is xs[0][0] and i == n for n, (x, i) in enumerate(xs)):
            t = xs[0][0]
            continue
        break
    return t


def negotiators(P):
    """Types with a method that picks from a list of offers: [(adt, method key)]."""
    out = []
    for k in P.fn(name="negotiate"):
        d = P.defs[k]
        if d.get("self_ty") is None or k not in P.bodies:
            continue
        t = P.ty(d["self_ty"])
        if t[0] == "adt":
            out.append((t[1], k))
    return sorted(out)


def fact_true(v):
    return v in (1, True) or v is TRUE


def links(E, s, x, p1):
    """Facts saying that x is one of the offers: it is contained in, or equal to a member of, the offered list."""
    for k, v in s.facts.items():
        if not fact_true(v):
            continue
        n = str(k.a[0]) if k.op == "call" else k.op
        if n.endswith("::contains") or n in ("eq", "PartialEq::eq") or k.op == "eq":
            xs = subterms(k)
            if p1 in xs and x in xs:
                return True
        if k.op == "any" and p1 in subterms(k) and x in subterms(k):
            return True
    return False


def matched(E, s, x, p0, p1, flag):
    """Facts relating an offer to an accepted entry (other than the wildcard flag)."""
    for k, v in s.facts.items():
        if fact_true(v) and k.op in ("call", "eq", "bin", "any", "all"):
            xs = subterms(k)
            if p0 in xs and p1 in xs:
                return True
    return False


@prop("N01")
def n01(R, P, W):
    """Every path of every `negotiate` method.  A path that succeeds returns (a wrapper around) an element of the offered list, or a value which the path has
    found to be contained in or equal to a member of that list.  If the path did not relate it to an accepted entry, the wildcard flag is set on that path
    and the accepted entries have been exhausted.  A path that fails has status 406, has exhausted the entries, and the wildcard is not set or nothing is offered."""
    p0, p1 = T("par", 0), T("par", 1)
    si = status_index(P)
    subs = {P.short(k) for k in P.bodies if P.defs[k].get("name") == "subset_eq"}
    for adt, k in negotiators(P):
        name, w = P.short(k), P.where(k)
        flags = [i for i, f in enumerate(P.adts[adt]["variants"][0]["fields"]) if P.ty(f["ty"]) == ("prim", "bool")]
        E = new_engine(P, cap=96)
        E.opaque_fns |= subs
        outs = E.run(k)
        R.count("negotiate methods")
        kinds = set()
        for v, s in outs:
            for v in (E.flat(v) if v.op == "phi" else [v]):
                v = E.snap(s, v)
                R.count("paths")
                if v.op != "agg" or v.a[0] != RES:
                    R.undec(name + ":shape", "outcome %s" % str(v)[:100], w)
                    continue
                kinds.add(v.a[1])
                flag = None
                for i in flags:
                    x = s.facts.get(E.getstep(p0, ("f", i, None)))
                    if x is not None:
                        flag = fact_true(x)
                exhausted = any(k2.op in ("exhausted", "ended") and fact_true(f) and p0 in subterms(k2) for k2, f in s.facts.items())
                nothing = any(fact_true(f) and k2.op == "ended" and p0 not in subterms(k2) and p1 in subterms(k2) for k2, f in s.facts.items()) or \
                    any(k2.op == "len" and k2.a[0] is p1 and pyzero(f) for k2, f in s.facts.items())
                if v.a[1] == "Ok":
                    for y in E.flat(v.a[2][0]):
                        x = peel(E, y)
                        own = x.op in ("elem", "idx") and x.a[0] is p1
                        via = links(E, s, x, p1)
                        R.ob(name + ":offered", own or via, "%s returns %s, which it has not taken from or found among the offered values" % (name, str(x)[:160]), w)
                        if own and not matched(E, s, x, p0, p1, flag) and not via:
                            first = x.a[1] is I(0) or (x.op == "elem" and x.a[1] == I(0))
                            if first or flag is not None:
                                R.ob(name + ":wildcard", flag is True, "%s returns an offered value that matches no accepted entry although the wildcard is not set" % name, w)
                                R.ob(name + ":wildcard-last", exhausted, "%s lets the wildcard decide before all accepted entries were tried" % name, w)
                            else:
                                R.undec(name + ":match", "no recognised match between the result and an accepted entry", w)
                else:
                    st = E.snap(s, part(E, v.a[2][0], si))
                    c = const_status(st)
                    if c is None:
                        R.undec(name + ":status", "status %s" % str(st)[:80], w)
                    else:
                        R.ob(name + ":status", c == "NotAcceptable", "%s fails with %s, not 406" % (name, c), w)
                    R.ob(name + ":tried-all", exhausted or nothing, "%s fails before all accepted entries were tried" % name, w)
                    R.ob(name + ":wildcard-used", flag is False or nothing or not flags, "%s fails although the wildcard is set and something is offered" % name, w)
        R.ob(name + ":both", kinds >= {"Ok", "Err"}, "%s never returns %s" % (name, sorted({"Ok", "Err"} - kinds)), w)
    R.floor("negotiate methods", 3)


def pyzero(f):
    return f == 0 or (isinstance(f, T) and f is I(0))


def proposals(P):
    """Struct types that hold an optional f32 weight: [(adt, index of the weight)]."""
    out = []
    for a, d in P.adts.items():
        if d.get("local") and not d["enum"]:
            ws = [i for i, f in enumerate(d["variants"][0]["fields"]) if P.ty(f["ty"])[:2] == ("adt", OPT) and P.ty(f["ty"])[2] == (("prim", "f32"),)]
            if len(ws) == 1:
                out.append((a, ws[0]))
    return sorted(out)


def in_range(E, st, x):
    if x.op == "flt":
        return 0.0 <= x.a[0] <= 1.0 and str(x.a[0])[0] != "-"
    lo = hi = False
    for k, v in st.facts.items():
        if not fact_true(v):
            continue
        if k.op == "call" and k.a[0].endswith("is_sign_positive") and k.a[1] is x:
            lo = True
        if k.op == "call" and k.a[0] in ("RangeInclusive::contains", "range::RangeInclusive::contains") and k.a[-1] is x:
            r = k.a[1]
            fl = [y.a[0] for y in subterms(r) if y.op == "flt"]
            if fl and min(fl) >= 0 and max(fl) <= 1 and len(fl) == 2:
                lo = hi = True
        if k.op == "bin":
            o, a, b = k.a[0], k.a[1], k.a[2]
            if a is x and b.op == "flt":
                hi |= o in ("Le", "Lt", "Eq") and b.a[0] <= 1
                lo |= o in ("Ge", "Gt", "Eq") and b.a[0] >= 0
            if b is x and a.op == "flt":
                lo |= o in ("Le", "Lt", "Eq") and a.a[0] >= 0
                hi |= o in ("Ge", "Gt", "Eq") and a.a[0] <= 1
    return lo and hi


@prop("N02")
def n02(R, P, W):
    """Every construction of a type holding a preference weight, in every function that constructs one: the weight is absent, a constant in [0,1], copied from
    another value of such a type, or a number which the path leading there has found to be non-negative and at most one by comparisons that are false for
    not-a-number.  The weight field is private, and no function writes it or hands out a mutable reference to it."""
    for adt, wi in proposals(P):
        f = P.adts[adt]["variants"][0]["fields"][wi]
        R.ob(adt + ":private", not f["pub"], "the weight of %s is a public field" % adt, "")
        R.count("types with a weight")
        mod = adt.rsplit("::", 1)[0]
        done = set()
        for k in sorted(P.bodies):
            if builds(P, k, adt):
                k = owner(P, k)
                if k in done:
                    continue
                done.add(k)
                n = [0]
                w, name = P.where(k), P.short(k)
                ins = [P.ty(t) for t in P.defs[k].get("inputs", [])]

                def agg(fr, st, d, vn, ops, site):
                    if d != adt:
                        return
                    n[0] += 1
                    R.count("constructions")
                    for t in E.flat(ops[wi]):
                        t = E.snap(st, t)
                        if t.op == "agg" and t.a[0] == OPT:
                            if t.a[1] == "None":
                                R.ob(name + ":weight", True)
                                continue
                            x = t.a[2][0]
                        else:
                            if t.op == "fld" and t.a[2] == wi and holds(E, P, ins, t.a[0], adt):
                                R.ob(name + ":weight", True)
                                continue
                            if E.known(st, T("discr", t)) is not None and pyzero(E.known(st, T("discr", t))):
                                R.ob(name + ":weight", True)
                                continue
                            x = E.getstep(t, ("f", 0, "Some"))
                        for y in E.flat(x):
                            if y.op == "fld" and y.a[0].op == "fld" and y.a[0].a[2] == wi and holds(E, P, ins, y.a[0].a[0], adt):
                                R.ob(name + ":weight", True)
                                continue
                            R.ob(name + ":weight", in_range(E, st, y), "%s builds a %s whose weight %s was not found to be between 0 and 1" % (name, adt.split("::")[-1], str(y)[:120]), w)
                E = new_engine(P, cap=64)
                E.on_agg = agg
                E.run(k)
                R.ob(name + ":reached", n[0] > 0 or not name, "no construction reached in %s" % name, w) if n[0] else R.undec(name, "construction not reached", w)
        for k in sorted(P.bodies):
            d = P.defs[k]
            if d["kind"] == "Closure" or not d.get("inputs"):
                continue
            i0 = P.ty(d["inputs"][0])
            if i0[0] == "ref" and is_mut(i0) and i0[1][0] == "adt" and i0[1][1] == adt:
                E = new_engine(P, cap=32)
                R.count("methods with mutable access")
                for v, s in E.run(k):
                    for x in subterms(E.snap(s, v) if v.op != "ref" else v):
                        if x.op == "ref" and x.a[0] == ("H", T("par", 0)):
                            R.ob(P.short(k) + ":lends", not (x.a[1] and x.a[1][0][:2] == ("f", wi)) and x.a[1] != (), "%s hands out mutable access to the weight" % P.short(k), P.where(k))
                    for e in s.eff:
                        if e.kind == "write" and e.args[1] and e.args[1][0][:2] == ("f", wi):
                            y = E.snap(s, e.args[2])
                            R.ob(P.short(k) + ":writes", in_range(E, s, E.getstep(y, ("f", 0, "Some"))) or (y.op == "agg" and y.a[1] == "None"), "%s sets the weight to %s without checking it" % (P.short(k), str(y)[:80]), P.where(k))
    R.floor("types with a weight", 3)
    R.floor("constructions", 6)


def holds(E, P, ins, t, adt):
    """Whether t is a parameter of type adt (or a reference to one), or an element of a collection of them."""
    if t.op == "par" and isinstance(t.a[0], int) and t.a[0] < len(ins):
        b = ins[t.a[0]]
        while b[0] == "ref":
            b = b[1]
        return b[0] == "adt" and b[1] == adt
    return False


ORDER = {-1: "Less", 0: "Equal", 1: "Greater"}
CMP = "core::cmp::Ordering"


def order(E, n):
    vs = E.variants(CMP) if CMP in STD_ENUMS else None
    return T("agg", CMP, ORDER[n], ())


def weight_of(t, wi):
    """(None | float) of a constant entry."""
    w = t.a[2][wi]
    return None if w.a[1] == "None" else w.a[2][0].a[0]


def cmp_leaf(wi, adt):
    def f(xs):
        a, b = xs[0], xs[1]
        if a is None or b is None:
            return None
        if a.op in ("int", "flt") and a.op == b.op:
            return (a.a[0] > b.a[0]) - (a.a[0] < b.a[0])
        return None
    return f


@prop("Z03")
def z03(R, P, W):
    """The comparison function given to the sort, read as a decision table over the weight (absent, and one value for each region the function's own constants cut out of [0,1]) and the position of two entries: it orders a
    pair exactly as documented (heavier first, absent after present, later first among equals), which makes it a total order, so the result of the
    standard sort is determined.  The sorted list is exactly the list of entries, with each entry's own position; every `sort` and `negotiate` method of
    an accepted-values type sorts before it looks."""
    props = dict(proposals(P))
    n = 0
    for adt, nk in negotiators(P):
        ent = [(i, P.ty(f["ty"])) for i, f in enumerate(P.adts[adt]["variants"][0]["fields"])]
        ent = [(i, t[2][0][1]) for i, t in ent if t[0] == "adt" and t[1].endswith("Vec") and t[2][0][0] == "adt" and t[2][0][1] in props]
        if len(ent) != 1:
            R.undec(adt, "no single list of weighted entries", "")
            continue
        fi, elt = ent[0]
        wi = props[elt]
        for k in [nk] + [x for x in P.fn(name="sort") if P.ty(P.defs[x].get("self_ty", -1) if "self_ty" in P.defs[x] else P.defs[nk]["self_ty"])[1] == adt and "self_ty" in P.defs[x]]:
            sorts = []
            E = new_engine(P, cap=96)
            E.opaque_fns |= {P.short(x) for x in P.bodies if P.defs[x].get("name") == "subset_eq"}

            def hook(c, stable):
                l = E.deref(c.st, c.args[0])
                X = E.snap(c.st, E.read(c.st, *l)) if l is not None else None
                s0 = c.st.copy()
                A, B = ("H", T("par", "A")), ("H", T("par", "B"))
                s0.env[A], s0.env[B] = T("par", "A"), T("par", "B")
                outs = c.apply(s0, c.args[1], [E.mkref(A, ()), E.mkref(B, ())], "cmp")
                new = [(v, s) for v, s in outs]
                sorts.append((X, stable, new, dict(c.st.facts)))
                return None
            E.hooks["slice::sort_unstable_by"] = lambda c: hook(c, False)
            E.hooks["slice::sort_by"] = lambda c: hook(c, True)
            w, name = P.where(k), P.short(k)
            outs = E.run(k)
            R.count("sorting methods")
            src = E.getstep(T("par", 0), ("f", fi, None))
            if not sorts:
                plain = any(x.op == "mut" and "sort" in str(x.a[0]) for v, s in outs for t in [E.snap(s, s.env.get(("H", T("par", 0)), T("par", 0)))] for x in subterms(t, E))
                if plain:
                    R.undec(name, "sorted by something other than a comparison function", w)
                else:
                    R.ob(name + ":sorts", False, "%s does not sort the entries" % name, w)
                continue
            R.ob(name + ":sorts", True)
            for X, stable, cmps, base in sorts:
                judge_sort(R, P, E, name, w, X, stable, cmps, base, src, elt, wi)
            for v, s in outs:
                x = s.env.get(("H", T("par", 0)))
                after = E.snap(s, E.getstep(E.snap(s, x), ("f", fi, None))) if x is not None else src
                for y in E.flat(after):
                    R.count("sorted lists")
                    judge_result(R, E, name, w, y, src)
            n += 1
    R.floor("sorting methods", 6)


def judge_sort(R, P, E, name, w, X, stable, cmps, base, src, elt, wi):
    """The comparison as a table over constant entries."""
    shape = None        # how a sorted item shows its entry and its position
    rev = False
    Y = X
    while Y is not None and Y.op == "mut" and str(Y.a[0]).endswith("reverse"):
        rev, Y = not rev, Y.a[1]
    if Y is src:
        shape = "entry"
    elif Y is not None and Y.op == "coll" and len(Y.a) == 2 and len(Y.a[1]) == 1 and Y.a[1][0].op == "agg" and Y.a[1][0].a[0] == "tuple" and len(Y.a[1][0].a[2]) == 2:
        i, e = Y.a[1][0].a[2]
        if i.op == "ixof" and e.op == "elem" and e.a[0] is src:
            shape = "pair"
        elif e.op == "ixof" and i.op == "elem" and i.a[0] is src:
            shape = "pair2"
    if shape is None:
        R.undec(name + ":list", "what is sorted is not recognised: %s" % str(X)[:120], w)
        return
    nf = len(P.adts[elt]["variants"][0]["fields"])

    def entry(x):
        o = T("agg", OPT, "None", ()) if x is None else T("agg", OPT, "Some", (T("flt", x),))
        return T("agg", elt, None, tuple(o if j == wi else T("par", "rest%d" % j) for j in range(nf)))

    def item(x, i):
        e = entry(x)
        return e if shape == "entry" else T("agg", "tuple", None, (I(i), e) if shape == "pair" else (e, I(i)))

    cs = {x.a[0] for v, s in cmps for t in [E.snap(s, v)] + list(s.facts) for x in subterms(t, E) if x.op == "flt" and 0 <= x.a[0] <= 1}
    cs = sorted({0.0, 0.5, 1.0} | cs)
    ws = [None] + sorted(set(cs) | {(a + b) / 2 for a, b in zip(cs, cs[1:])})   # one weight for every region the comparison's constants cut out
    for wa in ws:
        for wb in ws:
            for ia, ib in ((0, 1), (1, 0), (9, 10), (10, 9)):
                env = {T("par", "A"): item(wa, ia), T("par", "B"): item(wb, ib)}
                for nm in ("Ord::cmp", "PartialOrd::partial_cmp", "f32::total_cmp", "f32::partial_cmp"):
                    env[nm] = leaf(nm)
                got = {}
                for v, s in cmps:
                    ok = True
                    for f, x in s.facts.items():
                        if f in base:
                            continue
                        y = ev(E, f, env)
                        if y is None:
                            ok = None if ok else ok
                        elif not agrees(y, x):
                            ok = False
                            break
                    if ok is False:
                        continue
                    r = ev(E, E.snap(s, v), env)
                    got[str(r.a[1]) if r is not None and r.op == "agg" else None] = ok
                R.count("pairs compared")
                ka, kb = (-1 if wa is None else wa), (-1 if wb is None else wb)
                first = ka > kb if ka != kb else ia > ib
                if None in got or len(got) != 1:
                    R.undec(name + ":pair", "comparison of weights %s and %s not determined: %s" % (wa, wb, sorted(map(str, got))), w)
                    continue
                o = next(iter(got))
                if o == "Equal" and shape == "entry" and stable:
                    o = "Less" if ((ia < ib) ^ rev) else "Greater"
                R.ob(name + ":order", o == ("Less" if first else "Greater"),
                     "sorting compares an entry of weight %s at position %d with one of weight %s at position %d as %s" % (wa, ia, wb, ib, o), w)


def leaf(nm):
    def f(xs):
        a, b = xs[0], xs[1]
        if a is None or b is None or a.op != b.op or a.op not in ("int", "flt"):
            return None
        r = T("agg", CMP, ORDER[(a.a[0] > b.a[0]) - (a.a[0] < b.a[0])], ())
        return T("agg", OPT, "Some", (r,)) if "partial" in nm else r
    return f


def agrees(y, x):
    if isinstance(x, tuple) and x and x[0] == "!":
        return y not in x[1] and not (y.op == "int" and y.a[0] in x[1])
    if isinstance(x, T):
        return y is x
    return y.op == "int" and y.a[0] == int(x)


def judge_result(R, E, name, w, y, src):
    """The list after sorting holds the sorted entries, each once, in order."""
    if y.op == "mut" and "sort" in str(y.a[0]):
        R.ob(name + ":all", True)
        return
    if y.op == "coll" and len(y.a[1]) == 1:
        e = y.a[1][0]
        x = peel(E, e)
        st = [z for z in subterms(x) if z.op == "mut" and "sort" in str(z.a[0])]
        filt = [z for z in subterms(y.a[0]) if z.op == "it" and z.a[0] in ("filter", "filter_map", "take", "skip", "take_while", "skip_while", "rev", "step_by")]
        if st and not filt:
            R.ob(name + ":all", True)
        elif filt and filt[0].a[0] != "filter_map":
            R.ob(name + ":all", False, "after sorting, %s keeps only part of the entries or reorders them (%s)" % (name, filt[0].a[0]), w)
        else:
            R.undec(name + ":all", "the sorted list is %s" % str(y)[:120], w)
        return
    R.undec(name + ":all", "the sorted list is %s" % str(y)[:120], w)

"""N03 matching of media types, N04 agreement of the parts of a media type."""
from checks import prop
from checks.headers import Report_like
from lib import *


class Media:
    """The media type (found by its public accessors) and which of its fields is which."""

    def __init__(self, P):
        self.P = P
        c = [k for k in P.bodies if P.short(k).endswith("::subset_eq") and P.defs[k].get("inputs")]
        if len(c) != 1:
            raise MissingAnchor("subset_eq")
        self.match = c[0]
        self.adt = [a for a in P.adts if a.endswith("mime::Mime") or a == "Mime"]
        if len(self.adt) != 1:
            raise MissingAnchor("the media type")
        self.adt = self.adt[0]
        fs = P.adts[self.adt]["variants"][0]["fields"]
        self.field = {}
        for nm in ("essence", "basetype", "subtype"):
            k = [k for k in P.bodies if P.short(k) == P.short(c[0]).rsplit("::", 1)[0] + "::" + nm]
            if len(k) != 1:
                raise MissingAnchor("the accessor %s" % nm)
            E = new_engine(P)
            vs = {E.snap(s, v) for v, s in E.run(k[0])}
            v = canon(next(iter(vs)))
            i = [n for n in range(len(fs)) if v is fieldterm(T("par", 0), n)]
            self.field[nm] = (i[0] if len(vs) == 1 and len(i) == 1 else None, k[0], v)
        t = [P.tystr(P.ty(f["ty"])) if f["ty"] is not None else "" for f in fs]
        self.utf8 = [i for i, x in enumerate(t) if x == "bool"]
        self.params = [i for i, x in enumerate(t) if x.startswith("Vec<")]
        self.utf8 = self.utf8[0] if len(self.utf8) == 1 else None
        self.params = self.params[0] if len(self.params) == 1 else None


_canon = {}


def canon(t):
    """The term with the types taken out of its field projections."""
    if not isinstance(t, T):
        if isinstance(t, (tuple, frozenset)):
            return type(t)(canon(x) for x in t)
        return t
    r = _canon.get(t)
    if r is None:
        if t.op == "fld":
            r = fieldterm(canon(t.a[0]), t.a[2])
        elif t.op == "call" and t.a[0] == "ascii_lower":
            r = canon(t.a[1])   # the parser lowers all names
        else:
            r = T(t.op, *(canon(x) for x in t.a))
        _canon[t] = r
    return r


def cfacts(facts):
    return {canon(k): canon(v) if isinstance(v, T) else (v[0], canon(v[1])) if isinstance(v, tuple) and len(v) == 2 else v for k, v in facts.items()}


def fieldterm(t, i):
    if t.op == "agg" and i < len(t.a[2]):
        return t.a[2][i]
    if t.op == "upd":
        for step, v in t.a[1]:
            if step[0] == "f" and step[1] == i:
                return v
        return fieldterm(t.a[0], i)
    return T("fld", t, None, i)


def eqfact(facts, a, b):
    """What is known of a == b: True, False or None."""
    for k, v in facts.items():
        if k.op == "eq" and {k.a[0], k.a[1]} == {a, b} and v in (TRUE, FALSE):
            return v is TRUE
    v = facts.get(a)
    if isinstance(v, T) and v is b:
        return True
    v = facts.get(b)
    if isinstance(v, T) and v is a:
        return True
    return None


PARTIAL = ("str::starts_with", "str::ends_with", "str::contains")


def unclear(k):
    return k.op not in ("eq", "fld") and not (k.op == "call" and k.a[0] in PARTIAL)


def mentions(facts, x):
    return any(any(y is x for y in subterms(k)) for k in facts)


@prop("N03")
def n03(R, P, W):
    """Every path of the matching function, with what it knows besides loop items kept apart through its loops: it answers true only after the range's type
    is known to be `*` or equal to the offered type, likewise the subtype, after all of the range's parameters have been gone through, and with the UTF-8
    charset of the range known to be absent or present in the offered type; it answers false only when one of these is known to fail.  A turn of the
    parameter loop goes on to the next one only with the offered type's parameter of the same name known to have the same value."""
    # once with the parameter lookup as one step (what it does is N04's to say), once looking into it
    M = Media(P)
    best = None
    look = [P.short(k) for k in P.bodies if P.short(k) == P.short(M.match).rsplit("::", 1)[0] + "::param"]
    for hidden in ({*look}, set()):
        r = Report_like()
        matching(r, P, M, hidden)
        rank = (any(not o[0] for o in r.obs.values()) or any(r.counts.get(k, 0) < n for k, n in r.floors), len(r.undecided))
        if best is None or rank < best[0]:
            best = (rank, r)
        if rank == (False, 0):
            break
    R.merge(best[1].plain())
    for k, n in best[1].floors:
        R.floor(k, n)
    # the accessors give the parts they are named after
    for nm, (i, k, v) in M.field.items():
        R.ob("accessor:" + nm, i is not None, "%s gives %s" % (P.short(k), str(v)[:60]), P.where(k))


def matching(R, P, M, hidden):
    E = new_engine(P, cap=400)
    E.split_facts = E.find_facts = True
    E.opaque_fns |= hidden
    heads = []
    E.on_head = lambda fr, bb, s: heads.append((fr, bb, cfacts(s.facts)))
    outs = E.run(M.match)
    w = P.where(M.match)
    p0, p1 = T("par", 0), T("par", 1)
    star = S("*")
    f = {n: M.field[n][0] for n in ("essence", "basetype", "subtype")}
    if None in f.values() or M.utf8 is None or M.params is None:
        R.undec("fields", "the parts of a media type are not plain fields", w)
        return
    part = lambda p, n: fieldterm(p, f[n])
    plist = fieldterm(p1, M.params)
    u0, u1 = fieldterm(p0, M.utf8), fieldterm(p1, M.utf8)

    def known(facts, t):
        v = facts.get(t)
        return True if v is TRUE or v is I(1) else False if v is FALSE or v is I(0) else None

    def over(k):
        return any(y is plist for y in subterms(k))

    answers, loose = [], False
    for v, s in outs:
        R.count("outcomes")
        v, facts, turned = canon(E.snap(s, v)), cfacts(s.facts), False
        while v.op == "un" and v.a[0] == "Not":
            v, turned = v.a[1], not turned
        if v in (TRUE, FALSE):
            answers.append(((v is TRUE) != turned, facts))
        elif v.op in ("eq", "all", "any"):
            answers += [((x is TRUE) != turned, {**facts, v: x}) for x in (TRUE, FALSE)]
        else:
            loose = True
            R.undec("answer", "answers %s" % str(v)[:100], w)

    def iterated(facts):
        return any(k.op in ("exhausted", "active", "all", "any") and over(k) for k in facts)

    if not any(iterated(fa) for _, fa in answers) and any(k.op == "idx" and k.a[0] is plist for _, fa in answers for x in fa for k in subterms(x)):
        loose = True
        R.undec("loop", "the parameters are gone through in a way not understood", w)

    for v, facts in answers:
        if not facts and any(x[0] == M.match for x in E.capped):
            loose = True
            R.undec("answer", "paths joined", w)
            continue
        same = {}
        ess = eqfact(facts, part(p1, "essence"), part(p0, "essence"))
        for n in ("basetype", "subtype"):
            a, b = part(p1, n), part(p0, n)
            st, eq = eqfact(facts, a, star), eqfact(facts, a, b)
            same[n] = True if st or eq or ess else False if st is False and eq is False else None
        charset = known(facts, u1) is False or known(facts, u0) is True
        nocharset = known(facts, u1) is True and known(facts, u0) is False
        done = [k for k in facts if k.op == "exhausted" and over(k)]
        quant = {k: facts[k] is TRUE for k in facts if k.op in ("all", "any") and over(k) and facts[k] in (TRUE, FALSE)}
        turn = [k for k in facts if k.op == "active" and over(k)]
        if v:
            for n in ("basetype", "subtype"):
                key = "true:" + n
                if same[n]:
                    R.ob(key, True, "", w)
                elif same[n] is False:
                    R.ob(key, False, "%s answers true although the %ss differ" % (P.short(M.match), n), w)
                elif any(unclear(k) and {part(p1, n), part(p0, n)} <= set(subterms(k)) for k in facts):
                    R.undec(key, "the %s is compared in a way not understood" % n, w)
                else:
                    R.ob(key, False, "%s answers true without the %s of the range having been found to be * or equal" % (P.short(M.match), n), w)
            if charset:
                R.ob("true:charset", True, "", w)
            elif mentions(facts, u1) and known(facts, u1) is None:
                R.undec("true:charset", "the charset is compared in a way not understood", w)
            else:
                R.ob("true:charset", False, "%s answers true although the range may ask for charset=utf-8 and the offered type may not have it" % P.short(M.match), w)
            through = [k for k in done if not turn] + [k for k, x in quant.items() if x == (k.op == "all")]
            if through:
                cut = [k for k in through if adapters(k.a[0]) - {"src", "map", "enumerate", "rev", "copied", "cloned", "peekable"}]
                R.ob("true:params", len(cut) < len(through), "%s goes through a part of the range's parameters only" % P.short(M.match), w)
                for k in through:
                    if k.op in ("all", "any"):
                        bad = [x for x in k.a[1].a[0] if not agrees(x[0], x[1], k.op == "all", facts, M, hidden)]
                        R.ob("true:values", not bad, "%s takes a parameter of the range as met although the values differ or are not compared" % P.short(M.match), w)
                        R.count("predicates over the parameters")
            elif loose:
                R.undec("true:params", "gone through in a way not understood", w)
            else:
                R.ob("true:params", False, "%s answers true before all parameters of the range have been compared" % P.short(M.match), w)
        else:
            good = same["basetype"] is False or same["subtype"] is False or nocharset
            if not good and turn:
                # inside a turn: the values of the parameter must not be known to agree
                x = last(facts, plist)
                good = x is None or True not in agreement(facts, x, M, hidden)
            if not good and any(x != (k.op == "all") for k, x in quant.items()):
                good = True
            other = any(unclear(k) and {part(p1, n), part(p0, n)} <= set(subterms(k)) for n in ("basetype", "subtype") for k in facts)
            if good or not loose and not other:
                R.ob("false:reason", good, "%s answers false although nothing is known to differ" % P.short(M.match), w)
            else:
                R.undec("false:reason", "compared in a way not understood", w)
    n = 0
    for fr, bb, facts in heads:
        if not any(k.op == "active" and over(k) for k in facts):
            continue
        item = last(facts, plist)
        if item is None:
            continue
        n += 1
        value = [fieldterm(item, 1), fieldterm(fieldterm(item, 1), 0)]
        agree = agreement(facts, item, M, hidden)
        if True in agree:
            R.ob("turn", True, "", w)
        elif loose:
            R.undec("turn", "the answer is not decided in the loop", w)
        elif agree or any(mentions(facts, x) for x in value):
            R.ob("turn", False, "%s goes on to the next parameter although the values differ or are not compared" % P.short(M.match), w)
        else:
            R.ob("turn", False, "%s goes on to the next parameter without having compared this one's value" % P.short(M.match), w)
    R.count("turns of the parameter loop", n)
    if not loose:
        R.floor("outcomes", 4)


def agrees(v, inner, yes, outer, M, hidden):
    """A predicate's outcome that may count as met has compared the item's value."""
    v, neg = canon(v), False
    while v.op == "un" and v.a[0] == "Not":
        v, neg = v.a[1], not neg
    fa = {**outer, **cfacts(dict(inner))}
    item = T("chr")
    if v in (TRUE, FALSE):
        if ((v is TRUE) != neg) != yes:
            return True
        return True in agreement(fa, item, M, hidden)
    return v.op == "eq" and neg != yes and True in agreement({**fa, v: TRUE}, item, M, hidden)


def agreement(facts, item, M, hidden):
    """What is known of each comparison of the item's value with the offered type's value of that name."""
    out = []
    name = fieldterm(fieldterm(item, 0), 0)
    p0 = T("par", 0)
    for x in (fieldterm(item, 1), fieldterm(fieldterm(item, 1), 0)):
        for y in others(facts, x):
            sub = subterms(y)
            if any(z.op == "call" and z.a[0].rsplit("::", 2)[-2:] == h.rsplit("::", 2)[-2:] for z in sub for h in hidden):
                same = any(z.op == "call" and len(z.a) > 2 and z.a[1] is p0 and name in subterms(z.a[2]) for z in sub)
            elif any(z.op == "elem" for z in sub):
                same = any(z.op == "elem" and z.a[0] is fieldterm(p0, M.params) and eqfact(facts, fieldterm(fieldterm(z, 0), 0), name) for z in sub)
            elif plain(y).op == "str" and plain(y).a[0] == "utf-8":
                same = facts.get(fieldterm(p0, M.utf8)) in (TRUE, I(1)) and eqfact(facts, name, S("charset"))
            else:
                same = None
            out.append(eqfact(facts, x, y) if same else False if same is False else None)
    return out


def unnamed(v, facts, text, known, any_):
    """A predicate's outcome on an entry is `none` (of any) or `all` only for entries that do not have the name."""
    v, neg = canon(v), False
    while v.op == "un" and v.a[0] == "Not":
        v, neg = v.a[1], not neg
    fa = cfacts(dict(facts))

    def names(q):
        return q.op == "eq" and any(itempart(x, 0) for x in q.a) and any(x is text or eqfact(known, text, x) for x in q.a)
    if v in (TRUE, FALSE):
        if ((v is TRUE) != neg) == any_:
            return True
        return any(names(q) and fa[q] is FALSE for q in fa)
    return names(v) and neg != any_


def itemvalue(x):
    return itempart(x, 1)


def itempart(x, i):
    """Whether the term is that part of a predicate's item."""
    while x.op == "fld":
        if x.a[2] == i and x.a[0].op == "chr":
            return True
        x = x.a[0]
    return False


def last(facts, plist):
    """The item of the list that the path is at."""
    its = {x for k in facts for x in subterms(k) if x.op == "elem" and x.a[0] is plist}
    return max(its, key=lambda x: (str(x.a[1]) == "*", str(x.a[1])), default=None)


def others(facts, x):
    return [k.a[1] if k.a[0] is x else k.a[0] for k in facts if k.op == "eq" and x in (k.a[0], k.a[1])]


def adapters(it):
    out = set()
    while isinstance(it, T) and it.op in ("it", "adv"):
        if it.op == "adv":
            it = it.a[0]
            continue
        out.add(it.a[0])
        it = it.a[1]
    return out


def plain(t):
    """The text of a Cow/String/&str term without its wrapping."""
    while t.op == "agg" and t.a[0] == "Cow" and len(t.a[2]) == 1 or t.op == "agg" and t.a[0].endswith("Cow") and len(t.a[2]) == 1:
        t = t.a[2][0]
    return t


@prop("N04")
def n04(R, P, W):
    """Every construction of a media type in the crate, constants included: its essence is its type, a slash and its subtype.  No function writes to one of the
    three afterwards.  In the parser a parameter is added to the list only on paths that know no entry of the list to have that name, charset only with the
    UTF-8 mark known to be unset, and the mark is set only on paths that know no entry to be charset.  Looking a parameter up gives the UTF-8 charset exactly
    for charset with the mark set, otherwise the value of an entry of that name; removing clears exactly what looking up would have given."""
    M = Media(P)
    f = {n: M.field[n][0] for n in ("essence", "basetype", "subtype")}
    if None in f.values() or M.utf8 is None or M.params is None:
        R.undec("fields", "the parts of a media type are not plain fields", P.where(M.match))
        return
    where = [k for k in P.bodies if builds(P, k, M.adt)]
    R.count("functions and constants building a media type", len(where))
    R.floor("functions and constants building a media type", 30)

    def one(k):
        r = Report_like()
        E = new_engine(P, cap=4000)
        E.find_facts = True
        E.aggs, E.joined = [], []

        def agg(fr, st, adt, variant, ops, site):
            if adt == M.adt and fr.key == k:
                E.aggs.append(([canon(E.snap(st, o)) for o in ops], cfacts(st.facts)))
        E.on_agg = agg
        E.on_phi = lambda phi, v, st: E.joined.append((phi, canon(E.snap(st, v)), cfacts(st.facts)))
        try:
            outs = E.run(k)
        except Budget as e:
            r.undec(P.short(k), "too many paths in %s" % e, P.where(k))
            return r.plain()
        w = P.where(k)
        name = P.short(k).split("::")[-1]
        par = [x for x in (T("par", i) for i in range(len(P.defs[k].get("inputs") or ()))) ]
        for ops, facts in E.aggs:
            r.count("constructions")
            e, b, s = (plain(ops[f[n]]) for n in ("essence", "basetype", "subtype"))
            key = "essence:" + name
            src = {i: x for i, x in enumerate(ops)}
            if e.op == "str" and b.op == "str" and s.op == "str":
                r.ob(key, e.a[0] == b.a[0] + "/" + s.a[0], "%s builds the media type %s with the parts %s and %s" % (P.short(k), e.a[0], b.a[0], s.a[0]), w)
            elif e.op == "cat":
                parts = [strip(y) for x in e.a for y in (x if isinstance(x, tuple) else (x,))]
                want = [b, S("/"), s]
                flat = flatten(parts)
                r.ob(key, flat == flatten(want), "%s builds a media type whose essence is %s and whose parts are %s and %s" % (P.short(k), str(e)[:60], str(b)[:40], str(s)[:40]), w)
            elif all(any(x is fieldterm(root, f[n]) for root in roots(x)) for x, n in ((ops[f["essence"]], "essence"), (ops[f["basetype"]], "basetype"), (ops[f["subtype"]], "subtype"))):
                r.ob(key, len(set.intersection(*[roots(ops[f[n]]) for n in f])) > 0, "%s puts the parts of different media types together" % P.short(k), w)
            else:
                r.undec(key, "essence %s" % str(e)[:80], w)
            # constants have no parameters besides the mark
        # parameters
        if not any(ops[M.params].op in ("phi", "vpush") for ops, fa in E.aggs):
            return r.plain()
        into = {}
        for phi, v, fa in E.joined:
            into.setdefault(phi, []).append((v, fa))
        lists, marks = closure({ops[M.params] for ops, fa in E.aggs}, into), closure({ops[M.utf8] for ops, fa in E.aggs}, into)
        done = set()
        # loops over the list of our own making: what they find out is not followed
        loose = any(k.op in ("active", "exhausted") and any(y in lists for y in subterms(k)) for vs in into.values() for v, fa in vs for k in fa)
        if loose:
            r.undec("unique:" + name, "the list is searched in a way not understood", w)
            return r.plain()
        for p in lists:
            for v, fa in into.get(p, ()):
                x = v
                base = None
                if v.op == "vpush":
                    base, item = v.a[0], v.a[1]
                elif v.op == "agg" and v.a[0] == "vec" and len(v.a[2]) == 1:
                    base, item = None, v.a[2][0]
                elif v.op == "agg" and v.a[0] == "vec" and not v.a[2] or v.op == "phi":
                    continue
                else:
                    r.undec("unique:" + name, "the list of parameters becomes %s" % str(v)[:80], w)
                    continue
                r.count("parameter additions")
                nm = fieldterm(fieldterm(item, 0), 0)
                text = plain(nm)
                if base is not None:
                    guard = absent(fa, base, text)
                    if guard is None:
                        r.ob("unique:" + name, False, "%s adds a parameter without knowing that the list has none of that name" % P.short(k), w)
                    elif guard == "?":
                        r.undec("unique:" + name, "guarded in a way not understood", w)
                    else:
                        r.ob("unique:" + name, True, "", w)
                if eqfact(fa, text, S("charset")) is not False:
                    unset = any(fa.get(m) is FALSE or fa.get(m) is I(0) for m in marks)
                    r.ob("unique:charset", unset or not after_mark(fa, marks, into), "%s adds a charset although the UTF-8 mark may be set" % P.short(k), w)
        for m in marks:
            for v, fa in into.get(m, ()):
                if v is not TRUE and v is not I(1):
                    continue
                r.count("settings of the UTF-8 mark")
                cs = {x for x in fa if isinstance(fa[x], T) and fa[x] is S("charset")}
                later = [p for p in lists if any(any(y is p for y in subterms(x)) for x in fa)]
                good = any(absent(fa, b, t) is True for b in lists | {None} for t in cs | {S("charset")})
                # in the first turn of the loop the list is still empty
                first = all(p not in entering(fa, lists) for p in lists) and not later and emptied(fa)
                if good:
                    r.ob("unique:mark", True, "", w)
                elif first:
                    continue
                else:
                    r.ob("unique:mark", False, "%s sets the UTF-8 mark although the list may hold a charset" % P.short(k), w)
        return r.plain()

    def closure(start, into):
        seen, todo = set(), [x for x in start if x.op == "phi"]
        while todo:
            p = todo.pop()
            if p in seen:
                continue
            seen.add(p)
            for v, fa in into.get(p, ()):
                x = v.a[0] if v.op == "vpush" else v
                if x.op == "phi":
                    todo.append(x)
        return seen

    def absent(fa, base, text):
        """True if the facts say that no entry of the list has this name, "?" if they say something about the two, None if nothing."""
        some_ = None
        for k, v in fa.items():
            if k.op not in ("any", "all"):
                if base is not None and k.op in ("exhausted", "discr", "eq", "call") and any(y is base for y in subterms(k)) and any(y is text for y in subterms(k)):
                    some_ = "?"
                continue
            sub = subterms(k)
            if base is not None and not any(y is base for y in subterms(k.a[0])) or base is None and any(y.op == "phi" for y in subterms(k.a[0])):
                continue
            if v is (FALSE if k.op == "any" else TRUE) and k.a[1].op == "pred" and all(unnamed(x[0], x[1], text, fa, k.op == "any") for x in k.a[1].a[0]):
                return True
            if k.a[1].op != "pred" and any(y is text for y in sub):
                some_ = "?"
        return some_

    def entering(fa, lists):
        return {p for p in lists if any(y is p for k in fa for y in subterms(k))}

    def emptied(fa):
        return any(k.op == "any" and v is FALSE and not any(y.op == "phi" for y in subterms(k.a[0])) for k, v in fa.items())

    def after_mark(fa, marks, into):
        """Whether this path may follow a turn that set the mark."""
        return any(any(y in marks for y in subterms(k)) for k in fa) or not emptied(fa) or any(
            k.op == "any" and any(y.op == "phi" for y in subterms(k.a[0])) for k in fa)

    for d in pmap(one, where):
        R.merge(d)

    # lookup and removal
    base = P.short(M.match).rsplit("::", 1)[0]
    p0 = T("par", 0)
    mark, plist = fieldterm(p0, M.utf8), fieldterm(p0, M.params)
    for nm, removing in (("param", False), ("remove_param", True)):
        ks = [k for k in P.bodies if P.short(k) == base + "::" + nm]
        if len(ks) != 1:
            raise MissingAnchor(base + "::" + nm)
        k = ks[0]
        E = new_engine(P, cap=200)
        E.split_facts = True
        for v, s in E.run(k):
            v = canon(E.snap(s, v))
            w = P.where(k)
            R.count("outcomes of lookup and removal")
            fa = cfacts(s.facts)
            cs = [x for x in fa if fa[x] is S("charset") or x.op == "eq" and S("charset") in x.a and fa[x] is TRUE]
            ncs = [x for x in fa if x.op == "eq" and S("charset") in x.a and fa[x] is FALSE]
            on = fa.get(mark) in (TRUE, I(1))
            off = fa.get(mark) in (FALSE, I(0))
            m = s.env.get(("H", p0))
            m = canon(E.snap(s, m)) if m is not None else p0
            if v.op == "agg" and v.a[1] == "Some":
                x = v.a[2][0]
                if strconst(x) is not None:
                    R.ob(nm + ":mark", strconst(x) == "utf-8" and bool(cs) and on, "%s gives %r on a path where the name is not known to be charset with the UTF-8 mark set" % (P.short(k), strconst(x)), w)
                    if removing:
                        R.ob(nm + ":clears", fieldterm(m, M.utf8) in (FALSE, I(0)), "%s leaves the UTF-8 mark set" % P.short(k), w)
                        R.ob(nm + ":keeps", fieldterm(m, M.params) is plist, "%s changes the other parameters" % P.short(k), w)
                else:
                    R.ob(nm + ":value", bool(ncs) or off, "%s gives an entry of the list on a path where charset may be asked for and the UTF-8 mark may be set" % P.short(k), w)
                    el = {y for y in subterms(x) if y.op == "elem"}
                    named = [q for q in fa if q.op == "eq" and fa[q] is TRUE and any(y in el for y in subterms(q))]
                    if el:
                        R.ob(nm + ":name", bool(named), "%s gives an entry whose name has not been compared" % P.short(k), w)
                        R.ob(nm + ":part", any(any(y is fieldterm(z, 1) for y in subterms(x)) for z in el) or removing, "%s does not give the value of the entry" % P.short(k), w)
                    else:
                        R.undec(nm + ":name", "gives %s" % str(x)[:80], w)
                    if removing:
                        R.ob(nm + ":clears", fieldterm(m, M.params) is not plist, "%s leaves the entry in the list" % P.short(k), w)
                        R.ob(nm + ":keeps", fieldterm(m, M.utf8) is mark, "%s changes the UTF-8 mark" % P.short(k), w)
            elif v is NONE or v.op == "agg" and v.a[1] == "None":
                R.ob(nm + ":none", not (cs and on) and (bool(ncs) or off), "%s gives nothing on a path where charset may be asked for and the UTF-8 mark may be set" % P.short(k), w)
                if removing:
                    R.ob(nm + ":keeps", m is p0 or only_matching(m, M, p0), "%s changes the media type although nothing was found" % P.short(k), w)
            else:
                R.undec(nm + ":shape", "gives %s" % str(v)[:80], w)
    R.floor("outcomes of lookup and removal", 6)
    R.floor("constructions", 30)


def only_matching(m, M, p0):
    """Nothing but a removal of the entries that do not pass a test has changed the media type."""
    x = fieldterm(m, M.params)
    return fieldterm(m, M.utf8) is fieldterm(p0, M.utf8) and x.op == "mut" and x.a[0] == "Vec::retain"


def roots(t):
    out = set()
    while t.op in ("fld", "vfld", "proj", "field") and isinstance(t.a[0], T):
        t = t.a[0]
        out.add(t)
    return out or {t}


def strip(t):
    while t.op == "disp":
        t = t.a[2]
    return plain(t)


def flatten(xs):
    out = []
    for x in xs:
        if x.op == "cat":
            out += flatten([strip(z) for y in x.a for z in (y if isinstance(y, tuple) else (y,))])
        elif x.op == "str" and out and out[-1].op == "str":
            out[-1] = S(out[-1].a[0] + x.a[0])
        else:
            out.append(x)
    return out

"""I01 iterators, H03 atomic insertion, H04 no empty entries, H01/H02 checked names and values."""
from checks import prop
from checks.headers import Report_like
from checks.compat import successors
from checks.messages import fields
from lib import *

SELECT = ("filter", "filter_map", "take", "skip", "take_while", "skip_while", "step_by", "map_while", "last", "nth", "zip", "chain", "flat_map", "dedup", "peekable", "cycle")
COLL = ("alloc::vec::Vec", "std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet")


def last(n):
    return str(n).split("::")[-1]


def iterators(P):
    """{iterator adt path: {method name: key}} of the local Iterator implementations."""
    out = {}
    for k, d in P.defs.items():
        if k in P.bodies and d.get("name") in ("next", "size_hint", "next_back", "nth", "count", "fold", "last", "len") and d.get("self_ty") is not None and \
                str(d.get("impl_trait")).split("::")[-1] in ("Iterator", "ExactSizeIterator", "DoubleEndedIterator"):
            t = P.ty(d["self_ty"])
            if t[0] == "adt":
                out.setdefault(t[1], {})[d["name"]] = k
    return out


def known(E, s, t):
    """The integer a term is known to be, a tuple of excluded values, or None."""
    b = E.known(s, t)
    if b is None:
        b = s.facts.get(t)
    return num(b)


def num(b):
    if isinstance(b, T):
        return b.a[0] if b.op == "int" else None
    if isinstance(b, tuple):
        return ("!", frozenset(num(x) for x in b[1]))
    return b


def facts_of(s):
    return [(f, num(b)) for f, b in s.items()]


def peel(x):
    """The value behind references."""
    while x.op == "ref" and len(x.a) == 1:
        x = x.a[0]
    return x


def is_field(t, base=None):
    return t.op == "fld" and (base is None or t.a[0] is base)


def final(E, s, *proj):
    return E.snap(s, E.read(s, ("H", T("par", 0)), tuple(("f", i, None) for i in proj)))


def lenof(E, f, it):
    """Terms denoting the number of items the inner iterator `it` still has."""
    return {T("call", "ExactSizeIterator::len", it), T("len", it), T("call", "Iterator::len", it)}


def simple_iter(P, R, adt, ms, name):
    """next and size_hint of a type that wraps one standard iterator."""
    p0 = T("par", 0)
    E = new_engine(P, hooks=False)
    outs = E.run(ms["next"])
    src = set()
    some_out = False
    for v, s in outs:
        v = E.snap(s, v)
        for v in E.flat(v):
            if v is NONE:
                ended = [f.a[0] for f, b in facts_of(s.facts) if f.op in ("exhausted", "ended") and b == 1]
                good = any(x.op == "fld" and x.a[0] is p0 for x in ended)
                if good or any(x.op != "fld" for x in ended):
                    R.ob(name + ":end", good, "next of %s ends without its inner iterator having ended" % name, P.where(ms["next"]))
                else:
                    R.ob(name + ":end", False, "next of %s can end while its inner iterator still has items" % name, P.where(ms["next"]))
            elif v.op == "agg" and v.a[1] == "Some":
                some_out = True
                xs = [x for x in subterms(v.a[2][0], E) if x.op == "elem" and x.a[0].op == "fld" and x.a[0].a[0] is p0]
                if not xs:
                    R.ob(name + ":item", False, "next of %s yields %s, which is not an item of its inner iterator" % (name, str(v)[:120]), P.where(ms["next"]))
                    continue
                f = xs[0].a[0]
                src.add(f)
                R.ob(name + ":item", True, "", P.where(ms["next"]))
                R.ob(name + ":first", all(x.a[1] in (0, I(0)) for x in xs), "next of %s yields %s: the items before it are lost" % (name, str(v)[:120]), P.where(ms["next"]))
                cur = final(E, s, f.a[2])
                if cur.op == "adv" and cur.a[0] is f:
                    R.ob(name + ":step", cur.a[1] == 1, "next of %s takes %s items from its inner iterator for one item yielded" % (name, cur.a[1]), P.where(ms["next"]))
                elif cur is f:
                    R.ob(name + ":step", False, "next of %s yields an item without moving on" % name, P.where(ms["next"]))
                else:
                    R.undec(name + ":step", "final state of the inner iterator not recognised: %s" % str(cur)[:120])
            else:
                R.undec(name + ":outcome", "outcome of next not recognised: %s" % str(v)[:120])
    R.ob(name + ":yields", some_out, "next of %s never yields anything" % name, P.where(ms["next"]))
    for fn in ("size_hint", "len", "count"):
        if fn in ms:
            hint(P, R, name, ms[fn], src, fn)


def hint(P, R, name, key, src, fn):
    E = new_engine(P, hooks=False)
    for v, s in E.run(key):
        for v in E.flat(E.snap(s, v)):
            k = "%s:%s" % (name, fn)
            w = P.where(key)
            if v.op == "call" and last(v.a[0]) in ("size_hint", "len", "count") and len(v.a) == 2:
                R.ob(k, v.a[1] in src, "%s of %s reports on something other than the iterator next reads" % (fn, name), w)
                continue
            if v.op == "agg" and len(v.a[2]) == 2:
                lo, up = v.a[2]
                exact = set()
                for f in src:
                    exact |= lenof(E, f, f)
                los = {T("fld", T("call", "Iterator::size_hint", f), None, 0) for f in src} | exact
                ups = {T("fld", T("call", "Iterator::size_hint", f), None, 1) for f in src}
                if lo == I(0) or lo in los:
                    R.ob(k + ":lower", True, "", w)
                elif lo.op == "int" or lo.op == "bin" and lo.a[0] in ("Add", "Mul") and any(x in los for x in lo.a[1:] if isinstance(x, T)):
                    R.ob(k + ":lower", False, "%s of %s promises at least %s items, which its inner iterator need not have" % (fn, name, lo), w)
                else:
                    R.undec(k + ":lower", "lower bound not recognised: %s" % str(lo)[:100])
                if up is NONE or up in ups or up.op == "agg" and up.a[1] == "Some" and up.a[2][0] in exact:
                    R.ob(k + ":upper", True, "", w)
                elif up.op == "agg" and up.a[1] == "Some" and (up.a[2][0].op == "int" or up.a[2][0].op == "bin" and up.a[2][0].a[0] in ("Sub", "Div", "Shr") or up.a[2][0].op == "call" and "saturating_sub" in str(up.a[2][0].a[0])
                                                               or up.a[2][0] in los - exact):
                    R.ob(k + ":upper", False, "%s of %s promises at most %s items, and its inner iterator may have more" % (fn, name, up.a[2][0]), w)
                else:
                    R.undec(k + ":upper", "upper bound not recognised: %s" % str(up)[:100])
                continue
            R.undec(k, "result not recognised: %s" % str(v)[:100])
    R.ob("%s:%s:total" % (name, fn), not [p for p in E.panics if "unwrap" in str(p.kind) or "panic" in str(p.kind)], "%s of %s can panic" % (fn, name), P.where(key))


def enum_iter(P, R, adt, ms, name):
    """A type whose state is one enum: the bounds given in each state are compared with the states next goes through."""
    p0 = T("par", 0)
    st_f = T("fld", p0, None, 0)
    ft = fields(P, adt)[0][2]
    en = ft[1]
    names = [v["name"] for v in P.adts[en]["variants"]]
    E = new_engine(P, hooks=False)
    nxt = {}
    for v, s in E.run(ms["next"]):
        v = E.snap(s, v)
        i = known(E, s, T("discr", st_f))
        cands = [i] if isinstance(i, int) else [j for j in range(len(names)) if not (isinstance(i, tuple) and j in i[1])]
        fin = final(E, s, 0)
        for j in cands:
            to = names.index(fin.a[1]) if fin.op == "agg" and fin.a[0] == en else j if fin is st_f else None
            nxt.setdefault(j, set()).add((v.a[1] if v.op == "agg" else None, to))
    count = {}

    def remaining(j, seen=()):
        if j in seen:
            return None
        r = set()
        for what, to in nxt.get(j, ()):
            if what == "None":
                r.add(0)
            elif what == "Some" and to is not None:
                m = remaining(to, seen + (j,))
                if m is None:
                    return None
                r |= {x + 1 for x in m}
            else:
                return None
        return r
    E = new_engine(P, hooks=False)
    hints = {}
    for v, s in E.run(ms["size_hint"]):
        v = E.snap(s, v)
        i = known(E, s, T("discr", st_f))
        cands = [i] if isinstance(i, int) else list(range(len(names)))
        for j in cands:
            hints.setdefault(j, []).append(v)
    for j, nm in enumerate(names):
        rem = remaining(j)
        k = "%s:%s" % (name, nm)
        if not rem:
            R.undec(k, "number of items from state %s not determined" % nm)
            continue
        for v in hints.get(j, []):
            if v.op != "agg" or len(v.a[2]) != 2 or v.a[2][0].op != "int":
                R.undec(k, "bounds not recognised: %s" % v)
                continue
            lo, up = v.a[2]
            hi = None if up is NONE else up.a[2][0].a[0] if up.op == "agg" and up.a[2][0].op == "int" else "?"
            R.ob(k, lo.a[0] <= min(rem) and (hi is None or hi != "?" and hi >= max(rem)), "size_hint of %s in state %s says %s..%s, but %s item(s) follow" % (name, nm, lo.a[0], hi, sorted(rem)), P.where(ms["size_hint"]))


def list_of(t):
    """The Vec behind a term for a &HeaderValues or its contents."""
    return t.a[0] if t.op == "fld" and t.a[2] == 0 and t.a[1] is None else t


def got(t):
    """(list, index) of the lookup a term is the success of."""
    t = peel(t)
    if t.op == "fld" and t.a[1] == "Some":
        t = t.a[0]
        if t.op == "call" and last(t.a[0]) == "get" and len(t.a) == 3:
            return t.a[1], t.a[2]
    if t.op == "idx":
        return t.a[0], t.a[1]
    return None


def plus1(E, c):
    return I(c.a[0] + 1) if c.op == "int" else T("bin", "Add", c, I(1))


def cursor_iter(P, R, adt, ms, name):
    """Values: an outer iterator of lists, the list being read (slot) and the position within it (cursor)."""
    p0 = T("par", 0)
    ft = fields(P, adt)
    inner = [i for i, n, t in ft if t[0] == "adt" and t[1].endswith("option::Option") and "hash" in str(t)]
    slot = [i for i, n, t in ft if t[0] == "adt" and t[1].endswith("option::Option") and i not in inner]
    cur = [i for i, n, t in ft if t == ("usize",) or "usize" in str(t) and i not in inner + slot]
    if not (len(inner) == len(slot) == len(cur) == 1):
        raise MissingAnchor("fields of %s (outer iterator, current list, position)" % name)
    inner, slot, cur = inner[0], slot[0], cur[0]
    w = P.where(ms["next"])
    E = new_engine(P, hooks=False)
    outs = E.run(ms["next"])

    def fget(x, i, v=None):
        return E.getstep(x, ("f", i, v))

    def state(s):
        x = s.env.get(("H", p0))
        return E.snap(s, x) if x is not None else p0
    yields = 0
    for v, s in outs:
        fin = state(s)
        base = fin
        while base.op == "upd":
            base = base.a[0]
        for v in E.flat(E.snap(s, v)):
            if v is NONE:
                bs = fget(base, slot)
                d = known(E, s, T("discr", bs))
                bi = fget(base, inner)
                di = known(E, s, T("discr", bi))
                done = di == 0 or any(f.op in ("exhausted", "ended") and b == 1 and any(x is bi or x is base for x in subterms(f.a[0], E)) for f, b in facts_of(s.facts))
                if d == 0:
                    R.ob(name + ":end", done, "next of %s ends although lists of values may follow" % name, w)
                else:
                    past = any(f.op == "discr" and b == 0 and f.a[0].op == "call" and last(f.a[0].a[0]) == "get" for f, b in facts_of(s.facts))
                    R.ob(name + ":end", done and past, "next of %s ends although %s" % (name, "the current list may have more values" if done else "lists of values may follow"), w)
                continue
            if v.op != "agg" or v.a[1] != "Some":
                R.undec(name + ":outcome", "outcome of next not recognised: %s" % str(v)[:120])
                continue
            yields += 1
            g = got(v.a[2][0])
            if g is None:
                R.undec(name + ":item", "item not recognised: %s" % str(v)[:160])
                continue
            L, c = g
            fs, fc = fget(fin, slot), fget(fin, cur)
            cont = fs.a[2][0] if fs.op == "agg" and fs.a[1] == "Some" else fget(fs, 0, "Some")
            same = list_of(L) is cont or L is cont or list_of(L) is peel(cont)
            R.ob(name + ":list", same, "next of %s yields a value of %s while the list it continues with is %s" % (name, str(L)[:80], str(cont)[:80]), w)
            if fc == plus1(E, c):
                R.ob(name + ":step", True, "", w)
            elif fc is c or fc.op == "int" and c.op == "int" or fc.op == "bin" and fc.a[1] is c and fc.a[2].op == "int" or fc.op == "int":
                R.ob(name + ":step", False, "next of %s yields the value at %s and continues at %s" % (name, str(c)[:60], str(fc)[:60]), w)
            else:
                R.undec(name + ":step", "position after yielding %s is %s" % (str(c)[:60], str(fc)[:60]))
            bs = fget(fget(base, slot), 0, "Some")
            if list_of(L) is bs or L is bs:
                R.ob(name + ":start", c is fget(base, cur), "next of %s reads the current list at %s instead of at its position" % (name, str(c)[:60]), w)
            else:
                xs = [x for x in subterms(L, E) if x.op == "elem"]
                R.ob(name + ":source", bool(xs) and all(x.a[1] == 0 for x in xs), "next of %s takes its list from %s" % (name, str(L)[:100]), w)
                if c.op == "int":
                    R.ob(name + ":start", c.a[0] == 0, "next of %s starts a new list at position %s" % (name, c.a[0]), w)
                elif any(x is fget(base, cur) or x is fget(p0, cur) for x in subterms(c, E)):
                    R.ob(name + ":start", False, "next of %s starts a new list at a position that depends on the one reached in the list before" % name, w)
                else:
                    R.undec(name + ":start", "start position %s" % str(c)[:80])
        for e in s.eff:
            if e.kind == "write" and e.args[0] is p0 and e.args[1] and e.args[1][-1][1] == slot and e.args[2] is NONE:
                past = [f for f, b in facts_of(e.facts) if f.op == "discr" and b == 0 and f.a[0].op == "call" and last(f.a[0].a[0]) == "get"] + \
                       [f for f, b in facts_of(e.facts) if f.op == "bin" and (f.a[0] in ("Lt", "Gt") and b == 0 or f.a[0] in ("Ge", "Le") and b == 1)]
                R.ob(name + ":drop", bool(past), "next of %s gives up the current list without having reached its end" % name, w)
    R.ob(name + ":yields", yields > 0, "next of %s never yields anything" % name, w)

    E = new_engine(P, hooks=False)
    key = ms["size_hint"]
    w = P.where(key)
    si, ss, sc = fget(p0, inner), fget(p0, slot), fget(p0, cur)
    iv, sv = fget(si, 0, "Some"), fget(ss, 0, "Some")
    lists = {sv, T("fld", sv, None, 0), fget(sv, 0)}

    def slotrem(t):
        return t.op in ("call", "saturating_sub") and "saturating_sub" in str((t.op,) + t.a) and any(x.op == "len" and x.a[0] in lists for x in subterms(t)) and any(x is sc for x in subterms(t)) or \
            t.op == "bin" and t.a[0] == "Sub" and t.a[1].op == "len" and t.a[1].a[0] in lists and t.a[2] is sc

    def innerlen(t):
        return any(x is iv for x in subterms(t)) and (t.op == "len" or t.op == "call" and last(t.a[0]) in ("len", "count") or t.op == "fld" and t.a[0].op == "call" and last(t.a[0].a[0]) == "size_hint")

    def parts(t):
        return parts(t.a[1]) + parts(t.a[2]) if t.op == "bin" and t.a[0] == "Add" else [t] if t != I(0) else []
    for v, s in E.run(key):
        for v in E.flat(E.snap(s, v)):
            k = name + ":size_hint"
            if v.op != "agg" or len(v.a[2]) != 2:
                R.undec(k, "result not recognised: %s" % str(v)[:100])
                continue
            lo, up = v.a[2]
            ds, di = known(E, s, T("discr", ss)), known(E, s, T("discr", si))
            p = parts(lo)
            good = len([x for x in p if slotrem(x)]) <= 1 and len([x for x in p if innerlen(x)]) <= 1 and all(slotrem(x) or innerlen(x) for x in p)
            if good or any(x.op == "int" for x in p) or len(p) > 1 and all(slotrem(x) or innerlen(x) for x in p) or any(x.op == "len" and x.a[0] in lists for x in p):
                R.ob(k + ":lower", good, "the lower bound %s of %s can exceed the number of values to come" % (str(lo)[:120], name), w)
            else:
                R.undec(k + ":lower", "lower bound not recognised: %s" % str(lo)[:120])
            if up is NONE:
                R.ob(k + ":upper", True, "", w)
                continue
            u = up.a[2][0] if up.op == "agg" and up.a[1] == "Some" else fget(up, 0, "Some")
            p = parts(u)
            noinner = di == 0 or any(isinstance(b, int) and f.op == "bin" and any(innerlen(x) for x in f.a[1:]) and
                                     (f.a[0] == "Le" and f.a[1] == I(1) and b == 0 or f.a[0] == "Eq" and b == 1 and I(0) in f.a[1:] or f.a[0] == "Lt" and f.a[1] == I(0) and b == 0 or
                                      f.a[0] in ("Gt", "Ne") and b == 0 and I(0) in f.a[1:]) for f, b in facts_of(s.facts)) or \
                any(innerlen(f) and b == 0 for f, b in facts_of(s.facts))
            covers = ds == 0 or any(slotrem(x) or x.op == "len" and x.a[0] in lists for x in p)
            if all(slotrem(x) or innerlen(x) or x.op in ("int", "len") for x in p):
                R.ob(k + ":upper", noinner, "the upper bound %s of %s counts lists, not the values in the lists still to come" % (str(u)[:120], name), w)
                R.ob(k + ":upper-slot", covers, "the upper bound %s of %s leaves out the values of the current list" % (str(u)[:120], name), w)
            else:
                R.undec(k + ":upper", "upper bound not recognised: %s" % str(u)[:120])


def whole_source(E, P, R, name, t, want, w):
    """t is a standard iterator over a whole collection field of self."""
    if t.op == "it":
        if t.a[0] == "src":
            root = t.a[1]
            x = root
            while x.op == "fld":
                x = x.a[0]
            ok = x is T("par", 0)
            R.ob(name + ":source", ok, "%s iterates over %s instead of the collection" % (name, str(root)[:80]), w)
            return root
        ad = last(t.a[0])
        R.ob(name + ":whole", not any(last(y) in SELECT for y in t.a if isinstance(y, str)), "%s iterates over a selection (%s) of the items" % (name, ad), w)
        for y in t.a:
            if isinstance(y, T):
                return whole_source(E, P, R, name, y, want, w)
    bad = [last(x.a[0]) for x in subterms(t, E) if x.op in ("it", "call") and isinstance(x.a[0], str) and last(x.a[0]) in SELECT]
    if bad or t.op in ("adv",):
        R.ob(name + ":whole", False, "%s iterates over a selection (%s) of the items" % (name, bad or "advanced iterator"), w)
    else:
        R.undec(name + ":source", "source not recognised: %s" % str(t)[:120])
    return None


class Turns:
    """Calls each(state, iterator) at the end of every turn of every loop driven by next()."""

    def __init__(self, E):
        self.E, self.next_at, self.each = E, {}, None
        E.on_item, E.on_head = self.item, self.head

    def item(self, fr, site, it, v, s):
        ctx, bb = fr.ctx, site[0]
        while True:
            self.next_at.setdefault((ctx, bb), set()).add(it)
            if ctx >= len(self.E.ctxinfo) or ctx < 0:
                return
            parent, st = self.E.ctxinfo[ctx]
            if not isinstance(parent, int) or parent < 0 or not isinstance(st, tuple) or len(st) < 2:
                return
            ctx, bb = parent, st[1]

    def head(self, fr, bb, s):
        blocks = fr.body["blocks"]
        heads = self.E.cfg(fr.body)[1]
        seen, todo, its = set(), [bb], set()
        while todo and len(seen) < 12 and not its:
            b = todo.pop(0)
            if b in seen or (b in heads and b != bb):
                continue
            seen.add(b)
            its = self.next_at.get((fr.ctx, b), set())
            todo.extend(successors(blocks[b]["t"]))
        for it in its:
            if any(f.op == "active" and b == 1 and it in (self.E.flat(f.a[0]) if f.a[0].op == "phi" else [f.a[0]]) for f, b in facts_of(s.facts)):
                self.each(s, it)


@prop("I01")
def i01(R, P, W):
    """Every local Iterator implementation is analysed in an arbitrary state. A wrapper around one standard iterator must end exactly when that iterator
    has ended, yield its next item (not a later one), move it by one, and give bounds that are the inner iterator's or weaker. The values iterator
    (current list, position, outer iterator) must yield the value at the position of the list it keeps, move the position by one, start new lists at 0, give
    a list up only past its end and end only when the outer iterator has, with bounds that never count lists as values. Finite enum iterators are
    compared state by state. Every function handing out one of these iterators over a collection must start it over the whole collection, with the same collection for
    the owned, borrowed and mutable form."""
    its = iterators(P)
    items = sorted(a for a in its if "next" in its[a])
    R.count("iterator types", len(items))
    R.floor("iterator types", 25)

    def one(adt):
        r = Report_like()
        ms = its[adt]
        name = P.short(ms["next"]).split(" as ")[0].lstrip("<") + "@" + adt.replace("http_types::", "").split("::" + last(adt))[0]
        ft = fields(P, adt)
        if len(ft) == 1 and ft[0][2][0] == "adt" and ft[0][2][1] in P.adts and P.adts[ft[0][2][1]]["enum"] and P.adts[ft[0][2][1]]["local"] and len(P.adts[ft[0][2][1]]["variants"]) > 1 and "size_hint" in ms:
            enum_iter(P, r, adt, ms, name)
        elif len(ft) == 1 or len([1 for i, n, t in ft if "usize" in str(t)]) == 0:
            simple_iter(P, r, adt, ms, name)
        elif len(ft) == 3:
            cursor_iter(P, r, adt, ms, name)
        else:
            r.undec(name, "iterator of unknown shape")
        return r.plain()
    for pl in pmap(one, items):
        R.merge(pl)

    ctors = []
    for k in sorted(P.bodies):
        d = P.defs[k]
        if d.get("name") in ("into_iter", "iter", "iter_mut", "names", "values") and d.get("self_ty") is not None and d.get("inputs"):
            ctors.append(k)

    def two(k):
        r = Report_like()
        E = new_engine(P, hooks=False)
        n = P.short(k)
        w = P.where(k)
        outs = E.run(k)
        r.ob(n + ":returns", bool(outs), "%s never returns" % n, w)
        roots = []
        for v, s in outs:
            for v in E.flat(E.snap(s, v)):
                if v.op == "agg" and v.a[0] in its and len(v.a[2]) == 3:
                    ft = fields(P, v.a[0])
                    vals = dict(zip([("inner" if "hash" in str(t) else "cursor" if "usize" in str(t) else "slot") for i, nm, t in ft], v.a[2]))
                    r.ob(n + ":position", vals["cursor"] == I(0), "%s starts at position %s" % (n, vals["cursor"]), w)
                    if vals["inner"] is NONE:
                        x = vals["slot"]
                        ok = x.op == "agg" and x.a[1] == "Some" and peel(x.a[2][0]) is T("par", 0)
                        r.ob(n + ":source", ok, "%s does not iterate over the list it is called on" % n, w)
                        if ok:
                            roots.append(T("par", 0))
                    else:
                        r.ob(n + ":slot", vals["slot"] is NONE, "%s starts inside list %s" % (n, str(vals["slot"])[:80]), w)
                        x = vals["inner"]
                        if x.op == "agg":
                            roots.append(whole_source(E, P, r, n, x.a[2][0], None, w))
                elif v.op == "agg" and v.a[0] in its and len(v.a[2]) == 1:
                    roots.append(whole_source(E, P, r, n, v.a[2][0], None, w))
                else:
                    roots.append(whole_source(E, P, r, n, v, None, w))
        d = P.defs[k]
        t = P.ty(d["self_ty"])
        while t[0] in ("ref", "&") or t[0] != "adt" and len(t) > 1 and isinstance(t[1], tuple):
            t = t[1]
        return r.plain(), (t[1] if t[0] == "adt" else None), [str(x) for x in roots if x is not None]
    by = {}
    n = 0
    for k, (pl, adt, roots) in zip(ctors, pmap(two, ctors)):
        R.merge(pl)
        n += 1
        for x in roots:
            by.setdefault(adt, {}).setdefault(x, []).append(k)
    for adt, d in sorted(by.items(), key=str):
        ks = {x for x in d if x != "$0" and not x.endswith("$0")}
        if adt and len(ks) > 1:
            R.ob("%s:one collection" % adt, False, "the iterators of %s go over different collections: %s" % (adt, {x: [P.short(k) for k in v] for x, v in d.items()}), P.where(list(d.values())[0][0]))
        else:
            R.ob("%s:one collection" % adt, True, "", "")
    R.count("functions handing out iterators", n)
    R.floor("functions handing out iterators", 50)


# ---------------------------------------------------------------- H03
HARMLESS = ("get_mut", "entry", "reserve", "shrink_to_fit", "iter_mut", "values_mut", "get", "try_reserve")
OPS = [("Headers", "insert", "insert"), ("Headers", "append", "append"), ("Headers", "remove", "remove"),
       ("Trailers", "insert", "insert"), ("Trailers", "append", "append"), ("Trailers", "remove", "remove"),
       ("Request", "insert_header", "insert"), ("Request", "append_header", "append"), ("Request", "remove_header", "remove"),
       ("Response", "insert_header", "insert"), ("Response", "append_header", "append"), ("Response", "remove_header", "remove")]


def map_path(P, ty):
    """The field steps from a value of this type to its HashMap of headers."""
    out = []
    adt = P.adt(ty)
    for _ in range(4):
        for i, n, t in fields(P, adt):
            if t[0] == "adt" and t[1].endswith("hash::map::HashMap"):
                return out + [i]
            if t[0] == "adt" and t[1].endswith("headers::Headers"):
                out, adt = out + [i], t[1]
                break
        else:
            raise MissingAnchor("header map inside %s" % ty)
    raise MissingAnchor("header map inside %s" % ty)


def changes(m):
    """([(operation, arguments)], the map before them), outermost first; operations that leave the entries as they are left out."""
    out = []
    while m.op == "mut":
        if last(m.a[0]) not in HARMLESS:
            out.append((m.a[0], m.a[2]))
        m = m.a[1]
    return out, m


def plainlist(E, t):
    """The list inside a HeaderValues term."""
    return E.getstep(t, ("f", 0, None))


def empty(E, s, t):
    """The list is known to be empty here."""
    if isvec(t) and not t.a[2]:
        return True
    for f, b in facts_of(s.facts):
        if f.op == "len" and f.a[0] is t and b == 0 or f.op == "bin" and f.a[0] == "Eq" and b == 1 and any(x.op == "len" and x.a[0] is t for x in f.a[1:]) and I(0) in f.a[1:] or \
                f.op == "call" and last(f.a[0]) == "is_empty" and f.a[1] is t and b == 1:
            return True
    return False


def isvec(t):
    return t.op == "agg" and t.a[0] in ("vec", "array")


def vparts(t):
    """The pieces a list term puts together: [('list', term) | ('item', term)] in order, or None."""
    if isvec(t):
        return [("item", x) for x in t.a[2]]
    if t.op == "vpush":
        a = vparts(t.a[0])
        return a + [("item", t.a[1])]
    if t.op == "vcat":
        return vparts(t.a[0]) + vparts(t.a[1])
    if t.op == "coll" and t.a[0].op == "it" and t.a[0].a[0] == "src" and (isvec(t.a[0].a[1]) or t.a[0].a[1].op in ("vpush", "vcat")):
        return vparts(t.a[0].a[1])
    return [("list", t)]


def grows(E, t, old, seen=None):
    """t is the list old with items added after it: True, False (old items missing or not first) or None (not recognised)."""
    seen = seen or set()
    if t in seen:
        return True
    if t.op == "phi":
        seen.add(t)
        r = [grows(E, x, old, seen) for x in E.incoming(t)]
        return False if False in r else None if None in r else True
    if t is old:
        return True
    if isvec(t) or t.op in ("vpush", "vcat"):
        p = vparts(t)
        if not p:
            return False
        if p[0][0] == "item":
            return False
        if p[0][1] is old:
            return True
        if p[0][1].op == "phi":
            return grows(E, p[0][1], old, seen)
        return False if any(x is old for k, x in p) else None
    return None


def is_map(m, m0):
    return changes(m)[1] is m0


def is_old(t, m0):
    """t is the list of values the map held before."""
    while t.op == "fld":
        t = t.a[0]
    if t.op == "call" and last(t.a[0]) in ("remove", "get", "get_mut", "take") and len(t.a) > 1:
        return is_map(t.a[1], m0)
    return t.op == "call" and "Entry" in str(t.a[0]) and any(x is m0 for x in subterms(t))


def same_value(E, val, loc):
    return val is loc or val.op == "upd" and all(E.getstep(loc, p[0] if isinstance(p[0], tuple) and isinstance(p[0][0], tuple) else p[0]) is p[1] for p in val.a[1]) if val.op != "upd" or val.a[0] is loc else False


def of_values(E, t, src, seen=None, m0=None):
    """Every item of the list t is an item of the values given: (True/False/None, reasons)."""
    seen = seen or set()
    bad = []
    for x in E.flat(t) if t.op == "phi" else [t]:
        for k, p in vparts(x):
            if k == "item":
                if not any(y is src for y in subterms(p, E)):
                    bad.append(str(p)[:80])
            elif p.op == "phi":
                if p not in seen:
                    seen.add(p)
                    bad += of_values(E, p, src, seen, m0)
            elif m0 is not None and is_old(p, m0):
                pass
            elif not any(y is src for y in subterms(p, E)):
                bad.append(str(p)[:80])
    return bad


def pushed(E, s, src):
    """An item of the values given has been put into some list in this state."""
    for c, v in s.env.items():
        for y in subterms(v):
            if (isvec(y) or y.op in ("vpush", "vcat")) and any(any(z is src for z in subterms(p)) for k, p in vparts(y) if k == "item"):
                return True
    return False


def h03_one(P, ty, fn, kind):
    r = Report_like()
    key = P.fn1(ty=ty, name=fn)
    n = "%s::%s" % (ty, fn)
    w = P.where(key)
    path = map_path(P, ty)
    E = new_engine(P, hooks=False)
    p0, p1, p2 = T("par", 0), T("par", 1), T("par", 2)
    m0 = p0
    for i in path:
        m0 = T("fld", m0, None, i)
    turns = Turns(E)

    def turn(st, it):
        srcs = [x for x in subterms(it) if x.op == "fld" and x.a[1] == "Ok" and x.a[0].op == "call" and last(x.a[0].a[0]) == "to_header_values"]
        if srcs:
            r.ob(n + ":each", pushed(E, st, srcs[0]), "%s leaves values out: there is a turn of its loop over the values that stores nothing" % n, w)
    turns.each = turn
    outs = E.run(key)
    r.ob(n + ":returns", bool(outs), "%s never returns" % n, w)
    src = None
    for v, s in outs:
        v = E.snap(s, v)
        m = E.snap(s, E.read(s, ("H", p0), tuple(("f", i, None) for i in path)))
        ch, base = changes(m)
        if base is not m0:
            b2 = base
            if b2.op == "phi":
                bases = {changes(x)[1] for x in E.flat(b2)}
                if bases == {m0} and all(not changes(x)[0] for x in E.flat(b2)):
                    base = m0
            if base is not m0:
                if ch or not any(x is m0 for x in subterms(base, E)):
                    r.ob(n + ":map", False, "%s replaces the header map as a whole: %s" % (n, str(base)[:120]), w)
                else:
                    r.undec(n + ":map", "final map not recognised: %s" % str(base)[:120])
                continue
        writes = []
        for c, val in s.env.items():
            if c[0] == "H" and c[1] is not p0 and any(y is m0 for y in subterms(c[1], E)):
                val = E.snap(s, val)
                if same_value(E, val, c[1]):
                    continue
                writes.append((c[1], val))
        # an old list is never empty (H04): a path that found it so cannot happen
        if any(k == "list" and is_old(p, m0) for x in lists(E, s) if empty(E, s, x) for k, p in vparts(x)[:1]):
            continue
        absent = [b for f, b in facts_of(s.facts) if f.op == "discr" and f.a[0].op == "call" and last(f.a[0].a[0]) in ("get_mut", "get", "remove") and is_map(f.a[0].a[1], m0)] + \
                 [b for f, b in facts_of(s.facts) if f.op == "call" and last(f.a[0]) == "contains_key"]
        for e in s.eff:
            if e.kind == "call" and "Entry::" in e.name and any(any(y is m0 for y in subterms(a, E)) for a in e.args if isinstance(a, T)):
                if last(e.name) in ("insert", "insert_entry", "or_insert", "or_insert_with"):
                    nm = [x.a[2] for a in e.args if isinstance(a, T) for x in subterms(a, E) if x.op == "call" and last(x.a[0]) == "entry" and len(x.a) == 3]
                    if nm and isinstance(e.args[-1], T):
                        ch = ch + [("Entry::insert", (nm[0], e.args[-1]))]
                        if "VacantEntry" in e.name:
                            absent = absent + [0]
                elif last(e.name) in ("remove", "remove_entry"):
                    ch = ch + [("Entry::remove", (e.args[0],))]
        if len(ch) == 2 and last(ch[1][0]) == "remove" and last(ch[0][0]) in ("insert", "remove") and ch[0][1][0] is ch[1][1][0]:
            ch = ch[:1]
        if v.op == "agg" and v.a[0] == RES and v.a[1] == "Err":
            r.ob(n + ":err", not ch and not writes, "%s fails after having changed the map (%s)" % (n, ", ".join([last(c[0]) for c in ch] + ["write to an entry" for x in writes])), w)
            continue
        res = v.a[2][0] if v.op == "agg" and v.a[0] == RES else v
        if kind == "remove":
            good = len(ch) == 1 and last(ch[0][0]) in ("remove",) and any(x is p1 for x in subterms(ch[0][1][0], E)) and res.op == "call" and last(res.a[0]) == "remove" and not writes
            if ch and last(ch[0][0]) == "remove_entry":
                r.undec(n + ":remove", "uses remove_entry")
                continue
            r.ob(n + ":remove", good, "%s does not take exactly the entry of the given name out of the map and return it: %s -> %s" % (n, [last(c[0]) for c in ch], str(res)[:80]), w)
            continue
        # which values were given
        srcs = [x for c, val in list(s.facts.items()) for x in subterms(c, E) if x.op == "fld" and x.a[1] == "Ok" and last(x.a[0].a[0] if x.a[0].op == "call" else "") == "to_header_values"]
        if not srcs:
            r.undec(n + ":values", "the values given are not read with to_header_values")
            continue
        src = srcs[0]
        r.ob(n + ":given", any(x is p2 for x in subterms(src, E)), "%s stores values other than those it was given" % n, w)
        done = any(f.op in ("exhausted", "ended") and b == 1 and any(x is src for x in subterms(f.a[0], E)) for f, b in facts_of(s.facts))
        opq = any(e.kind == "call" and any(x is src for a in e.args if isinstance(a, T) for x in subterms(a, E)) and last(e.name) in ("collect", "extend", "from_iter") for e in s.eff)
        r.ob(n + ":all", done or opq, "%s succeeds without having gone through all the values given" % n, w)
        sel = sorted({last(y) for f in list(s.facts) for x in subterms(f, E) if x.op == "it" for y in x.a if isinstance(y, str) and last(y) in SELECT and any(z is src for z in subterms(x, E))})
        r.ob(n + ":select", not sel, "%s stores only a selection (%s) of the values given" % (n, ", ".join(sel)), w)
        if len(ch) > 1:
            r.ob(n + ":once", False, "%s changes the map more than once: %s" % (n, [last(c[0]) for c in ch]), w)
            continue
        if len(ch) == 1:
            op, args = ch[0]
            nm = args[0]
            r.ob(n + ":name", any(x is p1 for x in subterms(nm, E)), "%s changes the entry %s instead of that of the given name" % (n, str(nm)[:80]), w)
            if last(op) == "insert":
                vals = plainlist(E, args[1])
                bad = of_values(E, vals, src, None, m0 if kind == "append" else None)
                r.ob(n + ":stored", not bad, "%s stores %s, which is not among the values given" % (n, bad[:2]), w)
                if kind == "append":
                    olds = [i for x in E.flat(vals) for i, (k, p) in enumerate(vparts(x)) if k == "list" and is_old(p, m0)]
                    r.ob(n + ":keep", 0 in absent or bool(olds), "%s replaces the values stored under the name" % n, w)
                    if olds:
                        r.ob(n + ":order", set(olds) == {0}, "%s does not put the new values after the old ones: %s" % (n, str(vals)[:160]), w)
                else:
                    r.ob(n + ":old", res.op == "call" and last(res.a[0]) == "insert", "%s does not hand back the values it replaces: %s" % (n, str(res)[:80]), w)
                r.ob(n + ":writes", not writes, "%s changes other entries too" % n, w)
            elif last(op) == "remove":
                em = any(empty(E, s, x) for x in list(lists(E, s))) or any(f.op == "ended" and b == 1 and f.a[1] in (0, I(0)) and any(x is src for x in subterms(f.a[0], E)) for f, b in facts_of(s.facts))
                r.ob(n + ":empty", em, "%s removes the entry although values were given" % n, w)
                if kind == "append":
                    r.ob(n + ":keep", 0 in absent, "%s removes the values stored under the name" % n, w)
                else:
                    r.ob(n + ":old", res.op == "call" and last(res.a[0]) == "remove", "%s does not hand back the values it replaces: %s" % (n, str(res)[:80]), w)
            elif last(op) in ("clear", "retain", "drain", "extend", "remove_entry"):
                r.ob(n + ":op", False, "%s uses %s on the map" % (n, last(op)), w)
            else:
                r.undec(n + ":op", "operation %s on the map" % op)
        elif writes:
            if kind == "insert":
                r.undec(n + ":writes", "stores through a reference into the map")
                continue
            for loc, val in writes:
                old = T("fld", loc, None, 0)
                new = E.getstep(val, ("f", 0, None))
                r.ob(n + ":name", any(x is p1 for x in subterms(loc, E)), "%s changes the entry %s instead of that of the given name" % (n, str(loc)[:80]), w)
                g = grows(E, new, old)
                if g is None:
                    r.undec(n + ":grow", "new list not recognised: %s" % str(new)[:120])
                else:
                    r.ob(n + ":grow", g, "%s does not put the new values after the old ones: %s" % (n, str(new)[:160]), w)
                tail = [(k, p) for x in E.flat(new) for k, p in vparts(x) if p is not old]
                bad = [b for k, p in tail for b in (of_values(E, p, src) if k == "list" else [] if any(y is src for y in subterms(p, E)) else [str(p)[:80]]) if p is not new]
                bad = [b for b in bad if not b.startswith(str(old)[:60])]
                r.ob(n + ":stored", not bad, "%s adds %s, which is not among the values given" % (n, bad[:2]), w)
        else:
            em = any(empty(E, s, x) for x in lists(E, s)) or any(f.op == "ended" and b == 1 for f, b in facts_of(s.facts))
            r.ob(n + ":effect", em, "%s succeeds without storing the values" % n, w)
    r.ob(n + ":reads", src is not None or kind == "remove", "%s does not read the values given" % n, w)
    return r.plain()


def lists(E, s):
    out = set()
    for f in s.facts:
        for x in subterms(f, None):
            if x.op in ("len",):
                out.add(x.a[0])
            elif x.op == "call" and last(x.a[0]) == "is_empty":
                out.add(x.a[1])
    return out


@prop("H03")
def h03(R, P, W):
    """insert, append and remove of Headers, Trailers, Request and Response are analysed down to the hash map. On a path that returns Err no operation that
    changes entries has been applied to the map and nothing has been written through a reference into it. A successful insert has gone through
    all values given, performs one HashMap::insert of a list built from them alone under the given name and returns its result (or, when no values were given, removes the
    entry and returns it). A successful append writes `old list, then the new values` to the entry found, or inserts the new list where there was none.
    remove takes out the entry of the given name and returns it. HeaderValues::append puts the other list's values after its own."""
    for pl in pmap(lambda o: h03_one(P, *o), OPS):
        R.merge(pl)
    R.count("map operations", len(OPS))
    key = P.fn1(ty="HeaderValues", name="append")
    E = new_engine(P, hooks=False)
    old, other = T("fld", T("par", 0), None, 0), T("fld", T("par", 1), None, 0)
    for v, s in E.run(key):
        new = E.snap(s, E.read(s, ("H", T("par", 0)), (("f", 0, None),)))
        p = vparts(new)
        if all(k == "list" for k, x in p) and {x for k, x in p} <= {old, other}:
            R.ob("HeaderValues::append", [x for k, x in p] == [old, other], "HeaderValues::append leaves %s" % str(new)[:120], P.where(key))
        else:
            R.undec("HeaderValues::append", "resulting list not recognised: %s" % str(new)[:120])


# ---------------------------------------------------------------- H04
def touches_lists(P, key, hv):
    """Whether a body builds a value list, stores into a map of them or can reach the vector inside one mutably."""
    if builds(P, key, hv):
        return True
    for i in P.bodies[key]["body"]["locals"]:
        t = str(P.ty(i))
        if "HeaderValue'" not in t and "HeaderValues'" not in t:
            continue
        ty = P.ty(i)
        if ty[0] == "ref" and "alloc::vec::Vec" in t and "HeaderValue'" in t and is_mutref(ty):
            return True
    for r in references(P, key):
        d = P.defs.get(r, {})
        if d.get("name") in ("insert", "entry", "or_insert", "or_insert_with", "extend") and "hash::map" in str(d.get("path")) and \
                any("HeaderValues'" in str(P.ty(i)) for i in P.bodies[key]["body"]["locals"]):
            return True
    return False


def is_mutref(ty):
    return ty[0] == "ref" and bool(ty[2] if len(ty) > 2 else False)


def holds_one(E, s, t, seen=None):
    """(True / False / None, why): does the list term t hold at least one value on this path?"""
    from engine import nonempty
    seen = seen if seen is not None else set()
    if t in seen:
        return True, ""
    if nonempty(t):
        return True, ""
    for f, b in facts_of(s.facts):
        if f.op == "len" and f.a[0] is t and (isinstance(b, tuple) and 0 in b[1] or isinstance(b, int) and b > 0):
            return True, ""
        if f.op == "bin" and any(isinstance(x, T) and x.op == "len" and x.a[0] is t for x in f.a[1:]) and I(0) in f.a[1:]:
            left = f.a[1] is I(0)
            if f.a[0] == "Eq" and b == 0 or f.a[0] == "Ne" and b == 1 or f.a[0] == ("Lt" if left else "Gt") and b == 1 or f.a[0] == ("Ge" if left else "Le") and b == 0:
                return True, ""
        if f.op == "call" and last(f.a[0]) == "is_empty" and f.a[1] is t and b == 0:
            return True, ""
    if t.op == "phi":
        seen.add(t)
        r = [holds_one(E, s, x, seen) for x in E.incoming(t)]
        for x in r:
            if x[0] is False:
                return x
        for x in r:
            if x[0] is None:
                return x
        return True, ""
    if isvec(t):
        return False, "it is an empty list"
    if t.op in ("vpush",):
        return True, ""
    if t.op == "vcat":
        r = [holds_one(E, s, x, seen) for x in t.a]
        if any(x[0] for x in r):
            return True, ""
        return r[0] if r[0][0] is False else r[1]
    if t.op == "fld":
        return True, ""         # the list inside an existing value list
    if t.op == "upd" and t.a[0].op in ("fld", "phi"):
        return True, ""
    if t.op == "mut" and isinstance(t.a[0], str):
        if last(t.a[0]) in ("push", "insert", "resize"):
            return True, ""
        if last(t.a[0]) in ("retain", "retain_mut", "clear", "pop", "truncate", "remove", "swap_remove", "drain", "split_off", "drain_filter", "extract_if", "set_len"):
            return False, "%s may leave no value" % last(t.a[0])
        return holds_one(E, s, t.a[1], seen)
    if t.op == "coll":
        it = t.a[0]
        while it.op == "it" and it.a[0] in ("map", "cloned", "copied", "enumerate", "rev", "inspect"):
            it = it.a[1]
        if it.op == "it" and it.a[0] == "src":
            return holds_one(E, s, it.a[1], seen) if it.a[1].op != "par" else (False, "the values given may be none")
        if it.op == "it" and it.a[0] in SELECT:
            return False, "it is a selection (%s)" % it.a[0]
        return None, str(t)[:80]
    if t.op == "par":
        return False, "the values given may be none"
    if t.op == "call" and last(t.a[0]) in ("clone", "to_owned", "to_vec", "into_iter", "into", "from") and len(t.a) == 2:
        return holds_one(E, s, t.a[1], seen)
    if t.op == "call" and last(t.a[0]) in ("new", "take", "default", "split_off", "drain", "without", "with_capacity"):
        return False, "%s may leave no value" % last(t.a[0])
    return None, str(t)[:80]


@prop("H04")
def h04(R, P, W):
    """Roots are the exported functions that build a value list, store one in a header map, or reach the vector inside one mutably (or call a private function that does). On every
    path, each list stored with HashMap::insert (or an entry), each list in the returned value and each vector written into an existing
    list is proved to hold a value: a literal with items, items pushed or joined on, the content of an existing list, or a list whose length
    was tested on that path."""
    hv = P.adt("HeaderValues")
    touch = {owner(P, k) for k in P.bodies if touches_lists(P, k, hv)}
    roots, todo, seen = set(), list(touch), set(touch)
    while todo:
        k = todo.pop()
        if P.defs[k].get("exported") or P.defs[k].get("impl_trait"):
            roots.add(k)
            continue
        for c in callers(P, k):
            c = owner(P, c)
            if c not in seen:
                seen.add(c)
                todo.append(c)
    R.count("functions that can make or change value lists", len(touch))
    R.count("roots", len(roots))
    R.floor("roots", 6)

    def one(k):
        r = Report_like()
        n = P.short(k)
        d = P.defs[k]
        if d.get("impl_trait") and d.get("self_ty") is not None:
            n = "%s<%s>" % (n, ", ".join(P.tystr(P.ty(x)) if P.ty(x)[0] not in ("param", "alias") else "_" for x in d.get("inputs", [])))
        w = P.where(k)
        E = new_engine(P, cap=40, hooks=False)
        try:
            outs = E.run_async(k) if d.get("async") else E.run(k)
        except Budget:
            r.undec(n, "too large")
            return r.plain()

        def judge(what, s, t):
            g, why = holds_one(E, s, t)
            if g is None:
                r.undec(n + ":" + what, why)
            else:
                r.ob(n + ":" + what, g, "%s: %s, and %s" % (n, {"stored": "it stores a value list that may hold no value", "result": "it returns a value list that may hold no value",
                                                                "left": "it leaves behind a value list that may hold no value"}[what], why), w)
        for v, s in outs:
            for e in s.eff:
                if e.kind == "call" and (e.name == "HashMap::insert" and len(e.args) == 3 or "Entry::" in e.name and last(e.name) in ("insert", "or_insert", "insert_entry")):
                    x = e.args[-1]
                    if isinstance(x, T) and ("HeaderValues" in str(x) or any("HeaderValues" in str(t) for t in e.tys)):
                        s2 = State({}, dict(e.facts))
                        judge("stored", s2, E.getstep(x, ("f", 0, None)))
            for c, fin in list(s.env.items()):
                if c[0] != "H" or not isinstance(c[1], T):
                    continue
                loc = c[1]
                lt = None
                if loc.op == "par" and loc.a[0] < len(d.get("inputs", [])):
                    lt = P.tystr(P.ty(d["inputs"][loc.a[0]]))
                if lt is None and (any(x.op == "call" and last(x.a[0]) in ("get_mut", "entry") for x in subterms(loc)) or any(x.op == "elem" for x in subterms(loc))) or lt and lt.endswith("HeaderValues"):
                    fin = E.getstep(E.snap(s, fin), ("f", 0, None))
                    if fin is not E.getstep(loc, ("f", 0, None)):
                        judge("left", s, fin)
            x = E.snap(s, v)
            for y in subterms(x, E):
                if y.op == "agg" and y.a[0] == hv:
                    judge("result", s, y.a[2][0])
        return r.plain()
    for pl in pmap(one, sorted(roots)):
        R.merge(pl)

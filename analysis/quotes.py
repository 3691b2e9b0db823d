"""Walks the text of a term through the states of a header reader: outside quotes, inside, and just after a backslash inside.

Every part that is not a literal and is written inside quotes is a sink: unless it is one character just after a backslash, it must be free of quotes and
backslashes (Flow decides that, from the facts of the path the part was written on)."""
from textflow import *

OUT, IN, ESC = 0, 1, 2
JOINS = ("slice::join", "slice::concat", "Vec::join", "Join::join", "Concat::concat")


def lit_step(q, s):
    for c in s:
        if q == OUT:
            q = IN if c == '"' else OUT
        elif q == IN:
            q = OUT if c == '"' else ESC if c == "\\" else IN
        else:
            q = IN
    return q


class Walk:
    def __init__(self, W, E, root, phifacts, collfacts, cache):
        self.W, self.E, self.P, self.phifacts, self.collfacts = W, E, W.P, phifacts, collfacts
        self.flow = Flow(W, E, root, False, phifacts, {}, cache)
        self.ends, self.changed, self.memo = {}, False, {}
        self.sinks, self.unk = {}, set()

    def text(self, t, facts):
        """End states of the text when reading starts outside quotes."""
        out = frozenset()
        for _ in range(40):
            self.changed, self.memo = False, {}
            out = self.walk(t, facts, OUT, 0)
            if not self.changed:
                return out
        self.unk.add("no fixpoint of the quote states")
        return out

    def many(self, t, facts, qs, d):
        out = set()
        for q in qs:
            out |= self.walk(t, facts, q, d)
        return out

    def walk(self, t, facts, q, d):
        k = (t, q, id(facts))
        r = self.memo.get(k)
        if r is None:
            if d > 200:
                self.unk.add("text nested too deeply")
                return {q}
            self.memo[k] = frozenset()
            r = self.memo[k] = frozenset(self.walk1(t, facts, q, d + 1))
        return r

    def walk1(self, t, facts, q, d):
        op = t.op
        if op == "str":
            return {lit_step(q, t.a[0])}
        if op == "bytes":
            return {lit_step(q, [chr(c) for c in t.a[0]])}
        if op == "int":
            return {lit_step(q, chr(t.a[0]))} if 0 <= t.a[0] < 0x110000 else {q}
        if op == "cat":
            qs = {q}
            for x in t.a[0]:
                qs = self.many(x, facts, qs, d)
            return qs
        if op == "phi":
            k = (t, q)
            have = self.ends.setdefault(k, set())
            if (k, "busy") in self.memo:
                return set(have)
            self.memo[(k, "busy")] = True
            n = len(have)
            for v in self.E.incoming(t):
                for f, x in self.flow.joined(t, v) or [(facts, v)]:
                    have |= self.walk(x, f, q, d)
            del self.memo[(k, "busy")]
            self.memo.pop((t, q, id(facts)), None)
            if len(have) != n:
                self.changed = True
            return set(have)
        if op == "disp":
            kind, n = t.a[0], t.a[3].split("<")[0].lstrip("&")
            if numeric(n):
                return {q if q != ESC else IN}
            if kind == "debug":
                return {q} if q == OUT else self.sink(t.a[2], facts, q)
            if n in ("str", "String", "Cow"):
                return self.walk(t.a[2], facts, q, d)
            if n == "char":
                return self.char(t.a[2], facts, q)
            return {q} if q == OUT else self.sink(t, facts, q)
        if op == "agg" and t.a[0] in ("vec", "array"):
            return self.items([(x, facts) for x in t.a[2]], None, facts, {q}, d)
        if op == "agg" and len(t.a[2]) == 1:
            return self.walk(t.a[2][0], facts, q, d)
        if op == "coll":
            return self.gathered(t, None, facts, {q}, d)
        if op == "call":
            n = t.a[0]
            if n in JOINS:
                sep = t.a[2] if len(t.a) > 2 else T("str", "")
                return self.list(t.a[1], sep, facts, {q}, d)
            if n in ("ascii_lower", "ascii_upper", "Cow::into_owned", "ToString::to_string"):
                return self.walk(t.a[1], facts, q, d)
            if n in ("str::replace", "str::replacen") and q == IN and n == "str::replace" and self.escaped(t, facts):
                return {IN}
        if q == OUT:
            if op not in ("par", "fld", "elem", "slice", "flt") and any(x.op == "str" and '"' in x.a[0] for x in subterms(t)) and op != "call":
                self.unk.add("text that is assembled in a way the rule does not follow: %s" % op)
            return {OUT}
        return self.sink(t, facts, q)

    def char(self, x, facts, q):
        if x.op == "int":
            return {lit_step(q, chr(x.a[0]))}
        if q == OUT:
            return {OUT}
        if q == ESC:
            return {IN}
        return self.sink(x, facts, q)

    def sink(self, t, facts, q):
        if q == ESC and t.op == "elem" and self.ischar(t):
            return {IN}
        self.sinks.setdefault(t, []).append(facts)
        return {IN}

    def ischar(self, t):
        x = t.a[0]
        while x.op == "it" and x.a[0] == "src":
            x = x.a[1]
        return x.op == "call" and x.a[0] in ("str::chars", "str::bytes", "String::chars")

    def escaped(self, t, facts):
        """replace(y, '"', an escaped quote) where no bare backslash is left in y."""
        x, pat, to = t.a[1], t.a[2], t.a[3]
        if not self.pat(pat, '"') or to.op != "str" or lit_step(IN, to.a[0]) != IN or '"' in to.a[0] and not to.a[0].startswith("\\"):
            return False
        if x.op == "call" and x.a[0] == "str::replace" and self.pat(x.a[2], "\\") and x.a[3].op == "str" and x.a[3].a[0] == "\\\\":
            return True
        return False

    def pat(self, p, c):
        return p.op == "int" and p.a[0] == ord(c) or p.op == "str" and p.a[0] == c

    # ------------------------------------------------------------ lists
    def list(self, l, sep, facts, qs, d):
        """End states after the items of a list, from each of the states before it."""
        op = l.op
        if op == "agg" and l.a[0] in ("vec", "array"):
            return self.items([(x, facts) for x in l.a[2]], sep, facts, qs, d)
        if op == "vpush":
            before = self.list(l.a[0], sep, facts, qs, d)
            mid = set(qs) | self.many(sep, facts, before, d)
            return self.many(l.a[1], facts, mid, d)
        if op == "vcat":
            before = self.list(l.a[0], sep, facts, qs, d)
            return self.list(l.a[1], sep, facts, set(qs) | self.many(sep, facts, before, d), d) | before
        if op == "phi":
            out = set()
            for q in qs:
                k = (l, q, "list", sep)
                have = self.ends.setdefault(k, set())
                if (k, "busy") not in self.memo:
                    self.memo[(k, "busy")] = True
                    n = len(have)
                    for v in self.E.incoming(l):
                        for f, x in self.flow.joined(l, v) or [(facts, v)]:
                            have |= self.list(x, sep, f, {q}, d)
                    del self.memo[(k, "busy")]
                    if len(have) != n:
                        self.changed = True
                out |= have
            return out
        if op == "coll":
            return self.gathered(l, sep, facts, qs, d)
        if op in ("par", "fld", "elem", "it"):
            out = set()
            for q in qs:
                out |= {q} if q == OUT else self.sink(l, facts, q)
            return out
        self.unk.add("a list that is assembled in a way the rule does not follow: %s" % op)
        return set(qs)

    def items(self, xs, sep, facts, qs, d):
        first = True
        for x, f in xs:
            if not first and sep is not None:
                qs = self.many(sep, f, qs, d)
            qs = self.many(x, f, qs, d)
            first = False
        return qs

    def gathered(self, c, sep, facts, qs, d):
        rec = self.collfacts.get(c) or [(x, facts) for x in c.a[1]]
        ordered = not self.nested(c.a[0])
        cur, out = set(qs), set(qs)
        for _ in range(8):
            new = set()
            for x, f in rec:
                new |= self.item(x, f, cur, ordered, d)
            nxt = new if sep is None else self.many(sep, facts, new, d)
            out |= new
            if nxt <= cur:
                break
            cur |= nxt
        return out

    def nested(self, it):
        while isinstance(it, T) and it.op in ("it", "adv"):
            if it.op == "it" and it.a[0] in ("flat_map", "flatten"):
                return True
            it = it.a[1] if it.op == "it" else it.a[0]
        return False

    def item(self, x, facts, qs, ordered, d):
        if x.op == "elem" and x.a[0].op == "agg" and local(self.P, x.a[0].a[0]):
            seq = self.emulate(x.a[0])
            if seq is not None:
                for y in seq:
                    qs = {r for q in qs for r in self.char(y, facts, q)}
                return qs
            self.unk.add("what the iterator %s yields" % x.a[0].a[0])
            return set(qs)
        if ordered:
            out = set()
            for q in qs:
                out |= self.char(x, facts, q) if x.op == "elem" and self.ischar(x) else self.walk(x, facts, q, d)
            return out
        # the items of an inner list, whose order is not known
        if x.op == "int" and chr(x.a[0]) in '"\\' or x.op == "str" and set('"\\') & set(x.a[0]) or x.op not in ("int", "str"):
            self.unk.add("the characters an inner list yields, in an order the rule does not follow")
        return set(qs)

    def emulate(self, agg):
        """The items a local iterator yields, in order, if every step has one outcome."""
        P = self.P
        ks = [k for k, dd in P.defs.items() if k in P.bodies and dd.get("name") == "next" and dd.get("self_ty") is not None and P.ty(dd["self_ty"])[:2] == ("adt", agg.a[0])]
        if len(ks) != 1:
            return None
        out = []
        root = ("H", T("par", 0))
        back, n = {}, [0]

        def hide(t):
            if t.op == "agg":
                return T("agg", t.a[0], t.a[1], tuple(hide(x) for x in t.a[2]))
            if t.op in ("int", "str"):
                return t
            n[0] += 1
            m = T("par", 1000 + n[0])
            back[m] = t
            return m
        cur = hide(agg)
        for _ in range(6):
            E = new_engine(P, hooks=False)
            res = E.run(ks[0], env={root: cur})
            if len(res) != 1:
                return None
            v, s = res[0]
            v = E.snap(s, v)
            if v.op != "agg":
                return None
            if v.a[1] == "None":
                return out
            y = v.a[2][0]
            out.append(back.get(y, y))
            cur = E.snap(s, E.read(s, root, ()))
        return None

"""Difference-bound reasoning over terms: decides x <= y + c from the facts of a path and the meaning of the operators.
A plain graph search over inequality edges with interval bounds; no solver."""
from engine import *

ZERO = I(0)
INF = float("inf")
U = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}
LEN_MAX = (1 << 63) - 1


class Prover:
    def __init__(self, E, facts=None, ascii=None, ranges=None):
        self.E = E
        self.facts = facts or {}
        self.up, self.down = {}, {}      # x -> [(y, w)]: x <= y + w ; x >= y + w
        self.ne = {}
        self.ranges = ranges or {}       # assumed value ranges of particular terms
        self.rmemo = {}
        self.busy = set()
        self.ascii = ascii
        for k, v in self.facts.items():
            self.index(k, v)

    # ---------------------------------------------------------------- facts
    def edge(self, x, y, w):
        """x <= y + w"""
        self.up.setdefault(x, []).append((y, w))
        self.down.setdefault(y, []).append((x, -w))

    def index(self, k, v):
        if isinstance(v, tuple):
            self.ne[k] = {x.a[0] for x in v[1] if x.op == "int"}
            return
        if v.op != "int":
            return
        n = v.a[0]
        if k.op == "bin" and k.a[0] in ("Lt", "Le"):
            x, y = k.a[1], k.a[2]
            if n:
                self.edge(x, y, -1 if k.a[0] == "Lt" else 0)
            else:
                self.edge(y, x, 0 if k.a[0] == "Lt" else -1)
        elif k.op == "bin" and k.a[0] == "Eq" or k.op == "eq":
            x, y = (k.a[1], k.a[2]) if k.op == "bin" else k.a[:2]
            if n:
                self.edge(x, y, 0)
                self.edge(y, x, 0)
        elif k.op not in ("discr", "ovf", "un", "eq"):
            self.edge(k, ZERO, n)
            self.edge(ZERO, k, -n)

    # ---------------------------------------------------------------- normal form
    def lin(self, t):
        c = 0
        while t.op == "bin" and t.a[0] in ("Add", "Sub") and t.a[2].op == "int":
            c += t.a[2].a[0] if t.a[0] == "Add" else -t.a[2].a[0]
            t = t.a[1]
        while t.op == "bin" and t.a[0] == "Add" and t.a[1].op == "int":
            c += t.a[1].a[0]
            t = t.a[2]
        if t.op == "int":
            return ZERO, c + t.a[0]
        return t, c

    # ---------------------------------------------------------------- intervals
    def rng(self, t):
        r = self.rmemo.get(t)
        if r is not None:
            return r
        if t in self.busy:
            return (-INF, INF)
        self.busy.add(t)
        try:
            r = self._rng(t)
            a = self.ranges.get(t)
            if a:
                r = (max(r[0], a[0]), min(r[1], a[1]))
            lo, hi = r
            for y, w in self.up.get(t, ()):
                if y.op == "int":
                    hi = min(hi, y.a[0] + w)
            for y, w in self.down.get(t, ()):
                if y.op == "int":
                    lo = max(lo, y.a[0] + w)
            ne = self.ne.get(t, ())
            while lo in ne:
                lo += 1
            while hi in ne:
                hi -= 1
            r = (lo, hi)
        finally:
            self.busy.discard(t)
        if not self.busy:
            self.rmemo[t] = r
        return r

    def tyrange(self, n):
        return int_range(n) if n in U or n in ("i8", "i16", "i32", "i64", "i128", "isize") else (-INF, INF)

    def _rng(self, t):
        op = t.op
        if op in ("int", "flt"):
            return (t.a[0], t.a[0])
        if op == "len":
            lo = 0
            return (lo, LEN_MAX)
        if op == "cast":
            if t.a[0] == "IntToInt":
                tr = self.tyrange(t.a[3])
                lo, hi = self.rng(t.a[1])
                sr = self.tyrange(t.a[2])
                lo, hi = max(lo, sr[0]), min(hi, sr[1])
                if lo >= tr[0] and hi <= tr[1]:
                    return (lo, hi)
                return tr
            if t.a[0] == "FloatToInt":
                return self.tyrange(t.a[3])
            return (-INF, INF)
        if op == "bin":
            k = t.a[0]
            if k in ("Add", "Sub", "Mul", "Div", "Rem"):
                (a, b), (c, d) = self.rng(t.a[1]), self.rng(t.a[2])
                ex = self.extra(k, t)
                if k == "Add":
                    r = (a + c, b + d)
                elif k == "Sub":
                    r = (a - d, b - c)
                elif k == "Mul":
                    try:
                        ps = [0 if 0 in (x, y) else x * y for x in (a, b) for y in (c, d)]
                        r = (min(ps), max(ps))
                    except Exception:
                        r = (-INF, INF)
                elif k == "Div":
                    if c > 0 and a >= 0:
                        r = (0 if d == INF else a // d if a != INF else 0, INF if b == INF else b // c)
                    else:
                        r = (-INF, INF)
                else:
                    if c > 0 and a >= 0:
                        r = (0, min(b, d - 1))
                    else:
                        r = (-INF, INF)
                return (max(r[0], ex[0]), min(r[1], ex[1]))
            return (0, 1) if k in ("Lt", "Le", "Eq") else (-INF, INF)
        if op in ("min", "max"):
            (a, b), (c, d) = self.rng(t.a[0]), self.rng(t.a[1])
            return (min(a, c), min(b, d)) if op == "min" else (max(a, c), max(b, d))
        if op == "saturating_sub":
            (a, b), (c, d) = self.rng(t.a[0]), self.rng(t.a[1])
            return (max(0, a - d), max(0, b - max(c, 0)))
        if op == "phi":
            rs = [self.rng(x) for x in self.E.incoming(t)]
            if not rs:
                return (-INF, INF)
            return (min(r[0] for r in rs), max(r[1] for r in rs))
        return self.leaf(t)

    def extra(self, k, t):
        """An arithmetic result known not to have wrapped is within its type."""
        for f, v in self.facts.items():
            if f.op == "ovf" and v is FALSE and f.a[0] == k and f.a[1] is t.a[1] and f.a[2] is t.a[2]:
                return self.tyrange(f.a[3])
        return (-INF, INF)

    def leaf(self, t):
        return (-INF, INF)

    # ---------------------------------------------------------------- x <= y + c
    def ups(self, x):
        """(y, w) with x <= y + w."""
        out = list(self.up.get(x, ()))
        op = x.op
        if op == "cast" and x.a[0] == "IntToInt":
            lo, hi = self.rng(x.a[1])
            if lo >= 0 or x.a[2] in U:
                out.append((x.a[1], 0))
        elif op == "min":
            out += [(x.a[0], 0), (x.a[1], 0)]
        elif op == "saturating_sub":
            out.append((x.a[0], 0))
        elif op == "bin":
            if x.a[0] == "Sub":
                lo = self.rng(x.a[2])[0]
                if lo != -INF:
                    out.append((x.a[1], -lo))
            elif x.a[0] == "Add":
                for p, q in ((1, 2), (2, 1)):
                    hi = self.rng(x.a[q])[1]
                    if hi != INF:
                        out.append((x.a[p], hi))
        return out + self.more_ups(x)

    def more_ups(self, x):
        return []

    def downs(self, y):
        """(x, w) with y >= x + w."""
        out = list(self.down.get(y, ()))
        op = y.op
        if op == "cast" and y.a[0] == "IntToInt":
            tr = self.tyrange(y.a[3])
            lo, hi = self.rng(y.a[1])
            sr = self.tyrange(y.a[2])
            if max(lo, sr[0]) >= tr[0] and min(hi, sr[1]) <= tr[1]:
                out.append((y.a[1], 0))
        elif op == "max":
            out += [(y.a[0], 0), (y.a[1], 0)]
        elif op == "bin" and y.a[0] == "Add":
            for p, q in ((1, 2), (2, 1)):
                lo = self.rng(y.a[q])[0]
                if lo != -INF:
                    out.append((y.a[p], lo))
        return out + self.more_downs(y)

    def more_downs(self, y):
        return []

    def le(self, x, y, c=0, depth=10, seen=None):
        x, a = self.lin(x)
        y, b = self.lin(y)
        c = c - a + b
        if x is y and c >= 0:
            return True
        if self.rng(x)[1] <= self.rng(y)[0] + c:
            return True
        # Sub(p,q) <= y + c  and  p <= y + q ...
        if x.op == "bin" and x.a[0] == "Sub" and y.op in ("bin", "saturating_sub"):
            if (y.op == "saturating_sub" or y.a[0] == "Sub"):
                yp, yq = (y.a[0], y.a[1]) if y.op == "saturating_sub" else (y.a[1], y.a[2])
                if yp is x.a[1] and yq is x.a[2] and c >= 0:
                    return True
        if depth <= 0:
            return False
        seen = seen or {}
        k = (x, y)
        if k in seen and seen[k] >= c:
            return False
        seen[k] = c
        for z, w in self.ups(x):
            if self.le(z, y, c - w, depth - 1, seen):
                return True
        for z, w in self.downs(y):
            if self.le(x, z, c + w, depth - 1, seen):
                return True
        if x.op == "phi" and self.E.incoming(x):
            sub = type(self)(self.E, {}, self.ascii, self.ranges)
            key = ("phi", x, y)
            if key in seen:
                return seen[key] <= c
            seen[key] = c
            if all(z is x or sub.le(z, y, c, depth - 1, dict(seen)) for z in self.E.incoming(x)):
                return True
        if x.op == "max":
            return all(self.le(z, y, c, depth - 1, dict(seen)) for z in x.a)
        if y.op == "min":
            return all(self.le(x, z, c, depth - 1, dict(seen)) for z in y.a)
        return False

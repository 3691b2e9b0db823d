"""Index, length and character-boundary obligations of text and lists: decides whether a possible panic can be reached on a path."""
from lib import *
from prove import Prover, ZERO, INF
import textflow

TRIMS = ("str::trim", "str::trim_start", "str::trim_end", "str::trim_matches", "str::trim_start_matches", "str::trim_end_matches")
FRONT = ("str::trim_end", "str::trim_end_matches")       # these keep the beginning of the text
SPLITS = ("str::split", "str::split_terminator", "str::splitn", "str::rsplit", "str::split_whitespace", "str::lines", "str::split_ascii_whitespace", "str::split_inclusive", "str::rsplitn")


def pat_len(p):
    """Least number of bytes a match of the pattern has; None when unknown."""
    if p.op == "str":
        return len(p.a[0].encode())
    if p.op == "int":
        return len(chr(p.a[0]).encode()) if 0 <= p.a[0] < 0x110000 and not 0xd800 <= p.a[0] < 0xe000 else 1
    if p.op == "agg" and p.a[0] == "array":
        return min([pat_len(x) or 0 for x in p.a[2]], default=0)
    if p.op == "bytes":
        return len(p.a[0])
    if p.op in ("fn", "pred") or p.op == "agg":
        return 1
    return 0


def pat_ascii(p):
    if p.op == "str":
        return p.a[0].isascii()
    if p.op == "int":
        return 0 <= p.a[0] < 128
    if p.op == "agg" and p.a[0] == "array":
        return all(pat_ascii(x) for x in p.a[2])
    return False


def one_byte(p):
    """A match is exactly one ASCII byte."""
    if p.op == "int":
        return 0 <= p.a[0] < 128
    if p.op == "agg" and p.a[0] == "array":
        return bool(p.a[2]) and all(one_byte(x) for x in p.a[2])
    return p.op == "str" and len(p.a[0]) == 1 and p.a[0].isascii()


class World:
    """What holds beyond one path: the paths that reach each join, value ranges, and lists that are never empty."""

    def __init__(self, E, phifacts=None, ranges=None, nonempty=None, ascii=None):
        self.E, self.phi = E, phifacts or {}
        self.ranges = ranges or {}
        self.nonempty = nonempty or (lambda t: False)
        self.ascii = ascii or (lambda t: False)


class Bounds(Prover):
    level = 0

    def __init__(self, E, facts, W, ranges=None):
        self.W = W
        self.bmemo = {}
        Prover.__init__(self, E, facts, W, dict(W.ranges) if ranges is None else ranges)
        for k, v in self.facts.items():
            self.text_fact(k, v)

    # ---------------------------------------------------------------- lengths from facts
    def at_least(self, t, n):
        if n:
            self.edge(ZERO, T("len", t), -n)

    def text_fact(self, k, v):
        if isinstance(v, tuple):
            if k.op not in CONST_OPS and any(x.op == "str" and x.a[0] == "" for x in v[1]):
                self.at_least(k, 1)
            return
        if v.op == "str" and k.op != "discr":
            n = len(v.a[0].encode())
            L = T("len", k)
            self.edge(L, ZERO, n)
            self.edge(ZERO, L, -n)
        if v.op == "bytes":
            L, n = T("len", k), len(v.a[0])
            self.edge(L, ZERO, n)
            self.edge(ZERO, L, -n)
        if v.op != "int":
            return
        yes = v.a[0] == 1
        c = k.a[0] if k.op == "discr" else k
        if c.op == "call" and len(c.a) >= 3 and isinstance(c.a[0], str):
            n = c.a[0].split("::")[-1]
            t, p = c.a[1], c.a[2]
            if yes and n in ("starts_with", "ends_with", "contains", "find", "rfind", "strip_prefix", "strip_suffix", "split_once", "rsplit_once"):
                self.at_least(t, pat_len(p) or 0)
            if yes and n == "get" and p.op == "agg" and p.a[2]:
                hi = p.a[2][-1]
                if str(p.a[0]).endswith(("Range", "RangeTo", "RangeFrom")):
                    self.edge(hi, T("len", t), 0)
                    if len(p.a[2]) == 2:
                        self.edge(p.a[2][0], hi, 0)
                elif str(p.a[0]).endswith(("RangeInclusive", "RangeToInclusive")):
                    self.edge(hi, T("len", t), -1)
            elif yes and n == "get":
                self.edge(p, T("len", t), -1)
            if yes and n == "is_char_boundary":
                self.edge(p, T("len", t), 0)
        if yes and k.op == "eq":
            for x, y in ((k.a[0], k.a[1]), (k.a[1], k.a[0])):
                if x.op in ("str", "bytes"):
                    m = len(x.a[0].encode() if x.op == "str" else x.a[0])
                    L = T("len", y)
                    self.edge(L, ZERO, m)
                    self.edge(ZERO, L, -m)
        if k.op == "ended" and v.a[0] == 0:
            # the iterator yielded an element: its source is not empty
            for t in self.chars_source(k.a[0]):
                self.at_least(t, 1)

    def chars_source(self, it):
        """The text or list behind a plain iterator."""
        while it.op == "it" and it.a[0] in ("src", "cloned", "copied", "rev", "peekable", "fuse", "enumerate"):
            it = it.a[1]
        if it.op == "ref":
            if not (isinstance(it.a[0], tuple) and it.a[0][0] == "H" and hasattr(it.a[0][1], "op")):
                return []
            v = it.a[0][1]
            for st in it.a[1]:
                v = self.E.getstep(v, st)
            return [v]
        if it.op == "call" and it.a[0] in ("str::chars", "str::char_indices", "str::bytes"):
            return [it.a[1]]
        if it.op in ("call", "phi", "adv"):
            return []
        return [it]

    # ---------------------------------------------------------------- lengths from structure
    def base_len(self, t):
        """[(u, lo, hi)]: len(u) + lo <= len(t) <= len(u) + hi (None: no bound)."""
        out = []
        if t.op == "call" and len(t.a) > 1:
            n = t.a[0]
            if n in TRIMS:
                out.append((t.a[1], None, 0))
            elif n in ("str::split_at.0", "str::split_at.1", "slice::split_at.0", "slice::split_at.1"):
                out.append((t.a[1], None, 0))
            elif n in ("Cow::as_ref", "String::as_str", "str::as_bytes", "str::bytes", "String::as_bytes", "str::as_str", "HeaderValue::as_str", "str::to_ascii_lowercase", "str::to_ascii_uppercase", "str::to_owned", "str::to_string"):
                out.append((t.a[1], 0, 0))
        elif t.op in ("ascii_lower", "ascii_upper", "lossy", "owned"):
            out.append((t.a[0], 0, 0))
        elif t.op == "slice":
            b, r = t.a[0], t.a[1]
            n = str(r.a[0]).split("::")[-1] if r.op == "agg" else ""
            if n == "RangeFrom":
                lo, hi = self.rng(r.a[2][0])
                out.append((b, None if hi == INF else -hi, None if lo == -INF else -lo))
            elif n in ("RangeTo", "Range"):
                out.append((b, None, 0))
        elif t.op == "fld" and t.a[0].op == "call":
            c = t.a[0]
            if c.a[0] in ("str::strip_prefix", "str::strip_suffix"):
                m = pat_len(c.a[2]) or 0
                out.append((c.a[1], -m if c.a[2].op in ("str", "int") else None, -m))
            elif c.a[0] == "str::get":
                out += self.base_len(T("slice", c.a[1], c.a[2]))
        elif t.op == "elem" and t.a[0].op == "call" and t.a[0].a[0] in SPLITS:
            out.append((t.a[0].a[1], None, 0))
        return out

    def more_ups(self, x):
        out = []
        if x.op == "len":
            out += [(T("len", u), hi) for u, lo, hi in self.base_len(x.a[0]) if hi is not None]
            r = self.window(x.a[0])
            if r is not None:
                out.append((r[1], -self.rng(r[0])[0] if self.rng(r[0])[0] > -INF else 0))
        if x.op == "cidx":
            out.append((T("len", x.a[0]), -1))
        if x.op == "fld" and x.a[0].op == "call" and x.a[0].a[0] in ("str::find", "str::rfind"):
            out.append((T("len", x.a[0].a[1]), -(pat_len(x.a[0].a[2]) or 0)))
        if x.op == "fld" and x.a[0].op == "call" and x.a[0].a[0] in ("Iterator::position", "slice::binary_search"):
            out.append((T("len", x.a[0].a[1]), -1))
        if x.op in ("posof", "ixof"):
            for t in self.chars_source(x.a[0]):
                out.append((T("len", t), -1))
        return out

    def more_downs(self, y):
        if y.op == "len":
            return [(T("len", u), lo) for u, lo, hi in self.base_len(y.a[0]) if lo is not None]
        return []

    def window(self, t):
        """(lo, hi) when t is base[lo..hi]."""
        if t.op == "fld" and t.a[0].op == "call" and t.a[0].a[0] == "str::get" and len(t.a[0].a) > 2:
            t = T("slice", t.a[0].a[1], t.a[0].a[2])
        if t.op == "slice" and t.a[1].op == "agg":
            n = str(t.a[1].a[0]).split("::")[-1]
            if n == "RangeTo":
                return ZERO, t.a[1].a[2][0]
            if n == "Range":
                return t.a[1].a[2][0], t.a[1].a[2][1]
        if t.op == "call" and t.a[0] in ("str::split_at.0", "slice::split_at.0"):
            return ZERO, t.a[2]
        return None

    def _rng(self, t):
        if t.op == "len":
            x = t.a[0]
            lo, hi = 0, (1 << 63) - 1
            if x.op in ("str", "bytes"):
                n = len(x.a[0].encode() if x.op == "str" else x.a[0])
                return (n, n)
            if x.op == "agg" and x.a[0] in ("array", "vec"):
                return (len(x.a[2]), len(x.a[2]))
            if self.W.nonempty(x):
                lo = 1
            w = self.window(x)
            if w is not None:
                (a, b), (c, d) = self.rng(w[0]), self.rng(w[1])
                lo, hi = max(lo, c - b if b < INF else lo), min(hi, d - a)
            for u, l, h in self.base_len(x):
                a, b = self.rng(T("len", u))
                if l is not None:
                    lo = max(lo, a + l)
                if h is not None:
                    hi = min(hi, b + h)
            if x.op == "phi" and self.level < 4:
                rs = [self.sub(x, v).rng(T("len", v)) for v in self.E.incoming(x) if v is not x]
                if rs:
                    lo, hi = max(lo, min(r[0] for r in rs)), min(hi, max(r[1] for r in rs))
            return (lo, hi)
        return Prover._rng(self, t)

    def leaf(self, t):
        if t.op == "cidx":
            lo, tag = 0, t.a[1]
            while isinstance(tag, tuple):
                if tag[0] == "skip" and len(tag) > 2 and tag[2].op == "int":
                    lo += tag[2].a[0]
                tag = tag[1]
            if isinstance(tag, int):
                lo += tag
            return (lo, (1 << 63) - 1)
        if t.op == "fld" and t.a[0].op == "call" and t.a[0].a[0] == "str::parse":
            ty = t.a[0].a[-1]
            n = ty.a[0] if ty.op == "ty" else None
            if n is not None:
                lo, hi = self.tyrange(n)
                most = self.rng(T("len", t.a[0].a[1]))[1]
                if most < 40:
                    lo, hi = max(lo, 1 - 10 ** most), min(hi, 10 ** most - 1)
                return (lo, hi)
        if t.op == "fld" and t.a[0].op == "call" and t.a[0].a[0] in ("str::find", "str::rfind", "Iterator::position"):
            return (0, (1 << 63) - 1)
        if t.op in ("posof", "ixof", "char_len", "count"):
            return (0, (1 << 63) - 1)
        if t.op == "par" or t.op == "fld":
            return self.ranges.get(t, (-INF, INF))
        return (-INF, INF)

    def sub(self, phi, v):
        """A prover for the paths that bring v into the join (the facts common to all of them)."""
        common = None
        for w, facts, w2 in self.W.phi.get(phi, ()):
            if w is v:
                fs = {k: x for k, x in facts.items()}
                common = fs if common is None else {k: x for k, x in common.items() if fs.get(k) is x or fs.get(k) == x}
        return self.child(common or {})

    def child(self, facts):
        b = type(self)(self.E, facts, self.W)
        b.busy = set(self.busy)
        b.level = self.level + 1
        return b

    def subs(self, phi, v):
        if self.level >= 4:
            return [self.child({})]
        fs = {tuple(sorted(map(id, facts))): facts for w, facts, w2 in self.W.phi.get(phi, ()) if w is v}
        return [self.child(f) for f in fs.values()] or [self.child({})]

    # ---------------------------------------------------------------- beginnings and ends
    def starts(self, t, d=0):
        """Patterns the text is known to begin with."""
        out = []
        for k, v in self.facts.items():
            if isinstance(v, tuple):
                continue
            if v.op == "str" and k is t:
                out.append(v)
            if v.op != "int" or v.a[0] != 1 and not (k.op == "elem"):
                continue
            c = k.a[0] if k.op == "discr" else k
            if c.op == "call" and len(c.a) > 2 and c.a[1] is t and c.a[0] in ("str::starts_with", "str::strip_prefix"):
                out.append(c.a[2])
            elif k.op == "eq" and t in k.a[:2]:
                o = k.a[1] if k.a[0] is t else k.a[0]
                if o.op == "str":
                    out.append(o)
            elif k.op == "elem" and k.a[1] == 0 and k.a[0].op == "call" and k.a[0].a[0] == "str::chars" and k.a[0].a[1] is t:
                out.append(v)
        if t.op == "call" and t.a[0] == "str::split_at.1":
            k = t.a[2]
            if k.op == "fld" and k.a[0].op == "call" and k.a[0].a[0] in ("str::find", "str::rfind") and k.a[0].a[1] is t.a[1]:
                out.append(k.a[0].a[2])
        if t.op == "slice" and t.a[1].op == "agg" and str(t.a[1].a[0]).endswith("RangeFrom"):
            k = t.a[1].a[2][0]
            if k.op == "fld" and k.a[0].op == "call" and k.a[0].a[0] in ("str::find", "str::rfind") and k.a[0].a[1] is t.a[0]:
                out.append(k.a[0].a[2])
        if t.op == "call" and t.a[0] in FRONT and d < 4:
            pass
        return out

    def first_ascii(self, t):
        """The first character is ASCII (or there is none)."""
        key = ("fa", t)
        if key in self.bmemo:
            return self.bmemo[key]
        self.bmemo[key] = True       # inductive through joins
        r = self._first_ascii(t)
        self.bmemo[key] = r
        return r

    def _first_ascii(self, t):
        if self.is_ascii(t):
            return True
        for p in self.starts(t):
            if p.op == "str" and p.a[0][:1].isascii() and p.a[0]:
                return True
            if p.op != "str" and pat_ascii(p):
                return True
        for e, fs in self.first_elems(t):
            may = textflow.allowed(self.E, e, fs)
            if may is not None and all(c < 128 for c in may):
                return True
        if self.rng(T("len", t))[1] <= 0:
            return True
        if t.op == "call" and t.a[0] == "str::split_at.1":
            if t.a[2].op == "len" and t.a[2].a[0] is t.a[1]:
                return True
            if t.a[2] is ZERO:
                return self.first_ascii(t.a[1])
        if t.op == "phi" and self.level < 4:
            xs = [x for x in self.E.incoming(t) if x is not t]
            return bool(xs) and all(all(p.first_ascii_in(x, self.bmemo) for p in self.subs(t, x)) for x in xs)
        return False

    def first_ascii_in(self, x, memo):
        for k, v in memo.items():
            if k[0] == "fa" and v:
                self.bmemo.setdefault(k, v)
        return self.first_ascii(x)

    def first_elems(self, t):
        out = []
        for f in self.facts:
            for x in subterms(f):
                if x.op == "elem" and x.a[1] == 0 and x.a[0].op == "call" and x.a[0].a[0] == "str::chars" and x.a[0].a[1] is t:
                    out.append((x, self.facts))
        return out[:1]

    def is_ascii(self, t):
        """The whole text is ASCII."""
        if t.op == "str":
            return t.a[0].isascii()
        if self.whole_ascii(t):
            return True
        for k, v in self.facts.items():
            if k.op == "is_ascii" and v is TRUE and self.part_of(t, k.a[0]):
                return True
            if k.op == "call" and str(k.a[0]).endswith("is_ascii") and v is TRUE and self.part_of(t, k.a[1]):
                return True
        return False

    def whole_ascii(self, t, d=12):
        """Part of a text that is ASCII wherever it comes from (the text of a stored header value)."""
        if self.W.ascii(t):
            return True
        if d == 0:
            return False
        u = self.parent(t)
        if u is not None:
            return self.whole_ascii(u, d - 1)
        if t.op == "phi":
            k = ("wa", t)
            if k not in self.bmemo:
                self.bmemo[k] = True
                xs = [x for x in self.E.incoming(t) if x is not t]
                self.bmemo[k] = bool(xs) and all(self.whole_ascii(x, d - 1) for x in xs)
            return self.bmemo[k]
        return False

    def parent(self, t):
        """The text this one is a piece of."""
        if t.op == "call" and len(t.a) > 1 and (t.a[0] in TRIMS or t.a[0].startswith(("str::split_at.", "slice::split_at.")) or t.a[0] in ("str::as_bytes", "String::as_str", "str::to_ascii_lowercase")):
            return t.a[1]
        if t.op in ("slice", "ascii_lower", "ascii_upper"):
            return t.a[0]
        if t.op == "elem" and t.a[0].op == "call" and t.a[0].a[0] in SPLITS:
            return t.a[0].a[1]
        if t.op == "fld" and t.a[0].op == "call" and t.a[0].a[0] in ("str::strip_prefix", "str::strip_suffix", "str::get"):
            return t.a[0].a[1]
        if t.op == "fld" and t.a[0].op == "fld" and t.a[0].a[0].op == "call" and t.a[0].a[0].a[0] in ("str::split_once", "str::rsplit_once"):
            return t.a[0].a[0].a[1]
        return None

    def part_of(self, t, whole, d=8):
        if t is whole:
            return True
        if d == 0:
            return False
        u = self.parent(t)
        return u is not None and self.part_of(u, whole, d - 1)

    # ---------------------------------------------------------------- character boundaries
    def boundary(self, t, k):
        """k is a character boundary of the text t (given k <= len(t))."""
        if k is ZERO or self.is_ascii(t):
            return True
        if k.op == "len" and k.a[0] is t:
            return True
        if k.op == "int":
            n = k.a[0]
            if t.op == "str":
                b = t.a[0].encode()
                return n >= len(b) or (b[n] & 0xC0) != 0x80
            if n == 1 and self.first_ascii(t):
                return True
            for p in self.starts(t):
                if p.op == "str":
                    b = p.a[0].encode()
                    if n == len(b) or n < len(b) and (b[n] & 0xC0) != 0x80:
                        return True
                if p.op == "int" and n == pat_len(p):
                    return True
            if self.rng(T("len", t)) == (n, n):
                return True
        for f, v in self.facts.items():
            if v is not TRUE:
                continue
            c = f.a[0] if f.op == "discr" else f
            if c.op == "call" and len(c.a) > 2 and c.a[1] is t:
                if c.a[0] == "str::get" and c.a[2].op == "agg" and k in c.a[2].a[2] and not str(c.a[2].a[0]).endswith("Inclusive"):
                    return True
                if c.a[0] == "str::is_char_boundary" and c.a[2] is k:
                    return True
        if self.at_pos(t, k):
            return True
        if k.op == "bin" and k.a[0] == "Add":
            for b, n in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                if n.op == "int":
                    if b.op == "cidx" and b.a[0] is t:
                        if n.a[0] == 1 and self.char_ascii(b):
                            return True
                    p = self.found(t, b)
                    if p is not None and (p.op in ("str", "int") and n.a[0] == pat_len(p) or n.a[0] == 1 and one_byte(p)):
                        return True
                    if self.covers(t, b, n.a[0]):
                        return True
                if n.op == "call" and str(n.a[0]).endswith("len_utf8") and b.op == "cidx" and b.a[0] is t and n.a[1] == T("elem", T("call", "str::chars", t), b.a[1]):
                    return True
        if k.op == "bin" and k.a[0] == "Sub" and k.a[2].op == "int":
            n = k.a[2].a[0]
            x = k.a[1]
            if x.op == "bin" and x.a[0] == "Add" and x.a[2].op == "int":
                m = x.a[2].a[0] - n
                y = x.a[1]
                return self.boundary(t, y if m == 0 else T("bin", "Add", y, I(m)) if m > 0 else T("bin", "Sub", y, I(-m)))
            if x.op == "len" and x.a[0] is t:
                for p in self.ends(t):
                    if p.op in ("str", "int") and pat_len(p) == n or n == 1 and one_byte(p):
                        return True
        if k.op == "len":
            u = k.a[0]
            # the length of something this text begins with
            if any(p is u for p in self.starts(t)):
                return True
            w = u
            while w.op == "call" and w.a[0] in FRONT:
                w = w.a[1]
            if w is t:
                return True
            if w.op == "call" and w.a[0] == "str::split_at.0" and w.a[1] is t:
                return True
            if w.op == "elem" and w.a[1] == 0 and w.a[0].op == "call" and w.a[0].a[0] in SPLITS and w.a[0].a[1] is t:
                return True
        if k.op == "phi" and self.level < 4:
            xs = [x for x in self.E.incoming(k) if x is not k]
            mine = [x for x in xs if not any(y.op == "cidx" and y.a[0] is not t for y in subterms(x))]
            if len(mine) != len(xs) and not any(any(y.op == "cidx" for y in subterms(x)) for x in mine):
                return False
            return bool(mine) and all(all(p.boundary(t, x) for p in self.subs(k, x)) for x in mine)
        return False

    def at_pos(self, t, k):
        if k.op == "cidx" and k.a[0] is t:
            return True
        return self.found(t, k) is not None

    def found(self, t, k):
        if k.op == "fld" and k.a[0].op == "call" and k.a[0].a[0] in ("str::find", "str::rfind") and k.a[0].a[1] is t:
            return k.a[0].a[2]
        return None

    def covers(self, t, b, n):
        return False

    def char_ascii(self, ci):
        """The character at this char_indices position is ASCII."""
        e = T("elem", T("call", "str::chars", ci.a[0]), ci.a[1])
        v = self.facts.get(e)
        if v is not None and not isinstance(v, tuple) and v.op == "int":
            return v.a[0] < 128
        may = textflow.allowed(self.E, e, self.facts)
        if may is not None and all(c < 128 for c in may):
            return True
        # where the position one past it was computed, its character had been tested on every path
        was = [p.facts for p in self.E.panics if p.kind == "assert:Overflow:Add" and p.args == (ci, I(1))]
        if not was:
            return False
        for fs in was:
            v = fs.get(e)
            if v is not None and not isinstance(v, tuple) and v.op == "int":
                if v.a[0] >= 128:
                    return False
                continue
            may = textflow.allowed(self.E, e, fs)
            if may is None or any(c >= 128 for c in may):
                return False
        return True

    def may_split(self, t, k, d=3):
        """The position follows a single byte of a character that the tests on this path let be wider."""
        if self.is_ascii(t) or d == 0:
            return False
        if k.op == "phi":
            xs = [x for x in self.E.incoming(k) if x is not k and any(y.op == "cidx" and y.a[0] is t for y in subterms(x))]
            return any(any(not p.boundary(t, x) and p.may_split(t, x, d - 1) for p in self.subs(k, x)) for x in xs)
        e = None
        if k is I(1):
            e = [x for x, _ in self.first_elems(t)]
            e = e[0] if e else None
        elif k.op == "bin" and k.a[0] == "Add" and k.a[2] is I(1) and k.a[1].op == "cidx" and k.a[1].a[0] is t:
            e = T("elem", T("call", "str::chars", t), k.a[1].a[1])
        if e is None:
            return False
        ci = k.a[1] if k.op == "bin" else None
        was = [self.facts] + [p.facts for p in self.E.panics if ci is not None and p.kind == "assert:Overflow:Add" and p.args == (ci, I(1))]
        for fs in was:
            rel = [f for f in fs if e in subterms(f)]
            if not rel or not all(f is e or all(x.op in ("bin", "int", "elem", "call", "un", "eq", "str", "cast", "par", "phi", "slice", "agg", "fld", "ty") for x in subterms(f)) for f in rel):
                continue
            may = textflow.allowed(self.E, e, fs)
            if may is not None and any(c >= 128 for c in may):
                return True
        return False

    def ends(self, t):
        out = []
        for k, v in self.facts.items():
            if v is not TRUE:
                continue
            c = k.a[0] if k.op == "discr" else k
            if c.op == "call" and len(c.a) > 2 and c.a[1] is t and c.a[0] in ("str::ends_with", "str::strip_suffix"):
                out.append(c.a[2])
        return out

    # phi of lengths and positions: only the joined values that belong to this text
    def le(self, x, y, c=0, depth=10, seen=None):
        if Prover.le(self, x, y, c, depth, seen):
            return True
        z, a = self.lin(x)
        if z.op == "phi" and y.op == "len" and depth > 0 and self.level < 4 and not (seen and ("ctx", z, y) in seen):
            t = y.a[0]
            xs = [v for v in self.E.incoming(z) if v is not z]
            mine = [v for v in xs if not any(u.op == "cidx" and u.a[0] is not t for u in subterms(v))]
            if mine and (len(mine) == len(xs) or any(any(u.op == "cidx" for u in subterms(v)) for v in mine)):
                sn = dict(seen or {})
                sn[("ctx", z, y)] = 0
                return all(all(p.le(v, y, c - a, depth - 1, dict(sn)) for p in self.subs(z, v)) for v in mine)
        return False

    # ---------------------------------------------------------------- paths that cannot be taken
    def infeasible(self):
        for k, v in self.facts.items():
            if isinstance(v, tuple):
                lo, hi = self.rng(k) if k.op not in ("str",) else (-INF, INF)
                if lo > hi:
                    return True
                continue
            if v is TRUE and k.op == "ended" and (k.a[1] == 0 or k.a[1] is ZERO):
                for t in self.chars_source(k.a[0]):
                    if self.rng(T("len", t))[0] >= 1:
                        return True
                it = k.a[0]
                while it.op == "it" and it.a[0] == "src":
                    it = it.a[1]
                if it.op == "call" and it.a[0] in SPLITS and it.a[0] not in ("str::split_whitespace", "str::lines", "str::split_ascii_whitespace", "str::split_terminator", "str::split_inclusive"):
                    return True
            if k.op == "discr" and v is FALSE and k.a[0].op == "call":
                c = k.a[0]
                n = c.a[0]
                if n in ("slice::first", "slice::last", "Iterator::last", "Iterator::next"):
                    for t in self.chars_source(c.a[1]):
                        if self.rng(T("len", t))[0] >= 1:
                            return True
                if n in ("str::strip_prefix",) and any(p is c.a[2] for p in self.starts(c.a[1])):
                    return True
                if n in ("str::strip_suffix",) and any(p is c.a[2] for p in self.ends(c.a[1])):
                    return True
                if n in ("str::find", "str::rfind", "str::split_once", "str::rsplit_once"):
                    t, p = c.a[1], c.a[2]
                    if any(q is p for q in self.starts(t) + self.ends(t)):
                        return True
                    for f, b in self.facts.items():
                        g = f.a[0] if f.op == "discr" else f
                        if b is TRUE and g.op == "call" and len(g.a) > 2 and g.a[1] is t and g.a[2] is p and g.a[0] in ("str::contains", "str::find", "str::rfind"):
                            return True
                if n == "str::get" and len(c.a) > 2 and c.a[2].op == "agg" and self.range_ok(c.a[1], c.a[2], True) is True:
                    return True
            if v.op == "int" and k.op not in CONST_OPS:
                lo, hi = self.rng(k)
                if lo > hi or v.a[0] < lo or v.a[0] > hi:
                    return True
        return False

    # ---------------------------------------------------------------- obligations
    def range_ok(self, base, r, is_text):
        """True, or what is missing."""
        n = str(r.a[0]).split("::")[-1]
        L = T("len", base)
        if base.op == "agg" and base.a[0] in ("array", "vec"):
            L = I(len(base.a[2]))
        if n == "RangeFrom":
            lo, hi = r.a[2][0], L
        elif n == "RangeTo":
            lo, hi = ZERO, r.a[2][0]
        elif n == "Range":
            lo, hi = r.a[2][0], r.a[2][1]
        elif n in ("RangeInclusive", "RangeToInclusive"):
            lo = r.a[2][0] if n == "RangeInclusive" else ZERO
            e = r.a[2][1] if n == "RangeInclusive" else r.a[2][0]
            hi = I(e.a[0] + 1) if e.op == "int" else T("bin", "Add", e, I(1))
        else:
            return "a range of an unknown kind"
        if lo is not ZERO and not (n == "RangeFrom") and not self.le(lo, hi):
            return "%s <= %s" % (lo, hi)
        if hi is not L and not self.le(hi, L):
            return "%s <= len" % hi
        if n == "RangeFrom" and not self.le(lo, L):
            return "%s <= len" % lo
        if is_text:
            for k in (lo, hi):
                if k is not L and not self.boundary(base, k):
                    return (k,)
        return True

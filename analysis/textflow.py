"""Where does the text of a value come from, and which characters can it contain?

A backward value-flow analysis over the engine's terms.  Text is followed through concatenation, slicing, trimming, splitting, joining, case folding and
collection to its sources.  A source is good when it is a literal inside the wanted character set, the rendering of a number, a character test that holds
on the path (is_ascii, chars().all(p), contains, find), or a field of a local type - which becomes a demand: that field has to be good wherever the type is
constructed or written.  Parameters of private functions become demands on the arguments at their call sites.  Demands are closed over the whole crate, and
a parameter of an exported safe function reached without a test is a definite leak."""
import table
from lib import *
from prove import Prover

TEXT = ("alloc::string::String",)
CONT = ("alloc::vec::Vec", "core::option::Option", "core::result::Result", "alloc::boxed::Box", "alloc::borrow::Cow", "alloc::sync::Arc", "std::collections::hash::map::HashMap",
        "std::collections::hash::set::HashSet", "core::slice::iter::Iter")
POINTS = sorted(set(range(256)) | {0x100, 0x131, 0x17F, 0x212A, 0x20AC, 0xFFFD, 0x1F600, 0x10FFFF})


def base(t):
    while t[0] in ("ref", "ptr"):
        t = t[1]
    return t


def numeric(n):
    return n in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "bool")


def local(P, a):
    return isinstance(a, str) and a in P.adts and P.adts[a]["local"]


class Chars:
    """A set of characters: member test, a name, and whether ASCII tests imply it."""

    def __init__(self, name, has, invariants, fold=False, foreign=()):
        self.name, self.has, self.invariants, self.fold = name, has, invariants, fold
        self.foreign = foreign   # foreign types whose Display stays inside the set

    def lit(self, s):
        return all(self.has(ord(c)) for c in s)


def char_tests(c):
    a, ch = c < 128, chr(c)
    return {"is_ascii": a, "is_ascii_alphabetic": a and ch.isalpha(), "is_ascii_alphanumeric": a and ch.isalnum(), "is_ascii_digit": a and ch.isdigit(),
            "is_ascii_lowercase": a and ch.islower(), "is_ascii_uppercase": a and ch.isupper(), "is_ascii_control": c < 32 or c == 127, "is_ascii_graphic": 33 <= c <= 126,
            "is_ascii_punctuation": 33 <= c <= 126 and not ch.isalnum(), "is_ascii_whitespace": c in (9, 10, 12, 13, 32), "is_ascii_hexdigit": a and ch in "0123456789abcdefABCDEF",
            "is_uppercase": ch.isupper(), "is_lowercase": ch.islower(), "is_control": c < 32 or 127 <= c < 160,
            "is_whitespace": ch.isspace(), "is_alphabetic": ch.isalpha(), "is_alphanumeric": ch.isalnum(), "is_numeric": ch.isnumeric()}


def pred_out(E, pred, value):
    """Sample characters for which the summarised predicate may give `value`."""
    ints = [x.a[0] for x in subterms(pred) if x.op == "int"]
    pts = set(POINTS) | {n + d for n in ints for d in (-1, 0, 1) if 0 <= n + d < 0x110000}
    chr_ = T("chr")
    out = set()
    for c in pts:
        env, memo = {chr_: I(c)}, {}
        for n, b in char_tests(c).items():
            for x in (n, "char::" + n, "u8::" + n):
                env[T("call", x, chr_)] = I(int(b))
        for v, facts in pred.a[0]:
            w = table.ev(E, v, env, memo) if v.op != "int" else v
            if w is not None and w.op == "int" and w.a[0] != value:
                continue
            good = True
            for f, b in facts:
                x = table.ev(E, f, env, memo)
                if x is None:
                    continue
                if isinstance(b, tuple):
                    if x in b[1]:
                        good = False
                elif x is not b:
                    good = False
                if not good:
                    break
            if good:
                out.add(c)
                break
    return out


def allowed(E, elem, facts):
    """Sample characters that `elem` may be on a path with these facts; None if no fact mentions it."""
    rel = [(f, b) for f, b in facts.items() if elem in subterms(f)]
    if not rel:
        return None
    ints = [x.a[0] for f, b in rel for x in subterms(f) if x.op == "int"] + [x.a[0] for f, b in rel if isinstance(b, tuple) for x in b[1] if x.op == "int"]
    pts = set(POINTS) | {n + d for n in ints for d in (-1, 0, 1) if 0 <= n + d < 0x110000}
    out = set()
    for c in pts:
        env, memo = {elem: I(c)}, {}
        for n, b in char_tests(c).items():
            for x in (n, "char::" + n, "u8::" + n):
                env[T("call", x, elem)] = I(int(b))
        for f, b in rel:
            x = table.ev(E, f, env, memo)
            if x is not None and (x in b[1] if isinstance(b, tuple) else x.op in ("int", "str") and x is not b):
                break
        else:
            out.add(c)
    return out


class Loops:
    """Texts that a loop has read to the end, going on only past characters inside the set."""

    def __init__(self):
        self.heads = {}     # iterator -> facts of the states that go round

    def on_head(self, fr, bb, st):
        for f, b in st.facts.items():
            if f.op == "active" and b is I(1):
                self.heads.setdefault(f.a[0], []).append(st.facts)

    def good(self, F, it):
        """The texts behind an exhausted iterator, if every turn tested its character."""
        k = ("loop", it)
        r = F.fact_cache.get(k)
        if r is None:
            r = ()
            srcs = set()
            for x in F.E.flat(it):
                srcs.add(F.char_source(x))
            if None not in srcs and self.heads.get(it):
                if all(self.turn(F, facts, srcs) for facts in self.heads[it]):
                    r = tuple(srcs)
            F.fact_cache[k] = r
        return r

    def turn(self, F, facts, srcs):
        for f in facts:
            for x in subterms(f):
                if x.op == "elem" and F.char_source(x.a[0]) in srcs:
                    may = allowed(F.E, x, facts)
                    if may is not None and all(F.C.has(c) for c in may):
                        return True
        return False


class Flow:
    """The sources of the text of one term in one state of one root function."""

    def __init__(self, W, E, root, exported, phifacts, facts, cache=None, loops=None):
        self.loops = loops
        self.W, self.E, self.P, self.root, self.exported, self.phifacts = W, E, W.P, root, exported, phifacts
        self.deps, self.bad, self.unk = set(), [], []
        self.seen = set()
        self.C = W.C
        self.fact_cache = cache if cache is not None else {}
        self.inputs = [self.P.ty(i) for i in self.P.defs[root]["inputs"]] if self.P.defs[root].get("inputs") else []

    # ------------------------------------------------------------ facts
    def canon(self, facts):
        """One representative of the fact sets that make the same terms good."""
        g = frozenset(self.good_terms(facts)) | frozenset(T("tested", x) for x in self.tested(facts))
        return self.fact_cache.setdefault(("canon", g), facts)

    def joined(self, t, v):
        """The fact sets on which v was joined into the phi t, with what v refers to there."""
        k = ("phi", t)
        by = self.fact_cache.get(k)
        if by is None:
            by = self.fact_cache[k] = {}
            seen = set()
            for w, f, x in self.phifacts.get(t, ()):
                f = self.canon(f)
                if (w, id(f), x) not in seen:
                    seen.add((w, id(f), x))
                    by.setdefault(w, []).append((f, x))
        return by.get(v, ())

    def good_terms(self, facts):
        k = id(facts)
        g = self.fact_cache.get(k)
        if g is not None:
            return g[1]
        g = set()
        for f, b in facts.items():
            if isinstance(b, tuple):
                if {I(c) for c in POINTS if not self.C.has(c)} <= set(b[1]):
                    g.add(f)
                continue
            if f.op == "call" and f.a[0] == "is_ascii" and b is I(1) and self.C.name == "ascii":
                g.add(f.a[1])
            elif f.op in ("all", "any") and b is I(1 if f.op == "all" else 0):
                src = self.char_source(f.a[0])
                if src is not None and f.a[1].op == "pred":
                    may = self.W.pred(self.E, f.a[1], 1 if f.op == "all" else 0)
                    if all(self.C.has(c) for c in may):
                        g.add(src)
            elif f.op == "call" and f.a[0] in ("str::contains", "slice::contains") and b is I(0):
                if self.excluded(f.a[2]):
                    g.add(f.a[1])
            elif f.op == "discr" and b is I(0) and f.a[0].op == "call" and f.a[0].a[0] == "str::find":
                if self.excluded(f.a[0].a[2]):
                    g.add(f.a[0].a[1])
            elif f.op in ("exhausted", "ended") and b is I(1) and self.loops is not None:
                xs = self.loops.good(self, f.a[0])
                g.update(xs)
                if len(xs) > 1:
                    g.add(T("anyof", *sorted(xs)))
            elif b.op == "str" and self.C.lit(b.a[0]):
                g.add(f)
            elif f.op == "discr" and b.op == "int" and f.a[0].op != "call":
                g.add(T("isvar", f.a[0], b.a[0]))
        self.fact_cache[k] = (facts, g)
        return g

    def tested(self, facts):
        """Texts whose characters were examined on this path in a way that is not followed: a loop that sets a flag, a count of matches, an opaque predicate."""
        k = ("tested", id(facts))
        r = self.fact_cache.get(k)
        if r is not None:
            return r[1]
        out, flags, ran = set(), False, set()
        for f, b in facts.items():
            if isinstance(b, tuple):
                continue
            if f.op == "phi" and b.op == "int" and b.a[0] in (0, 1):
                flags = True
            if f.op in ("exhausted", "ended"):
                if b is I(1):
                    ran |= {f.a[0]} | set(self.E.flat(f.a[0]))
                continue
            if f.op == "active":
                continue
            for x in subterms(f):
                if x.op == "it" and x.a[0] in ("filter", "map", "take_while", "skip_while", "filter_map", "position", "find"):
                    while x.op == "it" and x.a[0] != "src":
                        x = x.a[1]
                    y = self.char_source(x)
                    if y is not None and self.E.chars_of(x):
                        out.add(y)
                elif x.op == "opaquepred" and f.op == "call":
                    out |= set(f.a[1:2])
                elif x.op == "opaquepred" and f.op in ("all", "any"):
                    y = self.char_source(f.a[0])
                    if y is not None:
                        out.add(y)
        if flags:
            for it in ran:
                y = self.char_source(it) if it.op != "phi" else None
                if y is not None and self.E.chars_of(it):
                    out.add(y)
        self.fact_cache[k] = (facts, out)
        return out

    def char_source(self, it):
        while it.op == "adv" or it.op == "it" and it.a[0] in ("copied", "cloned", "peekable", "by_ref"):
            it = it.a[0] if it.op == "adv" else it.a[1]
        if it.op == "it" and it.a[0] == "src":
            it = it.a[1]
        if it.op == "call" and it.a[0] in ("str::chars", "str::bytes", "String::chars"):
            return it.a[1]
        return it if it.op in ("par", "fld", "call", "phi", "cat", "slice") else None

    def excluded(self, pat):
        """A pattern whose absence puts the text inside the set: the characters it names are all those outside the set."""
        xs = []
        if pat.op == "pred":
            return all(self.C.has(c) for c in self.W.pred(self.E, pat, 0))
        if pat.op == "int":
            xs = [pat.a[0]]
        elif pat.op == "str" and len(pat.a[0]) == 1:
            xs = [ord(pat.a[0])]
        elif pat.op == "agg" and pat.a[0] in ("array", "vec"):
            xs = [x.a[0] for x in pat.a[2] if x.op == "int"]
        elif pat.op == "bytes":
            xs = list(pat.a[0])
        out = {c for c in POINTS if not self.C.has(c)}
        return bool(xs) and out <= set(xs)

    # ------------------------------------------------------------ types
    def typ(self, t, d=0):
        if d > 30:
            return None
        if t.op == "par":
            return base(self.inputs[t.a[0]]) if t.a[0] < len(self.inputs) else None
        if t.op in ("adv",):
            return self.typ(t.a[0], d + 1)
        if t.op == "mut":
            return self.typ(t.a[1], d + 1)
        if t.op == "ref" and len(t.a) == 1:
            return self.typ(t.a[0], d + 1)
        if t.op == "elem":
            b = self.typ(t.a[0], d + 1)
            if b is None:
                return None
            if b[0] in ("slice", "array"):
                return base(b[1])
            if b[0] == "adt" and b[1] in ("alloc::vec::Vec", "core::option::Option", "core::slice::iter::Iter", "std::collections::hash::set::HashSet", "alloc::vec::into_iter::IntoIter") and b[2]:
                for a in b[2]:
                    if a[0] != "other":
                        return base(a)
            if b[0] == "adt" and b[1].endswith("HashMap"):
                return ("tuple", (b[2][0], b[2][1]))
            return None
        if t.op == "it" and t.a[0] == "src":
            return self.typ(t.a[1], d + 1)
        if t.op == "fld":
            b = self.typ(t.a[0], d + 1)
            if b is None:
                return None
            if b[0] == "tuple":
                return base(b[1][t.a[2]]) if t.a[2] < len(b[1]) else None
            if b[0] == "param" and "AsRef<Headers>" in b[1] or b[0] == "param" and "Headers" in b[1]:
                b = ("adt", HEADERS, ())
            if b[0] == "adt" and local(self.P, b[1]):
                f = self.field(b[1], t.a[1], t.a[2])
                if f is None:
                    return None
                return base(self.P.ty(f["ty"]))
            if b[0] == "adt" and b[1] == "core::option::Option" and t.a[1] == "Some":
                return base(b[2][0])
            if b[0] == "adt" and b[1] == "core::result::Result" and b[2]:
                return base(b[2][0 if t.a[1] == "Ok" else 1])
            return None
        if t.op == "call" and t.a[0].startswith("HashMap::get") and self.is_headers(t.a[1], d + 1):
            return ("adt", "core::option::Option", (("adt", self.W.values, ()),))
        if t.op == "call" and t.a[0] in ("HashMap::remove",) and self.is_headers(t.a[1], d + 1):
            return ("adt", "core::option::Option", (("adt", self.W.values, ()),))
        return None

    def is_headers(self, t, d):
        while t.op == "mut":
            t = t.a[1]
        b = self.typ(t, d)
        if b is not None and b[0] == "adt" and b[1].endswith("HashMap"):
            return any(a == ("adt", self.W.values, ()) for a in b[2])
        return False

    def field(self, adt, variant, idx):
        vs = self.P.adts[adt]["variants"]
        for v in vs:
            if variant is None and len(vs) == 1 or v["name"] == variant:
                return v["fields"][idx] if idx < len(v["fields"]) else None
        return None

    def need_type(self, ty, why):
        """Any value of this type, from outside."""
        ty = base(ty)
        if not self.W.has_text(ty):
            return
        if ty[0] == "adt" and local(self.P, ty[1]):
            self.deps |= self.W.fields_of(ty[1])
            return
        if ty[0] == "adt" and ty[1] in CONT and ty[1] != "alloc::borrow::Cow" or ty[0] in ("slice", "array"):
            for a in (ty[2] if ty[0] == "adt" else (ty[1],)):
                self.need_type(a, why)
            return
        if ty[0] == "tuple":
            for a in ty[1]:
                self.need_type(a, why)
            return
        self.user(why)

    def user(self, par):
        if self.exported:
            self.bad.append("the text its caller passes (parameter %s)" % (self.W.parname(self.root, par.a[0])))
        else:
            self.deps.add(("arg", self.root, par.a[0]))

    # ------------------------------------------------------------ text
    def need(self, facts, t, d=0):
        key = (t, id(facts))
        if key in self.seen:
            return
        self.seen.add(key)
        if len(self.seen) > 40000:
            self.unk.append("too many terms")
            return
        if t in self.good_terms(facts):
            return
        if t in self.tested(facts):
            self.unk.append("text whose characters are tested in a way the rule does not follow")
            return
        op = t.op
        if op == "str":
            if not self.C.lit(t.a[0]):
                self.bad.append("the literal %r" % t.a[0][:40])
            return
        if op == "bytes":
            if not all(self.C.has(c) for c in t.a[0]):
                self.bad.append("a literal with bytes outside the set")
            return
        if op == "int":
            if not self.C.has(t.a[0]) and t.a[0] >= 0:
                self.bad.append("the character %d" % t.a[0])
            return
        if op in ("flt", "fn", "ty", "uninit", "uninterp", "len", "discr", "eq"):
            return
        if op == "phi":
            if any(g.op == "anyof" and set(self.E.flat(t)) <= set(g.a) for g in self.good_terms(facts)):
                return
            if set(self.E.flat(t)) <= self.tested(facts):
                self.unk.append("text whose characters are tested in a way the rule does not follow")
                return
            for v in self.E.incoming(t):
                # the facts of the path the value came from; where none were recorded, those of the joined path
                for f, x in self.joined(t, v) or [(facts, v)]:
                    self.need(f, x, d + 1)
            return
        if op == "adv":
            return self.need(facts, t.a[0], d + 1)
        if op == "cat":
            for x in t.a[0]:
                self.need(facts, x, d + 1)
            return
        if op == "agg":
            if t.a[0] in (self.W.HN, self.W.HV) and t.a[0] in self.C.invariants:
                return
            if t.a[1] == "None":
                return
            for x in t.a[2]:
                self.need(facts, x, d + 1)
            return
        if op == "upd":
            self.need(facts, t.a[0], d + 1)
            for _, x in t.a[1]:
                self.need(facts, x, d + 1)
            return
        if op == "coll":
            for x in t.a[1]:
                self.need(facts, x, d + 1)
            return
        if op in ("vpush", "vcat", "vjoin"):
            for x in t.a:
                if isinstance(x, T):
                    self.need(facts, x, d + 1)
            return
        if op == "mut":
            self.need(facts, t.a[1], d + 1)
            if not t.a[0].startswith("slice::") and not t.a[0].startswith("Vec::"):
                for x in t.a[2]:
                    self.need(facts, x, d + 1)
            return
        if op == "slice":
            return self.need(facts, t.a[0], d + 1)
        if op in ("bin", "cast", "idx") and self.byte(facts, t):
            return
        if op == "idx":
            return self.need(facts, t.a[0], d + 1)
        if op == "cast":
            return self.need(facts, t.a[1], d + 1)
        if op == "disp":
            n = t.a[3]
            if numeric(n) or n in self.C.foreign:
                return
            if n.split("<")[0] in ("str", "String", "Cow", "char", "&str"):
                return self.need(facts, t.a[2], d + 1)
            if n in self.W.foreign_bad:
                self.bad.append("the rendering of a %s" % n)
                return
            x = t.a[2]
            self.unk.append("the rendering of a %s" % n)
            return
        if op in ("par", "fld", "elem"):
            ty = self.typ(t)
            if ty is not None:
                if not self.W.has_text(ty):
                    return
                if op == "par":
                    for v in self.gone(facts, t, ty):
                        return
                    return self.need_type(ty, t)
                if ty[0] == "adt" and local(self.P, ty[1]):
                    self.deps |= self.W.fields_of(ty[1])
                    return
            if op == "fld":
                bt = self.typ(t.a[0])
                if bt is not None and bt[0] == "adt" and local(self.P, bt[1]):
                    if bt[1] in self.C.invariants:
                        return
                    f = self.field(bt[1], t.a[1], t.a[2])
                    if f is not None:
                        fty = self.P.ty(f["ty"])
                        if self.W.direct_text(fty):
                            self.deps.add(("field", bt[1], t.a[1] if self.P.adts[bt[1]]["enum"] else None, t.a[2]))
                        self.need_inner(fty)
                        return
                return self.need(facts, t.a[0], d + 1)
            if op == "elem":
                x = t.a[0]
                if x.op == "agg" and local(self.P, x.a[0]):
                    return self.local_iter(facts, x, d)
                if x.op == "coll":
                    for y in x.a[1]:
                        self.need(facts, y, d + 1)
                    return
                return self.need(facts, x, d + 1)
            if op == "par":
                return self.user(t)
        if op == "it":
            return self.need(facts, t.a[1], d + 1)
        if op == "call":
            n = t.a[0]
            if n in ("ascii_lower", "ascii_upper"):
                if self.C.fold and n == "ascii_lower":
                    return
                return self.need(facts, t.a[1], d + 1)
            head = n.split("::")[0]
            if head in ("str", "String", "slice", "Cow", "Option", "Vec", "char", "Result", "Iterator", "Cell", "u8", "Chars", "CharIndices", "Bytes", "Split", "SplitN") or n in ("AsRef::as_ref", "Into::into", "From::from", "ToString::to_string"):
                if n == "str::parse" and t.a[-1].op == "ty" and numeric(str(t.a[-1].a[0])):
                    return
                if n in ("str::len", "Vec::len", "slice::len", "str::find", "Iterator::count"):
                    return
                xs = [x for x in t.a[1:] if isinstance(x, T)]
                if n in ("str::trim_matches", "str::trim_end_matches", "str::trim_start_matches", "str::split", "str::splitn", "str::rsplit", "str::rsplitn", "str::split_once", "str::rsplit_once",
                         "str::strip_prefix", "str::strip_suffix", "str::split_at", "str::split_terminator", "str::get", "slice::get", "str::char_indices", "str::chars"):
                    xs = xs[:1]
                if n in ("str::replace", "str::replacen"):
                    xs = [xs[0], xs[2]]
                for x in xs:
                    self.need(facts, x, d + 1)
                return
            if n in self.W.numeric_calls:
                return
            if n in self.W.foreign_text:
                self.bad.append("what %s returns" % n)
                return
            self.unk.append("the result of %s" % n)
            return
        self.unk.append("a value of unknown origin: %s" % str(t)[:80])

    def need_inner(self, ty):
        """Local types inside a field's type."""
        ty = base(ty)
        if ty[0] == "adt" and local(self.P, ty[1]):
            self.deps |= self.W.fields_of(ty[1])
        elif ty[0] == "adt" and ty[1] in CONT:
            for a in ty[2]:
                self.need_inner(a)
        elif ty[0] == "tuple":
            for a in ty[1]:
                self.need_inner(a)
        elif ty[0] in ("slice", "array"):
            self.need_inner(ty[1])

    def gone(self, facts, t, ty):
        """An Option parameter that is None here, or whose payload has been tested."""
        if ty[0] == "adt" and ty[1] == "core::option::Option":
            g = self.good_terms(facts)
            if facts.get(T("discr", t)) is I(0) or T("fld", t, "Some", 0) in g:
                yield t

    def local_iter(self, facts, x, d):
        """An item of a local iterator built from x: only its own characters and the literals its next yields."""
        for y in x.a[2]:
            self.need(facts, y, d + 1)
        for c in self.W.iter_constants(x.a[0]):
            if c is None:
                self.unk.append("what the iterator %s yields" % x.a[0])
            elif not self.C.has(c):
                self.bad.append("the character %d yielded by %s" % (c, x.a[0]))

    def byte(self, facts, t):
        if self.C.name == "noquote" or self.C.name == "lower":
            lim = (48, 57)
        else:
            lim = (0, 127)
        if t.op == "bin" or t.op == "cast":
            lo, hi = Prover(self.E, facts).rng(t)
            return lo >= 0 and all(self.C.has(c) for c in range(int(lo), int(hi) + 1)) if hi < 300 else False
        return False

    def status(self):
        if self.bad:
            return "bad", self.bad[0]
        if self.unk:
            return "unk", self.unk[0]
        return "ok", ""


class World:
    """Crate-wide facts shared by the flows of one character set."""

    def __init__(self, P, C, foreign_bad=(), numeric_calls=("Duration::as_secs",), foreign_text=()):
        self.P, self.C = P, C
        self.HV, self.HN, self.values = P.adt("HeaderValue"), P.adt("HeaderName"), P.adt("HeaderValues")
        self.foreign_text = foreign_text
        self.foreign_bad, self.numeric_calls = foreign_bad, numeric_calls
        self._text, self._fields, self._preds, self._iters = {}, {}, {}, {}

    def pred(self, E, p, value):
        k = (p, value)
        r = self._preds.get(k)
        if r is None:
            r = self._preds[k] = pred_out(E, p, value)
        return r

    def parname(self, key, i):
        names = self.P.bodies[key]["body"].get("names")
        try:
            for n in names:
                if n[1] == i + 1:
                    return n[0]
        except Exception:
            pass
        return str(i)

    def direct_text(self, ty):
        """The type holds text outside any local type."""
        ty = base(ty)
        k = ty[0]
        if k == "prim":
            return ty[1] in ("str", "char")
        if k == "adt":
            if local(self.P, ty[1]):
                return False
            if ty[1] in TEXT or ty[1] == "alloc::borrow::Cow":
                return True
            if ty[1] in CONT or ty[1].startswith("alloc::") or ty[1].startswith("core::slice") or ty[1].startswith("core::option"):
                return any(self.direct_text(a) for a in ty[2] if a[0] != "const")
            return False
        if k in ("slice", "array"):
            return self.direct_text(ty[1])
        if k == "tuple":
            return any(self.direct_text(a) for a in ty[1])
        if k in ("param", "dyn", "alias"):
            return k == "param"
        return False

    def has_text(self, ty):
        ty = base(ty)
        r = self._text.get(ty)
        if r is not None:
            return r
        self._text[ty] = False
        r = self._has(ty)
        self._text[ty] = r
        return r

    def _has(self, ty):
        k = ty[0]
        if k == "prim":
            return ty[1] in ("str", "char", "u8")
        if k == "adt":
            if ty[1] in self.C.invariants:
                return False
            if local(self.P, ty[1]):
                return bool(self.fields_of(ty[1]))
            if ty[1] in TEXT or ty[1] == "alloc::borrow::Cow":
                return True
            if ty[1] in CONT or ty[1].startswith("alloc::") or ty[1].startswith("core::slice"):
                return any(self.has_text(a) for a in ty[2] if a[0] != "const")
            return False
        if k in ("slice", "array"):
            return self.has_text(ty[1])
        if k == "tuple":
            return any(self.has_text(a) for a in ty[1])
        return k in ("param", "dyn", "alias", "closure", "fndef")

    def fields_of(self, adt, seen=None):
        """Demands for every text held by a value of a local type."""
        r = self._fields.get(adt)
        if r is not None:
            return r
        if adt in self.C.invariants:
            return frozenset()
        seen = seen if seen is not None else set()
        if adt in seen:
            return frozenset()
        seen.add(adt)
        out = set()
        a = self.P.adts[adt]
        for v in a["variants"]:
            for i, f in enumerate(v["fields"]):
                ty = self.P.ty(f["ty"])
                if self.direct_text(ty):
                    out.add(("field", adt, v["name"] if a["enum"] else None, i))
                out |= self.inner(ty, seen)
        r = frozenset(out)
        if len(seen) == 1 or True:
            self._fields[adt] = r
        return r

    def inner(self, ty, seen):
        ty = base(ty)
        if ty[0] == "adt" and local(self.P, ty[1]):
            return self.fields_of(ty[1], seen)
        out = set()
        if ty[0] == "adt" and (ty[1] in CONT or ty[1].startswith("alloc::")):
            for x in ty[2]:
                if x[0] != "const":
                    out |= self.inner(x, seen)
        elif ty[0] == "tuple":
            for x in ty[1]:
                out |= self.inner(x, seen)
        elif ty[0] in ("slice", "array"):
            out |= self.inner(ty[1], seen)
        return out

    def iter_constants(self, adt):
        r = self._iters.get(adt)
        if r is None:
            r = set()
            for k, dd in self.P.defs.items():
                if k in self.P.bodies and dd.get("name") == "next" and dd.get("self_ty") is not None and self.P.ty(dd["self_ty"])[:2] == ("adt", adt):
                    E = new_engine(self.P, hooks=False)
                    for v, s in E.run(k):
                        for w in E.flat(E.snap(s, v)):
                            if w.op == "agg" and w.a[1] == "Some":
                                for x in E.flat(w.a[2][0]):
                                    if x.op == "int":
                                        r.add(x.a[0])
                                    elif not any(y == T("par", 0) for y in subterms(x)):
                                        r.add(None)
            self._iters[adt] = r
        return r

    # ------------------------------------------------------------ demands
    def dname(self, d):
        if d[0] == "field":
            a = d[1].split("::")[-1]
            vs = self.P.adts[d[1]]["variants"]
            for v in vs:
                if d[2] is None and len(vs) == 1 or v["name"] == d[2]:
                    f = v["fields"][d[3]]["name"]
                    return "%s.%s%s" % (a, d[2] + "." if d[2] else "", f)
        if d[0] == "arg":
            return "%s(%s)" % (self.P.short(d[1]).replace("http_types::", ""), self.parname(d[1], d[2]))
        return str(d)

    def exported(self, k):
        d = self.P.defs[k]
        return bool(d.get("exported")) and not d.get("unsafe")

    def public(self, d):
        a = self.P.adts[d[1]]
        if not a.get("exported"):
            return False
        f = None
        for v in a["variants"]:
            if d[2] is None and len(a["variants"]) == 1 or v["name"] == d[2]:
                f = v["fields"][d[3]]
        return f is not None and (bool(f["pub"]) or bool(a["enum"]))

    def routes(self, d):
        """Functions that can give the field a value."""
        P, adt = self.P, d[1]
        out = set()
        for k in P.bodies:
            if builds(P, k, adt) or self.touches(k, adt, d[2], d[3]):
                out.add(owner(P, k))
        # an unsafe constructor's obligation lies with whoever calls it
        todo = [k for k in out if P.defs[k].get("unsafe")]
        while todo:
            u = todo.pop()
            for k in callers(P, u):
                o = owner(P, k)
                if o not in out:
                    out.add(o)
                    if P.defs[o].get("unsafe"):
                        todo.append(o)
        return out

    def touches(self, key, adt, variant, idx):
        """The body assigns to, or borrows mutably, a place through this field."""
        body = self.P.bodies[key]["body"]
        for b in body["blocks"]:
            for st in b["s"]:
                if st[0] != "=":
                    continue
                if self.through(body, st[1], adt, idx):
                    return True
                rv = st[2]
                if rv[0] == "ref" and rv[1] and self.through(body, rv[2], adt, idx):
                    return True
            t = b["t"]
            if t[0] == "call" and self.through(body, t[3], adt, idx):
                return True
        return False

    def through(self, body, place, adt, idx):
        if not place[1]:
            return False
        ty = self.P.ty(body["locals"][place[0]])
        for st in place[1]:
            if ty is None:
                return False
            if st[0] == "*":
                ty = ty[1] if ty[0] in ("ref", "ptr") else (ty[2][0] if ty[0] == "adt" and ty[2] else None)
            elif st[0] == "f":
                if ty[0] == "adt" and ty[1] == adt and st[1] == idx:
                    return True
                ty = self.P.ty(st[-1]) if isinstance(st[-1], int) and len(st) > 2 else None
            elif st[0] in ("i", "c"):
                ty = base(ty[1]) if ty[0] in ("slice", "array") else None
        return False


def run_root(W, k, demands, cap=40, fmtroots=None, sinks=None):
    """Analyse one function for the demanded fields; [(demand name, site key, status, why, where, deps)]."""
    P = W.P
    E = new_engine(P, cap=cap)
    phif = {}
    exported = W.exported(k)
    out = []
    done = set()

    def on_phi(t, v, st):
        phif.setdefault(t, []).append((v, st.facts, E.snap(st, v) if v.op != "phi" and E.may_ref(v) else v))

    fields = {}
    for d in demands:
        if d[0] == "field":
            fields.setdefault((d[1], d[2]), []).append((d[3], d))
    events = []

    def on_agg(fr, st, adt, variant, ops, site):
        v = variant if P.adts[adt]["enum"] else None
        for i, d in fields.get((adt, v), ()):
            if i < len(ops):
                events.append((d, E.snap(st, ops[i]), st.facts, fr.key, site))

    def walk_root(root):
        if root[0] == "H":
            return Flow(W, E, k, exported, phif, {}).typ(root[1])
        if root[0] == "L":
            if isinstance(root[2], int):
                key = E.ctxinfo[root[1]][1]
                key = key[2] if isinstance(key, tuple) else key
                b = P.bodies.get(key)
                if b and root[2] < len(b["body"]["locals"]):
                    return base(P.ty(b["body"]["locals"][root[2]]))
        return None

    def on_write(st, root, proj, val, site):
        if not proj:
            return
        ty = None
        try:
            ty = walk_root(root)
        except Exception:
            ty = None
        for n, stp in enumerate(proj):
            if ty is None:
                return
            if stp[0] == "f":
                if ty[0] == "adt" and local(P, ty[1]):
                    var = stp[2] if P.adts[ty[1]]["enum"] else None
                    for i, d in fields.get((ty[1], var), ()):
                        if i == stp[1]:
                            nv = E.snap(st, E.read(st, root, proj[:n + 1]))
                            events.append((d, nv, st.facts, site[0] if site else k, site[1] if site else 0))
                    vs = P.adts[ty[1]]["variants"]
                    f = None
                    for v in vs:
                        if stp[2] is None and len(vs) == 1 or v["name"] == stp[2]:
                            f = v["fields"][stp[1]] if stp[1] < len(v["fields"]) else None
                    ty = base(P.ty(f["ty"])) if f else None
                elif ty[0] == "tuple":
                    ty = base(ty[1][stp[1]]) if stp[1] < len(ty[1]) else None
                elif ty[0] == "adt" and ty[1] == "core::option::Option":
                    ty = base(ty[2][0])
                else:
                    ty = None
            else:
                if ty[0] in ("slice", "array"):
                    ty = base(ty[1])
                elif ty[0] == "adt" and ty[1] == "alloc::vec::Vec":
                    ty = base(ty[2][0])
                else:
                    ty = None

    loops = Loops()
    E.on_phi, E.on_head = on_phi, loops.on_head
    if fields:
        E.on_agg = on_agg
        E.on_write = on_write
    argd = [d for d in demands if d[0] == "arg"]
    for d in argd:
        E.opaque_fns.add(P.short(d[1]))
    outs = E.run(k)
    if argd:
        effs = {}
        for v, s in outs:
            for e in s.eff:
                effs[id(e)] = e
        for e in effs.values():
            if e.kind == "call":
                for d in argd:
                    if e.name == P.short(d[1]) and d[2] < len(e.args):
                        events.append((d, e.args[d[2]], e.facts, e.site[0], e.site[1]))
    cache = {}
    for d, t, facts, key, site in events:
        F = Flow(W, E, k, exported, phif, facts, cache, loops)
        facts = F.canon(facts)
        if (d, t, id(facts)) in done:
            continue
        done.add((d, t, id(facts)))
        F.need(facts, t)
        st, why = F.status()
        line = site[1] if isinstance(site, tuple) else site
        out.append((d, st, why, P.where(k), sorted(F.deps, key=str), str(t)[:160]))
    return out


def close(W, first, report, cap=40):
    """Close a set of demands over the crate, then report(field demand, root function or None, status, why, where).
    What is found at the call sites of a private function is reported for the fields whose text passes through it."""
    P = W.P
    pending, seen = set(first), set()
    found = []              # (demand, root, status, why, where)
    origin = {d: {d} for d in first}
    via = {}                # argument demand -> demands that led to it
    while pending:
        batch = {}
        for d in pending:
            seen.add(d)
            if d[0] == "field":
                if W.public(d):
                    found.append((d, None, "bad", "what any user stores in this public field", P.where(next(iter(W.routes(d)), None)) if False else ""))
                for k in W.routes(d):
                    if not P.defs[k].get("unsafe"):
                        batch.setdefault(k, set()).add(d)
            else:
                ks = {owner(P, c) for c in callers(P, d[1])} - {d[1]}
                if not ks:
                    found.append((d, d[1], "unk", "no caller found", P.where(d[1])))
                for k in ks:
                    batch.setdefault(k, set()).add(d)
        items = [(k, sorted(ds, key=str)) for k, ds in sorted(batch.items())]
        res = pmap(lambda it: run_safe(W, it[0], it[1], cap), items)
        pending = set()
        for (k, ds), out in zip(items, res):
            have = set()
            for d, st, why, where, deps, txt in out:
                have.add(d)
                found.append((d, k, st, why, where))
                if st != "bad":
                    for x in deps:
                        x = tuple(x)
                        if x[0] == "arg":
                            via.setdefault(x, set()).add(d)
                        if x not in seen:
                            pending.add(x)
            for d in set(ds) - have:
                found.append((d, k, "none", "", P.where(k)))
        pending -= seen

    def fields(d, busy):
        if d[0] == "field":
            return {d}
        if d in busy:
            return set()
        out = set()
        for x in via.get(d, ()):
            out |= fields(x, busy | {d})
        return out
    for d, k, st, why, where in found:
        for f in fields(d, frozenset()):
            report(f, k, st, why, where)
    return seen


def run_safe(W, k, ds, cap):
    try:
        return run_root(W, k, ds, cap)
    except RecursionError:
        return [(d, "unk", "analysis too deep", W.P.where(k), [], "") for d in ds]

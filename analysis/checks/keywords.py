"""H09: the vocabulary a header's writer uses is the vocabulary its reader tests for."""
import re
import engine
from checks import prop
from checks.headers import typed_headers, from_headers_fn, NAMES, Report_like
from checks.names import world
from lib import *
from checks.tables import enum_tables
from quotes import lit_step, IN, OUT

TOK = re.compile(r"(?<![0-9A-Za-z])(?=[0-9]*-?[A-Za-z*])[A-Za-z0-9*][A-Za-z0-9!#$%&'*+.^_`|~-]*")
# A parameter that RFC 7617 fixes to one value and that carries no information.
FIXED = {("WwwAuthenticate", "charset"), ("WwwAuthenticate", '"UTF-8"')}
TRIMS = {"str::trim": (1, 1), "str::trim_start": (1, 0), "str::trim_end": (0, 1), "str::trim_matches": (1, 1), "str::trim_start_matches": (1, 0), "str::trim_end_matches": (0, 1),
         "str::trim_ascii": (1, 1), "str::trim_ascii_start": (1, 0)}
SPLITS = ("str::split", "str::splitn", "str::split_once", "str::rsplit", "str::rsplitn", "str::rsplit_once", "str::split_terminator", "str::split_inclusive")


def run_with_budget(P, key, cap, prep):
    """Analyse a function; parts of it that are too big are taken as opaque, one after the other."""
    hidden = set()
    for _ in range(8):
        E = new_engine(P, cap=cap)
        E.opaque_fns |= hidden
        got = prep(E)
        try:
            return E, E.run(key), got, hidden
        except engine.Budget as e:
            n = str(e)
            if n in hidden or n == P.short(key):
                return None
            hidden.add(n)
    return None


def unit_types(P, adt):
    """The header type and the local types its fields hold."""
    out, todo = [], [adt]
    while todo:
        a = todo.pop()
        if a in out or not P.adts.get(a, {}).get("local"):
            continue
        out.append(a)
        for v in P.adts[a]["variants"]:
            for f in v["fields"]:
                todo += list(adts_in(P.ty(f["ty"])))
    return out


def adts_in(t):
    if isinstance(t, tuple):
        if t[:1] == ("adt",):
            yield t[1]
        for x in t:
            yield from adts_in(x)


# ------------------------------------------------------------------ the writer
class Writer:
    def __init__(self, P, W, name, adt, hv):
        self.P, self.name, self.words, self.unk = P, name, {}, set()
        self.types = unit_types(P, adt)

        def prep(E):
            self.built = []
            E.on_agg = lambda fr, st, a, v, ops, site: self.built.append((E.snap(st, ops[0]), st.facts)) if a == W.HV else None
            return self.built
        got = run_with_budget(P, hv, 40, prep)
        if got is None:
            self.unk.add("the writer is too big")
            return
        self.E = got[0]
        self.hidden = got[3]
        flags = []
        for t, facts in self.built:
            self.now, self.seen = set(), set()
            self.text(t, facts)
            known = {}
            for k, v in facts.items():
                f = self.field(k)
                if f is not None and isinstance(v, T) and v.op == "int":
                    known[f] = v is not I(0)
            flags.append((self.now, known))
        # a word that is written exactly when a flag is set
        for w in self.words:
            for f in set().union(*(k for _, k in flags)) if flags else ():
                rows = [(w in now, k[f]) for now, k in flags if f in k]
                if len(set(rows)) == 2 and all(a == b for a, b in rows):
                    self.words[w] = [(fs | {f}, *r) for fs, *r in self.words[w]]

    def text(self, t, facts, d=0):
        """Keywords in the literals of a text and of everything joined into it."""
        if (t, id(facts)) in self.seen or d > 60:
            return
        self.seen.add((t, id(facts)))
        if t.op == "str":
            self.seq([t], facts)
        elif t.op == "cat":
            self.seq(list(t.a[0]), facts)
            for x in t.a[0]:
                if x.op not in ("str", "cat"):
                    self.text(x, facts, d + 1)
        elif t.op == "phi":
            for v in self.E.incoming(t):
                self.text(v, facts, d + 1)
        elif t.op == "disp":
            if t.a[3].split("<")[0].lstrip("&") in ("str", "String", "Cow") or t.a[2].op in ("cat", "str", "phi"):
                self.text(t.a[2], facts, d + 1)
        elif t.op == "agg":
            for x in t.a[2]:
                self.text(x, facts, d + 1)
        elif t.op == "coll":
            for x in t.a[1]:
                self.text(x, facts, d + 1)
        elif t.op in ("vpush", "vcat"):
            for x in t.a:
                self.text(x, facts, d + 1)
        elif t.op == "call" and t.a[0] in ("slice::join", "slice::concat", "Cow::into_owned", "ToString::to_string"):
            self.text(t.a[1], facts, d + 1)

    def seq(self, parts, facts):
        q, flat = OUT, []
        for p in parts:
            flat += list(p.a[0]) if p.op == "cat" else [p]
        for i, p in enumerate(flat):
            if p.op != "str":
                if i == 0:
                    q = self.ends(p, q) or OUT
                continue
            s = p.a[0]
            for m in TOK.finditer(s):
                a, b = m.span()
                quoted = s[a - 1:a] == '"' == s[b:b + 1] and lit_step(q, s[:a - 1]) == OUT
                if quoted:
                    self.words.setdefault(s[a - 1:b + 1], []).append((set(), None, "", s))
                    continue
                if lit_step(q, s[:a]) != OUT:
                    continue
                if a > 0 and (s[a - 1].isalnum() or s[a - 1] in "/%'"):
                    continue
                if a == 0 and i > 0 and flat[i - 1].op != "str" or b == len(s) and i + 1 < len(flat) and flat[i + 1].op != "str":
                    continue
                word = m.group(0)
                rest = s[b:]
                fields = set()
                if rest.strip('"') in ("=", "") and rest and i + 1 < len(flat):
                    fields = self.fields(flat[i + 1])
                self.now.add(word)
                lead = s[:a]
                before = lead if lead.strip() or i == 0 else None
                self.words.setdefault(word, []).append((fields, before, rest[:1], s))
            q = lit_step(q, s)

    def ends(self, t, q, busy=()):
        """The quote state behind a text that is spliced in (None: only round a loop); one unknown character after a backslash is taken to be the escaped one."""
        if t.op == "str":
            return lit_step(q, t.a[0])
        if t.op == "cat":
            for x in t.a[0]:
                q = self.ends(x, q, busy)
                if q is None:
                    return None
            return q
        if t.op == "phi":
            if t in busy:
                return None
            out = {self.ends(v, q, busy + (t,)) for v in self.E.incoming(t)} - {None}
            return out.pop() if len(out) == 1 else q
        return q if q in (IN, OUT) else IN

    def field(self, t):
        if t.op == "discr":
            t = t.a[0]
        while t.op == "fld" and t.a[1] is not None:
            t = t.a[0]
        return t.a[2] if t.op == "fld" and t.a[0].op in ("par", "elem") else None

    def fields(self, t):
        return {x.a[2] for x in subterms(t, self.E) if x.op == "fld" and x.a[1] is None and x.a[0].op in ("par", "elem")}


# ------------------------------------------------------------------ the reader
class Reader:
    """Every test of a piece of the field's text against a constant, and the fields that depend on it."""

    def __init__(self, P, adt, fk):
        self.P, self.tests, self.recs = P, {}, []
        self.types = set(unit_types(P, adt))
        self.links, self.ok = {}, False

        def prep(E):
            recs = []
            E.on_phi = lambda t, v, st: recs.append((t, E.snap(st, v) if v.op != "phi" and E.may_ref(v) else v, dict(st.facts)))
            self.aggs = []
            E.on_agg = lambda fr, st, a, v, ops, site: self.aggs.append((T("agg", a, v, tuple(ops)), dict(st.facts))) if a in self.types else None
            return recs
        got = run_with_budget(P, fk, 24, prep)
        if got is None:
            return
        self.E, outs, self.recs, self.hidden = got
        self.ok = True
        allf = [s.facts for v, s in outs] + [f for _, _, f in self.recs] + [f for _, f in self.aggs]
        for k in list(self.E.panics):
            allf.append(k.facts)
        for f in allf:
            for k, v in f.items():
                self.fact(k, v)
        vals = [(self.E.snap(s, v), s.facts) for v, s in outs]
        self.link(vals)

    def fact(self, k, v):
        for subj, const, mode in tests(k, v):
            self.tests.setdefault((const, mode), set()).add(subj)

    def matched(self, facts):
        """Constants a path has found the text to be equal to (or to start with)."""
        out = set()
        for k, v in facts.items():
            for subj, const, mode in tests(k, v):
                if k.op == "eq" and v is I(1) or isinstance(v, T) and v.op == "str" or k.op in ("discr", "call", "starts_with") and v is I(1):
                    out.add((const, mode))
        return out

    def link(self, vals):
        fields = {}
        seen = set()

        def note(t):
            if t.op == "agg" and t.a[0] in self.types:
                for i, x in enumerate(t.a[2]):
                    fields.setdefault((t.a[0], t.a[1], i), set()).add(x)
        for v, f in vals:
            walk(v, note, seen, self.E)
        for v, f in self.aggs:
            note(v)
        for (a, var, i), terms in fields.items():
            if var is not None and P_enum(self.P, a):
                continue
            for t in terms:
                for x in subterms(t, self.E):
                    if x.op == "call" and x.a[0] in ("str::strip_prefix", "str::trim_start_matches") and len(x.a) > 2 and x.a[2].op == "str":
                        self.links.setdefault((x.a[2].a[0], "prefix"), set()).add(i)
                for p in [x for x in subterms(t, self.E) if x.op == "phi"]:
                    vs = {v for q, v, f in self.recs if q is p}
                    if len(vs) < 2:
                        continue
                    rec = [(v, self.matched(f)) for q, v, f in self.recs if q is p and v is not p]
                    # a constant the path matched and that not every other value of the field comes with
                    for v, m in rec:
                        for c in m:
                            if not all(c in m2 for v2, m2 in rec if v2 is not v):
                                self.links.setdefault(c, set()).add(i)
        for v, f in self.aggs:
            if P_enum(self.P, v.a[0]):
                continue
            for i, x in enumerate(v.a[2]):
                if x is I(1):
                    for c in self.matched(f):
                        self.links.setdefault(c, set()).add(i)


def P_enum(P, a):
    return bool(P.adts[a].get("enum"))


def tests(k, v):
    """(subject, constant, how) for a fact that compares text with a constant."""
    out = []
    if k.op == "eq":
        for a, b in ((k.a[0], k.a[1]), (k.a[1], k.a[0])):
            if b.op == "str" and a.op != "str":
                out.append((a, b.a[0], "eq"))
    elif k.op == "call" and k.a[0] in ("str::eq_ignore_ascii_case", "slice::eq_ignore_ascii_case"):
        for a, b in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
            if b.op == "str" and a.op != "str":
                out.append((a, b.a[0], "nocase"))
    elif k.op in ("discr", "call"):
        x = k.a[0] if k.op == "discr" else k
        if isinstance(x, T) and x.op == "call" and x.a[0] in ("str::strip_prefix", "str::starts_with", "str::strip_suffix", "str::split_once", "str::find", "str::contains") and len(x.a) > 2 and x.a[2].op == "str":
            out.append((x.a[1], x.a[2].a[0], "prefix"))
    if isinstance(v, T) and v.op == "str":
        out.append((k, v.a[0], "eq"))
    if isinstance(v, tuple) and v and v[0] == "!":
        for c in v[1]:
            if isinstance(c, T) and c.op == "str":
                out.append((k, c.a[0], "eq"))
            elif isinstance(c, str):
                out.append((k, c, "eq"))
    return out


FOLDS = ("ascii_lower", "uni_lower", "str::to_lowercase", "str::to_ascii_lowercase")


def folded(t):
    return any(x.op in FOLDS or x.op == "call" and x.a[0] in FOLDS for x in spine(t))


def spine(t):
    while isinstance(t, T):
        yield t
        nxt = None
        if t.op == "call":
            nxt = t.a[1] if len(t.a) > 1 else None
        elif t.op in ("fld", "elem", "slice", "adv", "disp") + FOLDS:
            nxt = t.a[2] if t.op == "disp" else t.a[0]
        elif t.op == "it":
            nxt = t.a[1]
        t = nxt if isinstance(nxt, T) else None


def constants(P, root, limit=4000):
    """String constants in the functions reachable from a reader."""
    todo, seen, out = [root], set(), set()
    while todo and len(seen) < limit:
        k = todo.pop()
        if k in seen or k not in P.bodies:
            continue
        seen.add(k)
        for d in mir_dicts(P, k):
            for key in ("str", "s", "lit", "bytes"):
                v = d.get(key)
                if isinstance(v, str):
                    out.add(v)
                elif isinstance(v, list) and v and all(isinstance(c, int) for c in v):
                    out.add("".join(map(chr, v)))
        todo += [x for x in references(P, k) if P.defs.get(x, {}).get("krate", P.crate) == P.crate]
        todo += [c for c in P.bodies if P.bodies[c].get("parent") == k]
    return out


def words_of(c):
    return {m.group(0) for m in TOK.finditer(c)}


def one(P, W, h):
    name, adt, hn, hv, ap, im = h
    r = Report_like()
    fk = from_headers_fn(P, adt)
    if fk is None or name not in NAMES:
        return r.plain()
    w = Writer(P, W, name, adt, hv)
    where = P.where(hv)
    if w.unk:
        r.undec("%s:writer" % name, sorted(w.unk)[0], where)
        return r.plain()
    r.count("texts", len(w.built))
    if not w.words:
        return r.plain()
    rd = Reader(P, adt, fk)
    if not rd.ok:
        r.undec("%s:reader" % name, "the reader is too big", P.where(fk))
        return r.plain()
    pool = None
    for word, occ in sorted(w.words.items()):
        if (name, word) in FIXED:
            continue
        r.count("keywords")
        key = "%s:%s" % (name, word)
        hits, near = [], []
        for (const, mode), subjects in rd.tests.items():
            for c in words_of(const):
                if word[0] == '"':
                    c = const
                dead = mode == "eq" and const != const.lower() and all(folded(x) for x in subjects)
                if c == word and (mode != "eq" or const == word) and not dead or c.lower() == word.lower() and (mode == "nocase" or const == const.lower() and any(folded(x) for x in subjects)):
                    hits.append((const, mode))
                elif c.lower() == word.lower():
                    near.append((const, mode))
        if not hits:
            if pool is None:
                pool = constants(P, fk)
            inpool = any(c.lower() == word.lower().strip('"') for s in pool for c in words_of(s))
            never = [c for c in rd.E.never if word in (words_of(c) | {c})]
            msg = "%s writes the keyword %r; %s" % (P.short(hv), word, "its reader only compares it with text of another letter case" if never else "its reader only compares with %r" % sorted(near)[0][0] if near else "its reader compares nothing with it")
            if near or never or not inpool:
                r.ob(key, False, msg, where)
            else:
                r.undec(key, "how the reader recognises it was not followed", where)
            continue
        r.ob(key, True)
        # read back into the field it was written from
        fw = set().union(*(o[0] for o in occ))
        fr = set().union(*(rd.links.get(h_, set()) for h_ in hits))
        if len(fw) == 1 and fr:
            r.count("keywords tied to a field")
            r.ob(key + ":field", bool(fw & fr), "%s writes %r for field %s; its reader stores it in field %s" % (P.short(hv), word, fname(P, adt, w, fw), fname(P, adt, w, fr)), where)
        # separators around the keyword
        for fields, before, after, lit in occ:
            if not before:
                continue
            sep = before.strip()[-1:]
            blank = before != before.rstrip()
            good = False
            for h_ in hits:
                for subj in rd.tests.get(h_, ()):
                    sp = list(spine(subj))
                    pats = [y for x in sp if x.op == "call" and x.a[0] in SPLITS for y in subterms(x.a[2]) if len(x.a) > 2]
                    cuts = any(p.op == "int" and p.a[0] == ord(sep) or p.op == "str" and sep in p.a[0] for p in pats) if sep else True
                    trims = any(x.op == "call" and TRIMS.get(x.a[0], (0, 0))[0] for x in sp)
                    known = all(x.op in ("call", "fld", "elem", "it", "par", "slice", "adv", "disp") + FOLDS for x in sp)
                    if not known or cuts and (trims or not blank) or h_[1] == "prefix" or any(x.op == "slice" for x in sp):
                        good = True
            r.ob(key + ":separator", good, "%s writes %r after %r, which its reader does not cut off" % (P.short(hv), word, before[-3:]), where)
    return r.plain()


def fname(P, adt, w, idx):
    out = []
    for a in w.types:
        if P_enum(P, a):
            continue
        fs = P.adts[a]["variants"][0]["fields"]
        out += [fs[i]["name"] for i in idx if i < len(fs)]
        if out:
            break
    return ", ".join(sorted(out)) or str(sorted(idx))


@prop("H09")
def h09(R, P, W_):
    """For every typed header that is written and read: each keyword in the literals of its header_value (outside quotes) must be tested for by its from_headers - an
    equality, prefix or case-blind test whose constant is that word in that case, or any case where the reader folds case; a parameter must be
    stored in the field it was written from; and the separator and blanks written before it must be cut off before the test.
    For the enumerations that headers carry, the printing and parsing functions are compared member by member as tables."""
    tr, hs = typed_headers(P)
    W = world(P, "noquote")
    for pl in pmap(lambda h: one(P, W, h), hs):
        R.merge(pl)
    R.count("typed headers", len(hs))
    R.floor("keywords", 20)
    enum_tables(R, P, wire=True)

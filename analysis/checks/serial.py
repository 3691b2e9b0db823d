"""H08: serializing a typed header depends on its contents alone."""
import re
from checks import prop
from checks.headers import Report_like
from lib import *

AMBIENT = re.compile(r"(SystemTime::now|Instant::now|SystemTime::elapsed|Instant::elapsed|\brandom\b|\brand\b|rand::|fastrand|Rng|getrandom|env::var|env::args|thread::current|process::id|"
                     r"RandomState|Hasher::finish|BuildHasher|available_parallelism|TypeId::of|type_name|Location::caller|current_dir|hostname)")
INTERIOR = re.compile(r"(Cell::|RefCell::|Atomic\w*::|Mutex::|RwLock::|OnceCell::|OnceLock::|UnsafeCell::|LocalKey::|Lazy)")
HASHED = re.compile(r"(HashMap|HashSet|hash_map|hash_set|hash::map|hash::set)")
ORDERED_OUT = {"len", "is_empty", "contains", "contains_key", "get", "get_mut", "insert", "remove", "entry", "new", "with_capacity", "reserve"}
SORTS = {"slice::sort", "slice::sort_unstable", "Vec::sort", "Vec::sort_unstable"}


def unordered(t):
    """Whether this term is an iteration over a hash table."""
    if t.op == "it" and isinstance(t.a[-1], str) and HASHED.search(t.a[-1]):
        return True
    return t.op == "call" and isinstance(t.a[0], str) and HASHED.search(t.a[0]) is not None and t.a[0].split("::")[-1] not in ORDERED_OUT


def empties(facts):
    """Tables a path has found to be empty."""
    out = set()
    for k, v in facts.items():
        if k.op == "call" and str(k.a[0]).endswith("::is_empty") and v is TRUE or k.op == "call" and str(k.a[0]).endswith("::len") and v is I(0):
            out.add(k.a[1])
        if k.op == "len" and v is I(0):
            out.add(k.a[0])
    return out


def counted(E, facts, src):
    """Whether the path looked at how many entries there are: with at most one there is only one order."""
    base = src.a[1] if len(src.a) > 1 else None
    for k in facts:
        for x in subterms(k, E):
            if x.op == "len" and (x.a[0] is base or any(y is src for y in subterms(x.a[0], E))) or x.op == "call" and str(x.a[0]).endswith("::len") and x.a[1] is base:
                return True
    return False


def depends(E, t, none=()):
    """(sites of hash iteration whose order t depends on, ambient sources t depends on)"""
    order, amb, seen = [], [], set()
    stack = [(t, False)]
    while stack:
        x, sorted_ = stack.pop()
        if isinstance(x, (tuple, frozenset)):
            stack.extend((y, sorted_) for y in x)
            continue
        if not isinstance(x, T) or (x, sorted_) in seen:
            continue
        seen.add((x, sorted_))
        if x.op == "phi":
            stack.extend((y, sorted_) for y in E.incoming(x))
            stack.extend((y, sorted_) for y in E.ctrl.get(x.a[0], ()))
            continue
        if unordered(x):
            if not sorted_ and not any(y in none for y in x.a[1:] if isinstance(y, T)):
                order.append(x)
            stack.extend((y, sorted_) for y in x.a[1:])
            continue
        if x.op == "len":
            sorted_ = True      # a number of entries has no order
        if x.op == "mut" and x.a[0] in SORTS:
            stack.extend((y, True) for y in x.a[1:])
            continue
        if x.op == "call" and x.a[0] in ("coll",) and any(isinstance(y, T) and "BTree" in str(y)[:40] for y in x.a[-1:]):
            sorted_ = True
        if x.op == "call" and isinstance(x.a[0], str) and AMBIENT.search(x.a[0]):
            amb.append(x.a[0])
        if x.op == "disp" and x.a[0] == "pointer":
            amb.append("an address")
        if x.op in ("ended", "exhausted", "active", "ixof"):
            sorted_ = True
        stack.extend((y, sorted_) for y in x.a)
    return order, amb


def judge(R, E, key, val, s, where, what):
    R.count("outcomes")
    o, a = depends(E, E.snap(s, val), empties(s.facts))
    if o and all(counted(E, s.facts, x) for x in o):
        R.undec(key + ":order", "whether the number of entries leaves one order was not decided", where)
        o = []
    R.ob(key + ":order", not o, "%s depends on the iteration order of a hash table (%s)" % (what, str(o[0])[:90] if o else ""), where)
    R.ob(key + ":ambient", not a, "%s depends on %s" % (what, a[:1]), where)
    for f in s.facts:
        fo, fa = depends(E, f)
        if fo:
            R.undec(key + ":order", "a branch looks at an element of a hash table iteration", where)
        if fa:
            R.ob(key + ":ambient", False, "%s is chosen by %s" % (what, fa[:1]), where)
    for e in s.eff:
        if e.kind == "call" and INTERIOR.search(e.name):
            R.ob(key + ":state", False, "%s goes through hidden mutable state (%s)" % (what, e.name), where)


@prop("H08")
def h08(R, P, W):
    """For header_value of every Header impl and for ContentSecurityPolicy::apply: the term of the produced text (all loop iterations included) contains no element of
    a hash-table iteration except under a full sort, no clock, randomness, environment, address or type-name source, no hidden mutable state; and the header itself is not written to."""
    tr, hs = typed_headers(P)
    p0 = T("par", 0)

    def one(h):
        r = Report_like()
        name, adt, hn, hv, ap, im = h
        if hv is None or hv not in P.bodies:
            return r.plain()
        r.count("serializers")
        w = P.where(hv)
        outs = E = None
        for cap in (64, 24, 8):
            E = new_engine(P, cap=cap)
            E.ctrl = {}
            try:
                outs = E.run(hv)
                break
            except Budget:
                continue
        if outs is None:
            r.undec(name, "too many paths", w)
            return r.plain()
        for v, s in outs:
            judge(r, E, name, v, s, w, "the text of " + name)
        return r.plain()
    for d in pmap(one, hs):
        R.merge(d)
    for k in [k for k in P.fn(name="apply") if "self_ty" in P.defs[k] and P.ty(P.defs[k]["self_ty"])[0] == "adt" and P.defs[k].get("exported")]:
        a = P.ty(P.defs[k]["self_ty"])[1]
        if any(a == h[1] for h in hs):
            continue
        name = a.split("::")[-1]
        R.count("serializers")
        E = new_engine(P, cap=64)
        E.ctrl = {}
        w = P.where(k)
        for v, s in E.run(k):
            for e in s.eff:
                if e.kind == "call" and e.name == "HashMap::insert" and len(e.args) == 3:
                    judge(R, E, name, e.args[2], s, w, "the value set by %s::apply" % name)
                if e.kind == "write" and any(x is p0 for x in subterms(e.args[0])):
                    R.ob(name + ":again", False, "%s::apply changes the policy it serializes, so applying it again gives another value" % name, w)
            m = s.env.get(("H", p0))
            R.ob(name + ":again", m is None or E.snap(s, m) is p0, "%s::apply changes the policy it serializes, so applying it again gives another value" % name, w)
    R.floor("serializers", 30)
    R.floor("outcomes", 80)

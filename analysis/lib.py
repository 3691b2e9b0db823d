"""Helpers shared by the checks: engines with standard hooks, typed headers, term queries."""
import os, multiprocessing
from program import Program, MissingAnchor
import engine, models
from engine import *
from models import m_next

HEADERS = "headers::headers::Headers"


def new_engine(P, cap=24, hooks=True, **kw):
    E = Engine(P, cap=cap, **kw)
    if hooks:
        std_hooks(E)
    return E


def std_hooks(E):
    """Treat the crate's own header-value iteration as iteration over the underlying list (I01 decides the iterators themselves)."""
    def hv_iter(c):
        v = c.args[0]
        l = E.deref(c.st, v)
        if l is None:
            return [(T("it", "src", E.getstep(v, ("f", 0, None)), "slice::iter"), c.st)]
        return [(T("it", "src", E.mkref(l[0], l[1] + (("f", 0, None),)), "slice::iter"), c.st)]

    def values_next(c):
        l = E.deref(c.st, c.args[0])
        if l is None:
            return None
        it = E.read(c.st, *l)
        if it.op in ("it", "adv"):
            return m_next(c)
        return None
    E.hooks["http_types::HeaderValues::iter"] = hv_iter
    for k in E.P.bodies:
        s = E.P.short(k)
        if s.endswith("as IntoIterator>::into_iter") and "HeaderValues" in s:
            E.hooks[s] = hv_iter
        if s.startswith("<Values as Iterator>") or s.startswith("<Values<") and s.endswith("::next"):
            E.hooks[s] = values_next


def typed_headers(P):
    """[(type short name, adt path, header_name fn, header_value fn, apply fn or None, impl)]"""
    out = []
    tr = [t for t in P.impl_by_trait if t.endswith("headers::header::Header")]
    if len(tr) != 1:
        raise MissingAnchor("trait Header")
    for im in P.impl_by_trait[tr[0]]:
        st = im["self"]
        if st[0] != "adt" or not P.is_local_adt(st):
            continue
        items = {it["name"]: it["def"] for it in im["items"]}
        out.append((st[1].split("::")[-1], st[1], items.get("header_name"), items.get("header_value"), items.get("apply_header"), im))
    out.sort()
    return tr[0], out


def from_headers_fn(P, adt):
    name = adt.split("::")[-1]
    r = [k for k in P.fn(ty=name, name="from_headers") if P.ty(P.defs[k]["self_ty"])[1] == adt]
    if not r:
        return None
    return r[0]


def headers_param(P, key):
    """Index of the parameter through which a from_headers function receives the headers."""
    d = P.defs[key]
    ins = [P.ty(i) for i in d["inputs"]]
    for i, t in enumerate(ins):
        b = t
        while b[0] == "ref":
            b = b[1]
        if b[0] == "param":
            # impl AsRef<Headers>: chosen by position; base URLs use other bounds
            last = i
        if b[0] == "adt" and b[1] == HEADERS:
            return i
    return last


def walk(t, f, seen=None, E=None):
    """Call f on every sub-term (phis expanded when an engine is given)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, (tuple, frozenset)):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        f(x)
        if x.op == "phi":
            if E is not None:
                stack.extend(E.incoming(x))
        else:
            stack.extend(x.a)


def subterms(t, E=None):
    out = []
    walk(t, out.append, None, E)
    return out


def strconst(t):
    """The constant text of a HeaderName / string term, or None."""
    while t.op == "agg" and len(t.a[2]) == 1 and not (t.a[0] in ("array", "vec", "tuple")):
        t = t.a[2][0]
    if t.op == "call" and t.a[0] == "ascii_lower":
        x = strconst(t.a[1])
        return x.lower() if x is not None else None
    return t.a[0] if t.op == "str" else None


_JOB = None


def _call(i):
    import time
    t0 = time.time()
    r = _JOB[0](_JOB[1][i])
    if os.environ.get("VERIF_TIMES"):
        print("%.1fs %s" % (time.time() - t0, str(_JOB[1][i])[:100]), flush=True)
    return r


def pmap(func, items, jobs=8):
    """func(item) in forked workers; results are plain data."""
    global _JOB
    items = list(items)
    if len(items) <= 1:
        return [func(x) for x in items]
    _JOB = (func, items)
    with multiprocessing.get_context("fork").Pool(min(jobs, len(items)), maxtasksperchild=8) as p:
        return p.map(_call, range(len(items)), chunksize=1)


def variants_of(P, name):
    a = P.adt(name)
    return a, [v["name"] for v in P.adts[a]["variants"]]


def resolve(E, s, t, depth=12):
    """All terms t may stand for, looking through phis under field projections as well."""
    path = []
    x = t
    while x.op == "fld":
        path.append(("f", x.a[2], x.a[1]))
        x = x.a[0]
    if x.op != "phi" or depth <= 0:
        return [t]
    out = []
    for y in E.flat(x):
        zs = [y]
        for st in reversed(path):
            nz = []
            for z in zs:
                if z.op == "agg" and z.a[1] is not None and st[2] is not None and z.a[1] != st[2]:
                    continue  # another variant: this projection is only evaluated for the matching one
                w = E.getstep(z, st)
                if w.op == "phi":
                    nz += E.flat(w)
                else:
                    nz.append(w)
            zs = nz
        for z in zs:
            for w in (resolve(E, s, z, depth - 1) if z.op in ("fld", "phi") and z is not t else [z]):
                if w not in out:
                    out.append(w)
    return out


def mir_dicts(P, key):
    """All objects of a function's MIR (constants, aggregate kinds)."""
    stack = [P.bodies[key]]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            yield x
            stack.extend(x.values())
        elif isinstance(x, list):
            stack.extend(x)


_REFS = {}


def references(P, key):
    """Functions a body mentions (called, or passed as a value), resolved where the impl is known."""
    r = _REFS.get((id(P), key))
    if r is None:
        r = set()
        for d in mir_dicts(P, key):
            f = d.get("fn")
            if isinstance(f, dict):
                r.add(f["d"])
                if f.get("r"):
                    r.add(f["r"])
        _REFS[(id(P), key)] = r
    return r


def callers(P, key):
    return [k for k in P.bodies if key in references(P, k)]


def builds(P, key, adt):
    """Whether the body constructs a value of adt."""
    return any(d.get("k") == "adt" and d.get("d") == adt and "vn" in d for d in mir_dicts(P, key))


def owner(P, k):
    """The named function a closure belongs to."""
    while P.defs[k]["kind"] == "Closure":
        k = P.defs[k]["parent"]
    return k

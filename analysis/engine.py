"""Abstract interpretation of MIR over a domain of hash-consed symbolic terms.

A state maps memory cells to terms, keeps the branch conditions known to hold (facts) and the list of
externally visible effects.  States are kept apart up to a bound (trace partitioning) and then joined:
a cell that differs becomes a phi whose incoming terms are remembered, so value flow is never lost.
Loop heads always join, which makes the analysis terminate.  No constraint solver is involved and nothing
of the analysed crate is executed.
"""
import heapq, sys
from program import Program, scalar, int_range, MissingAnchor, strip_generics

sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "a", "_h", "_r", "id", "_ar")
    table = {}

    def __new__(cls, op, *a):
        k = (op, a)
        t = cls.table.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.a = a
            t._h = hash(k)
            t._r = None
            t._ar = None
            t.id = len(cls.table)
            cls.table[k] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        if self._r is None:
            self._r = show(self)
        return self._r

    def __lt__(self, o):
        return self.id < o.id


def show(t, depth=12):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth - 1) if isinstance(x, (T, tuple)) else str(x) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    op, a = t.op, t.a
    if op == "str":
        return repr(a[0])
    if op in ("int", "flt"):
        return str(a[0])
    if op == "agg":
        tag, v, fs = a
        n = tag if isinstance(tag, str) else tag[0]
        n = n.split("::")[-1]
        if v is not None:
            n += "::" + str(v)
        return n + "(" + ", ".join(show(x, d) for x in fs) + ")"
    if op == "par":
        return "$" + str(a[0])
    if op == "fld":
        return "%s.%s%s" % (show(a[0], d), (str(a[1]) + ".") if a[1] is not None else "", a[2])
    if op == "phi":
        return "φ%d" % a[0]
    if op == "call":
        return a[0].replace("http_types::", "") + "(" + ", ".join(show(x, d) for x in a[1:]) + ")"
    if op == "cat":
        return "cat(" + ", ".join(show(x, d) for x in a[0]) + ")"
    if op == "ref":
        return "&" + show(a[0], d) + "".join("." + str(p[1]) for p in a[1])
    return op + "(" + ", ".join(show(x, d) for x in a) + ")"


def I(n):
    return T("int", n)


def S(s):
    return T("str", s)


TRUE, FALSE = I(1), I(0)
UNINIT = T("uninit")
UNIT = T("agg", "tuple", None, ())
OPT, RES, CF, POLL = "core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow", "core::task::poll::Poll"
NONE = T("agg", OPT, "None", ())
CONST_OPS = ("int", "str", "flt", "bytes")
STD_ENUMS = {OPT: [("None", 0), ("Some", 1)], RES: [("Ok", 1), ("Err", 1)], CF: [("Continue", 1), ("Break", 1)], POLL: [("Ready", 1), ("Pending", 0)]}
TRANSPARENT_ADTS = {"core::pin::Pin", "alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull",
                    "core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop", "core::mem::maybe_dangling::MaybeDangling",
                    "core::pattern_type"}


def some(v):
    return T("agg", OPT, "Some", (v,))


def ok(v):
    return T("agg", RES, "Ok", (v,))


def err(v):
    return T("agg", RES, "Err", (v,))


def is_const(t):
    return t.op in CONST_OPS


def stepkey(e):
    return tuple(("t", y.id) if isinstance(y, T) else ("s", str(y)) for y in e[0])


class Budget(Exception):
    pass


class State:
    __slots__ = ("env", "facts", "eff")

    def __init__(self, env=None, facts=None, eff=()):
        self.env = env if env is not None else {}
        self.facts = facts if facts is not None else {}
        self.eff = eff

    def copy(self):
        return State(dict(self.env), dict(self.facts), self.eff)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.facts.items()), self.eff)


class Frame:
    __slots__ = ("key", "body", "ctx", "subst", "tys", "depth", "rpo", "heads", "chain")


class Eff:
    """One externally visible action, in program order of its trace."""
    __slots__ = ("kind", "name", "args", "site", "facts", "ctx", "res", "tys")

    def __init__(self, kind, name, args, site, facts, ctx, res=None, tys=()):
        self.kind, self.name, self.args, self.site, self.facts, self.ctx, self.res, self.tys = kind, name, args, site, facts, ctx, res, tys

    def k(self):
        return (self.kind, self.name, self.args, self.site)

    def __hash__(self):
        return hash(self.k())

    def __eq__(self, o):
        return isinstance(o, Eff) and self.k() == o.k()

    def __repr__(self):
        return "%s %s(%s)" % (self.kind, self.name, ", ".join(map(repr, self.args)))


class Panic:
    __slots__ = ("kind", "fn", "line", "args", "facts", "chain", "tys")

    def __init__(self, kind, fn, line, args, facts, chain, tys=()):
        self.kind, self.fn, self.line, self.args, self.facts, self.chain, self.tys = kind, fn, line, args, facts, chain, tys


class Engine:
    def __init__(self, P, cap=24, depth=24, budget=400000):
        self.P = P
        self.cap = cap
        self.maxdepth = depth
        self.budget0 = budget
        self.phis = {}      # id -> ordered dict of incoming terms
        self.phikey = {}
        self.ctxs = {}
        self.ctxinfo = []
        self.panics = []
        self.never = set()         # constants compared with text folded to a letter case they do not have
        self.capped = set()        # functions some of whose paths were joined because there were too many
        self.constcache = {}
        self.cfgcache = {}
        self.stats = {"bodies": set(), "blocks": 0, "calls": 0, "opaque": {}}
        self.opaque_fns = set()    # short names never inlined
        self.hooks = {}            # short name -> fn(engine, call) -> outcomes or None
        self.record = True
        self.nvars = {}            # discriminant term -> all values it can take
        self.ctrl = None           # if a dict: phi id -> conditions that told its incoming values apart (implicit flows)
        self._ctrl_now = ()
        self.on_head = None        # called with every state arriving at a loop head
        self.on_item = None        # called for every element an iterator yields to a loop
        self.on_coll = None        # called with every collection gathered from an iterator and the facts of each item
        self.on_apply = None       # called with the outcomes of every call of a closure
        self.on_agg = None         # called for every construction of a value of a named type
        self.find_facts = False    # a search that finds nothing says so of every item
        self.split_facts = False   # keep paths apart at loop heads by what they know besides the items
        self._lasting = {}
        self.fork_fixed = False    # keep the paths through a loop over a literal sequence apart
        self.on_phi = None         # called with every value joined into a phi and the facts of its path
        self.on_write = None       # called after every write
        self._js = None
        from models import MODELS
        self.models = MODELS
        self._elemcache = {}

    # ---------------------------------------------------------------- contexts and phis
    def ctx(self, parent, site):
        k = (parent, site)
        c = self.ctxs.get(k)
        if c is None:
            c = self.ctxs[k] = len(self.ctxinfo)
            self.ctxinfo.append(k)
        return c

    def phi(self, key, vals):
        n = self.phikey.get(key)
        if n is None:
            n = self.phikey[key] = len(self.phikey)
            self.phis[n] = {}
        t = T("phi", n)
        d = self.phis[n]
        for v in vals:
            while v.op == "adv":
                v = v.a[0]
            if v is not t:
                d[v] = True
        if self.ctrl is not None and self._ctrl_now:
            self.ctrl.setdefault(n, set()).update(self._ctrl_now)
        return t

    def incoming(self, t):
        return list(self.phis[t.a[0]])

    def flat(self, t, seen=None):
        """All non-phi terms a term may stand for."""
        if t.op != "phi":
            return [t]
        if seen is None:
            seen = set()
        if t in seen:
            return []
        seen.add(t)
        out = []
        for v in self.incoming(t):
            for x in self.flat(v, seen):
                if x not in out:
                    out.append(x)
        return out

    def join_val(self, a, b, key):
        if a is b:
            return a
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
            return T("agg", a.a[0], a.a[1], tuple(self.join_val(x, y, key + (i,)) for i, (x, y) in enumerate(zip(a.a[2], b.a[2]))))
        if a.op == "adv" or b.op == "adv":
            ia = a.a[0] if a.op == "adv" else a
            ib = b.a[0] if b.op == "adv" else b
            if ia is ib:
                return T("adv", ia, "*")
        if a.op == "adv" or b.op == "adv":
            return T("adv", self.phi(key, [a, b]), "*")
        if a.op == "phi" and self.phikey.get(key) == a.a[0]:
            r = self.phi(key, [b])
        elif b.op == "phi" and self.phikey.get(key) == b.a[0]:
            r = self.phi(key, [a])
        else:
            r = self.phi(key, [a, b])
        if self.on_phi is not None and self._js is not None:
            for v, st in ((a, self._js[0]), (b, self._js[1])):
                if v is not r:
                    self.on_phi(r, v, st)
        return r

    def join(self, s, t, key):
        if self.ctrl is not None:
            f, g = s.facts, t.facts
            self._ctrl_now = [k for k, v in f.items() if k not in g or g[k] is not v and g[k] != v] + [k for k in g if k not in f]
            try:
                return self.join1(s, t, key)
            finally:
                self._ctrl_now = ()
        return self.join1(s, t, key)

    def join1(self, s, t, key):
        self._js = (s, t)
        env = {}
        for r, v in s.env.items():
            w = t.env.get(r)
            if w is None:
                if r[0] == "H":
                    env[r] = self.join_val(v, r[1], key + (r,))
                continue
            env[r] = v if v is w else self.join_val(v, w, key + (r,))
        for r, w in t.env.items():
            if r[0] == "H" and r not in s.env:
                env[r] = self.join_val(r[1], w, key + (r,))
        facts = {k: v for k, v in s.facts.items() if t.facts.get(k) is v or t.facts.get(k) == v}
        if s.eff == t.eff:
            eff = s.eff
        else:
            n = 0
            while n < len(s.eff) and n < len(t.eff) and s.eff[n] == t.eff[n]:
                n += 1
            have = set(s.eff)
            eff = s.eff + tuple(e for e in t.eff[n:] if e not in have)
        return State(env, facts, eff)

    # ---------------------------------------------------------------- CFG
    def cfg(self, body):
        k = id(body)
        c = self.cfgcache.get(k)
        if c:
            return c
        blocks = body["blocks"]
        succ = []
        for b in blocks:
            t = b["t"]
            op = t[0]
            if op == "goto":
                s = [t[1]]
            elif op == "switch":
                s = [x[1] for x in t[3]] + [t[4]]
            elif op == "drop":
                s = [t[1]]
            elif op == "call":
                s = [t[4]] if t[4] >= 0 else []
            elif op == "assert":
                s = [t[5]]
            elif op == "yield":
                s = [t[1]]
            else:
                s = []
            succ.append(s)
        order, seen, onstack, heads = [], set(), set(), set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        onstack.add(0)
        while stack:
            n, it = stack[-1]
            for m in it:
                if m in onstack:
                    heads.add(m)
                if m not in seen:
                    seen.add(m)
                    onstack.add(m)
                    stack.append((m, iter(succ[m])))
                    break
            else:
                order.append(n)
                onstack.discard(n)
                stack.pop()
        order.reverse()
        rpo = {n: i for i, n in enumerate(order)}
        live = self.liveness(body, succ, order)
        c = (rpo, heads, order, live)
        self.cfgcache[k] = c
        return c

    def liveness(self, body, succ, order):
        """Locals that may still be read at the entry of each block (address-taken locals always count)."""
        taken = set()
        use, kill = [], []

        def place(p, u):
            u.append(p[0])
            for x in p[1]:
                if x[0] == "i":
                    u.append(x[1])

        def operand(o, u):
            if o[0] in ("m", "c"):
                place(o[1], u)

        def rvalue(rv, u):
            k = rv[0]
            if k in ("ref", "rawptr"):
                p = rv[2] if k == "ref" else rv[1]
                taken.add(p[0])  # a reborrow of a constant is represented as a reference to the local itself
                place(p, u)
            elif k == "agg":
                for o in rv[2]:
                    operand(o, u)
            elif k == "discr":
                place(rv[1], u)
            elif k == "bin":
                operand(rv[2], u)
                operand(rv[3], u)
            elif k in ("un", "cast"):
                operand(rv[2], u)
            elif k in ("use", "repeat"):
                operand(rv[1], u)
            else:
                def walk(x):
                    if isinstance(x, list):
                        if len(x) == 2 and x[0] in ("m", "c") and isinstance(x[1], list):
                            operand(x, u)
                        elif len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                            place(x, u)
                        for y in x:
                            walk(y)
                walk(rv)

        for b in body["blocks"]:
            g, k = set(), set()

            def uses(u):
                for x in u:
                    if x not in k:
                        g.add(x)

            def define(p):
                if not p[1]:
                    k.add(p[0])
                else:
                    u = []
                    place(p, u)
                    uses(u)

            for st in b["s"]:
                if st[0] == "=":
                    u = []
                    rvalue(st[2], u)
                    uses(u)
                    define(st[1])
            t = b["t"]
            u = []
            if t[0] == "switch":
                operand(t[1], u)
            elif t[0] == "assert":
                operand(t[1], u)
                for o in t[4]:
                    operand(o, u)
            elif t[0] == "call":
                operand(t[1], u)
                for o in t[2]:
                    operand(o, u)
                if t[3][1]:
                    place(t[3], u)
            elif t[0] == "return":
                u.append(0)
            elif t[0] == "yield":
                for x in t[2:]:
                    if isinstance(x, list):
                        rvalue(["?", x], u)
            uses(u)
            if t[0] == "call" and not t[3][1]:
                k2 = t[3][0]
            else:
                k2 = None
            use.append(g)
            kill.append((k, k2))
        n = len(body["blocks"])
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in reversed(order):
                o = set()
                for s in succ[b]:
                    o |= live[s]
                k, k2 = kill[b]
                o.discard(k2)
                o = use[b] | (o - k)
                if o != live[b]:
                    live[b] = o
                    changed = True
        return [x | taken | {0} for x in live]

    # ---------------------------------------------------------------- memory
    def rootval(self, st, root):
        v = st.env.get(root)
        if v is not None:
            return v
        if root[0] == "H":
            return root[1]
        if root[0] == "P":
            return self.promoted(root[1], root[2])
        return UNINIT

    def getstep(self, v, step):
        k = step[0]
        if v.op == "upd":
            for s, x in v.a[1]:
                if s == step:
                    return x
            return self.getstep(v.a[0], step)
        if k == "f":
            if v.op == "agg":
                fs = v.a[2]
                if step[1] < len(fs):
                    return fs[step[1]]
                return T("fld", v, step[2], step[1])
            return T("fld", v, step[2], step[1])
        if k == "i":
            i = step[1]
            if v.op == "agg" and v.a[0] in ("array", "vec") and i.op == "int" and i.a[0] < len(v.a[2]):
                return v.a[2][i.a[0]]
            return T("idx", v, i)
        if k == "ss":
            return T("sub", v, I(step[1]), I(step[2]), step[3])
        return T("proj", v, step)

    def read(self, st, root, proj):
        v = self.rootval(st, root)
        for s in proj:
            v = self.getstep(v, s)
        return v

    def setpath(self, v, proj, val):
        if not proj:
            return val
        s, rest = proj[0], proj[1:]
        inner = self.setpath(self.getstep(v, s), rest, val)
        if v.op == "agg" and s[0] == "f" and s[1] < len(v.a[2]):
            fs = list(v.a[2])
            fs[s[1]] = inner
            return T("agg", v.a[0], v.a[1], tuple(fs))
        if v.op == "agg" and s[0] == "i" and s[1].op == "int" and s[1].a[0] < len(v.a[2]):
            fs = list(v.a[2])
            fs[s[1].a[0]] = inner
            return T("agg", v.a[0], v.a[1], tuple(fs))
        if v.op == "upd":
            ents = [(a, b) for a, b in v.a[1] if a != s] + [(s, inner)]
            ents.sort(key=stepkey)
            return T("upd", v.a[0], tuple(ents))
        return T("upd", v, ((s, inner),))

    def write(self, st, root, proj, val, site=None, ctx=None):
        st.env[root] = self.setpath(self.rootval(st, root), proj, val)
        if self.on_write is not None:
            self.on_write(st, root, proj, val, site)
        if root[0] == "H" and site is not None:
            e = Eff("write", "write", (root[1], proj, self.snap(st, val)), site, dict(st.facts), ctx)
            if e not in st.eff:
                st.eff = st.eff + (e,)

    def deref(self, st, v):
        """Location a pointer value designates, or None for an owned (boxed, constant) value."""
        if v.op == "ref":
            return v.a[0], v.a[1]
        if v.op in ("agg", "upd", "str", "int", "flt", "bytes", "cat", "vpush", "uninit", "fn"):
            return None
        return ("H", v), ()

    def mkref(self, root, proj):
        if root[0] == "H" and not proj:
            return root[1]
        return T("ref", root, proj)

    def load(self, st, v):
        """Value behind a pointer value (one level)."""
        l = self.deref(st, v)
        if l is None:
            return v
        return self.read(st, *l)

    def snap(self, st, v, memo=None):
        """A term independent of memory: references replaced by what they point to."""
        op = v.op
        if op in CONST_OPS or op == "fn" or op == "par" and ("H", v) not in st.env:
            return v
        if memo is None:
            memo = {}
        r = memo.get(v)
        if r is not None:
            return r
        memo[v] = v  # a cyclic reference stays symbolic
        if op == "ref":
            r = self.snap(st, self.read(st, v.a[0], v.a[1]), memo)
        elif op == "agg":
            fs = tuple([self.snap(st, x, memo) for x in v.a[2]])
            r = v if fs == v.a[2] else T("agg", v.a[0], v.a[1], fs)
        elif op in ("it", "coll", "adv", "vpush", "vcat", "some"):
            na = tuple([self.snap(st, x, memo) if isinstance(x, T) else x for x in v.a])
            r = v if na == v.a else T(op, *na)
        else:
            h = st.env.get(("H", v))
            r = self.snap(st, h, memo) if h is not None and h is not v else v
        memo[v] = r
        return r

    # ---------------------------------------------------------------- places and operands
    def place_ty(self, fr, place):
        ty = fr.tys[place[0]]
        variant = None
        for p in place[1]:
            if p == "*":
                if ty[0] in ("ref", "ptr"):
                    ty = ty[1]
                elif ty[0] == "adt" and ty[2]:
                    ty = ty[2][0]
            elif p[0] == "f":
                ty = self.P.subst(self.P.ty(p[2]), fr.subst)
            elif p[0] in ("i", "ci"):
                ty = ty[1] if ty[0] in ("slice", "array") else ("other", "?")
        return ty

    def locate(self, fr, st, place):
        root, proj = ("L", fr.ctx, place[0]), ()
        if not place[1]:
            return root, proj, fr.tys[place[0]]
        ty = fr.tys[place[0]]
        variant = None
        for p in place[1]:
            if p == "*":
                v = self.read(st, root, proj)
                l = self.deref(st, v)
                if l is not None:
                    root, proj = l
                if ty[0] in ("ref", "ptr"):
                    ty = ty[1]
                elif ty[0] == "adt" and ty[2]:
                    ty = ty[2][0]
                variant = None
            elif p[0] == "f":
                if not (ty[0] == "adt" and ty[1] in TRANSPARENT_ADTS):
                    proj = proj + (("f", p[1], variant),)
                ty = self.P.subst(self.P.ty(p[2]), fr.subst)
                variant = None
            elif p[0] == "v":
                variant = p[2] or str(p[1])
            elif p[0] == "i":
                i = self.read(st, ("L", fr.ctx, p[1]), ())
                proj = proj + (("i", i),)
                ty = ty[1] if ty[0] in ("slice", "array") else ("other", "?")
            elif p[0] == "ci":
                proj = proj + ((("i", I(p[1])) if not p[3] else ("i", T("fromend", I(p[1])))),)
                ty = ty[1] if ty[0] in ("slice", "array") else ("other", "?")
            elif p[0] == "ss":
                proj = proj + (("ss", p[1], p[2], p[3]),)
        return root, proj, ty

    def const_val(self, fr, c):
        ty = self.P.subst(self.P.ty(c["ty"]), fr.subst)
        if "fn" in c:
            f = c["fn"]
            d, a = f["d"], f["a"]
            args = tuple(self.P.subst(self.P.tyarg(x), fr.subst) for x in a)
            r = f.get("r")
            ra = tuple(self.P.subst(self.P.tyarg(x), fr.subst) for x in f["ra"]) if r else None
            return T("fn", d, args, r, ra)
        if "bits" in c:
            k, v = scalar(ty, c["bits"], c["size"])
            return T(k, v)
        if "str" in c:
            return S(c["str"]) if isinstance(c["str"], str) else T("bytes", tuple(c["str"]))
        if "bytes" in c:
            return T("bytes", tuple(c["bytes"]))
        if "promoted" in c:
            return T("ref", ("P", c["uneval"], c["promoted"]), ())
        if "uneval" in c:
            return self.eval_const(c["uneval"], fr, c)
        if c.get("zst"):
            if ty[0] == "tuple":
                return UNIT
            if ty[0] == "adt":
                a = self.P.adts.get(ty[1])
                if a and not a["enum"] and not a["variants"][0]["fields"]:
                    return T("agg", ty[1], None, ())
            if ty[0] == "closure":
                return T("agg", ("closure", ty[1]), None, ())
            return T("zst", self.P.tystr(ty))
        if "rawbits" in c:
            if ty[0] == "adt":
                a = self.P.adts.get(ty[1])
                if a and a["enum"]:
                    for v in a["variants"]:
                        if int(v["discr"]) == int(c["rawbits"]) and not v["fields"]:
                            return T("agg", ty[1], v["name"], ())
            return T("raw", c["rawbits"], self.P.tystr(ty))
        return T("constop", self.P.tystr(ty), c.get("tyconst", ""))

    def eval_const(self, key, fr=None, c=None):
        if key in self.constcache:
            return self.constcache[key]
        if key in self.P.bodies and self.P.defs[key]["kind"] not in ("Closure",):
            self.constcache[key] = T("constdef", key)
            sub = {}
            outs = self.exec_body(self.P.bodies[key]["body"], key, self.ctx(-2, key), sub, [], State(), 0, ())
            if len(outs) >= 1:
                v, st = outs[0]
                v = self.snap(st, v)
            else:
                v = T("constdef", key)
            self.constcache[key] = v
            return v
        return T("constdef", key)

    def promoted(self, key, i):
        k = (key, i)
        if k in self.constcache:
            return self.constcache[k]
        b = self.P.bodies[key]["promoted"][i]
        outs = self.exec_body(b, key, self.ctx(-3, k), {}, [], State(), 0, ())
        v = self.snap(outs[0][1], outs[0][0]) if outs else T("constdef", key, i)
        self.constcache[k] = v
        return v

    def operand(self, fr, st, op):
        if op[0] == "k":
            return self.const_val(fr, op[1])
        if op[0] == "rc":
            return TRUE
        root, proj, ty = self.locate(fr, st, op[1])
        return self.read(st, root, proj)

    def operand_ty(self, fr, op):
        if op[0] == "k":
            return self.P.subst(self.P.ty(op[1]["ty"]), fr.subst)
        if op[0] == "rc":
            return ("prim", "bool")
        return self.place_ty(fr, op[1])

    # ---------------------------------------------------------------- facts
    def known(self, st, t):
        """Constant a term is known to equal here, or None."""
        if is_const(t):
            return t
        f = st.facts.get(t)
        if isinstance(f, T):
            return f
        if t.op == "un" and t.a[0] == "Not":
            k = self.known(st, t.a[1])
            if k is not None and k.op == "int" and k.a[0] in (0, 1):
                return I(1 - k.a[0])
        if t.op == "eq":
            a = self.known(st, t.a[0])
            b = self.known(st, t.a[1])
            if a is not None and b is not None:
                return I(int(a is b))
            for x, y in ((t.a[0], b), (t.a[1], a)):
                if y is not None:
                    f = st.facts.get(x)
                    if isinstance(f, tuple) and y in f[1]:
                        return FALSE
        if t.op == "bin":
            a = self.known(st, t.a[1])
            b = self.known(st, t.a[2])
            if t.a[0] in ("Eq", "Ne") and b is FALSE and t.a[1].op == "len" and nonempty(t.a[1].a[0]):
                return I(int(t.a[0] == "Ne"))
            if a is not None and b is not None:
                r = fold_bin(t.a[0], a, b)
                if r is not None:
                    return r
            if t.a[0] == "Eq" and b is not None:
                f = st.facts.get(t.a[1])
                if isinstance(f, tuple) and b in f[1]:
                    return FALSE
        if t.op == "discr":
            pass
        return None

    def assume(self, st, t, val):
        """Record t == val (val a constant); returns False if contradictory."""
        k = self.known(st, t)
        if k is not None:
            return k is val
        if t.op == "len" and val is FALSE and nonempty(t.a[0]):
            return False
        f = st.facts.get(t)
        if isinstance(f, tuple) and val in f[1]:
            return False
        if t.op == "un" and t.a[0] == "Not" and val.op == "int":
            return self.assume(st, t.a[1], I(1 - val.a[0]))
        st.facts[t] = val
        if t.op in ("eq",) or (t.op == "bin" and t.a[0] == "Eq"):
            x, y = (t.a[0], t.a[1]) if t.op == "eq" else (t.a[1], t.a[2])
            for p, q in ((x, y), (y, x)):
                if is_const(q) and not is_const(p):
                    if val is TRUE:
                        if not self.assume(st, p, q):
                            return False
                    else:
                        if not self.assume_not(st, p, [q]):
                            return False
        return True

    def assume_not(self, st, t, vals):
        k = self.known(st, t)
        if k is not None:
            return k not in vals
        f = st.facts.get(t)
        ex = (f[1] if isinstance(f, tuple) else frozenset()) | frozenset(vals)
        if t.op in ("eq",) and len(ex) >= 1:
            # boolean
            if FALSE in ex and TRUE not in ex:
                return self.assume(st, t, TRUE)
            if TRUE in ex and FALSE not in ex:
                return self.assume(st, t, FALSE)
        if t.op == "discr":
            allv = self.nvars.get(t)
            if allv is not None:
                left = allv - ex
                if not left:
                    return False
                if len(left) == 1:
                    return self.assume(st, t, next(iter(left)))
        st.facts[t] = ("!", ex)
        return True

    # ---------------------------------------------------------------- rvalues
    def variants(self, adt):
        if adt in STD_ENUMS:
            return [(n, i, k) for i, (n, k) in enumerate(STD_ENUMS[adt])]
        a = self.P.adts[adt]
        return [(v["name"], int(v["discr"]), len(v["fields"])) for v in a["variants"]]

    def discr(self, v):
        if v.op == "agg" and isinstance(v.a[0], str) and v.a[1] is not None:
            for n, d, _ in self.variants(v.a[0]):
                if n == v.a[1]:
                    return I(d)
        if v.op == "upd":
            return self.discr(v.a[0])
        return T("discr", v)

    def rvalue(self, fr, st, rv, site):
        k = rv[0]
        if k == "use":
            return self.operand(fr, st, rv[1])
        if k == "ref":
            root, proj, ty = self.locate(fr, st, rv[2])
            return self.mkref(root, proj)
        if k == "rawptr":
            root, proj, ty = self.locate(fr, st, rv[1])
            return self.mkref(root, proj)
        if k == "agg":
            kind = rv[1]
            ops = tuple(self.operand(fr, st, o) for o in rv[2])
            kk = kind["k"]
            if kk == "adt":
                if kind["d"] in TRANSPARENT_ADTS and ops:
                    return ops[0]
                a = self.P.adts.get(kind["d"])
                vn = kind["vn"] if (a and a["enum"]) or kind["d"] in STD_ENUMS else None
                if kind.get("uf", -1) >= 0:
                    return ops[0]
                if self.on_agg is not None:
                    self.on_agg(fr, st, kind["d"], vn, ops, site)
                return T("agg", kind["d"], vn, ops)
            if kk == "tuple":
                return T("agg", "tuple", None, ops)
            if kk == "array":
                return T("agg", "array", None, ops)
            if kk == "closure":
                return T("agg", ("closure", kind["d"], self.subkey(fr)), None, ops)
            if kk == "coroutine":
                return T("agg", ("coroutine", kind["d"], self.subkey(fr)), None, ops)
            return T("agg", kk, None, ops)
        if k == "discr":
            root, proj, ty = self.locate(fr, st, rv[1])
            d = self.discr(self.read(st, root, proj))
            if d.op == "discr" and d not in self.nvars and ty[0] == "adt" and (ty[1] in STD_ENUMS or self.P.adts.get(ty[1], {}).get("variants")):
                self.nvars[d] = frozenset(I(x) for _, x, _ in self.variants(ty[1]))
            return d
        if k == "bin":
            return self.binop(fr, st, rv[1], self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3]), self.operand_ty(fr, rv[2]))
        if k == "un":
            v = self.operand(fr, st, rv[2])
            if rv[1] == "Not":
                kv = self.known(st, v)
                ty = self.operand_ty(fr, rv[2])
                if ty == ("prim", "bool"):
                    if kv is not None and kv.op == "int":
                        return I(1 - kv.a[0])
                    if v.op == "un" and v.a[0] == "Not":
                        return v.a[1]
                return T("un", "Not", v)
            if rv[1] == "Neg":
                if v.op in ("int", "flt"):
                    return T(v.op, -v.a[0])
                return T("un", "Neg", v)
            if rv[1] == "PtrMetadata":
                return self.length(self.snap(st, v))
            return T("un", rv[1], v)
        if k == "cast":
            v = self.operand(fr, st, rv[2])
            ck = rv[1]
            dst = self.P.subst(self.P.ty(rv[3]), fr.subst)
            if ck.startswith("PointerCoercion") or ck in ("PtrToPtr", "Subtype", "FnPtrToPtr") or ck.startswith("Transmute") and dst[0] in ("ref", "ptr", "adt"):
                return v
            src = self.operand_ty(fr, rv[2])
            if ck in ("IntToInt", "FloatToInt", "IntToFloat", "FloatToFloat"):
                return self.cast(ck, v, src, dst)
            return T("cast", ck, v, self.P.tystr(src), self.P.tystr(dst))
        if k == "repeat":
            return T("repeat", self.operand(fr, st, rv[1]), rv[2])
        if k == "tls":
            return T("constdef", rv[1])
        return T("rv", k, site)

    def subkey(self, fr):
        return tuple(sorted(fr.subst.items())) if fr.subst else ()

    def cast(self, ck, v, src, dst):
        if v.op == "agg" and isinstance(v.a[0], str) and v.a[1] is not None:
            v = self.discr(v)
        if v.op == "int" and ck == "IntToInt" and dst[0] == "prim" and dst[1][0] in "iu":
            lo, hi = int_range(dst[1])
            n = v.a[0]
            w = hi - lo + 1
            n = (n - lo) % w + lo
            return I(n)
        if v.op == "int" and ck == "IntToInt":
            return v
        if v.op == "int" and ck == "IntToFloat":
            return T("flt", float(v.a[0]))
        s, d = self.P.tystr(src), self.P.tystr(dst)
        if s == d:
            return v
        return T("cast", ck, v, s, d)

    def binop(self, fr, st, op, a, b, ty):
        ka, kb = self.known(st, a), self.known(st, b)
        a2, b2 = (ka if ka is not None else a), (kb if kb is not None else b)
        if op.endswith("WithOverflow"):
            base = op[:-12]
            r = fold_bin(base, a2, b2)
            if r is not None and r.op == "int" and ty[0] == "prim" and ty[1][0] in "iu":
                lo, hi = int_range(ty[1])
                ov = not (lo <= r.a[0] <= hi)
                if ov:
                    r = I((r.a[0] - lo) % (hi - lo + 1) + lo)
                return T("agg", "tuple", None, (r, I(int(ov))))
            t = self.arith(base, a, b)
            return T("agg", "tuple", None, (t, T("ovf", base, a, b, self.P.tystr(ty))))
        r = fold_bin(op, a2, b2)
        if r is not None:
            return r
        if op == "Ne":
            return T("un", "Not", T("bin", "Eq", a, b))
        if op == "Gt":
            return T("bin", "Lt", b, a)
        if op == "Ge":
            return T("bin", "Le", b, a)
        if op in ("Add", "Sub"):
            return self.arith(op, a, b)
        if op == "BitAnd" and ty == ("prim", "bool"):
            if a2 is TRUE:
                return b
            if b2 is TRUE:
                return a
            if a2 is FALSE or b2 is FALSE:
                return FALSE
        if op == "BitOr" and ty == ("prim", "bool"):
            if a2 is FALSE:
                return b
            if b2 is FALSE:
                return a
            if a2 is TRUE or b2 is TRUE:
                return TRUE
        return T("bin", op, a, b)

    def arith(self, op, a, b):
        if b is I(0):
            return a
        if a is I(0) and op == "Add":
            return b
        return T("bin", op, a, b)

    def length(self, v):
        if v.op == "str":
            return I(len(v.a[0].encode()))
        if v.op == "bytes":
            return I(len(v.a[0]))
        if v.op == "agg" and v.a[0] in ("array", "vec"):
            return I(len(v.a[2]))
        return T("len", v)

    # ---------------------------------------------------------------- enums
    def split(self, st, v, adt):
        """[(variant, payload terms, state)] for the feasible variants of v."""
        if v.op == "agg" and v.a[1] is not None and v.a[0] == adt:
            return [(v.a[1], v.a[2], st)]
        if v.op == "upd":
            base = self.split(st, v.a[0], adt)
            return [(n, tuple(self.getstep(v, ("f", i, n)) for i in range(len(p))), s) for n, p, s in base]
        d = self.discr(v)
        out = []
        if v.op == "phi" and any(x.op == "agg" and x.a[0] == adt for x in self.flat(v)):
            # enumerate the incoming values one by one
            fl = [x for x in self.flat(v)]
            if len(fl) <= 12 and all(x.op == "agg" and x.a[0] == adt for x in fl):
                seen = set()
                for x in fl:
                    k = (x.a[1], x.a[2])
                    dv = self.discr(x)
                    s = st.copy()
                    if not self.assume(s, d, dv):
                        continue
                    if k in seen:
                        continue
                    seen.add(k)
                    out.append((x.a[1], x.a[2], s))
                return out
        for n, dv, nf in self.variants(adt):
            s = st.copy()
            if not self.assume(s, d, I(dv)):
                continue
            out.append((n, tuple(T("fld", v, n, i) for i in range(nf)), s))
        return out

    # ---------------------------------------------------------------- execution
    def exec_body(self, body, key, ctx, subst, args, st, depth, chain):
        P = self.P
        fr = Frame()
        fr.key, fr.body, fr.ctx, fr.subst, fr.depth, fr.chain = key, body, ctx, subst, depth, chain
        fr.tys = [P.subst(P.ty(t), subst) for t in body["locals"]]
        rpo, heads, order, live = self.cfg(body)
        self.stats["bodies"].add(key)
        st = st.copy()
        for i, a in enumerate(args):
            st.env[("L", ctx, i + 1)] = a
        pending = {0: [st]}
        heap = [(0, 0)]
        merged = {}
        seen = {}
        outs = []
        blocks = body["blocks"]
        while heap:
            _, bb = heapq.heappop(heap)
            sts = pending.pop(bb, None)
            if not sts:
                continue
            lv = live[bb]
            for s in sts:
                dead = [r for r in s.env if r[0] == "L" and r[1] == ctx and isinstance(r[2], int) and r[2] not in lv]
                for r in dead:
                    del s.env[r]
            if bb in heads:
                if self.on_head is not None:
                    for s in sts:
                        self.on_head(fr, bb, s)
                todo = {}
                for s in sts:
                    g = (bb,) + self.unrolled(s)
                    if self.fork_fixed and self.fixed_loop(s):
                        g += (s.key(),)
                    if self.split_facts:
                        g += (self.lasting(s),)
                    m = merged.get(g)
                    if m is None:
                        n = s
                    else:
                        n = self.join(m, s, ("j", ctx, g))
                        if n.env == m.env and n.facts == m.facts and n.eff == m.eff:
                            continue
                    merged[g] = n
                    todo[g] = n
                sts = list(todo.values())
                if not sts:
                    continue
            else:
                seenset = seen.setdefault(bb, set())
                uniq = []
                for s in sts:
                    k = s.key()
                    if k not in seenset:
                        seenset.add(k)
                        uniq.append(s)
                sts = uniq
                if not sts:
                    continue
                if len(seenset) > self.cap or bb in merged:
                    merged[bb] = True
                    self.capped.add((key, blocks[bb].get("l", 0)))
                    todo = {}
                    for s in sts:
                        g = (bb, self.shape(s.env.get(("L", ctx, 0), UNINIT)))
                        m = merged.get(g)
                        if m is None:
                            n = s
                        else:
                            n = self.join(m, s, ("w", ctx, g))
                            if n.env == m.env and n.facts == m.facts and n.eff == m.eff:
                                continue
                        merged[g] = n
                        todo[g] = n
                    sts = list(todo.values())
            for s in sts:
                self.budget -= 1
                if self.budget < 0:
                    raise Budget(self.P.short(key))
                for tgt, s2 in self.step(fr, bb, blocks[bb], s.copy()):
                    if tgt == -1:
                        outs.append(s2)
                    else:
                        if tgt not in pending:
                            pending[tgt] = []
                            heapq.heappush(heap, (rpo[tgt], tgt))
                        pending[tgt].append(s2)
        # collect results
        res, rk = [], set()
        for s in outs:
            v = s.env.get(("L", ctx, 0), UNIT)
            res.append((v, s))
        res = self.clean(res, ctx, key)
        return res

    def lasting(self, s):
        """The facts of a path that are not about the items of an iteration."""
        out = []
        for k, v in s.facts.items():
            r = self._lasting.get(k)
            if r is None:
                from lib import subterms
                r = self._lasting[k] = not any(x.op in ("elem", "ended", "active", "exhausted", "phi", "ovf", "len") for x in subterms(k))
            if r:
                out.append((k, v))
        return frozenset(out)

    def fixed_loop(self, s):
        from models import fixed_len
        return any(v.op in ("it", "adv") and fixed_len(self.snap(s, v.a[0] if v.op == "adv" else v)) is not None for v in s.env.values())

    def unrolled(self, s):
        """Positions of iterations over short literal sequences: such loops are unrolled."""
        from models import fixed_len
        g = ()
        for r, v in s.env.items():
            if v.op == "adv" and v.a[1] != "*" and fixed_len(v.a[0]) is not None:
                g += ((r, v.a[1]),)
        return g

    def clean(self, res, ctx, key=None):
        """Drop the frame's cells; keep those still referenced from the result or other cells."""
        out, keys = [], set()
        for v, s in res:
            env = s.env
            need, seen = set(), set()
            self.refs_in(v, need, seen)
            for r, x in env.items():
                if not (r[0] == "L" and r[1] == ctx):
                    self.refs_in(x, need, seen)
            work = list(need)
            while work:
                r = work.pop()
                x = env.get(r)
                if x is not None:
                    n2 = set()
                    self.refs_in(x, n2, seen)
                    for y in n2:
                        if y not in need:
                            need.add(y)
                            work.append(y)
            s2 = State({r: x for r, x in env.items() if not (r[0] == "L" and r[1] == ctx) or r in need}, s.facts, s.eff)
            k = (v, s2.key())
            if k in keys:
                continue
            keys.add(k)
            out.append((v, s2))
        if len(out) > self.cap:
            self.capped.add((key, None))
            groups = {}
            for v, s in out:
                groups.setdefault(self.shape(v), []).append((v, s))
            if len(groups) > self.cap:
                g2 = {}
                for sh, l in groups.items():
                    g2.setdefault(sh[:1], []).extend(l)
                groups = g2
            out = []
            for sh, l in groups.items():
                v, s = l[0]
                for i, (w, t) in enumerate(l[1:]):
                    v = self.join_val(v, w, ("r", ctx, sh))
                    s = self.join(s, t, ("r", ctx, sh))
                out.append((v, s))
        return out

    def shape(self, v):
        if v.op == "agg":
            if v.a[1] is not None and len(v.a[2]) == 1:
                x = v.a[2][0]
                if x.op == "agg":
                    return (v.a[1], str(x.a[0]), x.a[1])
                if is_const(x):
                    return (v.a[1], x.op, x.a[0])
            return (v.a[1], "", "")
        if is_const(v):
            return ("const", v.op, v.a[0])
        return (v.op, "", "")

    def may_ref(self, v):
        """Whether the term can contain a memory reference (memoised; a phi counts as yes)."""
        r = v._ar
        if r is not None:
            return r
        if v.op in ("ref", "phi"):
            r = True
        elif v.op in CONST_OPS or v.op in ("fn", "par"):
            r = False
        else:
            r = False
            stack = list(v.a)
            while stack and not r:
                x = stack.pop()
                if isinstance(x, T):
                    r = self.may_ref(x)
                elif isinstance(x, tuple):
                    stack.extend(x)
        v._ar = r
        return r

    def refs_in(self, v, acc, seen):
        stack = [v]
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                stack.extend(x)
                continue
            if not isinstance(x, T) or x in seen:
                continue
            seen.add(x)
            if x.op == "ref":
                acc.add(x.a[0])
            elif x.op == "phi":
                stack.extend(self.incoming(x))
            elif self.may_ref(x):
                stack.extend(x.a)

    def step(self, fr, bb, block, st):
        self.stats["blocks"] += 1
        for s in block["s"]:
            if s[0] == "=":
                site = (fr.key, s[3])
                v = self.rvalue(fr, st, s[2], site)
                root, proj, ty = self.locate(fr, st, s[1])
                self.write(st, root, proj, v, site, fr.ctx)
            elif s[0] == "sd":
                pass
        t = block["t"]
        op = t[0]
        if op == "goto":
            return [(t[1], st)]
        if op == "return":
            return [(-1, st)]
        if op in ("drop", "yield"):
            return [(t[1], st)]
        if op == "switch":
            v = self.operand(fr, st, t[1])
            ty = self.operand_ty(fr, t[1])
            k = self.known(st, v)
            targets = []
            for val, tgt in t[3]:
                n = int(val)
                if ty[0] == "prim" and ty[1] in ("i8", "i16", "i32", "i64", "i128", "isize"):
                    lo, hi = int_range(ty[1])
                    if n > hi:
                        n -= hi - lo + 1
                targets.append((I(n), tgt))
            if k is not None and k.op == "int":
                for n, tgt in targets:
                    if n is k:
                        return [(tgt, st)]
                return [(t[4], st)]
            if v.op == "discr" and v.a[0].op == "phi":
                # refine an enum-valued phi by its incoming values
                x = v.a[0]
                fl = self.flat(x)
                if fl and all(y.op == "agg" and y.a[1] is not None for y in fl):
                    poss = {self.discr(y) for y in fl}
                    targets2 = [(n, tgt) for n, tgt in targets if n in poss]
                    res = []
                    for n, tgt in targets2:
                        s2 = st.copy()
                        if self.assume(s2, v, n):
                            res.append((tgt, s2))
                    rest = poss - {n for n, _ in targets}
                    if rest:
                        s2 = st.copy()
                        if self.assume_not(s2, v, [n for n, _ in targets]):
                            res.append((t[4], s2))
                    return res
            res = []
            boolean = ty == ("prim", "bool")
            for n, tgt in targets:
                s2 = st.copy()
                if self.assume(s2, v, n):
                    res.append((tgt, s2))
            s2 = st.copy()
            if boolean:
                other = [I(1 - n.a[0]) for n, _ in targets]
                if len(other) == 1 and self.assume(s2, v, other[0]):
                    res.append((t[4], s2))
            elif blocks_unreachable(fr.body, t[4]):
                pass
            elif self.assume_not(s2, v, [n for n, _ in targets]):
                res.append((t[4], s2))
            return res
        if op == "assert":
            c = self.operand(fr, st, t[1])
            k = self.known(st, c)
            want = I(int(t[2]))
            if k is want:
                return [(t[5], st)]
            ops = tuple(self.snap(st, self.operand(fr, st, o)) for o in t[4])
            tys = tuple(self.operand_ty(fr, o) for o in t[4])
            self.panic("assert:" + t[3], fr, block["l"], ops, st, tys)
            if k is not None:
                return []
            self.assume(st, c, want)
            return [(t[5], st)]
        if op == "call":
            return self.call(fr, bb, block, st)
        if op == "unreachable":
            return []
        return []

    def panic(self, kind, fr, line, args, st, tys=()):
        if self.record:
            self.panics.append(Panic(kind, fr.key, line, tuple(args), dict(st.facts), fr.chain + ((fr.key, line),), tys))

    # ---------------------------------------------------------------- calls
    def resolve(self, d, args, r, ra):
        """(function key, substitution) after monomorphisation, or (None, None)."""
        P = self.P
        if r is not None and P.is_local(r) and r in P.bodies:
            names = P.generics(r)
            sub = {n: a for n, a in zip(names, ra)}
            return r, sub
        if r is not None and not P.is_local(r):
            # std impl of a std trait; maybe still a blanket over local impls: models deal with it
            pass
        dd = P.defs[d]
        if "trait" in dd:
            trait = dd["trait"]
            n = self.trait_arity(trait, args)
            hit = P.find_impl(trait, list(args[:n]))
            if hit:
                im, b = hit
                for it in im["items"]:
                    if it["trait_item"] == d and it["def"] in P.bodies:
                        names = P.generics(it["def"])
                        own = [x for x in names if x not in b]
                        sub = dict(b)
                        for nm, a in zip(own, args[n:]):
                            sub[nm] = a
                        return it["def"], sub
                if d in P.bodies:  # trait default
                    names = P.generics(d)
                    return d, {nm: a for nm, a in zip(names, args)}
            return None, None
        if P.is_local(d) and d in P.bodies:
            names = P.generics(d)
            return d, {nm: a for nm, a in zip(names, args)}
        return None, None

    def trait_arity(self, trait, args):
        ims = self.P.impl_by_trait.get(trait)
        if ims:
            return len(ims[0]["targs"])
        return 1

    def call(self, fr, bb, block, st):
        t = block["t"]
        f = self.operand(fr, st, t[1])
        args = [self.operand(fr, st, a) for a in t[2]]
        tys = [self.operand_ty(fr, a) for a in t[2]]
        droot, dproj, dty = self.locate(fr, st, t[3])
        line = block["l"]
        self.stats["calls"] += 1
        outs = self.invoke(fr, st, f, args, tys, dty, (bb, line), t[4] < 0)
        if t[4] < 0:
            return []
        res = []
        for v, s in outs:
            self.write(s, droot, dproj, v, (fr.key, line), fr.ctx)
            res.append((t[4], s))
        return res

    def invoke(self, fr, st, f, args, tys, dty, site, diverges=False):
        """Outcomes [(value, state)] of calling f."""
        P = self.P
        bb, line = site
        if f.op == "fn":
            d, targs, r, ra = f.a
            name = P.short(d)
            c = Call(self, fr, st, name, d, targs, r, ra, args, tys, dty, site, f)
            h = self.hooks.get(name)
            if h is not None:
                o = h(c)
                if o is not None:
                    return o
            key, sub = self.resolve(d, targs, r, ra)
            if name in ("FnOnce::call_once", "FnMut::call_mut", "Fn::call"):
                key = None  # the arguments arrive as a tuple
            if key is not None and P.short(key) in self.hooks and P.short(key) != name:
                o = self.hooks[P.short(key)](c)
                if o is not None:
                    return o
            if key is not None and not (name in self.opaque_fns or P.short(key) in self.opaque_fns):
                o = self.inline(fr, st, key, sub, args, site)
                if o is not None:
                    return o
            if key is None:
                m = self.models.get(name)
                if m is not None:
                    o = m(c)
                    if o is not None:
                        return o
            if diverges:
                self.panic("call:" + name, fr, line, tuple(self.snap(st, a) for a in args), st)
                return []
            return self.opaque(c, key)
        if f.op == "agg" and isinstance(f.a[0], tuple) and f.a[0][0] == "closure":
            return self.apply(fr, st, f, args, site)
        c = Call(self, fr, st, "fnptr", None, (), None, None, args, tys, dty, site, f)
        return self.opaque(c, None)

    def inline(self, fr, st, key, sub, args, site):
        if fr.depth >= self.maxdepth or any(k == key for k, _ in fr.chain) or fr.key == key:
            if sum(1 for k, _ in fr.chain if k == key) >= 1 or fr.key == key or fr.depth >= self.maxdepth:
                return None
        body = self.P.bodies[key]["body"]
        ctx = self.ctx(fr.ctx, (fr.key, site[0], key))
        if len(args) != body["argc"]:
            if body["argc"] == len(args):
                pass
            else:
                return None
        return self.exec_body(body, key, ctx, sub, args, st, fr.depth + 1, fr.chain + ((fr.key, site[1]),))

    def tempcell(self, fr, st, site, tag, val):
        root = ("L", fr.ctx, ("t", site, tag))
        st.env[root] = val
        return T("ref", root, ())

    def apply(self, fr, st, f, args, site, tag=0):
        """Call a closure or function value on argument values."""
        P = self.P
        if f.op == "ref" or f.op not in ("agg", "fn"):
            f2 = self.load(st, f)
            if f2 is not f and f2.op in ("agg", "fn"):
                if f2.op == "agg" and isinstance(f2.a[0], tuple) and f2.a[0][0] == "closure" and f.op == "ref":
                    return self.apply_closure(fr, st, f2, f, args, site, tag)
                return self.apply(fr, st, f2, args, site, tag)
        if f.op == "fn":
            return self.invoke(fr, st, f, args, [("other", "?")] * len(args), ("other", "?"), (("ap", site[0], tag), site[1]))
        if f.op == "agg" and isinstance(f.a[0], tuple) and f.a[0][0] == "closure":
            return self.apply_closure(fr, st, f, None, args, site, tag)
        if f.op == "agg" and isinstance(f.a[0], str) and f.a[1] is None:
            pass
        e = T("call", "apply", self.snap(st, f), *[self.snap(st, a) for a in args])
        return [(e, st)]

    def apply_closure(self, fr, st, f, fref, args, site, tag):
        key = f.a[0][1]
        sub = dict(f.a[0][2]) if len(f.a[0]) > 2 else {}
        b = self.P.bodies.get(key)
        if b is None:
            return [(T("call", "apply", self.snap(st, f), *[self.snap(st, a) for a in args]), st)]
        body = b["body"]
        st = st.copy()
        t1 = self.P.ty(body["locals"][1])
        selfv = f
        if t1[0] == "ref":
            if fref is not None:
                selfv = fref
            else:
                selfv = self.tempcell(fr, st, ("clo", site[0], tag), "self", f)
        if fr.depth >= self.maxdepth or any(k == key for k, _ in fr.chain):
            return [(T("call", "apply", self.snap(st, f), *[self.snap(st, a) for a in args]), st)]
        ctx = self.ctx(fr.ctx, (fr.key, ("clo", site[0], tag), key))
        if len(args) + 1 != body["argc"]:
            return [(T("call", "apply", self.snap(st, f), *[self.snap(st, a) for a in args]), st)]
        outs = self.exec_body(body, key, ctx, sub, [selfv] + list(args), st, fr.depth + 1, fr.chain + ((fr.key, site[1]),))
        if self.on_apply is not None:
            self.on_apply(fr, key, [self.snap(st, a) for a in args], outs)
        return outs

    def opaque(self, c, key):
        """Uninterpreted call: result is a term over the arguments; mutable referents are havocked."""
        st, fr = c.st.copy(), c.fr
        self.stats["opaque"][c.name] = self.stats["opaque"].get(c.name, 0) + 1
        # closures handed to unknown code may run
        for i, a in enumerate(c.args):
            v = a
            if v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][0] == "closure":
                b = self.P.bodies.get(v.a[0][1])
                if b:
                    n = b["body"]["argc"] - 1
                    outs = self.apply(fr, st, v, [T("carg", c.name, i, j, c.site[1]) for j in range(n)], c.site, ("oc", i))
                    for _, s2 in outs:
                        st = self.join(st, s2, ("oc", fr.ctx, c.site[0], i))
        snaps = tuple(self.snap(st, a) for a in c.args)
        extra = ()
        if c.name in ("str::parse", "Into::into", "From::from", "TryInto::try_into", "TryFrom::try_from", "Iterator::collect", "FromStr::from_str",
                      "TypeId::of", "any::type_name", "Any::downcast_ref", "Any::downcast_mut", "Box::downcast", "anyhow::Error::downcast",
                      "anyhow::Error::downcast_ref", "anyhow::Error::downcast_mut", "Default::default", "AsRef::as_ref", "AsMut::as_mut"):
            extra = (T("ty", self.P.tystr(c.targs[-1]) if c.targs else "?", self.P.tystr(c.dty)),)
        muts = [i for i, ty in enumerate(c.tys) if is_mut(ty)]
        res = T("call", c.name, *(snaps + extra))
        e = Eff("call", c.name, snaps, (fr.key, c.site[1]), dict(st.facts), fr.ctx, res, tuple(c.tys))
        if e not in st.eff:
            st.eff = st.eff + (e,)
        for i in muts:
            l = self.deref(st, c.args[i])
            if l is not None:
                old = self.snap(st, self.read(st, *l))
                if old.op == "mut" and old.a[0] == c.name and old.a[2] == snaps[:i] + snaps[i + 1:]:
                    new = old
                else:
                    new = T("mut", c.name, old, snaps[:i] + snaps[i + 1:])
                st.env[l[0]] = self.setpath(self.rootval(st, l[0]), l[1], new)
        return [(res, st)]

    def run(self, key, args=None, subst=None, facts=None, env=None):
        """Analyse function `key` on symbolic arguments; outcomes [(return value, state)]."""
        self.budget = self.budget0
        body = self.P.bodies[key]["body"]
        if args is None:
            args = [T("par", i) for i in range(body["argc"])]
        st = State(dict(env) if env else {}, dict(facts) if facts else {}, ())
        return self.exec_body(body, key, self.ctx(-1, key), subst or {}, list(args), st, 0, ())

    def run_async(self, key, args=None):
        """Analyse an async fn: its returned coroutine's body."""
        outs = []
        self.budget = self.budget0
        for v, st in self.run(key, args):
            if v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][0] == "coroutine":
                outs += self.run_coroutine(None, st, v, (0, 0))
            else:
                outs.append((v, st))
        return outs

    def run_coroutine(self, fr, st, co, site, ref=None):
        key = co.a[0][1]
        sub = dict(co.a[0][2]) if len(co.a[0]) > 2 else {}
        body = self.P.bodies[key]["body"]
        pctx = fr.ctx if fr else -4
        depth = fr.depth if fr else 0
        chain = fr.chain + ((fr.key, site[1]),) if fr else ()
        if depth >= self.maxdepth or any(k == key for k, _ in chain):
            return [(T("call", "await", self.snap(st, co)), st)]
        ctx = self.ctx(pctx, ("co", fr.key if fr else None, site[0], key))
        return self.exec_body(body, key, ctx, sub, [co, T("par", "cx")], st, depth + 1, chain)


def nonempty(t):
    """A list term that holds at least one item whatever its parts hold."""
    if t.op == "agg":
        return t.a[0] in ("vec", "array") and bool(t.a[2])
    return t.op == "vpush" or t.op == "vcat" and (nonempty(t.a[0]) or nonempty(t.a[1]))


def is_mut(ty):
    if ty[0] == "ref":
        return ty[2]
    if ty[0] == "adt" and ty[1] == "core::pin::Pin" and ty[2]:
        return is_mut(ty[2][0])
    return False


def blocks_unreachable(body, bb):
    b = body["blocks"][bb]
    return not b["s"] and b["t"][0] == "unreachable"


class Call:
    __slots__ = ("E", "fr", "st", "name", "d", "targs", "r", "ra", "args", "tys", "dty", "site", "f")

    def __init__(self, E, fr, st, name, d, targs, r, ra, args, tys, dty, site, f):
        self.E, self.fr, self.st, self.name, self.d, self.targs, self.r, self.ra = E, fr, st, name, d, targs, r, ra
        self.args, self.tys, self.dty, self.site, self.f = args, tys, dty, site, f

    def load(self, i):
        return self.E.load(self.st, self.args[i])

    def snap(self, i):
        return self.E.snap(self.st, self.args[i])

    def apply(self, st, f, args, tag=0):
        return self.E.apply(self.fr, st, f, args, self.site, tag)

    def panic(self, kind, args=(), st=None):
        self.E.panic(kind, self.fr, self.site[1], tuple(args), st or self.st, tuple(self.tys))


def fold_bin(op, a, b):
    if a.op == b.op and a.op in ("int", "flt"):
        x, y = a.a[0], b.a[0]
        try:
            if op == "Eq":
                return I(int(x == y))
            if op == "Ne":
                return I(int(x != y))
            if op == "Lt":
                return I(int(x < y))
            if op == "Le":
                return I(int(x <= y))
            if op == "Gt":
                return I(int(x > y))
            if op == "Ge":
                return I(int(x >= y))
            if op == "Add":
                return T(a.op, x + y)
            if op == "Sub":
                return T(a.op, x - y)
            if op == "Mul":
                return T(a.op, x * y)
            if a.op == "int":
                if op == "Div" and y:
                    q = abs(x) // abs(y)
                    return I(q if (x < 0) == (y < 0) else -q)
                if op == "Rem" and y:
                    r = abs(x) % abs(y)
                    return I(-r if x < 0 else r)
                if op == "BitAnd":
                    return I(x & y)
                if op == "BitOr":
                    return I(x | y)
                if op == "BitXor":
                    return I(x ^ y)
                if op == "Shl":
                    return I(x << y)
                if op == "Shr":
                    return I(x >> y)
        except Exception:
            return None
    if a is b and op in ("Eq", "Le", "Ge") and a.op == "str":
        return TRUE
    return None

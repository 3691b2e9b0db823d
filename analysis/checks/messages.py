"""M01 accessors, M02 clone, M03 one-shot channels, M04 sibling agreement, B03 body replacement."""
from checks import prop
from checks.headers import Report_like
from lib import *

MSG = ("Request", "Response")
CH_S, CH_R = "async_channel::Sender", "async_channel::Receiver"


def fields(P, adt):
    """[(index, name, type)] of a struct."""
    a = P.adt(adt)
    return [(i, f["name"], P.ty(f["ty"])) for i, f in enumerate(P.adts[a]["variants"][0]["fields"])]


def adt_in(t, path):
    if isinstance(t, tuple):
        if len(t) >= 2 and t[0] == "adt" and t[1] == path:
            return True
        return any(adt_in(x, path) for x in t)
    return False


def field_of(P, adt, path):
    r = [i for i, n, t in fields(P, adt) if t[0] == "adt" and t[1] == path]
    if len(r) != 1:
        raise MissingAnchor("one field of type %s in %s" % (path, adt))
    return r[0]


def map_key_hooks(E):
    """Resolve map reads against the insertions and removals made before (only for equal or distinct constant keys)."""
    def resolve(m, k):
        while m.op == "mut" and m.a[0] in ("HashMap::insert", "HashMap::remove"):
            k2 = m.a[2][0]
            if k2 is k:
                return m, (some(m.a[2][1]) if m.a[0] == "HashMap::insert" else NONE)
            a, b = strconst(k2), strconst(k)
            if a is None or b is None or a == b:
                if a is not None and a == b:
                    return m, (some(m.a[2][1]) if m.a[0] == "HashMap::insert" else NONE)
                return m, None
            m = m.a[1]
        return m, None

    def get(c):
        m, r = resolve(c.snap(0), c.snap(1))
        if r is not None:
            return [(r, c.st)]
        return [(T("call", c.name, m, c.snap(1)), c.st)]
    E.hooks["HashMap::get"] = get
    return resolve


def engine(P):
    E = new_engine(P)
    map_key_hooks(E)
    E.opaque_fns |= {"<Mime as FromStr>::from_str"}
    return E


def cont(E, P, key, st, args, tag="get"):
    """Analyse `key` starting in the given state."""
    E.budget = E.budget0
    return E.exec_body(P.bodies[key]["body"], key, E.ctx(-1, (tag, key)), {}, args, st, 0, ())


def snaps(E, outs):
    return {E.snap(s, v) for v, s in outs}


def strip_some(t):
    return t.a[2][0] if t.op == "agg" and t.a[0] == OPT and t.a[1] == "Some" else t


def carried(E, t, p):
    """The value t is built from parameter p (and nothing else of the message)."""
    xs = subterms(t, E)
    return any(x is p for x in xs) and not any(x is T("par", 0) for x in xs)


ACC = [("Request", "set_method", "method"), ("Request", "set_version", "version"), ("Request", "set_peer_addr", "peer_addr"), ("Request", "set_local_addr", "local_addr"),
       ("Request", "set_content_type", "content_type"), ("Response", "set_status", "status"), ("Response", "set_version", "version"),
       ("Response", "set_peer_addr", "peer_addr"), ("Response", "set_local_addr", "local_addr"), ("Response", "set_content_type", "content_type")]
PLAIN = {"set_method", "set_version", "set_status"}
GETTERS = {"Request": ["method", "url", "version", "peer_addr", "local_addr", "content_type", "ext", "len", "is_empty", "has_trailers"],
           "Response": ["status", "version", "peer_addr", "local_addr", "content_type", "ext", "len", "is_empty", "has_trailers", "has_upgrade"]}
SRC = {("Request", "host"): {"forwarded", "x-forwarded-host", "host"}, ("Request", "remote"): {"forwarded", "x-forwarded-for"}, ("Request", "forwarded_for"): {"forwarded", "x-forwarded-for"}}


@prop("M01")
def m01(R, P, W):
    """For each setter/getter pair of Request and Response the getter is analysed in every final state of the setter: it must return the value that
    was given (or text derived from it alone, for address and media-type setters), never something else of the message; every other getter, analysed in
    that state, must return the same term as in the initial state. Mutable accessors (url_mut, ext_mut, header_mut) designate the location their
    immutable counterparts read. Derived getters (host, remote) look only at their documented sources."""
    def one(item):
        ty, se, ge = item
        r = Report_like()
        E = engine(P)
        ks = P.fn1(ty=ty, name=se)
        kg = P.fn1(ty=ty, name=ge)
        p0, p1 = T("par", 0), T("par", 1)
        base = {}
        for g in GETTERS[ty]:
            k = P.fn1(ty=ty, name=g)
            base[g] = snaps(E, cont(E, P, k, State(), [p0], "base"))
        outs = E.run(ks)
        r.ob("%s::%s:returns" % (ty, se), bool(outs), "%s::%s never returns" % (ty, se), P.where(ks))
        for v, s in outs:
            got = snaps(E, cont(E, P, kg, s, [p0]))
            key = "%s::%s/%s" % (ty, se, ge)
            if se in PLAIN:
                good = got == {p1}
                r.ob(key, good, "%s::%s followed by %s gives %s instead of the value set" % (ty, se, ge, sorted(map(str, got))[:3]), P.where(ks))
            elif ge == "content_type":
                f = [i for i, n, t in fields(P, ty) if t[0] == "adt" and t[1].endswith("::Headers")][0]
                m = E.snap(s, E.read(s, ("H", p0), (("f", f, None), ("f", 0, None))))
                ins = [x for x in subterms(m, E) if x.op == "mut"]
                good = len(ins) == 1 and ins[0].a[0] == "HashMap::insert" and strconst(ins[0].a[2][0]) == "content-type" and carried(E, ins[0].a[2][1], p1)
                r.ob(key, good, "%s::%s does not insert exactly the given media type under content-type: %s" % (ty, se, [str(x)[:120] for x in ins]), P.where(ks))
                for w in got:
                    if w is NONE:
                        continue
                    cm = [x for x in subterms(w, E)]
                    good = any(x is p1 for x in cm)
                    r.ob(key + ":read", good, "%s::%s after %s returns %s, which does not depend on the value set" % (ty, ge, se, str(w)[:200]), P.where(kg))
                r.ob(key + ":some", any(w is not NONE for w in got), "%s::%s after %s is always None" % (ty, ge, se), P.where(kg))
            else:
                d = E.known(s, T("discr", p1))
                for w in got:
                    if w is NONE:
                        good = d is I(0) or d is None
                    else:
                        good = d is not I(0) and carried(E, w, p1)
                    r.ob(key, good, "%s::%s followed by %s gives %s" % (ty, se, ge, str(w)[:200]), P.where(ks))
            for g in GETTERS[ty]:
                if g == ge:
                    continue
                k = P.fn1(ty=ty, name=g)
                now = snaps(E, cont(E, P, k, s, [p0]))
                r.ob("%s::%s keeps %s" % (ty, se, g), now <= base[g], "%s::%s changes what %s returns: %s" % (ty, se, g, sorted(map(str, now - base[g]))[:2]), P.where(ks))
                r.count("setter/getter combinations")
        r.samples.append({"setter": ty + "::" + se, "getter": ge, "paths": len(outs), "where": P.where(ks)})
        return r.plain()

    def loc(item):
        ty, mu, ge = item
        r = Report_like()
        E = engine(P)
        km, kg = P.fn1(ty=ty, name=mu), P.fn1(ty=ty, name=ge)
        a = {v for v, s in E.run(km)}
        b = {v for v, s in E.run(kg)}
        r.ob("%s::%s" % (ty, mu), a == b, "%s::%s designates %s, %s reads %s" % (ty, mu, sorted(map(str, a)), ge, sorted(map(str, b))), P.where(km))
        r.count("mutable accessors")
        return r.plain()

    def src(item):
        (ty, n), want = item
        r = Report_like()
        ks = P.fn(ty=ty, name=n)
        if not ks:
            r.undec("%s::%s" % (ty, n), "not present")
            return r.plain()
        from checks.headers import lookups
        E = engine(P)
        outs = E.run(ks[0])
        got = {x for op, x in lookups(E, outs)}
        r.ob("%s::%s:sources" % (ty, n), got == want, "%s::%s consults %s, documented sources are %s" % (ty, n, sorted(map(str, got)), sorted(want)), P.where(ks[0]))
        r.count("derived getters")
        return r.plain()
    for d in pmap(one, ACC):
        R.merge(d)
    for d in pmap(loc, [("Request", "url_mut", "url"), ("Request", "ext_mut", "ext"), ("Response", "ext_mut", "ext")]):
        R.merge(d)
    for d in pmap(src, list(SRC.items())):
        R.merge(d)
    R.floor("setter/getter combinations", 80)


@prop("M02")
def m02(R, P, W):
    """Clone for Request, Response and Trailers analysed symbolically: every public getter of head properties applied to the clone yields the same term
    as on the original; the clone's body is the term of Body::empty(), its local state the term of Extensions::new(); its header map is the
    original's; nothing reachable from the original is written."""
    for ty in MSG:
        E = engine(P)
        k = P.fn1(ty=ty, name="clone", trait="Clone")
        p0 = T("par", 0)
        outs = E.run(k)
        R.ob(ty + ":clones", bool(outs), "Clone for %s never returns" % ty, P.where(k))
        empty = {v for v, s in E.run(P.fn1(ty="Body", name="empty"))}
        noext = {v for v, s in E.run(P.fn1(ty="Extensions", name="new"))}
        fb, fe, fh = field_of(P, ty, "body::Body"), field_of(P, ty, "extensions::Extensions"), field_of(P, ty, HEADERS)
        for v, s in outs:
            v = E.snap(s, v)
            cell = ("L", -9, ty)
            s2 = s.copy()
            s2.env[cell] = v
            ref = T("ref", cell, ())
            for g in GETTERS[ty]:
                if g in ("ext", "len", "is_empty", "has_trailers", "has_upgrade", "content_type"):
                    continue
                kg = P.fn1(ty=ty, name=g)
                a = snaps(E, cont(E, P, kg, s2, [ref], "c"))
                b = snaps(E, cont(E, P, kg, State(), [p0], "o"))
                R.ob("%s:%s" % (ty, g), a == b, "%s of a cloned %s is %s, of the original %s" % (g, ty, sorted(map(str, a))[:2], sorted(map(str, b))[:2]), P.where(k))
                R.count("properties compared")
            for i, want, what in ((fb, empty, "body"), (fe, noext, "local state")):
                got = E.getstep(v, ("f", i, None))
                R.ob("%s:%s" % (ty, what), same_shape(E, got, want), "the %s of a cloned %s is not the empty one: %s" % (what, ty, str(got)[:160]), P.where(k))
            h = E.getstep(v, ("f", fh, None))
            R.ob("%s:headers" % ty, h in (T("fld", p0, None, fh), T("agg", HEADERS, None, (T("fld", T("fld", p0, None, fh), None, 0),))), "the headers of a cloned %s are %s" % (ty, str(h)[:160]), P.where(k))
            R.ob("%s:original" % ty, ("H", p0) not in s.env and not any(e.kind == "write" for e in s.eff), "cloning writes to the original", P.where(k))
    E = engine(P)
    k = P.fn1(ty="Trailers", name="clone", trait="Clone")
    for v, s in E.run(k):
        v = E.snap(s, v)
        leaf = E.getstep(E.getstep(v, ("f", 0, None)), ("f", 0, None))
        R.ob("Trailers:headers", leaf is T("fld", T("fld", T("par", 0), None, 0), None, 0), "cloned trailers hold %s" % str(leaf)[:160], P.where(k))
        R.count("properties compared")
    R.floor("properties compared", 10)


def same_shape(E, got, wants):
    """Equal up to the numbering of merge points."""
    import re
    norm = lambda t: re.sub(r"φ\d+", "φ", str(t))
    return any(got is w or norm(got) == norm(w) for w in wants)


# ------------------------------------------------------------------------------------------------ M03
ENDS = {"trailers::Sender": ("s", "has_trailers"), "trailers::Receiver": ("r", None), "upgrade::sender::Sender": ("s", "has_upgrade"), "upgrade::receiver::Receiver": ("r", None)}
SENDS = {"send", "try_send", "send_blocking", "force_send", "clone", "downgrade", "broadcast", "new_receiver", "new_sender", "upgrade", "activate_cloned"}


@prop("M03")
def m03(R, P, W):
    """Typestate by ownership: the four channel-end types are neither Clone nor Copy (trait solver) and expose no inner channel; the crate calls a
    channel's send only in functions that own the sending end (self by value), exactly once per path, with the given item; every function handing out an
    end of a message takes it out of the message (the slot is None afterwards) and, for a sending end, the message reports it afterwards; new
    messages hold both ends of one channel of capacity one and clones hold none; no channel end is cloned anywhere in the crate."""
    for t in ENDS:
        if t not in P.adts:
            raise MissingAnchor("type " + t)
        a = P.adts[t]
        for tr in ("Clone", "Copy"):
            R.ob("%s:%s" % (t, tr), tr not in a["auto"], "%s implements %s, so an end can be used more than once" % (t, tr), t)
        R.ob(t + ":private", not any(f["pub"] for v in a["variants"] for f in v["fields"]), "%s exposes its channel" % t, t)
        for im in P.impls:
            if im["self"][0] == "adt" and im["self"][1] == t and im.get("trait", "").split("::")[-1] in ("Deref", "DerefMut", "AsRef", "AsMut", "Borrow", "BorrowMut"):
                R.ob(t + ":deref", False, "%s gives access to its channel through %s" % (t, im["trait"]), t)
        R.count("channel-end types")
    # who may call the channel
    for k, b in P.bodies.items():
        for blk in b["body"]["blocks"]:
            tm = blk["t"]
            if tm[0] != "call" or tm[1][0] != "k" or "fn" not in tm[1][1]:
                continue
            f = tm[1][1]["fn"]
            nm = P.defs[f["d"]].get("name")
            isch = P.defs[f["d"]].get("krate") == "async_channel"
            if not isch and nm == "clone":
                a = [P.tyarg(x) for x in f["a"]]
                isch = bool(a) and (adt_in(a[0], CH_S) or adt_in(a[0], CH_R))
            if not isch or nm not in SENDS:
                continue
            owner = P.body_owner(k)
            R.count("channel operations")
            if nm in ("clone", "downgrade", "new_receiver", "new_sender", "upgrade", "activate_cloned"):
                R.ob("%s:%s" % (P.short(owner), nm), False, "%s duplicates a channel end" % P.short(owner), "%s line %s" % (P.where(owner), blk["l"]))
                continue
            ins = [P.ty(i) for i in P.defs[owner].get("inputs", [])]
            owns = any(i[0] == "adt" and (i[1] in ENDS or i[1] == CH_S) for i in ins)
            R.ob("%s:owns" % P.short(owner), owns, "%s sends without using up the sending end" % P.short(owner), "%s line %s" % (P.where(owner), blk["l"]))
    R.floor("channel operations", 2)
    # send: once per path, the given item
    for t, (kind, flag) in ENDS.items():
        if kind == "s":
            ks = [k for k in P.fn(name="send") if P.ty(P.defs[k]["self_ty"])[1] == t]
            R.ob(t + ":send", len(ks) == 1, "%s has no send" % t, t)
            for k in ks:
                E = new_engine(P)
                for v, s in E.run_async(k):
                    sn = [e for e in s.eff if e.kind == "call" and e.name.split("::")[-1] in ("send", "try_send", "send_blocking", "force_send")]
                    good = len(sn) == 1 and any(x is T("par", 1) for x in subterms(sn[0].args[-1], E))
                    R.ob(t + ":once", good, "%s::send performs %s" % (t, [str(e)[:80] for e in sn]), P.where(k))
        else:
            for k in [k for k in P.fn(name="poll", trait="Future") if P.ty(P.defs[k]["self_ty"])[1] == t]:
                E = new_engine(P)
                for v, s in E.run(k):
                    v = E.snap(s, v)
                    calls = [x for x in subterms(v, E) if x.op == "call" and "poll" in x.a[0] or x.op == "call" and "recv" in x.a[0]]
                    R.ob(t + ":poll", len(calls) == 1, "%s does not deliver what the channel delivers: %s" % (t, str(v)[:120]), P.where(k))
    # handing out
    n = 0
    p0 = T("par", 0)
    for ty in MSG:
        slots = [(i, nme, t) for i, nme, t in fields(P, ty) if adt_in(t, CH_S) or adt_in(t, CH_R)]
        for k, d in P.defs.items():
            if d.get("krate") != P.crate or d["kind"] != "AssocFn" or "self_ty" not in d or k not in P.bodies:
                continue
            st = P.ty(d["self_ty"])
            if st[0] != "adt" or st[1].split("::")[-1] != ty or not P.is_local_adt(st):
                continue
            E = engine(P)
            try:
                outs = E.run_async(k) if d.get("async") else None
            except Budget:
                outs = None
            rt = P.ty(d["output"])
            cand = [t for t in ENDS if adt_in(rt, t)]
            if not cand and not d.get("async"):
                continue
            if outs is None:
                outs = E.run(k)
            for v, s in outs:
                v = E.snap(s, v)
                ends = [x for x in subterms(v, E) if x.op == "agg" and x.a[0] in ENDS]
                if not ends:
                    continue
                t = ends[0].a[0]
                n += 1
                inner = ends[0].a[2][0]
                src = [i for i, nme, ft in slots if inner is T("fld", T("fld", p0, None, i), "Some", 0)]
                if not src:
                    R.ob("%s::%s:source" % (ty, d["name"]), False, "%s::%s hands out %s, which is not taken from the message" % (ty, d["name"], str(inner)[:100]), P.where(k))
                    continue
                after = E.snap(s, E.read(s, ("H", p0), (("f", src[0], None),)))
                R.ob("%s::%s:taken" % (ty, d["name"]), after is NONE, "%s::%s leaves the end in the message (%s)" % (ty, d["name"], str(after)[:100]), P.where(k))
                kind, flag = ENDS[t]
                if flag:
                    kg = P.fn1(ty=ty, name=flag)
                    got = snaps(E, cont(E, P, kg, s, [p0]))
                    R.ob("%s::%s:flag" % (ty, d["name"]), got == {TRUE}, "after %s::%s, %s() returns %s" % (ty, d["name"], flag, sorted(map(str, got))), P.where(k))
                for t2, (kd, fl) in ENDS.items():
                    if fl and fl != flag and not (t.startswith("upgrade") and t2.startswith("upgrade")) and P.fn(ty=ty, name=fl):
                        kg = P.fn1(ty=ty, name=fl)
                        got = snaps(E, cont(E, P, kg, s, [p0]))
                        want = snaps(E, cont(E, P, kg, State(), [p0]))
                        R.ob("%s::%s:only-flag" % (ty, d["name"]), got == want, "%s::%s changes %s()" % (ty, d["name"], fl), P.where(k))
        # new and clone
        for nme, tr in (("new", None), ("clone", "Clone")):
            k = P.fn1(ty=ty, name=nme, trait=tr)
            E = engine(P)
            for v, s in E.run(k):
                v = E.snap(s, v)
                vals = {i: E.getstep(v, ("f", i, None)) for i, _, _ in slots}
                if nme == "clone":
                    for i, fn_, ft in slots:
                        R.ob("%s:clone:%s" % (ty, i), vals[i] is NONE, "a cloned %s holds a channel end of the original (%s)" % (ty, fn_), P.where(k))
                else:
                    for i, fn_, ft in slots:
                        x = strip_some(vals[i])
                        good = x is NONE or x.op == "fld" and x.a[0].op == "call" and x.a[0].a[0].endswith("bounded") and x.a[0].a[1] is I(1)
                        R.ob("%s:new:%s" % (ty, i), good, "a new %s holds %s instead of an end of a channel of capacity one" % (ty, str(x)[:100]), P.where(k))
                for t2, (kd, fl) in ENDS.items():
                    if fl and P.fn(ty=ty, name=fl):
                        cell = ("L", -9, ty)
                        s2 = s.copy()
                        s2.env[cell] = v
                        got = snaps(E, cont(E, P, P.fn1(ty=ty, name=fl), s2, [T("ref", cell, ())]))
                        R.ob("%s:%s:%s" % (ty, nme, fl), got == {FALSE}, "%s() of a %s %s is %s" % (fl, "new" if nme == "new" else "cloned", ty, sorted(map(str, got))), P.where(k))
    R.count("functions handing out an end", n)
    R.floor("functions handing out an end", 6)


# ------------------------------------------------------------------------------------------------ B03
@prop("B03")
def b03(R, P, W):
    """set_body, replace_body, swap_body and take_body of both message types, analysed over every path: the message's body afterwards is exactly the
    given (converted) body, the term of Body::empty() for take_body, and the result (or the swapped argument) is exactly the previous body; a
    content-type entry is written only on paths where the map was seen to hold none, and its value comes from the new body; a path that writes
    none has seen that there is one or that the new body has no media type; no other header or property is written."""
    p0, p1 = T("par", 0), T("par", 1)
    for ty in MSG:
        fb, fh = field_of(P, ty, "body::Body"), field_of(P, ty, HEADERS)
        old = T("fld", p0, None, fb)
        mime_i = next(i for i, n, t in fields(P, "Body") if "Mime" in str(t))
        E0 = engine(P)
        empty = {v for v, s in E0.run(P.fn1(ty="Body", name="empty"))}
        for name in ("set_body", "replace_body", "swap_body", "take_body"):
            k = P.fn1(ty=ty, name=name)
            E = engine(P)
            outs = E.run(k)
            R.ob("%s::%s:returns" % (ty, name), bool(outs), "never returns", P.where(k))
            for v, s in outs:
                now = E.snap(s, E.read(s, ("H", p0), (("f", fb, None),)))
                v = E.snap(s, v)
                lab = "%s::%s" % (ty, name)
                given = [x for x in (p1, T("call", "From::from", p1, T("ty", "?", "?"))) if x is now] or (now.op == "call" and now.a[0] in ("From::from", "Into::into") and now.a[1] is p1)
                if name == "set_body":
                    R.ob(lab + ":installs", bool(given), "after %s the body is %s" % (lab, str(now)[:120]), P.where(k))
                elif name == "replace_body":
                    R.ob(lab + ":installs", bool(given), "after %s the body is %s" % (lab, str(now)[:120]), P.where(k))
                    R.ob(lab + ":returns-old", v is old, "%s returns %s" % (lab, str(v)[:120]), P.where(k))
                elif name == "swap_body":
                    arg = E.snap(s, E.read(s, ("H", p1), ()))
                    now = E.read(s, ("H", p0), (("f", fb, None),))  # p1 stands for the argument's initial contents
                    R.ob(lab + ":installs", now is p1, "after %s the body is %s" % (lab, str(now)[:120]), P.where(k))
                    R.ob(lab + ":returns-old", arg is old, "after %s the argument is %s" % (lab, str(arg)[:120]), P.where(k))
                else:
                    R.ob(lab + ":empties", same_shape(E, now, empty), "after %s the body is %s" % (lab, str(now)[:120]), P.where(k))
                    R.ob(lab + ":returns-old", v is old, "%s returns %s" % (lab, str(v)[:120]), P.where(k))
                # everything else untouched
                for i, n, t in fields(P, ty):
                    x = E.snap(s, E.read(s, ("H", p0), (("f", i, None),)))
                    if i == fb or x is T("fld", p0, None, i):
                        continue
                    if i != fh:
                        R.ob(lab + ":only-body", False, "%s also changes %s" % (lab, n), P.where(k))
                        continue
                    m = E.getstep(x, ("f", 0, None))
                    muts = [y for y in subterms(m, E) if y.op == "mut"]
                    for y in muts:
                        good = y.a[0] == "HashMap::insert" and strconst(y.a[2][0]) == "content-type"
                        R.ob(lab + ":header", good, "%s changes the headers by %s" % (lab, str(y)[:160]), P.where(k))
                        if good:
                            looked = [f for f, w in s.facts.items() if f.op == "discr" and f.a[0].op == "call" and f.a[0].a[0] == "HashMap::get" and strconst(f.a[0].a[2]) == "content-type" and w is I(0)]
                            looked += [f for f, w in s.facts.items() if f.op == "call" and f.a[0] == "HashMap::contains_key" and strconst(f.a[2]) == "content-type" and w is FALSE]
                            R.ob(lab + ":no-overwrite", bool(looked), "%s writes content-type although one may be present" % lab, P.where(k))
                            src = p1 if name != "take_body" else None
                            R.ob(lab + ":from-new-body", carried(E, y.a[2][1], p1) or same_origin(E, y.a[2][1], now), "%s takes content-type from %s" % (lab, str(y.a[2][1])[:160]), P.where(k))
                # a path that sets no content type has seen that there is one, or that the new body has no media type
                if not any(e.kind == "call" and e.name in ("HashMap::insert", "HashMap::entry") for e in s.eff):
                    why = [f for f, w in s.facts.items() if w is I(0) and f.op == "discr" and T_in(f.a[0], mime_i) or
                           (w is I(1) and "content-type" in str(f) and f.op in ("discr", "call"))]
                    R.ob(lab + ":sets-type", bool(why), "%s leaves a message without a content type although the new body has one" % lab, P.where(k))
                else:
                    R.ob(lab + ":sets-type", True)
            R.count("body operations")
    R.floor("body operations", 8)


def T_in(t, i):
    return t.op == "fld" and t.a[1] is None and t.a[2] == i


def same_origin(E, t, body):
    """Every constant text in t occurs in the body's value (a body whose media type is a constant)."""
    have = {x for x in subterms(body, E) if x.op == "str"}
    xs = [x for x in subterms(t, E) if x.op in ("str", "par")]
    return bool(xs) and all(x in have for x in xs)


# ------------------------------------------------------------------------------------------------ M04
DIFF = {"new", "clone", "send_upgrade", "recv_upgrade", "has_upgrade"}


def shared_ops(P):
    def ops(ty):
        out = {}
        for k, d in P.defs.items():
            if d.get("krate") != P.crate or d["kind"] != "AssocFn" or "self_ty" not in d or k not in P.bodies:
                continue
            st = P.ty(d["self_ty"])
            b = st
            pre = ""
            while b[0] == "ref":
                pre += "&mut " if b[2] else "&"
                b = b[1]
            if b[0] != "adt" or b[1].split("::")[-1] != ty or b[1] not in P.adts or not P.adts[b[1]]["local"]:
                continue
            tr = d.get("impl_trait", "").split("::")[-1]
            ta = ",".join(P.tystr(P.tyarg(x)) for x in d.get("impl_trait_args", [])[1:])
            if not tr and not d.get("exported"):
                continue
            out[(pre, tr, ta, d["name"])] = k
        return out
    a, b = ops("Request"), ops("Response")
    return [(x, a[x], b[x]) for x in sorted(a) if x in b and x[3] not in DIFF and not x[1] in ("Clone", "Debug")]


def summary(P, ty, key, deep):
    """Normalised behaviour: results, field writes and effects with struct fields named."""
    E = engine(P)
    if not deep:
        for k in P.bodies:
            s = P.short(k)
            own = P.body_owner(k)
            d = P.defs[own]
            if "self_ty" in d:
                st = P.ty(d["self_ty"])
                while st[0] == "ref":
                    st = st[1]
                if st[0] == "adt" and st[1].split("::")[-1] in ("Headers", "Body", "Extensions", "Mime", "ContentType", "Trailers"):
                    E.opaque_fns.add(s)
    names = {i: n for i, n, t in fields(P, ty)}
    outs = E.run_async(key) if P.defs[key].get("async") else E.run(key)
    memo = {}

    def nm(t, depth=0):
        if isinstance(t, tuple):
            return "(" + ",".join(nm(x, depth + 1) for x in t) + ")"
        if not isinstance(t, T):
            return str(t)
        r = memo.get(t)
        if r is not None:
            return r
        memo[t] = "…"
        if t.op == "phi":
            r = "φ{" + "|".join(sorted({nm(x, depth + 1) for x in E.flat(t)})) + "}" if depth < 30 else "φ"
        elif t.op == "fld" and t.a[0] is T("par", 0) and t.a[1] is None:
            r = "self." + names.get(t.a[2], "?")
        elif t.op == "str":
            r = repr(t.a[0])
        elif t.op in ("elem", "idx") and len(t.a) > 1:
            r = t.op + "(" + ",".join(nm(x, depth + 1) for x in t.a[:2]) + ")"
        else:
            r = t.op + "(" + ",".join(nm(x, depth + 1) for x in t.a) + ")"
        r = r.replace("request::Request", "MSG").replace("response::Response", "MSG").replace("Request", "MSG").replace("Response", "MSG")
        memo[t] = r
        return r

    rets, effs = set(), set()
    for v, s in outs:
        if s.env.get(("H", T("par", 0))) is not None:
            for i, n in names.items():
                x = E.snap(s, E.read(s, ("H", T("par", 0)), (("f", i, None),)))
                if x is not T("fld", T("par", 0), None, i):
                    effs.add("self.%s = %s" % (n, nm(x)))
        rets.add(nm(E.snap(s, v)).replace("http_types::Request", "MSG").replace("http_types::Response", "MSG"))
        for e in s.eff:
            if e.kind == "call":
                effs.add("%s%s" % (e.name.replace("Request", "MSG").replace("Response", "MSG"), nm(e.args)))
    leaf = set()
    for v, s in outs:
        def f(x):
            if x.op == "call":
                leaf.add(x.a[0].replace("Request", "MSG").replace("Response", "MSG"))
            elif x.op == "str":
                leaf.add(repr(x.a[0]))
            elif x.op == "fld" and x.a[0] is T("par", 0) and x.a[1] is None:
                leaf.add("self." + names.get(x.a[2], "?"))
            elif x.op in ("par",):
                leaf.add("$%s" % x.a[0])
            elif x.op == "un":
                leaf.add("un " + str(x.a[0]))
            elif x.op == "int":
                leaf.add(str(x.a[0]))
            elif x.op == "agg" and isinstance(x.a[0], str) and x.a[1] is not None:
                leaf.add("%s::%s" % (x.a[0].split("::")[-1], x.a[1]))
        seen = set()
        walk(E.snap(s, v), f, seen, E)
        for e in s.eff:
            leaf.add(e.name.replace("Request", "MSG").replace("Response", "MSG"))
            walk(e.args, f, seen, E)
        h = s.env.get(("H", T("par", 0)))
        if h is not None:
            walk(E.snap(s, h), f, seen, E)
    return rets, effs, leaf


DELEG = {"insert_header": "Headers::insert", "append_header": "Headers::append", "remove_header": "Headers::remove", "header": "Headers::get", "header_mut": "Headers::get_mut",
         "iter": "Headers::iter", "iter_mut": "Headers::iter_mut", "header_names": "Headers::names", "header_values": "Headers::values", "len": "Body::len", "is_empty": "Body::is_empty",
         "body_string": "Body::into_string", "body_bytes": "Body::into_bytes", "body_json": "Body::into_json", "body_form": "Body::into_form"}


@prop("M04")
def m04(R, P, W):
    """Siblings: every exported method or trait operation that Request and Response both offer is summarised (results, fields written with their values,
    calls with their arguments, over all paths) with struct fields named; the two summaries must agree, first at full depth, else with the
    operations of headers, body and local state taken as primitives, else in the sets of primitives, fields, parameters and constants used."""
    ops = shared_ops(P)

    def one(x):
        (pre, tr, ta, name), ka, kb = x
        r = Report_like()
        lab = "%s%s::%s" % (pre, (tr + "<" + ta + ">") if tr else "", name)
        lab = lab.replace("Request", "MSG").replace("Response", "MSG")
        try:
            a, b = summary(P, "Request", ka, False), summary(P, "Response", kb, False)
            if name in DELEG and not tr:
                for ty, x, kk in (("Request", a, ka), ("Response", b, kb)):
                    prims = {y[len("http_types::"):] if y.startswith("http_types::") else y for y in x[2]}
                    comp = DELEG[name].split("::")[0]
                    used = {y for y in prims if y.startswith(comp + "::") and y in set(DELEG.values())}
                    if DELEG[name] in prims and used == {DELEG[name]}:
                        r.ob("%s::%s:delegates" % (ty, name), True, DELEG[name], P.where(kk))
                    elif used:
                        r.ob("%s::%s:delegates" % (ty, name), False, "%s::%s uses %s, its counterpart is %s" % (ty, name, sorted(used), DELEG[name]), P.where(kk))
                    else:
                        r.undec("%s::%s:delegates" % (ty, name), "no operation of %s is used" % comp, P.where(kk))
                    for v in ("$1",) if name.endswith("_header") or name.startswith("header") and name in ("header", "header_mut") else ():
                        r.ob("%s::%s:args" % (ty, name), v in x[2], "%s::%s does not use its argument" % (ty, name), P.where(kk))
            if a[0] == b[0] and a[1] == b[1]:
                r.ob(lab, True, "same summary", P.where(ka))
                r.count("operations equal")
            elif a[2] == b[2]:
                r.ob(lab, True, "same primitives", P.where(ka))
                r.undec(lab + ":shape", "the two summaries differ in shape but use the same primitives", P.where(ka))
            else:
                try:
                    a2, b2 = summary(P, "Request", ka, True), summary(P, "Response", kb, True)
                    eq = a2[0] == b2[0] and a2[1] == b2[1] or a2[2] == b2[2]
                except Budget:
                    eq = False
                r.ob(lab, eq, "Request and Response differ in %s: only Request uses %s, only Response uses %s" % (lab, sorted(a[2] - b[2])[:6], sorted(b[2] - a[2])[:6]), P.where(ka) + " / " + P.where(kb))
        except Budget:
            r.undec(lab, "analysis budget exceeded", P.where(ka))
        r.count("operations compared")
        return r.plain()
    for d in pmap(one, ops):
        R.merge(d)
    R.floor("operations compared", 40)


# ------------------------------------------------------------------------------------------------ V01
SEND = ["Request", "Response", "Body", "headers::headers::Headers", "HeaderName", "HeaderValue", "HeaderValues", "Trailers", "trailers::Sender", "trailers::Receiver", "Error", "Extensions", "Url", "Mime",
        "security::csp::ContentSecurityPolicy", "Forwarded", "TimingAllowOrigin"]
SYNC = ["Request", "Response", "Body", "headers::headers::Headers", "HeaderName", "HeaderValue", "HeaderValues"]
UNPIN = ["Request", "Response", "Body"]


@prop("V01")
def v01(R, P, W):
    """The compiler's trait solver is asked, for the current definitions, whether each named type implements Send (messages, bodies, headers, trailers,
    errors, local state, every typed header), Sync (messages, bodies, headers) and Unpin (messages and bodies)."""
    def path(n):
        r = [p for p, a in P.adts.items() if a["local"] and (p == n or p.endswith("::" + n))]
        if n == "Url":
            return None
        if len(r) != 1:
            raise MissingAnchor("type %s: %s" % (n, r))
        return r[0]
    want = {}
    for tr, l in (("Send", SEND), ("Sync", SYNC), ("Unpin", UNPIN)):
        for n in l:
            p = path(n)
            if p:
                want.setdefault(p, set()).add(tr)
    for h in typed_headers(P)[1]:
        want.setdefault(h[1], set()).add("Send")
    for p, trs in sorted(want.items()):
        a = P.adts[p]["auto"]
        for tr in sorted(trs):
            if "?" in a:
                R.undec("%s:%s" % (p, tr), "generic type")
                continue
            R.ob("%s:%s" % (p, tr), tr in a, "%s is not %s" % (p, tr), p)
            R.count("marker obligations")
    R.floor("marker obligations", 50)

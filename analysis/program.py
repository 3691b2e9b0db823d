"""The type-checked program, loaded from the driver's JSON: types, defs, bodies, impls."""
import json, re, struct

PRIM_SIGNED = {"i8", "i16", "i32", "i64", "i128", "isize"}
PRIM_UNSIGNED = {"u8", "u16", "u32", "u64", "u128", "usize"}


def strip_generics(s):
    """Remove every <...> that is a generic argument list (keeps leading <T as Trait> intact)."""
    out, depth, i = [], 0, 0
    while i < len(s):
        if s.startswith("::<", i) and not s.startswith("::<impl", i):
            d, j = 0, i + 2
            while j < len(s):
                if s[j] == "<":
                    d += 1
                elif s[j] == ">" and s[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(s[i])
        i += 1
    return "".join(out)


class Program:
    def __init__(self, path):
        with open(path) as f:
            F = json.load(f)
        self.F = F
        self.crate = F["crate"]
        self.defs = F["defs"]
        self.bodies = F["bodies"]
        self.adts = F["adts"]
        self.rawtypes = F["types"]
        self._ty = {}
        self.impls = []
        for im in F["impls"]:
            im = dict(im)
            im["self"] = self.ty(im["self_ty"])
            im["targs"] = tuple(self.tyarg(a) for a in im.get("trait_args", []))
            self.impls.append(im)
        self.impl_by_trait = {}
        for im in self.impls:
            if "trait" in im:
                self.impl_by_trait.setdefault(im["trait"], []).append(im)
        self.item_impl = {}
        for im in self.impls:
            for it in im["items"]:
                self.item_impl[it["def"]] = im
        self.trait_default = {}
        for t in F["traits"]:
            for it in t["items"]:
                if it["default"]:
                    self.trait_default[it["def"]] = True
        self._short = {}
        self.const_ty = {k: self.ty(t) for k, t in F["consts"]}
        self._by_path = {}
        for k, d in self.defs.items():
            self._by_path.setdefault(d["path"], []).append(k)
        self._children = None

    # ------------------------------------------------------------- types
    def tyarg(self, a):
        if isinstance(a, int):
            return self.ty(a)
        return ("const", a["const"])

    def ty(self, i):
        t = self._ty.get(i)
        if t is not None:
            return t
        r = self.rawtypes[i]
        self._ty[i] = ("rec", i)
        k = r["k"]
        if k == "prim":
            t = ("prim", r["n"])
        elif k == "adt":
            t = ("adt", r["d"], tuple(self.tyarg(a) for a in r["a"]))
        elif k in ("ref", "ptr"):
            t = (k, self.ty(r["t"]), r["m"])
        elif k == "slice":
            t = ("slice", self.ty(r["t"]))
        elif k == "array":
            t = ("array", self.ty(r["t"]), r["n"])
        elif k == "tuple":
            t = ("tuple", tuple(self.ty(a) for a in r["a"]))
        elif k == "param":
            t = ("param", r["n"])
        elif k == "fndef":
            t = ("fndef", r["d"], tuple(self.tyarg(a) for a in r["a"]))
        elif k == "closure":
            t = ("closure", r["d"])
        elif k == "coroutine":
            t = ("coroutine", r["d"])
        elif k == "dyn":
            t = ("dyn", r["d"], r["s"])
        elif k == "alias":
            t = ("alias", r["s"])
        else:
            t = (k, r.get("s", ""))
        self._ty[i] = t
        return t

    def subst(self, t, s):
        if not s or not isinstance(t, tuple):
            return t
        k = t[0]
        if k == "param":
            return s.get(t[1], t)
        if k == "adt":
            return ("adt", t[1], tuple(self.subst(a, s) for a in t[2]))
        if k in ("ref", "ptr"):
            return (k, self.subst(t[1], s), t[2])
        if k == "slice":
            return (k, self.subst(t[1], s))
        if k == "array":
            return (k, self.subst(t[1], s), t[2])
        if k == "tuple":
            return (k, tuple(self.subst(a, s) for a in t[1]))
        if k == "fndef":
            return (k, t[1], tuple(self.subst(a, s) for a in t[2]))
        return t

    def unify(self, pat, t, b):
        """Match impl type `pat` (with params) against concrete `t`."""
        if pat == t and pat[0] != "param":
            return True
        if pat[0] == "param":
            if pat[1] in b:
                return b[pat[1]] == t
            b[pat[1]] = t
            return True
        if pat[0] != t[0]:
            return False
        if pat[0] == "adt":
            return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(self.unify(x, y, b) for x, y in zip(pat[2], t[2]))
        if pat[0] in ("ref", "ptr"):
            return pat[2] == t[2] and self.unify(pat[1], t[1], b)
        if pat[0] == "slice":
            return self.unify(pat[1], t[1], b)
        if pat[0] == "array":
            return self.unify(pat[1], t[1], b)
        if pat[0] == "tuple":
            return len(pat[1]) == len(t[1]) and all(self.unify(x, y, b) for x, y in zip(pat[1], t[1]))
        return False

    def find_impl(self, trait, args):
        """(impl, bindings) of a crate-local impl for trait<args[0] as Self, args[1:]>."""
        hits = []
        for im in self.impl_by_trait.get(trait, []):
            b = {}
            if len(im["targs"]) != len(args):
                continue
            if args and args[0][0] in ("param", "alias"):
                continue  # the implementing type is not known here
            if all(self.unify(p, a, b) for p, a in zip(im["targs"], args)):
                hits.append((im, b))
        if len(hits) > 1:  # prefer the one without a bare parameter as Self
            h2 = [h for h in hits if h[0]["targs"][0][0] != "param"]
            if len(h2) == 1:
                return h2[0]
            return None
        return hits[0] if hits else None

    def tystr(self, t):
        k = t[0]
        if k == "prim":
            return t[1]
        if k == "adt":
            n = t[1].split("::")[-1]
            return n + ("<" + ", ".join(self.tystr(a) for a in t[2]) + ">" if t[2] else "")
        if k == "ref":
            return "&" + ("mut " if t[2] else "") + self.tystr(t[1])
        if k == "ptr":
            return "*" + self.tystr(t[1])
        if k == "slice":
            return "[" + self.tystr(t[1]) + "]"
        if k == "array":
            return "[" + self.tystr(t[1]) + "; " + str(t[2]) + "]"
        if k == "tuple":
            return "(" + ", ".join(self.tystr(a) for a in t[1]) + ")"
        if k == "const":
            return t[1]
        if k == "fndef":
            return "fn " + self.defs[t[1]]["path"]
        return str(t[1]) if len(t) > 1 else k

    def is_local_adt(self, t):
        return t[0] == "adt" and self.adts.get(t[1], {}).get("local", False)

    # ------------------------------------------------------------- names
    def short(self, key):
        """Canonical short name of a function: Type::method, Trait::method or module::fn."""
        s = self._short.get(key)
        if s is not None:
            return s
        d = self.defs[key]
        if "trait" in d:
            s = d["trait"].split("::")[-1] + "::" + d.get("name", "")
            if d["krate"] not in ("core", "alloc", "std"):
                s = d["krate"] + "::" + s
        elif "impl_trait" in d:
            st = self.ty(d["self_ty"])
            tn = d["impl_trait"].split("::")[-1]
            s = "<%s as %s>::%s" % (self.tystr(st), tn, d.get("name", ""))
        elif "self_ty" in d:
            st = self.ty(d["self_ty"])
            base = st
            while base[0] == "ref":
                base = base[1]
            if base[0] == "adt":
                n = base[1].split("::")[-1]
            elif base[0] == "slice":
                n = "slice"
            elif base[0] == "prim":
                n = base[1]
            elif base[0] == "dyn":
                n = base[1].split("::")[-1]
            else:
                n = base[0]
            s = n + "::" + d.get("name", "")
            if d["krate"] not in ("core", "alloc", "std"):
                s = d["krate"] + "::" + s
        else:
            p = strip_generics(d["path"])
            if d["krate"] == self.crate:
                s = "crate::" + p
            else:
                segs = p.split("::")
                s = "::".join(segs[-2:]) if d["krate"] in ("core", "alloc", "std") else d["krate"] + "::" + "::".join(segs[-1:])
        self._short[key] = s
        return s

    def is_local(self, key):
        return self.defs[key]["krate"] == self.crate

    def generics(self, key):
        return self.defs[key].get("generics", [])

    def fn(self, ty=None, name=None, trait=None, targ=None):
        """Keys of local functions with Self type short name `ty`, trait short name `trait`, name."""
        out = []
        for k, d in self.defs.items():
            if d.get("krate") != self.crate or d["kind"] not in ("Fn", "AssocFn"):
                continue
            if name is not None and d.get("name") != name:
                continue
            if ty is not None:
                if "self_ty" not in d:
                    continue
                st = self.ty(d["self_ty"])
                if self.tystr(st) != ty and (st[0] != "adt" or st[1].split("::")[-1] != ty and st[1] != ty):
                    continue
            if trait is None and "impl_trait" in d:
                continue
            if trait is not None:
                if "impl_trait" not in d or d["impl_trait"].split("::")[-1] != trait:
                    continue
                if targ is not None:
                    a = [self.tyarg(x) for x in d["impl_trait_args"]][1:]
                    if not a or self.tystr(a[0]) != targ:
                        continue
            out.append(k)
        return out

    def fn1(self, **kw):
        r = self.fn(**kw)
        if len(r) != 1:
            raise MissingAnchor("function %r: %d matches" % (kw, len(r)))
        return r[0]

    def free_fn(self, name, module=None):
        r = []
        for k, d in self.defs.items():
            if d.get("krate") == self.crate and d["kind"] == "Fn" and d.get("name") == name and (module is None or module in d["path"]):
                r.append(k)
        if len(r) != 1:
            raise MissingAnchor("free function %r: %d matches" % (name, len(r)))
        return r[0]

    def adt(self, name):
        r = [p for p, a in self.adts.items() if a["local"] and (p == name or p.split("::")[-1] == name or p.endswith("::" + name))]
        if len(r) != 1:
            raise MissingAnchor("type %r: %d matches %r" % (name, len(r), r))
        return r[0]

    def where(self, key):
        d = self.defs[key]
        f, l = d.get("file") or d.get("file2"), d.get("line") or d.get("line2")
        if f and f.startswith("/repo/"):
            f = f[6:]
        return "%s:%s" % (f, l)

    def body_owner(self, key):
        """Enclosing named function of a closure."""
        while self.defs[key]["kind"] == "Closure":
            key = self.defs[key]["parent"]
        return key


class MissingAnchor(Exception):
    pass


def scalar(ty, bits, size):
    """Value of a scalar constant given its raw bits."""
    bits = int(bits)
    n = ty[1] if ty[0] == "prim" else ""
    if n in ("f32", "f64"):
        return ("flt", struct.unpack("<f" if size == 4 else "<d", bits.to_bytes(size, "little"))[0])
    if n in PRIM_SIGNED and bits >= 1 << (8 * size - 1):
        bits -= 1 << (8 * size)
    return ("int", bits)


def int_range(n):
    w = {"8": 8, "16": 16, "32": 32, "64": 64, "128": 128}.get(n[1:], 64)
    if n[0] == "i":
        return -(1 << (w - 1)), (1 << (w - 1)) - 1
    return 0, (1 << w) - 1

"""Loads the JSON fact files the driver wrote, one per workspace crate."""
import json, os, glob


class Ty:
    __slots__ = ("s", "k", "n", "a", "t", "m", "d")

    def __init__(self, d, crate):
        self.d = d
        self.s = d["s"]
        self.k = d["k"]
        self.n = d.get("n")
        self.m = d.get("m")
        self.a = ()
        self.t = None

    def __repr__(self):
        return self.s


class Fn:
    def __init__(self, j, crate):
        self.j = j
        self.crate = crate
        self.id = j["id"]
        self.name = j["name"]
        self.loc = j["loc"]
        self.kind = j["kind"]
        self.body = j["body"]
        self.blocks = self.body["blocks"]
        self.argc = self.body["argc"]
        self.locals = self.body["locals"]
        self.coroutine = j.get("coroutine", False)
        self.parent = j.get("parent")
        self.impl_of = j.get("impl_of")
        self.vis = j.get("vis")
        self.reach = j.get("reach", False)
        self.generics = j.get("generics", [])
        self.live = None

    @property
    def self_ty(self):
        return self.crate.tys[self.j["self"]] if "self" in self.j else None

    def ty(self, l):
        return self.crate.tys[self.locals[l]["t"]]

    def lname(self, l):
        return self.locals[l].get("n")

    def __repr__(self):
        return "Fn(%s)" % self.name


class Crate:
    def __init__(self, j):
        self.name = j["crate"]
        self.tys = [Ty(d, self) for d in j["tys"]]
        for t in self.tys:
            d = t.d
            if "a" in d:
                t.a = tuple(self.tys[x] if isinstance(x, int) else x for x in d["a"])
            if "t" in d:
                t.t = self.tys[d["t"]]
        self.fns = [Fn(f, self) for f in j["fns"]]
        self.cbodies = [Fn(f, self) for f in j.get("cbodies", [])]
        self.adts = j["adts"]
        self.impls = j["impls"]
        self.consts = j["consts"]


class Facts:
    def __init__(self, d, want=None):
        self.crates = {}
        self.fns = {}
        self.cbodies = {}     # bodies of constants and statics
        self.adts = {}
        self.impls = []
        self.impl_index = {}
        for p in sorted(glob.glob(os.path.join(d, "*.json"))):
            n = os.path.basename(p)[:-5]
            if want and n not in want:
                continue
            with open(p) as f:
                c = Crate(json.load(f))
            self.crates[c.name] = c
            for f in c.fns:
                self.fns[f.id] = f
            for f in c.cbodies:
                self.cbodies[f.id] = f
            for a in c.adts:
                a = dict(a)
                a["crate"] = c
                self.adts[a["id"]] = a
            for i in c.impls:
                i = dict(i)
                i["crate"] = c
                i["self_ty"] = c.tys[i["self"]]
                self.impls.append(i)

    def field_tys(self, adt_id):
        a = self.adts[adt_id]
        return [[(f["name"], a["crate"].tys[f["ty"]]) for f in v["fields"]] for v in a["variants"]]

    def trait_impls(self, trait_suffix, self_pred=None):
        """impl blocks of a trait whose def path ends with trait_suffix"""
        out = []
        for i in self.impls:
            t = i.get("trait")
            if t and (t == trait_suffix or t.endswith("::" + trait_suffix)):
                if self_pred is None or self_pred(i["self_ty"]):
                    out.append(i)
        return out

    def sealed_default(self, info):
        """a trait method whose provided body no impl in the workspace overrides"""
        c = self.__dict__.setdefault("_sealed", {})
        k = info["id"]
        if k not in c:
            impls = [i for i in self.impls if i.get("trait") and i["trait"] == info["trait"]]
            c[k] = bool(impls) and not any((it.get("of") or "") == k for i in impls for it in i["items"])
        return c[k]

    def impl_fn(self, impl, method):
        """the function of an impl block that implements (or is named) method"""
        for it in impl["items"]:
            of = it.get("of") or it["id"]
            if of.rsplit("::", 1)[-1] == method or it["id"].rsplit("::", 1)[-1] == method:
                return self.fns.get(it["id"])
        return None

    def inherent(self, adt_suffix, method):
        out = []
        for i in self.impls:
            if i.get("trait"):
                continue
            st = i["self_ty"]
            if st.k == "adt" and (st.n == adt_suffix or st.n.endswith("::" + adt_suffix)):
                f = self.impl_fn(i, method)
                if f:
                    out.append(f)
        return out

    def adt(self, suffix):
        return [a for k, a in self.adts.items() if k == suffix or k.endswith("::" + suffix)]

    def fn_named(self, suffix):
        return [f for k, f in self.fns.items() if k == suffix or k.endswith("::" + suffix)]

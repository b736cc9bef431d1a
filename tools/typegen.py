"""Generator of type definitions for the Serialize derive (C12, C15).

A program is a list of types (plain data, so that it can be reduced); `emit`
turns it into a crate whose `Model` implementations are written out by this
generator, independently of the derive macro.
"""
import random

TAGS = ("prim", "String", "Vec", "Box", "Option", "arr", "tup", "ext", "mark", "self", "ref")

PRIMS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "bool", "char"]

FIELD_NAMES = [
    "serializer", "value", "val_0", "val_1", "val_serializer", "val_val_0", "ser", "s", "self_", "storage", "pos", "this",
    "r#type", "r#fn", "r#match", "r#struct", "r#async", "r#dyn", "r#impl", "r#ref", "r#try", "r#value", "r#serializer",
    "_", "_0", "__s", "__S", "størrelse", "名前", "ñ", "union", "auto", "default", "macro_rules", "raw", "data", "serialize_data",
    "other", "state", "hasher", "f", "t", "a", "b", "c", "d", "x", "y", "z", "len", "ptr", "addr", "index", "Ok", "Some_",
    "val_type", "val_r", "r#macro", "r#yield", "r#become", "field", "_serializer", "Self_", "r#in", "r#unsafe",
]
FIELD_NAMES = [n for n in FIELD_NAMES if n != "_"]

TYPE_NAMES = [
    "S", "T", "Ser", "Serializer", "Serialize", "Foo", "Bar", "Value", "r#type", "r#fn", "Data", "Self_", "Vec", "Option",
    "String", "Box", "Some", "None", "Ok", "Result", "SerializeWith", "Storage", "PureCopySerializer", "Größe", "型", "u8",
    "ser_raw", "lower_case", "_Under", "__T", "Iterator", "Sized", "Copy", "Drop", "FnOnce",
]

VARIANT_NAMES = [
    "A", "B", "C", "D", "E", "F", "G", "H", "None", "Some", "Ok", "Err", "Serialize", "Serializer", "r#fn", "r#type", "r#Self_",
    "S", "T", "Value", "Self_", "val_0", "serializer", "_X", "__S", "Unit", "Élan", "変", "Vec", "Box", "lower", "Default", "Type",
    "r#match", "String", "V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "W0", "W1", "W2", "W3", "W4", "W5",
]

REPRS = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize"]
LIMITS = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767), "u32": (0, 2**32 - 1),
          "i32": (-2**31, 2**31 - 1), "u64": (0, 2**64 - 1), "i64": (-2**63, 2**63 - 1), "usize": (0, 2**64 - 1),
          "isize": (-2**63, 2**63 - 1), None: (-2**31, 2**31 - 1)}

PROXY_FIELD_TYPES = [
    ["ext", "::vlib::gen::Tok"], ["ext", "::vlib::gen::Foreign"], ["ext", "::vlib::gen::Plain"], ["String"],
    ["Vec", ["prim", "u8"]], ["Vec", ["String"]], ["Box", ["prim", "u32"]], ["Vec", ["ext", "::vlib::gen::Tok"]],
    ["Box", ["ext", "::vlib::gen::Tok"]], ["Box", ["String"]], ["prim", "u8"], ["prim", "u64"], ["prim", "char"],
]
OWN = {"::vlib::gen::Tok"}


def inhabited(t):
    return t["kind"] != "enum" or any(not v.get("never") and not v.get("cfgd") for v in t["variants"])


class Gen:
    def __init__(self, seed, with_proxies=False):
        self.r = random.Random(seed)
        self.proxies = with_proxies
        self.types = []

    # ---- field types --------------------------------------------------

    def chance(self, p):
        return self.r.random() < p

    def field_type(self, t, depth=0):
        r = self.r
        k = r.random()
        consts = [g["name"] for g in t["generics"] if g["k"] == "const" and g["ty"] == "usize"]
        if depth >= 3:
            k *= 0.38
        if k < 0.16:
            return ["prim", r.choice(PRIMS)]
        if k < 0.26:
            return ["Box", ["prim", r.choice(PRIMS)]]
        if k < 0.34:
            return ["String"]
        if k < 0.38:
            return ["ext", r.choice(["::num_bigint::BigInt", "::num_bigint::BigUint", "()", "::core::num::NonZeroU16"])]
        if k < 0.52:
            return ["Vec", self.field_type(t, depth + 1)]
        if k < 0.60:
            return ["Option", self.field_type(t, depth + 1)]
        if k < 0.68:
            return ["Box", self.field_type(t, depth + 1)]
        if k < 0.74:
            n = r.choice(consts) if consts and self.chance(0.6) else str(r.choice([0, 1, 2, 3, 5]))
            return ["arr", self.field_type(t, depth + 1), n]
        if k < 0.80:
            return ["tup", [self.field_type(t, depth + 1) for _ in range(r.choice([1, 2, 2, 3, 4]))]]
        if k < 0.84:
            p = [g for g in t["generics"] if g["k"] in ("type", "life")]
            if p:
                g = r.choice(p)
                return ["mark", g["name"] if g["k"] == "type" else "&%s u8" % g["name"]]
            return ["prim", "u32"]
        if k < 0.86:
            return ["ext", r.choice(["::vlib::model::A16", "::vlib::model::A16S", "::vlib::model::Z16", "::vlib::model::Z1"])]
        if self.proxies and k < 0.90:
            return ["ext", "::vlib::gen::Tok"]
        refs = [x for x in self.types if x["ctx"] != "fn" and x["weight"] <= 12 and inhabited(x)]
        if refs:
            x = r.choice(refs)
            return ["ref", x["id"], [self.instance(g, consts) for g in x["generics"]]]
        return ["Vec", ["prim", "u16"]]

    def instance(self, g, consts=()):
        r = self.r
        if g["k"] == "life":
            return "'static"
        if g["k"] == "type":
            return r.choice(["::core::primitive::u8", "::std::string::String", "(::core::primitive::u8,)", "[::core::primitive::u16; 3]"])
        if g["ty"] == "usize":
            if consts and self.chance(0.5):
                return r.choice(list(consts))
            return r.choice(["0", "1", "2", "3", "4", "{ 1 + 1 }"])
        return {"bool": ["true", "false"], "char": ["'x'", "'\\n'"], "i8": ["-3", "{ 1 - 2 }", "7"], "u64": ["1", "5_000_000_000"]}[g["ty"]][r.randrange(2)]

    def size(self, ty):
        """Rough number of pieces a value of a type may have"""
        k = ty[0]
        if k in ("prim", "String", "ext", "mark"):
            return 1
        if k in ("Vec", "Option", "Box"):
            return 1 + 2 * self.size(ty[1])
        if k == "arr":
            return 3 * self.size(ty[1])
        if k == "tup":
            return sum(map(self.size, ty[1]))
        if k == "ref":
            return self.types[ty[1]]["weight"]
        return 1

    def rec_type(self):
        return self.r.choice([["Vec", ["self"]], ["Option", ["Box", ["self"]]], ["Vec", ["tup", [["prim", "u8"], ["self"]]]],
                              ["Vec", ["Box", ["self"]]], ["Option", ["Box", ["tup", [["self"], ["String"]]]]],
                              ["Vec", ["Option", ["self"]]]])

    # ---- fields -------------------------------------------------------

    def proxy_path(self, t):
        r = self.r
        consts = [g["name"] for g in t["generics"] if g["k"] == "const" and g["ty"] == "usize"]
        tys = [g["name"] for g in t["generics"] if g["k"] == "type"]
        forms = ["Local", "self::Local", "::vlib::gen::LibProxy", "crate::proxies::Here", "crate::proxies::r#mod::r#type",
                 "inner::Deep", "self::inner::Deep", "super::proxies::Here", "Alias", "LocalG<::core::primitive::u8>",
                 "LocalG::<::core::primitive::u16>", "self::LocalG<[::core::primitive::u8; 3]>", "crate::proxies::G<(), 3>",
                 "::vlib::gen::Generic<::core::primitive::u32>", "::vlib::gen::Counted<3>", "::vlib::gen::Counted<{ 2 + 2 }>",
                 "::vlib::gen::Counted::<5>", "<::core::primitive::u8 as ::vlib::gen::HasProxy>::Proxy", "Used", "Renamed",
                 "::vlib::gen::Generic<crate::proxies::G<::vlib::gen::Counted<1>, 2>>", "r#loop", "inner::deeper::r#async",
                 "::vlib::gen::Generic<&'static ::core::primitive::u8>", "::vlib::gen::Generic<dyn ::core::marker::Send>",
                 "LocalL<'static>", "::vlib::gen::Generic<fn(::core::primitive::u8) -> ::core::primitive::bool>"]
        # For variety, plain forms as often as the rest
        if self.chance(0.3):
            return r.choice(forms[:4])
        if consts and self.chance(0.4):
            n = r.choice(consts)
            return r.choice(["::vlib::gen::Counted<%s>" % n, "::vlib::gen::Counted<{ %s }>" % n, "::vlib::gen::Generic<[::core::primitive::u8; %s]>" % n])
        if tys and self.chance(0.4):
            return "::vlib::gen::Generic<::vlib::gen::Mark<%s>>" % r.choice(tys)
        return r.choice(forms)

    def field(self, t, name, may_recurse):
        r = self.r
        f = {"name": name, "attrs": [], "vis": r.choice(["", "", "pub ", "pub(crate) ", "pub(super) "]), "rec": False, "with": None}
        if may_recurse and self.chance(0.12):
            f["ty"] = self.rec_type()
            f["rec"] = True
        else:
            f["ty"] = self.field_type(t)
            if self.size(f["ty"]) > 40:
                f["ty"] = ["Box", ["prim", r.choice(PRIMS)]]
        if self.proxies and not f["rec"] and self.chance(0.5):
            f["with"] = self.proxy_path(t)
            ty = r.choice(PROXY_FIELD_TYPES) if self.chance(0.5) else r.choice(PROXY_FIELD_TYPES[:3])
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                ty = r.choice([["Option", ty], ["arr", ty, r.choice(["0", "1", "2"])], ["tup", [ty, r.choice(PROXY_FIELD_TYPES)]]])
            f["ty"] = ty
        if self.chance(0.12):
            f["attrs"].append(r.choice(["/// Documented", "#[allow(dead_code)]", "#[cfg(all())]", "#[doc(hidden)]", "#[cfg_attr(all(), allow(unused))]", "/** Documented `#[ser_with(X)]` */"]))
        return f

    def fields(self, t, kind, may_recurse, few=False):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8]) if not self.chance(0.04) else r.randrange(13, 24)
        if few:
            n = r.choice([0, 1, 1, 2])
        elif self.chance(0.006):
            n = r.randrange(27, 140)
        if kind == "tuple":
            return [self.field(t, str(i), may_recurse) for i in range(n)]
        names = r.sample(FIELD_NAMES + ["field_%d" % i for i in range(n - 20)], n)
        # r#value and value are the same name
        seen, out = set(), []
        for x in names:
            k = x[2:] if x.startswith("r#") else x
            if k not in seen:
                seen.add(k)
                out.append(x)
        fs = [self.field(t, x, may_recurse) for x in out]
        if self.chance(0.05):
            fs.insert(r.randrange(len(fs) + 1), {"name": "gone", "cfgd": True, "vis": "", "attrs": [], "ty": ["ext", "Missing"], "rec": False, "with": None})
        return fs

    # ---- types --------------------------------------------------------

    def new(self):
        r = self.r
        t = {
            "id": len(self.types),
            "name": r.choice(TYPE_NAMES),
            "generics": [],
            "where": [],
            "attrs": [],
            "ctx": r.choices(["plain", "fn", "macro", "nested", "no_prelude", "shadow"], [10, 3, 4, 2, 2, 3])[0],
            "mstyle": r.randrange(6),
            "style": r.choice(["use", "use", "path", "abs", "rename", "multi", "split"]),
            "self_name": r.choice(["Self", "name"]),
            "bound": None,
        }
        if t["name"] == "Drop" or t["name"] == "Sized":
            pass
        # Generics
        if self.chance(0.35):
            for name in r.sample(["N", "M", "LEN", "r#N2"], r.choice([1, 1, 2])):
                ty = r.choices(["usize", "bool", "char", "i8", "u64"], [8, 1, 1, 1, 1])[0]
                t["generics"].append({"k": "const", "name": name, "ty": ty, "default": None})
        if self.chance(0.15):
            for name in r.sample(["T", "S", "A", "Z", "Ser", "__T"], r.choice([1, 1, 2])):
                if name != t["name"]:
                    t["generics"].insert(r.choice([0, len(t["generics"])]), {"k": "type", "name": name, "bound": r.choice(["", "", "::core::marker::Sized", "'static", "::core::clone::Clone + ::core::cmp::PartialEq"]), "default": None})
        if self.chance(0.1):
            for name in r.sample(["'a", "'b", "'s"], r.choice([1, 2])):
                t["generics"].insert(0, {"k": "life", "name": name})
        # Trailing defaults
        g = [x for x in t["generics"] if x["k"] != "life"]
        if g and self.chance(0.3):
            for x in reversed(g):
                if self.chance(0.3):
                    break
                x["default"] = self.instance(x)
        if any(x["k"] == "type" for x in t["generics"]) and self.chance(0.4):
            t["where"].append("%s: ::core::marker::Sized" % next(x["name"] for x in t["generics"] if x["k"] == "type"))
        if any(x["k"] == "const" and x["ty"] == "usize" for x in t["generics"]) and self.chance(0.2):
            t["where"].append("[::core::primitive::u8; %s]: ::core::marker::Sized" % next(x["name"] for x in t["generics"] if x["k"] == "const" and x["ty"] == "usize"))
        cs = [x["name"] for x in t["generics"] if x["k"] == "const" and x["ty"] == "usize"]
        if self.chance(0.2 if cs else 0.03):
            t["where"].append("::vlib::low::Num<{ %s }>: ::core::marker::Sized" % (cs[0] if cs else "3 + 1"))
        if self.chance(0.07):
            t["bound"] = r.choice(["::vlib::gen::AnySer", "::vlib::gen::AnySerOf<::core::primitive::u8>", "::ser_raw::Serializer"])
        t["kind"] = r.choices(["struct_named", "struct_tuple", "struct_unit", "enum"], [6, 4, 0 if self.proxies else 1, 10])[0]
        if t["kind"] == "enum":
            self.new_enum(t)
        else:
            kind = t["kind"].split("_")[1]
            t["fields"] = [] if kind == "unit" else self.fields(t, kind, True)
            if self.chance(0.25):
                t["attrs"].append(r.choice(["#[repr(C)]", "#[repr(align(16))]", "#[repr(C, align(8))]", "#[repr(align(2))]", "#[repr(C, align(64))]"]))
            elif len(t["fields"]) == 1 and not t["fields"][0].get("cfgd") and self.chance(0.4) and not t["generics"]:
                t["attrs"].append("#[repr(transparent)]")
        self.use_params(t)
        if self.chance(0.1):
            t["attrs"].append(r.choice(["/// Documentation", "#[allow(dead_code)]", "#[cfg_attr(all(), allow(unused))]", "#[non_exhaustive]", "#[must_use]"]))
        inst = [[self.instance(g) for g in t["generics"]]]
        if t["generics"]:
            inst.append([self.instance(g) for g in t["generics"]])
            if inst[0] == inst[1]:
                inst.pop()
        t["inst"] = inst
        fs = [f for f in self.all_fields(t) if not f.get("cfgd")]
        t["weight"] = 1 + sum(self.size(f["ty"]) if not f["rec"] else 3 for f in fs)
        self.types.append(t)
        return t

    def new_enum(self, t):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7]) if not self.chance(0.06) else r.randrange(10, 26)
        if self.proxies:
            n = max(n, 1)
        # More variants than a byte can number
        many = self.chance(0.015)
        if many:
            n = r.randrange(257, 300)
        names = r.sample(VARIANT_NAMES + ["Variant%d" % i for i in range(n - 20)], n)
        seen, vs = set(), []
        for x in names:
            k = x[2:] if x.startswith("r#") else x
            if k in seen:
                continue
            seen.add(k)
            kind = r.choices(["unit", "tuple", "named"], [3, 5, 5] if not many else [8, 5, 5])[0]
            v = {"name": x, "kind": kind, "disc": None, "attrs": [], "fields": [] if kind == "unit" else self.fields(t, kind, True, many)}
            for f in v["fields"]:
                f["vis"] = ""
            if self.chance(0.06):
                v["attrs"].append(r.choice(["/// Variant", "#[doc(hidden)]", "#[allow(dead_code)]", "#[cfg(all())]"]))
            vs.append(v)
        if vs and all(any(f["rec"] for f in v["fields"]) for v in vs):
            for f in vs[0]["fields"]:
                if f["rec"]:
                    f["rec"], f["ty"] = False, ["String"]
        # Direct recursion, from all but the variants which end it
        ends = [v for v in vs if not any(f["rec"] for f in v["fields"])]
        for v in vs:
            if v["fields"] and (len(ends) > 1 or v not in ends) and self.chance(0.2):
                f = r.choice(v["fields"])
                if f.get("cfgd") or f["with"]:
                    continue
                f["ty"], f["rec"] = r.choice([["Box", ["self"]], ["arr", ["Box", ["self"]], "2"], ["tup", [["String"], ["Box", ["self"]]]]]), True
                if v in ends:
                    ends.remove(v)
        if vs and self.chance(0.06):
            vs.insert(r.randrange(len(vs) + 1), {"name": "Gone", "cfgd": True, "kind": "tuple", "disc": None, "attrs": [], "fields": [{"name": "0", "vis": "", "attrs": [], "ty": ["ext", "Missing"], "rec": False, "with": None}]})
        if vs and self.chance(0.05) and "Never" not in seen:
            vs.insert(r.randrange(len(vs) + 1), {"name": "Never", "never": True, "kind": "tuple", "disc": None, "attrs": [], "fields": [
                {"name": "0", "vis": "", "attrs": [], "ty": ["ext", "crate::Void"], "rec": False, "with": None},
                {"name": "1", "vis": "", "attrs": [], "ty": ["Box", ["prim", "u8"]], "rec": False, "with": None}]})
        t["variants"] = vs
        live = [v for v in vs if not v.get("cfgd")]
        data = any(v["kind"] != "unit" for v in live)
        rep = None
        if live and self.chance(0.4):
            rep = r.choice(REPRS if not many else [x for x in REPRS if x[1:] != "8"])
            t["attrs"].append(r.choice(["#[repr(%s)]", "#[repr(C, %s)]" if data else "#[repr(%s)]"]) % rep)
        elif live and self.chance(0.15):
            t["attrs"].append(r.choice(["#[repr(C)]", "#[repr(align(16))]", "#[repr(align(64))]"]))
            rep = "?"
        if (rep is not None or not data) and rep != "?" and not many and self.chance(0.6):
            lo, hi = LIMITS[rep]
            used = set()
            nxt = 0
            for v in vs:
                if self.chance(0.5) or nxt > hi or nxt in used:
                    c = [x for x in (lo, hi - 40, r.randint(lo, hi - 40), r.randint(0, 60), nxt + r.randint(0, 9)) if lo <= x <= hi and not any(abs(x - u) < 30 for u in used)]
                    if not c:
                        c = [x for x in range(0, min(hi, 127) + 1) if x not in used]
                    if not c:
                        break
                    nxt = r.choice(c)
                    v["disc"] = nxt
                used.add(nxt)
                nxt += 1

    def all_fields(self, t):
        if t["kind"] == "enum":
            return [f for v in t["variants"] if not v.get("cfgd") for f in v["fields"]]
        return t["fields"]

    def use_params(self, t):
        """Type and lifetime parameters must be used"""
        want = [g for g in t["generics"] if g["k"] in ("type", "life")]
        used = set()

        def see(ty):
            if ty[0] == "mark":
                used.add(ty[1])
            for x in ty[1:]:
                if isinstance(x, list):
                    if x and isinstance(x[0], str):
                        see(x)
                    else:
                        for y in x:
                            if isinstance(y, list):
                                see(y)
        for f in self.all_fields(t):
            if not f.get("cfgd") and not f["rec"]:
                see(f["ty"])
        need = []
        for g in want:
            m = g["name"] if g["k"] == "type" else "&%s u8" % g["name"]
            if m not in used:
                need.append(["mark", m])
        if not need:
            return
        # Put the missing ones in one more field
        host = None
        if t["kind"] == "enum":
            hosts = [v for v in t["variants"] if v["kind"] != "unit" and not v.get("cfgd") and not v.get("never")]
            if not hosts:
                t["generics"] = [g for g in t["generics"] if g["k"] == "const"]
                t["where"] = [w for w in t["where"] if w[0] in "[:"]
                return
            host = self.r.choice(hosts)
            tup = host["kind"] == "tuple"
        else:
            if t["kind"] == "struct_unit":
                t["generics"] = [g for g in t["generics"] if g["k"] == "const"]
                t["where"] = [w for w in t["where"] if w[0] in "[:"]
                return
            host, tup = t, t["kind"] == "struct_tuple"
        t["attrs"] = [a for a in t["attrs"] if "transparent" not in a]
        host["fields"].append({"name": str(len(host["fields"])) if tup else "params", "vis": "", "attrs": [], "ty": ["tup", need], "rec": False, "with": None})


# ---- emitting -----------------------------------------------------------

class Emit:
    def __init__(self, types, with_proxies=False, control=False):
        self.types = {t["id"]: t for t in types}
        self.order = types
        self.proxies = with_proxies
        self.control = control

    def path(self, t):
        m = "crate::m%d::" % t["id"]
        if t["ctx"] == "nested":
            m += "outer::r#mod::"
        return m + t["name"]

    def ty(self, ty, t, model=False):
        """`model`: in the `Model` implementation, where lifetimes are 'static"""
        k = ty[0]
        # Types by full path where names may be taken
        hostile = t["ctx"] in ("no_prelude", "shadow") or model or t["name"] in ("Vec", "Option", "String", "Box", "u8") or any(g["name"] in ("String",) for g in t["generics"])
        p = "::std::" if hostile else ""
        if k == "prim":
            return ("::core::primitive::" if hostile else "") + ty[1]
        if k == "String":
            return "::std::string::String" if hostile else "String"
        if k == "Vec":
            return ("::std::vec::" if hostile else "") + "Vec<%s>" % self.ty(ty[1], t, model)
        if k == "Box":
            return ("::std::boxed::" if hostile else "") + "Box<%s>" % self.ty(ty[1], t, model)
        if k == "Option":
            return ("::std::option::" if hostile else "") + "Option<%s>" % self.ty(ty[1], t, model)
        if k == "arr":
            return "[%s; %s]" % (self.ty(ty[1], t, model), ty[2])
        if k == "tup":
            return "(%s)" % "".join(self.ty(x, t, model) + ", " for x in ty[1])
        if k == "ext":
            return ty[1]
        if k == "mark":
            m = ty[1].replace(" u8", " ::core::primitive::u8")
            if model and m.startswith("&'"):
                m = "&'static ::core::primitive::u8"
            return "::vlib::gen::Mark<%s>" % m
        if k == "self":
            return "Self" if t["self_name"] == "Self" or model else t["name"] + self.use(t)
        if k == "ref":
            x = self.types[ty[1]]
            return self.path(x) + ("<%s>" % ", ".join(ty[2]) if ty[2] else "")
        raise ValueError(k)

    def use(self, t):
        """Generics as passed to the type"""
        if not t["generics"]:
            return ""
        return "<%s>" % ", ".join(g["name"] for g in t["generics"])

    def prim(self, name):
        return "::core::primitive::" + name

    def decl(self, t, defaults=True):
        if not t["generics"]:
            return ""
        o = []
        for g in t["generics"]:
            d = " = %s" % g["default"] if defaults and g.get("default") else ""
            if g["k"] == "life":
                o.append(g["name"])
            elif g["k"] == "type":
                o.append(g["name"] + (": " + g["bound"] if g["bound"] else "") + d)
            else:
                o.append("const %s: %s%s" % (g["name"], self.prim(g["ty"]), d))
        return "<%s>" % ", ".join(o)

    def where(self, t):
        return " where %s" % ", ".join(t["where"]) if t["where"] else ""

    def field_attrs(self, f):
        o = list(f["attrs"])
        if f["with"] and not self.control:
            o.insert(len(o) // 2, "#[ser_with(%s)]" % f["with"])
        if f.get("cfgd"):
            o.append("#[cfg(any())]")
        return "".join(a + ("\n" if a.startswith("///") else " ") for a in o)

    def body(self, fields, kind, t):
        if kind == "unit":
            return ""
        if kind == "tuple":
            return "(%s)" % ", ".join("%s%s%s" % (self.field_attrs(f), f["vis"], self.ty(f["ty"], t)) for f in fields)
        return " { %s }" % ", ".join("%s%s%s: %s" % (self.field_attrs(f), f["vis"], f["name"], self.ty(f["ty"], t)) for f in fields)

    def item(self, t):
        """Definition without the derive attribute"""
        vis = "pub "
        if t["kind"] == "enum":
            vs = []
            for v in t["variants"]:
                a = "".join(x + ("\n" if x.startswith("///") else " ") for x in v["attrs"]) + ("#[cfg(any())] " if v.get("cfgd") else "")
                vs.append("%s%s%s%s" % (a, v["name"], self.body(v["fields"], v["kind"], t), " = %d" % v["disc"] if v["disc"] is not None else ""))
            return "%senum %s%s%s {\n\t\t%s\n\t}" % (vis, t["name"], self.decl(t), self.where(t), ",\n\t\t".join(vs))
        kind = t["kind"].split("_")[1]
        b = self.body(t["fields"], kind, t)
        if kind == "named":
            return "%sstruct %s%s%s%s" % (vis, t["name"], self.decl(t), self.where(t), b)
        return "%sstruct %s%s%s%s;" % (vis, t["name"], self.decl(t), b, self.where(t))

    def derive(self, t):
        d = "#[::std::prelude::v1::derive" if t["ctx"] == "no_prelude" else "#[derive"
        attrs = list(t["attrs"])
        s = t["style"]
        if t["ctx"] in ("no_prelude", "shadow") or t["name"] in ("Serialize",) or t["name"] == "ser_raw":
            s = "abs"
        imp, what = {
            "use": ("use ser_raw::Serialize;", "(Serialize)]"),
            "path": ("", "(ser_raw::Serialize)]"),
            "abs": ("", "(::ser_raw::Serialize)]"),
            "rename": ("use ser_raw::Serialize as Renamed_;", "(Renamed_)]"),
            "multi": ("use ser_raw::*;" if t["name"] not in ("Serializer", "SerializeWith", "PureCopySerializer") else "", "(::ser_raw::Serialize,)]"),
            "split": ("", "()] #[derive(ser_raw::Serialize)]"),
        }[s]
        if t["ctx"] == "no_prelude" and s == "split":
            what = "(::ser_raw::Serialize)]"
        if self.control:
            return imp, attrs
        out = [d + what]
        if t["bound"]:
            out.append("#[ser_bound(%s)]" % t["bound"])
        # Attributes before and after the derive
        k = t["id"] % (len(attrs) + 1)
        return imp, [a for a in attrs[:k] if not a.startswith("#[ser")] + out + attrs[k:]

    def control_impl(self, t):
        gen = [g for g in t["generics"]]
        d = self.decl(t, False)[1:-1]
        b = "ZS: ::ser_raw::Serializer" + (" + " + t["bound"] if t["bound"] else "")
        hdr = "impl<%s> ::ser_raw::Serialize<ZS> for %s%s%s" % (", ".join(x for x in (d, b) if x), t["name"], self.use(t), self.where(t))

        def call(f, e):
            if f["with"]:
                return "<%s as ::ser_raw::SerializeWith<_, ZS>>::serialize_data_with(%s, zs);" % (f["with"], e)
            return "::ser_raw::Serialize::<ZS>::serialize_data(%s, zs);" % e
        if t["kind"] == "enum":
            arms = []
            for v in self.live(t):
                if v["kind"] == "unit":
                    continue
                fs = self.live_fields(v["fields"])
                arms.append("%s => { %s }" % (self.pat(v, "Self::"), " ".join(call(f, "zz%d" % i) for i, f in enumerate(fs))))
            body = "match self { %s _ => {} }" % " ".join(arms)
        else:
            body = " ".join(call(f, "&self.%s" % f["name"]) for f in self.live_fields(t["fields"]))
        return "#[allow(unused, unreachable_patterns)]\n\t%s { fn serialize_data(&self, zs: &mut ZS) { %s } }" % (hdr, body)

    def live(self, t):
        return [v for v in t["variants"] if not v.get("cfgd")]

    def live_fields(self, fields):
        return [f for f in fields if not f.get("cfgd")]

    def pat(self, v, prefix):
        fs = self.live_fields(v["fields"])
        if v["kind"] == "tuple":
            return "%s%s(%s)" % (prefix, v["name"], ", ".join("zz%d" % i for i in range(len(fs))))
        if v["kind"] == "named":
            return "%s%s{%s}" % (prefix, v["name"], ", ".join("%s: zz%d" % (f["name"], i) for i, f in enumerate(fs)))
        return prefix + v["name"]

    def model(self, t):
        # Lifetimes become 'static
        gens = [g for g in t["generics"] if g["k"] != "life"]
        d = []
        for g in gens:
            if g["k"] == "type":
                d.append(g["name"] + ": 'static" + (" + " + g["bound"] if g["bound"] else ""))
            else:
                d.append("const %s: %s" % (g["name"], self.prim(g["ty"])))
        use = "<%s>" % ", ".join("'static" if g["k"] == "life" else g["name"] for g in t["generics"]) if t["generics"] else ""

        def walk(f, e):
            if f["with"]:
                return "::vlib::gen::tagged::<%s, _>(%s, zw);" % (f["with"], e)
            return "::vlib::model::Model::walk(%s, zw);" % e

        def gen(f):
            g = "<%s as ::vlib::model::Model>::gen(zsrc, zf)" % self.ty(f["ty"], t, True)
            if f["rec"] and f["ty"][0] in ("Vec", "Option"):
                e = "::std::vec::Vec::new()" if f["ty"][0] == "Vec" else "::std::option::Option::None"
                return "if ::vlib::model::Fuel::spend(zf) { %s } else { %s }" % (g, e)
            return g

        def build(fields, kind, name):
            fs = self.live_fields(fields)
            if kind == "tuple":
                # In order of declaration
                return "%s(%s)" % (name, ", ".join(gen(f) for f in fs))
            if kind == "named":
                return "%s { %s }" % (name, ", ".join("%s: %s" % (f["name"], gen(f)) for f in fs))
            return name
        if t["kind"] == "enum":
            vs = self.live(t)
            warms, sarms, garms = [], [], []
            ends = []
            k = 0
            for v in vs:
                fs = self.live_fields(v["fields"])
                p = self.pat(v, "Self::")
                warms.append("%s => { %s }" % (p, " ".join(walk(f, "zz%d" % i) for i, f in enumerate(fs))))
                sarms.append("%s => { zo.push_str(%s); %s }" % (p, '"%s"' % v["name"], " ".join("::vlib::model::Model::show(zz%d, zo); zo.push(',');" % i for i in range(len(fs)))))
                if v.get("never"):
                    continue
                b = build(v["fields"], v["kind"], "Self::" + v["name"])
                garms.append("%d => %s," % (k, b))
                if not any(f["rec"] for f in fs):
                    ends.append(b)
                k += 1
            walk_body = "zw.disc(self); match self { %s }" % " ".join(warms) if vs else "match *self {}"
            show_body = "match self { %s }" % " ".join(sarms) if vs else "match *self {}"
            if not garms:
                gen_body = "::core::unreachable!()"
            else:
                gen_body = "if !::vlib::model::Fuel::spend(zf) || zf.depth > 30 { return %s; } zf.depth += 1; let zr = match zsrc.below(%d) { %s _ => ::core::unreachable!() }; zf.depth -= 1; zr" % (ends[0], k, " ".join(garms))
        else:
            fs = self.live_fields(t["fields"])
            walk_body = " ".join(walk(f, "&self.%s" % f["name"]) for f in fs)
            show_body = "zo.push('{'); %s zo.push('}');" % " ".join("::vlib::model::Model::show(&self.%s, zo); zo.push(',');" % f["name"] for f in fs)
            gen_body = "::vlib::model::Fuel::spend(zf); zf.depth += 1; let zr = %s; zf.depth -= 1; zr" % build(t["fields"], t["kind"].split("_")[1], "Self" if t["kind"] == "struct_unit" else ("Self" if t["kind"] == "struct_named" else "Self"))
        return """#[allow(warnings)]
	impl%s ::vlib::model::Model for %s%s%s {
		fn walk(&self, zw: &mut ::vlib::model::Walk) { %s }
		fn gen(zsrc: &mut ::vlib::engine::Src, zf: &mut ::vlib::model::Fuel) -> Self { %s }
		fn show(&self, zo: &mut ::std::string::String) { %s }
	}""" % ("<%s>" % ", ".join(d) if d else "", t["name"], use, self.where(t), walk_body, gen_body, show_body)

    def category(self, t):
        o = [t["kind"].replace("_", " ")]
        if t["generics"]:
            o.append("generic")
        if t["ctx"] != "plain":
            o.append("in " + {"fn": "function", "macro": "macro_rules", "nested": "nested module", "no_prelude": "module without prelude", "shadow": "module shadowing names"}[t["ctx"]])
        return ", ".join(o)

    def module(self, t, only=None):
        imp, attrs = self.derive(t)
        item = self.item(t)
        text = "%s\n\t%s" % ("\n\t".join(attrs), item)
        proxies = ""
        if self.proxies:
            proxies = PROXIES
        elif t["ctx"] == "shadow":
            pass
        shadow = ""
        if t["ctx"] == "shadow":
            shadow = """
	#[allow(dead_code, non_camel_case_types)] pub trait %s { fn serialize_data(&self) { ::core::panic!("wrong method called") } }
	#[allow(dead_code)] impl<X: ?::core::marker::Sized> %s for X {}
	#[allow(dead_code)] pub mod ser_raw_ {} #[allow(dead_code)] pub mod ser_raw { pub trait Serialize {} pub trait Serializer {} pub trait SerializeWith {} }
	#[allow(dead_code)] pub mod std {} #[allow(dead_code)] pub mod core {}""" % (("SerializeTrait",) * 2 if t["name"] == "Serialize" else ("Serialize",) * 2)
            if t["name"] == "ser_raw":
                shadow = ""
            for n in ("Vec", "Option", "Box", "String", "Serializer", "SerializeWith"):
                if n != t["name"] and not any(g["name"] == n for g in t["generics"]):
                    shadow += "\n\t#[allow(dead_code)] pub struct %s;" % n
        if t["ctx"] == "macro":
            text = self.macro(t, attrs)
        extra = self.control_impl(t) if self.control else ""
        model = self.model(t)
        entries = []
        if inhabited(t):
            big = self.align(t) > 16
            for i, inst in enumerate(t["inst"]):
                name = t["name"] + ("<%s>" % ", ".join(inst) if inst else "")
                if t["ctx"] == "nested":
                    name = "outer::r#mod::" + name
                fac = "::vlib::factory!(%s, 64, 64, 8, ::core::primitive::isize::MAX as ::core::primitive::usize - 63, false)" % name if big else \
                    "::vlib::factory!(%s, 16, 16, %d, ::core::primitive::isize::MAX as ::core::primitive::usize - 15, %s)" % (name, [8, 8, 8, 1, 16][t["id"] % 5], ["false", "true"][i % 2])
                entries.append("{ static F: &[::vlib::subject::Factory] = &[%s]; (1, ::vlib::deep::Entry { name: %s, gen: ::vlib::type_gen!(%s), factories: F }) }" % (
                    fac, '"%s"' % self.category(t), name))
        ent = "::std::vec![%s]" % ", ".join(entries)
        allow = "#![allow(warnings)]"
        if t["ctx"] == "no_prelude":
            allow = "#![no_implicit_prelude] " + allow
        fnhdr = "pub fn entries() -> ::std::vec::Vec<(::core::primitive::u64, ::vlib::deep::Entry)>"
        if t["ctx"] == "fn":
            return "pub mod m%d {\n\t%s\n\t%s%s\n\t%s {\n\t%s\n\t%s\n\t%s\n\t%s\n\t}\n}\n" % (t["id"], allow, imp, proxies, fnhdr, text, extra, model, ent)
        inner = "%s%s%s\n\t%s\n\t%s\n\t%s" % (imp, proxies, shadow, text, extra, model)
        if t["ctx"] == "nested":
            inner = "pub mod outer { pub use crate::proxies; pub mod r#mod {\n\tuse crate::proxies;\n\t%s\n\t} }" % inner if self.proxies else "pub mod outer { pub mod r#mod {\n\t%s\n\t} }" % inner
        return "pub mod m%d {\n\t%s\n\t%s\n\t%s { %s }\n}\n" % (t["id"], allow, inner, fnhdr, ent)

    def macro(self, t, attrs):
        """The type comes out of a macro, with parts of it passed in, or all of it"""
        style = t.get("mstyle", 0)
        nl = "\n\t"
        if style == 2:
            return "macro_rules! zmake { ($zi:item) => { %s\n\t$zi } }\n\tzmake! { %s }" % (nl.join(attrs), self.item(t))
        if style == 3:
            return "macro_rules! zmake { ($($zb:tt)*) => { %s\n\t$($zb)* } }\n\tzmake! { %s }" % (nl.join(attrs), self.item(t))
        if style == 4:
            return "macro_rules! zmake { ($(#[$zm:meta])* $zv:vis %s $($zb:tt)*) => { $(#[$zm])* $zv %s $($zb)* } }\n\tzmake! { %s\n\t%s }" % (
                (("enum" if t["kind"] == "enum" else "struct"),) * 2 + (nl.join(attrs), self.item(t)))
        if style == 5:
            return "macro_rules! zinner { ($($zb:tt)*) => { $($zb)* } }\n\tmacro_rules! zmake { ($zi:item) => { zinner! { %s\n\t$zi } } }\n\tzmake! { %s }" % (nl.join(attrs), self.item(t))
        if t["kind"] == "enum" or t["kind"] == "struct_unit":
            # Name, variant names, field types or proxy passed in
            ps, args = [], []
            vs = []
            for i, v in enumerate(t.get("variants", [])):
                fs = []
                for j, f in enumerate(v["fields"]):
                    f2 = self.macro_field(t, f, "%d_%d" % (i, j), ps, args, v["kind"] == "named")
                    fs.append(f2)
                b = "" if v["kind"] == "unit" else ("(%s)" if v["kind"] == "tuple" else " { %s }") % ", ".join(fs)
                ps.append("$v%d:ident" % i)
                args.append(v["name"])
                vs.append("%s%s$v%d%s%s" % ("#[cfg(any())] " if v.get("cfgd") else "", "", i, b, " = %d" % v["disc"] if v["disc"] is not None else ""))
            if t["kind"] == "enum":
                item = "pub enum $name%s%s { %s }" % (self.decl(t), self.where(t), ", ".join(vs))
            else:
                item = "pub struct $name%s%s;" % (self.decl(t), self.where(t))
        else:
            ps, args = [], []
            kind = t["kind"].split("_")[1]
            fs = [self.macro_field(t, f, str(j), ps, args, kind == "named") for j, f in enumerate(t["fields"])]
            if kind == "named":
                item = "pub struct $name%s%s { %s }" % (self.decl(t), self.where(t), ", ".join(fs))
            else:
                item = "pub struct $name%s(%s)%s;" % (self.decl(t), ", ".join(fs), self.where(t))
        # `Self` and generics named in passed types resolve as usual
        return "macro_rules! zmake { ($name:ident %s) => { %s\n\t%s } }\n\tzmake!(%s);" % (
            " ".join(", " + p for p in ps), "\n\t".join(attrs), item, ", ".join([t["name"]] + args))

    def macro_field(self, t, f, tag, ps, args, named):
        how = (t["id"] * 7 + len(ps) * 3) % 4
        ty = self.ty(f["ty"], t)
        attrs = ""
        if f["with"] and not self.control:
            w = f["with"]
            frag = ["path", "ty", None, "tt"][how]
            if w.startswith("<") and frag == "path":
                frag = "ty"
            if frag == "tt":
                ps.append("[$($w%s:tt)*]" % tag)
                args.append("[%s]" % w)
                attrs += "#[ser_with($($w%s)*)] " % tag
            elif frag:
                ps.append("$w%s:%s" % (tag, frag))
                args.append(w)
                attrs += "#[ser_with($w%s)] " % tag
            else:
                attrs += "#[ser_with(%s)] " % w
        if f.get("cfgd"):
            attrs += "#[cfg(any())] "
        if how < 2 and not f.get("cfgd"):
            ps.append("$t%s:ty" % tag)
            args.append(ty)
            ty = "$t%s" % tag
        if not named:
            return attrs + ty
        name = f["name"]
        if how % 2 == 0:
            ps.append("$f%s:ident" % tag)
            args.append(name)
            name = "$f%s" % tag
        return "%s%s: %s" % (attrs, name, ty)

    def align(self, t, seen=()):
        a = 8
        for x in t["attrs"]:
            if "align(" in x:
                a = max(a, int(x.split("align(")[1].split(")")[0]))

        def of(ty):
            nonlocal a
            if ty[0] == "ref":
                a = max(a, self.align(self.types[ty[1]]))
            if ty[0] == "ext" and "A16" in ty[1] or ty[0] == "ext" and "Z16" in ty[1]:
                a = max(a, 16)
            for x in ty[1:]:
                if isinstance(x, list):
                    if x and isinstance(x[0], str) and x[0] in ("prim", "String", "Vec", "Box", "Option", "arr", "tup", "ext", "mark", "self", "ref"):
                        of(x)
                    elif ty[0] == "tup":
                        for y in x:
                            of(y)
        vs = [f for v in t.get("variants", []) for f in v["fields"]] if t["kind"] == "enum" else t["fields"]
        for f in vs:
            of(f["ty"])
        return a

    def source(self, prop):
        o = ["#![allow(warnings)]\n// Generated; see tools/typegen.py\n"]
        lines = {}
        o.append("pub enum Void {}\n")
        o.append("impl<S: ser_raw::Serializer> ser_raw::Serialize<S> for Void { fn serialize_data(&self, _: &mut S) { match *self {} } }\n")
        o.append("impl vlib::model::Model for Void { fn walk(&self, _: &mut vlib::model::Walk) { match *self {} } fn gen(_: &mut vlib::engine::Src, _: &mut vlib::model::Fuel) -> Self { unreachable!() } fn show(&self, _: &mut String) { match *self {} } }\n")
        if self.proxies:
            o.append(SHARED_PROXIES)
        n = sum(x.count("\n") for x in o)
        for t in self.order:
            m = self.module(t)
            lines[t["id"]] = (n + 1, n + m.count("\n"))
            n += m.count("\n")
            o.append(m)
        o.append("fn all() -> &'static [(u64, vlib::deep::Entry)] {\n\tstatic mut ALL: Vec<(u64, vlib::deep::Entry)> = Vec::new();\n\tstatic ONCE: std::sync::Once = std::sync::Once::new();\n\tunsafe {\n\t\tONCE.call_once(|| ALL = vec![%s].into_iter().flatten().collect());\n\t\t&ALL\n\t}\n}\n" % ", ".join("m%d::entries()" % t["id"] for t in self.order))
        o.append("fn main() {\n\tvlib::engine::main(&[vlib::engine::Prop { id: \"%s\", f: |s, c| vlib::deep::program_values(s, c, all(), %s) }]);\n}\n" % (prop, "true" if self.proxies else "false"))
        return "".join(o), lines


SHARED_PROXIES = """pub mod proxies {
	pub struct Here;
	vlib::proxy!([] Here);
	pub struct G<T, const N: usize>(std::marker::PhantomData<T>);
	vlib::proxy!([T, const N: usize,] G<T, N>);
	pub mod r#mod {
		pub struct r#type;
		vlib::proxy!([] r#type);
	}
	pub struct Used;
	vlib::proxy!([] Used);
}
"""

PROXIES = """
	pub struct Local;
	::vlib::proxy!([] Local);
	pub struct LocalG<X: ?::core::marker::Sized>(::core::marker::PhantomData<X>);
	::vlib::proxy!([X: ?::core::marker::Sized,] LocalG<X>);
	pub struct LocalL<'l>(&'l ());
	impl<'l, Zf: ::vlib::gen::Via, Zs: ::ser_raw::Serializer> ::ser_raw::SerializeWith<Zf, Zs> for LocalL<'l> {
		fn serialize_data_with(v: &Zf, s: &mut Zs) {
			::vlib::gen::note(::core::any::type_name::<LocalL<'static>>(), ::vlib::gen::id(v));
			::vlib::gen::Via::via(v, s);
		}
	}
	pub struct r#loop;
	::vlib::proxy!([] r#loop);
	pub type Alias = LocalG<::core::primitive::u64>;
	use crate::proxies::{Used, Here as Renamed};
	pub mod inner {
		pub struct Deep;
		::vlib::proxy!([] Deep);
		pub mod deeper { pub struct r#async; ::vlib::proxy!([] r#async); }
	}"""

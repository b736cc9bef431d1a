"""Generates definitions of serializers (C13), made with the derive macro or by
hand, and programs which drive them through the operation-tree interpreter."""
import copy, random

KINDS = {"pure_copy": "Pure", "pos_tracking": "Track", "ptr_offset": "Offset", "complete": "Complete", "hand": "Pure"}

NAMES = ["Serializer", "Complete", "PosTracking", "PtrWriting", "PtrOffset", "Writable", "Storage", "Ptrs", "PosMapping", "TrackingAddr", "NoopAddr",
         "FnOnce", "BorrowMut", "Borrow", "Option", "Vec", "Box", "Sized", "Drop", "Addr", "BorrowedStorage", "AlignedVec", "Serialize", "Result",
         "r#struct", "r#type", "ser_raw", "std", "core", "Größe", "T", "P", "W", "S", "Ser", "CompleteSerializer", "ContiguousStorage", "pos", "storage",
         "RandomAccessStorage", "ser_traits", "A", "X1", "MySerializer", "_Hidden", "serializer", "Mine", "Other", "Thing"]
TPARAMS = ["T", "P", "W", "S", "B", "A", "Ser", "Storage", "Addr", "Value", "Z", "BorrowedStorage", "Serializer", "Ptrs", "FnOnce", "R", "Q", "PosTracking",
           "Complete", "Borrow", "PosMapping", "D", "r#Type", "Option"]
CPARAMS = ["N", "M", "STORAGE_ALIGNMENT", "MAX_VALUE_ALIGNMENT", "VALUE_ALIGNMENT", "MAX_CAPACITY", "SA", "MVA", "VA", "MAX", "S0", "T0", "LEN", "CAP"]
LTS = ["'a", "'s", "'storage", "'_x", "'de", "'ser", "'q"]
FIELDS = ["storage", "store", "value", "slice", "ptr_addr", "process", "write", "pos", "addr", "self_", "capacity", "r#type", "r#fn", "r#struct", "ptrs",
          "pos_mapping", "mapping", "_x", "s", "inner", "ser_raw", "current", "past", "T", "out", "ptr_pos", "target_pos", "x1", "len", "b", "borrow", "data",
          "finalize", "serialize", "push_raw", "größe"]
GLOBS = {"Serializer", "Complete", "PosTracking", "PtrWriting", "PtrOffset", "Writable", "Storage", "Ptrs", "PosMapping", "TrackingAddr", "NoopAddr", "Addr",
         "AlignedVec", "Serialize", "CompleteSerializer", "ContiguousStorage", "RandomAccessStorage", "BorrowMut", "Borrow", "pos", "storage", "ser_traits",
         "std", "core", "ser_raw"}

AV = "::ser_raw::storage::AlignedVec"
MV = "::vlib::custom::Moving"
MAXES = [(1 << 63) - (1 << 16), 1 << 32, 1 << 40, (1 << 33) + (1 << 12)]


def conc(st):
    w, sa, mva, va, mx = st
    return "%s<%d, %d, %d, %d>" % (AV, sa, mva, va, mx) if w == "aligned" else "%s<%d, %d, %d, 0>" % (MV, sa, mva, va)


def bounds_for(kind):
    b = ["::ser_raw::storage::Storage"]
    if kind in ("ptr_offset", "complete"):
        b.append("::ser_raw::storage::RandomAccessStorage")
    if kind == "complete":
        b.append("::ser_raw::storage::ContiguousStorage")
    return b


class Gen:
    def __init__(self, seed):
        self.r = random.Random("C13-%s" % seed)
        self.defs = []

    def storage(self, which=None):
        r = self.r
        sa = r.choice([16, 16, 16, 32, 64, 128])
        mva = r.choice([x for x in (16, 16, 32, 64, 128) if x <= sa])
        va = r.choice([x for x in (1, 2, 4, 8, 8, 8, 16, 32) if x <= mva])
        return [which or r.choice(["aligned", "aligned", "moving"]), sa, mva, va, r.choice(MAXES)]

    def new(self):
        r = self.r
        names = {"t": TPARAMS[:], "c": CPARAMS[:], "l": LTS[:], "f": FIELDS[:]}
        for v in names.values():
            r.shuffle(v)
        name = r.choice(NAMES)
        if name in names["t"]:
            names["t"].remove(name)
        if name in names["f"]:
            names["f"].remove(name)
        kind = r.choice(["pure_copy", "pos_tracking", "ptr_offset", "complete", "complete", "pos_tracking", "ptr_offset", "hand"])
        mode = r.choice(["concrete", "braced", "consts", "consts_braced", "va_const", "generic", "generic", "generic", "alias", "alias_va", "assoc", "custom"])
        hold = r.choice(["owned", "mut", "box", "holder", "generic", "generic", "generic"])
        which = {"generic": None, "custom": "moving"}.get(mode, "aligned")
        base = self.storage(which)
        insts = []
        for _ in range(2):
            st = self.storage(which) if mode in ("consts", "consts_braced", "generic") else list(base)
            if mode == "va_const" or mode == "alias_va":
                st[3] = r.choice([x for x in (1, 4, 8, 16) if x <= st[2]])
            insts.append({"sto": st, "hold": r.choice(["owned", "mut", "box", "holder"]) if hold == "generic" else hold})
        if mode not in ("consts", "consts_braced", "generic", "va_const", "alias_va") and hold != "generic":
            insts = insts[:1]
        xp = []
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
            k = r.choice(["t", "t", "c", "l"])
            p = {"k": k, "name": names[k].pop(), "bound": None}
            if k == "t":
                p["bound"] = r.choice([None, None, "::std::marker::Copy", "?::std::marker::Sized", "::std::clone::Clone + ::std::marker::Send"])
                p["where"] = r.random() < 0.3 and p["bound"] is not None and "?" not in p["bound"]
            xp.append(p)
        d = {
            "id": len(self.defs), "kind": kind, "name": name, "base": base, "mode": mode, "hold": hold, "insts": insts, "xp": xp,
            "bwhere": r.random() < 0.4, "swhere": r.random() < 0.3,
            "S": names["t"].pop(), "B": names["t"].pop(), "lt": names["l"].pop(), "C": [names["c"].pop() for _ in range(4)],
            "order": r.random(), "vis": r.choice(["pub", "pub", "pub(crate)", "pub(super)"]),
            "ctx": r.choice(["plain", "plain", "shadow", "macro", "import", "traits"]), "type_last": r.random() < 0.5,
            "attrs": r.sample(["#[allow(dead_code)]", "/// Docs `x` #[ser_type(pure_copy)]", "#[must_use]", "#[doc(hidden)]", "#[repr(C)]", "#[cfg(all())]",
                               "#[cfg_attr(all(), allow(unused))]", "#[non_exhaustive]"], r.choice([0, 0, 1, 2])),
            "xwhere": r.sample(["Self: ::std::marker::Sized", "for<'zz> &'zz u8: ::std::marker::Copy", "u8: ::std::marker::Copy", "[u8; 3]: ::std::marker::Sized", "BRACED"],
                               r.choice([0, 0, 0, 1, 2])),
            "extra_default": r.random() < 0.3,
        }
        if d["ctx"] == "import" and (name in GLOBS or name in ("Option", "Vec", "Box", "FnOnce", "Sized", "Drop", "Result")):
            d["ctx"] = "plain"
        fs = [{"role": "storage", "name": names["f"].pop()}]
        if kind not in ("pure_copy", "hand") or r.random() < 0.1:
            fs.append({"role": "pos", "name": names["f"].pop()})
        if kind == "complete" or r.random() < 0.1:
            fs.append({"role": "ptrs", "name": names["f"].pop()})
        for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
            fs.append({"role": "extra", "name": names["f"].pop(), "ty": r.choice(list(EXTRA))})
        r.shuffle(fs)
        for f in fs:
            f["pre"] = r.sample(["/// A field", "#[allow(dead_code)]", "#[cfg(all())]"], r.choice([0, 0, 0, 1]))
            f["post"] = r.sample(["/// More", "#[allow(unused)]"], r.choice([0, 0, 0, 1]))
            f["vis"] = r.choice(["", "", "pub ", "pub(crate) "])
        d["fields"] = fs
        t = Text(d)
        if len(insts) == 2 and t.inst(insts[0]) == t.inst(insts[1]):
            d["insts"] = insts[:1]
        self.defs.append(d)


EXTRA = {
    "u8": "7",
    "::std::vec::Vec<u64>": "::std::vec::Vec::new()",
    "::std::string::String": "::std::string::String::new()",
    "::std::option::Option<::std::boxed::Box<u32>>": "::std::option::Option::None",
    "(u8, char)": "(1, 'x')",
    "fn(u8) -> u8": "|x| x",
    "[u16; 2 + 1]": "[0; 3]",
    "::vlib::low::Num<{ 7 }>": "::vlib::low::Num",
    "::ser_raw::pos::PosMapping": "::ser_raw::pos::PosMapping::new(1, 77777)",
    "::ser_raw::pos::Ptrs": "::ser_raw::pos::Ptrs::new()",
    "::ser_raw::storage::AlignedVec": "::ser_raw::storage::Storage::new()",
    "&'static str": "\"x\"",
    "::std::cell::Cell<usize>": "::std::cell::Cell::new(3)",
}


class Text:
    """Pieces of the text of a definition"""

    def __init__(self, d):
        self.d = d
        r = random.Random(d["order"])
        m, C = d["mode"], d["C"]
        lts, ps = [], []    # (declaration, name, argument per instance)
        where = []
        if d["hold"] == "mut":
            lts.append((d["lt"], d["lt"], lambda i: "'z"))
        b = d["base"]
        if m == "concrete":
            self.sto = conc(b)
        elif m == "custom":
            self.sto = conc(b)
        elif m == "braced":
            self.sto = "%s<{ %d * 2 }, { %d }, %d, { %d - 1 + 1 }>" % (AV, b[1] // 2, b[2], b[3], b[4])
        elif m in ("consts", "consts_braced"):
            n = C if m == "consts" else ["{ %s }" % c for c in C]
            self.sto = "%s<%s>" % (AV, ", ".join(n))
            for k in range(4):
                ps.append(("const %s: usize" % C[k], C[k], lambda i, k=k: str(i["sto"][1 + k])))
        elif m == "va_const":
            self.sto = "%s<%d, %d, %s, %d>" % (AV, b[1], b[2], C[0], b[4])
            ps.append(("const %s: usize" % C[0], C[0], lambda i: str(i["sto"][3])))
        elif m == "generic":
            self.sto = d["S"]
            bd = " + ".join(bounds_for(d["kind"]))
            if d["swhere"]:
                where.append("%s: %s" % (d["S"], bd))
            ps.append((d["S"] + ("" if d["swhere"] else ": " + bd), d["S"], lambda i: conc(i["sto"])))
        elif m == "alias":
            self.sto = "Alias_"
        elif m == "alias_va":
            self.sto = "Alias_<%s>" % C[0]
            ps.append(("const %s: usize" % C[0], C[0], lambda i: str(i["sto"][3])))
        else:
            self.sto = "<Cfg_ as Has_>::Storage"
        self.held = {"owned": self.sto, "mut": "&%s mut %s" % (d["lt"], self.sto), "box": "::std::boxed::Box<%s>" % self.sto,
                     "holder": "::vlib::low::Holder<%s>" % self.sto, "generic": d["B"]}[d["hold"]]
        self.sgeneric = None
        if d["hold"] == "generic":
            bd = "::std::borrow::BorrowMut<%s>" % self.sto
            if d["bwhere"]:
                where.append("%s: %s" % (d["B"], bd))
            bdecl = (d["B"] + ("" if d["bwhere"] else ": " + bd), d["B"], lambda i: self.held_of(i))
            if m == "generic":
                self.sgeneric = d["S"]
        self.phantom = []
        for p in d["xp"]:
            if p["k"] == "l":
                lts.append((p["name"], p["name"], lambda i: "'static"))
                self.phantom.append("&%s ()" % p["name"])
            elif p["k"] == "c":
                ps.append(("const %s: usize" % p["name"], p["name"], lambda i: "5"))
            else:
                bd = p["bound"]
                if bd and p.get("where"):
                    where.append("%s: %s" % (p["name"], bd))
                    bd = None
                ps.append((p["name"] + (": " + bd if bd else ""), p["name"], lambda i: "u16"))
                self.phantom.append("*const %s" % p["name"])
        if self.sgeneric:
            self.phantom.append("*const %s" % self.sgeneric)
        r.shuffle(ps)
        if d["hold"] == "generic":
            # Bound may name other parameters; those may come later too
            ps.insert(r.randrange(len(ps) + 1), bdecl)
        r.shuffle(lts)
        for w in d["xwhere"]:
            if w == "BRACED":
                cs = [p["name"] for p in d["xp"] if p["k"] == "c"] + [C[0]] * (m in ("consts", "va_const"))
                where.append("::vlib::low::Num<{ %s }>: ::std::marker::Sized" % (cs[0] if cs else "4"))
            else:
                where.append(w)
        self.params = lts + ps
        self.where = ("where " + ", ".join(where) + ("," if r.random() < 0.5 else "")) if where else ""
        self.decl = "<%s>" % ", ".join(p[0] for p in self.params) if self.params else ""
        self.ddecl = self.decl
        if self.params and d["extra_default"]:
            n = self.params[-1]
            ok = None
            if n[0].startswith("const ") and n[1] in [p["name"] for p in d["xp"]]:
                ok = "5"
            elif n[1] in [p["name"] for p in d["xp"] if p["k"] == "t"]:
                ok = "u16"
            if ok:
                self.ddecl = "<%s = %s>" % (", ".join(p[0] for p in self.params), ok)
        self.args = "<%s>" % ", ".join(p[1] for p in self.params) if self.params else ""

    def held_of(self, i):
        c = conc(i["sto"])
        return {"owned": c, "mut": "&'z mut " + c, "box": "::std::boxed::Box<%s>" % c, "holder": "::vlib::low::Holder<%s>" % c}[i["hold"]]

    def inst(self, i):
        return "<%s>" % ", ".join(p[2](i) for p in self.params) if self.params else ""

    def fields(self, derived, sub=lambda x: x):
        """[(declaration, initialiser)]"""
        out = []
        for f in self.d["fields"]:
            tag = {"storage": "#[ser_storage(%s)]" % sub(self.sto), "pos": "#[ser_pos_mapping]", "ptrs": "#[ser_ptrs]"}.get(f["role"], "")
            ty = {"storage": self.held, "pos": "::ser_raw::pos::PosMapping", "ptrs": "::ser_raw::pos::Ptrs"}.get(f["role"], f.get("ty"))
            init = {"storage": "held_", "pos": "::ser_raw::pos::PosMapping::dummy()", "ptrs": "::ser_raw::pos::Ptrs::new()"}.get(f["role"]) or EXTRA[f["ty"]]
            if f["role"] == "storage":
                ty = sub(ty)
            if not derived:
                tag = ""
            out.append(("%s\n%s\n%s\n%s%s: %s" % ("\n".join(f["pre"]), tag, "\n".join(f["post"]), f["vis"], f["name"], ty), "%s: %s" % (f["name"], init)))
        if self.phantom:
            out.append(("phantom_: ::std::marker::PhantomData<(%s,)>" % ", ".join(self.phantom), "phantom_: ::std::marker::PhantomData"))
        return out

    def field(self, role):
        return next(f["name"] for f in self.d["fields"] if f["role"] == role)


def by_hand(t, kind):
    """What the derive should do, or a minimal implementation"""
    d = t.d
    head = "impl%s ::ser_raw::%s for %s%s %s" % (t.decl, "%s", d["name"], t.args, t.where)
    f = t.field("storage")
    o = [head % "Serializer" + " {", "type Storage = %s;" % t.sto, "type BorrowedStorage = %s;" % t.held,
         "type Addr = ::ser_raw::pos::%s;" % ("NoopAddr" if kind in ("pure_copy", "hand", "pos_tracking") else "TrackingAddr"),
         "fn storage(&self) -> &%s { ::std::borrow::Borrow::borrow(&self.%s) }" % (t.sto, f),
         "fn storage_mut(&mut self) -> &mut %s { ::std::borrow::BorrowMut::borrow_mut(&mut self.%s) }" % (t.sto, f),
         "fn into_storage(self) -> %s { self.%s }" % (t.held, f)]
    tr = "::ser_raw::ser_traits::"
    if kind in ("pos_tracking", "ptr_offset", "complete"):
        w = tr + ("PosTracking" if kind == "pos_tracking" else "PtrWriting")
        o += ["fn serialize_value<__T: ::ser_raw::Serialize<Self>>(&mut self, value: &__T) -> usize { %sPosTracking::do_serialize_value(self, value) }" % tr,
              "fn push_slice<__T>(&mut self, slice: &[__T], ptr_addr: Self::Addr) -> usize { %s::do_push_slice(self, slice, ptr_addr) }" % w,
              "fn push_and_process_slice<__T, __P: ::std::ops::FnOnce(&mut Self)>(&mut self, slice: &[__T], ptr_addr: Self::Addr, process: __P) -> usize { "
              "%s::do_push_and_process_slice(self, slice, ptr_addr, process) }" % w]
    if kind == "complete":
        o += ["unsafe fn overwrite<__T>(&mut self, addr: Self::Addr, value: &__T) { %sWritable::do_overwrite(self, addr, value) }" % tr,
              "fn overwrite_with<__W: ::std::ops::FnOnce(&mut Self)>(&mut self, write: __W) { %sComplete::do_overwrite_with(self, write) }" % tr,
              "fn finalize(self) -> Self::BorrowedStorage { %sComplete::do_finalize(self) }" % tr]
    o.append("}")
    if kind in ("pos_tracking", "ptr_offset", "complete"):
        p = t.field("pos")
        o += [head % "ser_traits::PosTracking" + " {", "fn pos_mapping(&self) -> &::ser_raw::pos::PosMapping { &self.%s }" % p,
              "fn set_pos_mapping(&mut self, m: ::ser_raw::pos::PosMapping) { self.%s = m; }" % p, "}"]
    if kind in ("ptr_offset", "complete"):
        n = "PtrOffset" if kind == "ptr_offset" else "Complete"
        o += [head % "ser_traits::PtrWriting" + " {", "unsafe fn overwrite_ptr(&mut self, ptr_pos: usize, target_pos: usize) { %s%s::do_overwrite_ptr(self, ptr_pos, target_pos) }" % (tr, n), "}"]
    if kind == "ptr_offset":
        o.append(head % "ser_traits::PtrOffset" + " {}")
    if kind == "complete":
        q = t.field("ptrs")
        o += [head % "ser_traits::Writable" + " {}", head % "ser_traits::Complete" + " {",
              "fn ptrs(&self) -> &::ser_raw::pos::Ptrs { &self.%s }" % q, "fn ptrs_mut(&mut self) -> &mut ::ser_raw::pos::Ptrs { &mut self.%s }" % q, "}"]
    return "\n".join(o)


CTX = {
    "plain": "",
    "macro": "",
    "shadow": "pub mod std_ {} pub mod Serialize_ {} #[allow(unused)] pub trait FnMut_ {}",
    "import": "#[allow(unused)] use ::ser_raw::{*, pos::*, storage::*, ser_traits::*}; #[allow(unused)] use ::std::borrow::*;",
    "traits": "#[allow(unused)] pub trait Here_ { fn borrow(&self) -> u8 { 0 } fn borrow_mut(&mut self) -> u8 { 0 } fn do_serialize_value(&mut self, _x: u8) {} fn do_finalize(&self) {} "
              "fn do_overwrite_ptr(&self) {} fn storage(&self) {} fn pos_mapping(&self) {} fn push_slice(&self) {} } impl<Tx_: ?::std::marker::Sized> Here_ for Tx_ {}",
}


def module(d, control):
    t = Text(d)
    kind = d["kind"]
    derived = kind != "hand" and not control
    o = ["pub mod m%d {" % d["id"]]
    ctx = CTX[d["ctx"]]
    if d["ctx"] == "shadow":
        for n in ("std", "core", "ser_raw", "Serializer", "Serialize", "FnOnce", "usize_"):
            if n != d["name"]:
                ctx += " pub mod %s {}" % n if n[0].islower() else " #[allow(unused)] pub struct %s;" % n
    o.append(ctx)
    b = d["base"]
    if d["mode"] == "alias":
        o.append("pub type Alias_ = %s;" % conc(b))
    elif d["mode"] == "alias_va":
        o.append("pub type Alias_<const V_: usize> = %s<%d, %d, V_, %d>;" % (AV, b[1], b[2], b[4]))
    elif d["mode"] == "assoc":
        o.append("pub trait Has_ { type Storage; } pub struct Cfg_; impl Has_ for Cfg_ { type Storage = %s; }" % conc(b))
    mac = d["ctx"] == "macro"
    sub = lambda x: x
    name, k, call = d["name"], kind, ""
    if mac:
        name, k = "$n", "$k"
        call = "%s, %s" % (d["name"], kind)
        if d["mode"] in ("concrete", "braced", "alias", "assoc", "custom"):
            call += ", " + t.sto
            sub = lambda x: x.replace(t.sto, "$s")
            o.append("macro_rules! define { ($n:ident, $k:ident, $s:ty) => {")
        else:
            o.append("macro_rules! define { ($n:ident, $k:ident) => {")
    fields = t.fields(derived, sub)
    der, ty = "#[derive(%s)]" % ("Serializer" if d["ctx"] == "import" else "::ser_raw::Serializer"), "#[ser_type(%s)]" % k
    attrs = [a for a in d["attrs"]]
    if derived:
        attrs = [der] + (attrs + [ty] if d["type_last"] else [ty] + attrs)
    o += attrs
    o.append("%s struct %s%s %s {" % (d["vis"], name, t.ddecl, t.where))
    o += [f[0] + "," for f in fields]
    o.append("}")
    if mac:
        o.append("} }")
        o.append("define!(%s);" % call)
    if not derived:
        o.append(by_hand(t, kind))
    o.append("impl%s %s%s %s { pub fn make_(held_: %s) -> Self { Self { %s } } }" % (t.decl, d["name"], t.args, t.where, t.held, ", ".join(f[1] for f in fields)))
    o.append("}")
    return "\n".join(x for x in o if x.strip()) + "\n"


def adapter(d):
    t = Text(d)
    o, machines = [], []
    for n, i in enumerate(d["insts"]):
        full = "m%d::%s%s" % (d["id"], d["name"], t.inst(i))
        lt = "<'z>" if i["hold"] == "mut" else ""
        c = conc(i["sto"])
        K = KINDS[d["kind"]]
        o.append("impl%s ::vlib::low::Watch for %s { const KIND: K = K::%s; #[allow(unused)] fn where_is<Zt>(&self, v: &Zt) -> Option<usize> { %s } }"
                 % (lt, full, K, "None" if K == "Pure" else "Some(::ser_raw::ser_traits::PosTracking::pos_for(self, v))"))
        m = "M%d_%d" % (d["id"], n)
        make = "<m%d::%s%s>::make_" % (d["id"], d["name"], t.inst(i).replace("'z", "'_"))
        if i["hold"] == "mut":
            run = "{ ::vlib::low::run_items(%s(&mut st), set, sim); } ::vlib::low::done(&st)" % make
        else:
            wrap = {"owned": "st", "box": "Box::new(st)", "holder": "::vlib::low::Holder(st)"}[i["hold"]]
            run = "let b = ::vlib::low::run_items(%s(%s), set, sim); ::vlib::low::done(::std::borrow::Borrow::<%s>::borrow(&b))" % (make, wrap, c)
        o.append("""pub struct %s;
impl Machine for %s {
    fn kind(&self) -> K { K::%s }
    fn va(&self) -> usize { %d }
    fn name(&self) -> String { "::m%d:: %s %s, storage held: %s, %s".into() }
    #[allow(unused_mut)]
    fn run(&self, set: &Setup, sim: &mut Sim) -> Done {
        let _t = ::vlib::subject::Track::on(%d);
        let mut st: %s = ::vlib::low::storage(set, sim);
        %s
    }
}""" % (m, m, K, i["sto"][3], d["id"], d["kind"], d["name"], i["hold"], c, i["sto"][1], c, run))
        machines.append("&%s" % m)
    return "\n".join(o) + "\n", machines


def source(defs, prop, control=False):
    """(text, {id: (first line, last line)})"""
    o = ["#![allow(non_camel_case_types, non_snake_case, unused, private_in_public, uncommon_codepoints)]", "use ::vlib::low::{Done, Machine, Setup, Sim, K};"]
    lines, n, all_ = {}, 2, []
    for d in defs:
        a, ms = adapter(d)
        text = module(d, control) + a
        k = text.count("\n")
        lines[d["id"]] = (n + 1, n + k)
        n += k
        o.append(text.rstrip("\n"))
        all_ += ms
    o.append("""fn prop(s: &mut ::vlib::engine::Src, ctx: &mut ::vlib::engine::Ctx) -> ::vlib::engine::PropResult {
    ::vlib::low::c13(s, ctx, &[%s])
}
fn main() { ::vlib::engine::main(&[::vlib::engine::Prop { id: "%s", f: prop }]) }""" % (", ".join(all_), prop))
    return "\n".join(o) + "\n", lines


def smaller(defs, root):
    d = next(x for x in defs if x["id"] == root)

    def but(**kw):
        d2 = copy.deepcopy(d)
        d2.update(kw)
        return [d2]
    for i in range(len(d["insts"])):
        if len(d["insts"]) > 1:
            yield but(insts=[d["insts"][i]])
    if d["ctx"] != "plain":
        yield but(ctx="plain")
    for key in ("attrs", "xwhere", "xp"):
        for i in range(len(d[key])):
            yield but(**{key: d[key][:i] + d[key][i + 1:]})
    for i, f in enumerate(d["fields"]):
        if f["role"] == "extra":
            yield but(fields=d["fields"][:i] + d["fields"][i + 1:])
        if f["pre"] or f["post"]:
            d2 = copy.deepcopy(d)
            d2["fields"][i]["pre"] = d2["fields"][i]["post"] = []
            yield [d2]
    if len(d["name"]) > 1 and d["name"] != "X":
        yield but(name="X")
    if d["mode"] != "concrete" and len(d["insts"]) == 1:
        yield but(mode="concrete", base=d["insts"][0]["sto"] if d["insts"][0]["sto"][0] == "aligned" else ["aligned"] + d["insts"][0]["sto"][1:],
                  insts=[{"sto": ["aligned"] + d["insts"][0]["sto"][1:], "hold": d["insts"][0]["hold"]}])
    if d["hold"] == "generic" and len(d["insts"]) == 1:
        yield but(hold=d["insts"][0]["hold"])


def size(defs):
    n = 0
    for d in defs:
        n += 10 + 3 * len(d["insts"]) + 2 * (d["ctx"] != "plain") + len(d["attrs"]) + len(d["xwhere"]) + len(d["xp"]) + 2 * len(d["fields"])
        n += sum(len(f["pre"]) + len(f["post"]) for f in d["fields"]) + (d["name"] != "X") + (d["mode"] != "concrete") + (d["hold"] == "generic")
    return n


def kinds(defs):
    n = {}
    for d in defs:
        for k in ("kind: " + d["kind"], "storage: " + d["mode"], "held: " + d["hold"], "context: " + d["ctx"]):
            n[k] = n.get(k, 0) + 1
        n["machines"] = n.get("machines", 0) + len(d["insts"])
        n["extra fields"] = n.get("extra fields", 0) + sum(f["role"] == "extra" for f in d["fields"])
        n["extra parameters"] = n.get("extra parameters", 0) + len(d["xp"])
    return n


if __name__ == "__main__":
    import sys
    g = Gen(sys.argv[1])
    for _ in range(int(sys.argv[2])):
        g.new()
    print(source(g.defs, "C13", len(sys.argv) > 3)[0])

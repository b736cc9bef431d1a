"""Generator of definitions given to the derives which are complete and
unambiguous, or aren't (C23). A wrong one is a good one with one thing changed;
what the good one needs is known from how it was made."""
import rejects

PRELUDE = """#![allow(warnings)]
use ser_raw::{*, storage::*, pos::*, ser_traits::{PosTracking, Writable, PtrOffset, Complete}};
use std::{borrow::{Borrow, BorrowMut}, mem, rc::Rc};

/// Not serializable
#[derive(Clone, Copy, Default)]
pub struct NoSer;
#[derive(Clone, Copy, Default)]
pub struct NoSerBig(pub [u64; 5]);

/// Serializable by serializers which know positions only
#[derive(Clone, Copy, Default)]
pub struct Where;
impl<S: PosTracking> Serialize<S> for Where { fn serialize_data(&self, _s: &mut S) {} }

/// Proxies: for each type the bare minimum
pub struct Pa;
impl<S: Serializer> SerializeWith<NoSer, S> for Pa { fn serialize_data_with(_: &NoSer, _: &mut S) {} }
impl<S: Serializer> SerializeWith<String, S> for Pa { fn serialize_data_with(v: &String, s: &mut S) { v.serialize_data(s) } }
pub struct Pb;
impl<S: Serializer> SerializeWith<NoSer, S> for Pb { fn serialize_data_with(_: &NoSer, _: &mut S) {} }
impl<S: Serializer> SerializeWith<NoSerBig, S> for Pb { fn serialize_data_with(_: &NoSerBig, _: &mut S) {} }
impl<S: Serializer> SerializeWith<Vec<u32>, S> for Pb { fn serialize_data_with(v: &Vec<u32>, s: &mut S) { v.serialize_data(s) } }
/// For serializers which know positions only
pub struct Pw;
impl<S: PosTracking> SerializeWith<NoSer, S> for Pw { fn serialize_data_with(_: &NoSer, _: &mut S) {} }
/// No proxy
pub struct Px;

type AV = AlignedVec<16, 16, 8>;

/// Storage with access at random, not contiguous
pub struct Rand(AV);
impl Storage for Rand {
	const STORAGE_ALIGNMENT: usize = 16;
	const MAX_VALUE_ALIGNMENT: usize = 16;
	const VALUE_ALIGNMENT: usize = 8;
	const MAX_CAPACITY: usize = AV::MAX_CAPACITY;
	fn new() -> Self { Rand(AV::new()) }
	unsafe fn with_capacity_unchecked(cap: usize) -> Self { Rand(AV::with_capacity_unchecked(cap)) }
	fn capacity(&self) -> usize { self.0.capacity() }
	fn pos(&self) -> usize { self.0.pos() }
	unsafe fn set_pos(&mut self, pos: usize) { self.0.set_pos(pos) }
	unsafe fn push_slice_unchecked<T>(&mut self, slice: &[T], size: usize) { self.0.push_slice_unchecked(slice, size) }
	fn reserve(&mut self, n: usize) { self.0.reserve(n) }
	fn shrink_to_fit(&mut self) { self.0.shrink_to_fit() }
}
impl RandomAccessStorage for Rand {
	unsafe fn write_slice<T>(&mut self, pos: usize, slice: &[T]) { self.0.write_slice(pos, slice) }
	unsafe fn read<T>(&self, pos: usize) -> &T { self.0.read(pos) }
	unsafe fn read_mut<T>(&mut self, pos: usize) -> &mut T { self.0.read_mut(pos) }
	unsafe fn ptr(&self, pos: usize) -> *const u8 { self.0.ptr(pos) }
	unsafe fn mut_ptr(&mut self, pos: usize) -> *mut u8 { self.0.mut_ptr(pos) }
}

/// Storage with nothing but what is required
pub struct Plain(AV);
impl Storage for Plain {
	const STORAGE_ALIGNMENT: usize = 16;
	const MAX_VALUE_ALIGNMENT: usize = 16;
	const VALUE_ALIGNMENT: usize = 8;
	const MAX_CAPACITY: usize = AV::MAX_CAPACITY;
	fn new() -> Self { Plain(AV::new()) }
	unsafe fn with_capacity_unchecked(cap: usize) -> Self { Plain(AV::with_capacity_unchecked(cap)) }
	fn capacity(&self) -> usize { self.0.capacity() }
	fn pos(&self) -> usize { self.0.pos() }
	unsafe fn set_pos(&mut self, pos: usize) { self.0.set_pos(pos) }
	unsafe fn push_slice_unchecked<T>(&mut self, slice: &[T], size: usize) { self.0.push_slice_unchecked(slice, size) }
	fn reserve(&mut self, n: usize) { self.0.reserve(n) }
	fn shrink_to_fit(&mut self) { self.0.shrink_to_fit() }
}

/// Position-tracking serializer
#[derive(Serializer)]
#[ser_type(pos_tracking)]
pub struct Tracker<S: Storage> { #[ser_storage(S)] s: S, #[ser_pos_mapping] p: PosMapping }

pub fn run<T: Serialize<R>, R: Serializer>(value: &T, s: R) { s.serialize(value); }
pub fn pure<T>(value: &T) where T: Serialize<PureCopySerializer<16, 16, 8, { AV::MAX_CAPACITY }, AV>> {
	let mut s = PureCopySerializer::<16, 16, 8, { AV::MAX_CAPACITY }, AV>::new();
	s.serialize_value(value);
	assert!(s.storage().pos() >= mem::size_of::<T>());
}
pub fn full<T>(value: &T) where T: Serialize<CompleteSerializer<16, 16, 8, { AV::MAX_CAPACITY }, AV>> {
	let mut s = CompleteSerializer::<16, 16, 8, { AV::MAX_CAPACITY }, AV>::new();
	s.serialize_value(value);
	assert!(s.storage().pos() >= mem::size_of::<T>());
}
pub fn offs<T>(value: &T) where T: Serialize<PtrOffsetSerializer<16, 16, 8, { AV::MAX_CAPACITY }, AV>> {
	let mut s = PtrOffsetSerializer::<16, 16, 8, { AV::MAX_CAPACITY }, AV>::new();
	s.serialize_value(value);
	assert!(s.storage().pos() >= mem::size_of::<T>());
}
"""

# Serializable: (type, value)
GOOD = [("u8", "3"), ("u64", "5"), ("String", "\"abc\".to_string()"), ("Vec<u32>", "vec![1, 2]"), ("Box<u16>", "Box::new(7)"),
        ("Option<String>", "Some(\"x\".to_string())"), ("(u8, String)", "(1, String::new())"), ("[Vec<u8>; 2]", "[vec![1], vec![]]"), ("()", "()"),
        ("Vec<Box<u32>>", "vec![Box::new(1)]"), ("[u16; 0]", "[]"), ("Option<()>", "None"), ("char", "'x'"), ("bool", "true")]
# Not serializable
BAD = [("NoSer", "NoSer"), ("NoSerBig", "NoSerBig([1; 5])"), ("Vec<NoSer>", "vec![NoSer]"), ("Box<NoSer>", "Box::new(NoSer)"), ("Option<NoSer>", "None"),
       ("[NoSer; 2]", "[NoSer; 2]"), ("[NoSerBig; 0]", "[]"), ("(u8, NoSer)", "(1, NoSer)"), ("(NoSer,)", "(NoSer,)"), ("Rc<u8>", "Rc::new(1)"), ("Vec<Box<NoSer>>", "vec![]"),
       ("&'static u8", "&1"), ("*const u8", "1 as *const u8"), ("fn()", "|| ()"), ("Option<Box<NoSerBig>>", "None"), ("std::cell::Cell<u8>", "std::cell::Cell::new(2)")]
# For position-tracking serializers only
TRACK = [("Where", "Where"), ("Vec<Where>", "vec![Where]"), ("Option<Where>", "None"), ("[Where; 3]", "[Where; 3]"), ("(u8, Where)", "(1, Where)"), ("Box<Where>", "Box::new(Where)")]
# With proxy: (type, value, proxies which fit, proxies which don't)
PROXIED = [("NoSer", "NoSer", ["Pa", "Pb"], ["Px"]), ("NoSerBig", "NoSerBig([1; 5])", ["Pb"], ["Px", "Pa"]), ("String", "\"abc\".to_string()", ["Pa"], ["Px", "Pb"]),
           ("Vec<u32>", "vec![5]", ["Pb"], ["Px", "Pa"])]
PLAIN_COPY = ["u8", "u64", "[u16; 3]", "(u8, u32)", "()"]
NAMES = ["a", "b", "len", "value", "r#type", "s", "data", "self_", "x1", "__y"]


class Field:
    def __init__(self, ty, val, attrs=()):
        self.ty, self.val, self.attrs = ty, val, list(attrs)


def ser_field(r, bound):
    k = r.random()
    if k < 0.3:
        t, v, ok, _ = r.choice(PROXIED)
        return Field(t, v, ["#[ser_with(%s)]" % r.choice(ok)])
    if k < 0.5 and bound:
        if r.random() < 0.4:
            return Field("NoSer", "NoSer", ["#[ser_with(Pw)]"])
        return Field(*r.choice(TRACK))
    return Field(*r.choice(GOOD))


def group(r, bound, shape):
    return (shape, [ser_field(r, bound) for _ in range(r.choice([1, 1, 2, 2, 3, 5]))] if shape != "unit" else [])


def render_group(r, g, names, public=""):
    shape, fs = g
    if shape == "unit":
        return ""
    if shape == "tuple":
        return "(%s)" % ", ".join("%s %s" % (" ".join(f.attrs), f.ty) for f in fs)
    return " { %s }" % ", ".join("%s %s: %s" % (" ".join(f.attrs), n, f.ty) for n, f in zip(names, fs))


def value_group(g, names):
    shape, fs = g
    if shape == "unit":
        return ""
    if shape == "tuple":
        return "(%s)" % ", ".join(f.val for f in fs)
    return " { %s }" % ", ".join("%s: %s" % (n, f.val) for n, f in zip(names, fs))


OTHER_ATTRS = ["#[allow(dead_code)]", "#[doc = \"ser_with\"]", "/** comment */ "]


def ser_case(r, ok):
    """Definition for derive(Serialize)"""
    bound = r.random() < 0.4
    names = r.sample(NAMES, 6)
    enum = r.random() < 0.55
    groups = [group(r, bound, r.choice(["unit", "tuple", "named", "named", "tuple"])) for _ in range(r.randint(1, 4))] if enum else [group(r, bound, r.choice(["tuple", "named"]))]
    attrs = []
    if bound:
        attrs.append("#[ser_bound(%s)]" % r.choice(["PosTracking", "ser_raw::ser_traits::PosTracking", "::ser_raw::ser_traits::PosTracking"]))
    for g in groups:
        for f in g[1]:
            if r.random() < 0.2:
                f.attrs.insert(r.randint(0, len(f.attrs)), r.choice(OTHER_ATTRS))
    if r.random() < 0.3:
        attrs.insert(r.randint(0, len(attrs)), r.choice(OTHER_ATTRS))
    needs = any(f.ty in [t for t, _ in TRACK] or "#[ser_with(Pw)]" in f.attrs for g in groups for f in g[1])
    users = ["run(&v, Tracker { s: AV::new(), p: PosMapping::dummy() });", "full(&v);", "offs(&v);"] + ([] if bound else ["pure(&v);"])
    use = r.choice(users)
    label = "good"
    word = "enum" if enum else "struct"
    if not ok:
        edits = ["field", "field", "double", "double", "malformed", "bounds", "badbound", "misfit", "misfit", "unneeded"]
        if bound and needs:
            edits += ["nobound", "nobound"]
        if bound:
            edits += ["puretoo"]
        if not enum:
            edits += ["union"]
        e = r.choice(edits)
        label = e
        full = [g for g in groups if g[1]]
        if not full:
            g = group(r, bound, "tuple")
            groups[r.randrange(len(groups))] = g
            full = [g]
        g = r.choice(full)
        at = r.randint(0, len(g[1]))
        if e == "field":
            # One which can't be serialized, on top of the others or in place of one
            new = Field(*r.choice(BAD))
            if at < len(g[1]) and r.random() < 0.5:
                g[1][at] = new
            else:
                g[1].insert(at, new)
        elif e == "nobound":
            attrs = [a for a in attrs if "ser_bound" not in a]
        elif e == "puretoo":
            use = "pure(&v);"
        elif e == "double":
            t, v, fit, _ = r.choice(PROXIED)
            a, b = "#[ser_with(%s)]" % r.choice(fit), "#[ser_with(%s)]" % r.choice(fit)
            mid = [r.choice(OTHER_ATTRS)] if r.random() < 0.3 else []
            many = [a] + mid + [b] * r.choice([1, 1, 2])
            g[1].insert(at, Field(t, v, many))
        elif e == "malformed":
            t, v = r.choice(GOOD + [("NoSer", "NoSer")])
            g[1].insert(at, Field(t, v, [r.choice(["#[ser_with]", "#[ser_with()]", "#[ser_with(Pa, Pb)]", "#[ser_with = \"Pa\"]", "#[ser_with(\"Pa\")]", "#[ser_with(3)]", "#[ser_with[]]"])]))
        elif e == "misfit":
            t, v, _, no = r.choice(PROXIED)
            g[1].insert(at, Field(t, v, ["#[ser_with(%s)]" % r.choice(no + ["Missing"])]))
        elif e == "unneeded":
            # A field which serializes well by itself, and a proxy which doesn't
            t, v = r.choice(GOOD[:2] + GOOD[4:])
            g[1].insert(at, Field(t, v, ["#[ser_with(%s)]" % r.choice(["Pa", "Pb", "Px"])]))
        elif e == "bounds":
            attrs += ["#[ser_bound(PosTracking)]"] * (1 if bound else r.choice([2, 2, 3]))
            use = users[0]
            r.shuffle(attrs)
        elif e == "badbound":
            attrs = [a for a in attrs if "ser_bound" not in a] + [r.choice(["#[ser_bound]", "#[ser_bound()]", "#[ser_bound(PosTracking, PosTracking)]", "#[ser_bound(Missing)]", "#[ser_bound = \"PosTracking\"]", "#[ser_bound(3)]"])]
        elif e == "union":
            word = "union"
            groups = [("named", [Field(r.choice(PLAIN_COPY), "Default::default()") for _ in range(r.choice([1, 1, 2]))])]
    r1 = "#[derive(Serialize)] %s %s T" % (" ".join(attrs), word)
    if enum:
        vs = ["V%d%s" % (i, render_group(r, g, names)) for i, g in enumerate(groups)]
        text = r1 + " { %s }" % ", ".join(vs)
        k = r.randrange(len(groups))
        val = "T::V%d%s" % (k, value_group(groups[k], names))
    else:
        g = groups[0]
        text = r1 + render_group(r, g, names) + (";" if g[0] == "tuple" else "")
        if word == "union":
            val = "T { %s: Default::default() }" % names[0]
        else:
            val = "T" + value_group(g, names)
    text += " let v = %s; %s" % (val, use)
    return {"text": text, "label": "derive(Serialize): " + label, "what": "derive(Serialize) on %s, %s" % (word, label), "maker": word}


KINDS = {"pure_copy": [], "pos_tracking": ["m"], "ptr_offset": ["m"], "complete": ["m", "p"]}


def serializer_case(r, ok):
    """Definition for derive(Serializer)"""
    kind = r.choice(["pure_copy", "pos_tracking", "ptr_offset", "complete", "complete"])
    stores = {"pure_copy": ["AV", "Rand", "Plain"], "pos_tracking": ["AV", "Rand", "Plain"], "ptr_offset": ["AV", "Rand"], "complete": ["AV"]}[kind]
    store = r.choice(stores)
    generic = r.random() < 0.25
    held = store if not generic else "B"
    names = r.sample(NAMES, 8)
    # name, type, attributes, value
    fields = [[names[0], held, ["#[ser_storage(%s)]" % store], "<%s as Storage>::new()" % store]]
    if "m" in KINDS[kind]:
        fields.append([names[1], "PosMapping", ["#[ser_pos_mapping]"], "PosMapping::dummy()"])
    if "p" in KINDS[kind]:
        fields.append([names[2], "Ptrs", ["#[ser_ptrs]"], "Ptrs::new()"])
    for i in range(r.choice([0, 0, 1, 2])):
        fields.append([names[3 + i]] + r.choice([["u8", [], "1"], ["String", [], "String::new()"], ["PosMapping", [], "PosMapping::dummy()"], [store, [], "<%s as Storage>::new()" % store], ["Ptrs", [], "Ptrs::new()"]]))
    by = {f[2][0][2:-1].split("(")[0]: f for f in fields if f[2]}
    types = ["#[ser_type(%s)]" % kind]
    label = "good"
    word, shape = "struct", "named"
    if not ok:
        edits = ["notype", "types", "badtype", "nostorage", "storages", "storagetwice", "badstorage", "tuple", "enum", "wrongstorage", "othertype"]
        if "m" in KINDS[kind]:
            edits += ["nomapping", "mappings", "mappingtwice", "badmapping"]
        if "p" in KINDS[kind]:
            edits += ["noptrs", "ptrs", "ptrstwice", "badptrs"]
        if kind in ("ptr_offset", "complete"):
            edits += ["weak", "weak"]
        label = e = r.choice(edits)
        st, mp, pt = by["ser_storage"], by.get("ser_pos_mapping"), by.get("ser_ptrs")

        def extra(like):
            fields.append([names[6], like[1], list(like[2]), like[3]])
        if e == "notype":
            types = []
        elif e == "types":
            other = r.choice([kind] * 2 + [k for k in KINDS if set(KINDS[k]) <= set(KINDS[kind])])
            types = types + ["#[ser_type(%s)]" % other] * r.choice([1, 1, 2])
            r.shuffle(types)
        elif e == "badtype":
            types = [r.choice(["#[ser_type]", "#[ser_type()]", "#[ser_type(%s, %s)]" % (kind, kind), "#[ser_type(\"%s\")]" % kind, "#[ser_type = \"%s\"]" % kind, "#[ser_type(%s)]" % r.choice(["Complete", "PureCopy", "pure", "none", "ptr_offsets", "tracking", "copy", "_"]),
                               "#[ser_type(a::%s)]" % kind, "#[ser_type(%s(1))]" % kind, "#[ser_type(%s = 1)]" % kind])]
        elif e == "othertype":
            # Kind which needs more than is there
            more = [k for k in KINDS if not set(KINDS[k]) <= set(KINDS[kind])]
            if not more:
                types = ["#[ser_type(full)]"]
            else:
                types = ["#[ser_type(%s)]" % r.choice(more)]
        elif e == "nostorage":
            st[2] = []
        elif e == "storages":
            extra(st)
        elif e == "storagetwice":
            st[2] = st[2] * 2
        elif e == "badstorage":
            st[2] = [r.choice(["#[ser_storage]", "#[ser_storage()]", "#[ser_storage(%s, %s)]" % (store, store), "#[ser_storage = \"%s\"]" % store, "#[ser_storage(Missing)]", "#[ser_storage(3)]"])]
        elif e == "wrongstorage":
            # Not what the field holds, or no storage at all
            st[2] = ["#[ser_storage(%s)]" % r.choice([s for s in ("Plain", "Rand", "AlignedVec<16, 16, 4>") if s != store] + ["u8", "Vec<u8>"])]
        elif e == "weak":
            # Storage which can't do what the kind needs
            weak = "Plain" if kind == "ptr_offset" else r.choice(["Plain", "Rand"])
            for f in fields:
                f[1] = f[1].replace(store, weak) if f[1] == store else f[1]
                f[2] = [a.replace("(%s)" % store, "(%s)" % weak) for a in f[2]]
                f[3] = f[3].replace("<%s " % store, "<%s " % weak)
            store = weak
        elif e == "tuple":
            shape = "tuple"
        elif e == "enum":
            word = "enum"
        elif e == "nomapping":
            mp[2] = []
        elif e == "mappings":
            extra(mp)
        elif e == "mappingtwice":
            mp[2] = mp[2] * 2
        elif e == "badmapping":
            mp[1], mp[3] = "u64", "0"
        elif e == "noptrs":
            pt[2] = []
        elif e == "ptrs":
            extra(pt)
        elif e == "ptrstwice":
            pt[2] = pt[2] * 2
        elif e == "badptrs":
            pt[1], pt[3] = "PtrGroup", "PtrGroup::dummy()" if False else "unreachable!()"
    r.shuffle(fields)
    for f in fields:
        if r.random() < 0.2:
            f[2].insert(r.randint(0, len(f[2])), r.choice(OTHER_ATTRS))
    head = types + ([r.choice(OTHER_ATTRS)] if r.random() < 0.3 else [])
    r.shuffle(head)
    gen = "<B: BorrowMut<%s>>" % store if generic else ""
    if shape == "tuple":
        body = gen + "(%s);" % ", ".join("%s %s" % (" ".join(f[2]), f[1]) for f in fields)
        val = "Z(%s)" % ", ".join(f[3] for f in fields)
    else:
        body = gen + " { %s }" % ", ".join("%s %s: %s" % (" ".join(f[2]), f[0], f[1]) for f in fields)
        val = "Z { %s }" % ", ".join("%s: %s" % (f[0], f[3]) for f in fields)
    if word == "enum":
        body = gen + " { V %s }" % body[len(gen):]
        val = val.replace("Z", "Z::V", 1)
    v = r.choice(["vec![1u32, 2]", "String::from(\"abc\")", "(1u8, Box::new(2u64))"])
    text = "#[derive(Serializer)] %s %s Z%s let z = %s; run(&%s, z);" % (" ".join(head), word, body, val, v)
    return {"text": text, "label": "derive(Serializer): " + label, "what": "derive(Serializer) of kind %s, %s" % (kind, label), "maker": kind}


def case(r, ok):
    return ser_case(r, ok) if r.random() < 0.55 else serializer_case(r, ok)


def program(cases):
    return PRELUDE + rejects.main(cases)

"""Generator of programs which create storages and store values, legally or
not (C16). The documented rules are written down here once more, as `legal`."""
import random

TOP = 1 << 63  # isize::MAX + 1

PRELUDE = """#![allow(warnings)]
use ser_raw::{*, storage::*, pos::*};
use std::{borrow::BorrowMut, hint::black_box, marker::PhantomData, mem};

/// Storage whose own constructors check nothing
pub struct Loose<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> {
	mem: Vec<u128>,
	cap: usize,
	pos: usize,
}
impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Storage for Loose<SA, MVA, VA, MAX> {
	const STORAGE_ALIGNMENT: usize = SA;
	const MAX_VALUE_ALIGNMENT: usize = MVA;
	const VALUE_ALIGNMENT: usize = VA;
	const MAX_CAPACITY: usize = MAX;
	fn new() -> Self { Loose { mem: Vec::new(), cap: 0, pos: 0 } }
	unsafe fn with_capacity_unchecked(cap: usize) -> Self { Loose { mem: vec![0; cap / 16 + 1], cap, pos: 0 } }
	fn capacity(&self) -> usize { self.cap }
	fn pos(&self) -> usize { self.pos }
	unsafe fn set_pos(&mut self, pos: usize) { self.pos = pos }
	unsafe fn push_slice_unchecked<T>(&mut self, slice: &[T], size: usize) {
		(self.mem.as_mut_ptr() as *mut u8).add(self.pos).copy_from_nonoverlapping(slice.as_ptr() as *const u8, size);
		self.pos += size;
	}
	fn reserve(&mut self, n: usize) {
		self.cap = self.cap.max((self.pos + n + MVA - 1) / MVA * MVA);
		self.mem.resize(self.cap / 16 + 1, 0);
	}
	fn shrink_to_fit(&mut self) {}
}

#[derive(Serializer)]
#[ser_type(pure_copy)]
pub struct DerPure<S: Storage> { #[ser_storage(S)] s: S }
impl<S: Storage> DerPure<S> { fn of(s: S) -> Self { DerPure { s } } }
#[derive(Serializer)]
#[ser_type(ptr_offset)]
pub struct DerOff<S: RandomAccessStorage> { #[ser_storage(S)] s: S, #[ser_pos_mapping] p: PosMapping }
impl<S: RandomAccessStorage> DerOff<S> { fn of(s: S) -> Self { DerOff { s, p: PosMapping::dummy() } } }
#[derive(Serializer)]
#[ser_type(complete)]
pub struct DerFull<S: RandomAccessStorage + ContiguousStorage> { #[ser_storage(S)] s: S, #[ser_pos_mapping] p: PosMapping, #[ser_ptrs] q: Ptrs }
impl<S: RandomAccessStorage + ContiguousStorage> DerFull<S> { fn of(s: S) -> Self { DerFull { s, p: PosMapping::dummy(), q: Ptrs::new() } } }
#[derive(Serializer)]
#[ser_type(pos_tracking)]
pub struct DerTrack<S: Storage> { #[ser_storage(S)] s: S, #[ser_pos_mapping] p: PosMapping }
impl<S: Storage> DerTrack<S> { fn of(s: S) -> Self { DerTrack { s, p: PosMapping::dummy() } } }

/// Only what has to be written
pub struct Hand<S: Storage>(S);
impl<S: Storage> Serializer for Hand<S> {
	type Storage = S;
	type BorrowedStorage = S;
	type Addr = NoopAddr;
	fn storage(&self) -> &S { &self.0 }
	fn storage_mut(&mut self) -> &mut S { &mut self.0 }
	fn into_storage(self) -> S { self.0 }
}

pub fn make<S: Storage>() -> S { S::new() }
pub fn make_cap<S: Storage>(n: usize) -> S { S::with_capacity(n) }
pub fn check<S: Storage>(s: &S) {
	assert!(s.pos() == 0);
	assert!(s.capacity() <= S::MAX_CAPACITY);
	assert!(s.capacity() % S::MAX_VALUE_ALIGNMENT == 0);
}
pub fn at<T>(pos: usize) {
	assert!(pos % mem::align_of::<T>() == 0, "misplaced");
}
"""


def pow2(x):
    return x > 0 and x & (x - 1) == 0


def legal(c):
    sa, mva, va, mx = c
    return (pow2(sa) and sa < TOP and pow2(mva) and mva <= sa and pow2(va) and va <= mva
            and 0 < mx <= TOP - sa and mx % mva == 0)


def resolve(args):
    """Parameters with the documented defaults filled in"""
    a = list(args)
    if len(a) < 2:
        a.append(a[0])
    if len(a) < 3:
        a.append(8)
    if len(a) < 4:
        a.append(TOP - 16)
    return tuple(a)


def rule(c):
    sa, mva, va, mx = c
    o = []
    for n, x in (("STORAGE_ALIGNMENT", sa), ("MAX_VALUE_ALIGNMENT", mva), ("VALUE_ALIGNMENT", va)):
        if x == 0:
            o.append(n + " is 0")
        elif not pow2(x):
            o.append(n + " is not a power of 2")
    if sa >= TOP:
        o.append("STORAGE_ALIGNMENT too large")
    if mva > sa:
        o.append("MAX_VALUE_ALIGNMENT above STORAGE_ALIGNMENT")
    if va > mva:
        o.append("VALUE_ALIGNMENT above MAX_VALUE_ALIGNMENT")
    if mx == 0:
        o.append("MAX_CAPACITY is 0")
    if mx > TOP - min(sa, TOP):
        o.append("MAX_CAPACITY too large")
    if mva and mx % mva:
        o.append("MAX_CAPACITY not a multiple")
    return o


def config(r, small=False):
    """A legal configuration"""
    k = r.choice([0, 1, 2, 3, 3, 4, 4, 5, 6, 7, 9, 12]) if small or r.random() < 0.85 else r.randrange(13, 63)
    sa = 1 << k
    mva = 1 << r.choice([k, k, r.randint(0, k)])
    va = 1 << r.choice([0, r.randint(0, mva.bit_length() - 1), mva.bit_length() - 1])
    top = TOP - sa
    mx = r.choice([top, top - top % mva, mva, 2 * mva, 3 * mva, 5 * mva, (1 << 32), (1 << 40) + mva, top - mva])
    mx -= mx % mva
    if not 0 < mx <= top:
        mx = mva if mva <= top else top
    return (sa, mva, va, mx)


def broken(r):
    """A configuration which breaks (nearly always) just one rule"""
    for _ in range(10000):
        sa, mva, va, mx = config(r)
        how = r.randrange(12)
        if how == 0:
            sa = 0
        elif how == 1:
            sa = r.choice([sa + 1, sa * 3, sa * 2 - 1, sa | mva, sa + sa // 2, 3, 24, (1 << 40) + 8, TOP - 1])
            mx = r.choice([mva, 64 * mva, (TOP - sa) // mva * mva])
        elif how == 2:
            sa = TOP
            mx = 0 if r.random() < 0.2 else mva
        elif how == 3:
            mva = 0
        elif how == 4:
            mva = r.choice([3, 6, 12, 24, 5, 7, 9, sa - 1, sa // 2 + 1, sa // 4 * 3])
            mx = mva * r.choice([1, 2, 3, 100, (TOP - sa) // mva if mva > 0 else 1])
            va = r.choice([1, 2, 4, va])
        elif how == 5:
            mva = sa * r.choice([2, 2, 4, 256])
            mx = mva * r.choice([1, 3, max(1, (TOP - sa) // mva)])
        elif how == 6:
            va = 0
        elif how == 7:
            va = r.choice([3, 5, 6, 7, 12, mva - 1, mva // 2 + 1, mva // 4 * 3])
        elif how == 8:
            va = mva * r.choice([2, 2, 2, 4, 1024])
        elif how == 9:
            mx = 0
        elif how == 10:
            top = TOP - sa
            mx = r.choice([top // mva * mva + mva, TOP, (1 << 64) - mva, top + sa, top + mva, (TOP + mva)])
        else:
            mx = r.choice([mva + 1, mva - 1, mva // 2, 3 * mva // 2, TOP - sa - 1, mx + 1, mx - 1, mx - mva // 2, mx + mva // 2])
        c = (sa, mva, va, mx)
        if all(0 <= x < 1 << 64 for x in c) and not legal(c) and (len(rule(c)) == 1 or r.random() < 0.08):
            return c
    raise RuntimeError("no configuration")


STORES = ["AlignedVec"]
SERS = ["PureCopySerializer", "PtrOffsetSerializer", "CompleteSerializer"]
DERS = ["DerPure", "DerOff", "DerFull", "DerTrack", "Hand"]

# How a storage or serializer comes to be. P: the parameters, C: a capacity,
# U: a capacity fit for `with_capacity_unchecked`
MAKERS = [
    ("new", "let s = AlignedVec::<P>::new(); check(&s);"),
    ("new", "let s: AlignedVec<P> = Storage::new(); check(&s);"),
    ("with_capacity", "let s = AlignedVec::<P>::with_capacity(C); check(&s);"),
    ("with_capacity", "let s = AlignedVec::<P>::with_capacity(0); check(&s);"),
    ("with_capacity_unchecked", "let s = unsafe { AlignedVec::<P>::with_capacity_unchecked(U) }; check(&s);"),
    ("new", "let s = make::<AlignedVec<P>>(); check(&s);"),
    ("with_capacity", "let s = make_cap::<AlignedVec<P>>(C); check(&s);"),
    ("new", "type X = AlignedVec<P>; let f = || X::new(); check(&f());"),
    ("new", "let v: Vec<AlignedVec<P>> = (0..3).map(|_| AlignedVec::new()).collect(); check(&v[1]);"),
    ("with_capacity", "let f: fn(usize) -> AlignedVec<P> = AlignedVec::<P>::with_capacity; check(&f(C));"),
    ("custom storage", "let s = Loose::<P>::with_capacity(C); check(&s);"),
    ("custom storage", "let s = make_cap::<Loose<P>>(C); check(&s);"),
]
for k in SERS:
    MAKERS.append((k, "let s = %s::<P, _>::new(); check(s.storage());" % k))
    MAKERS.append((k, "let s: %s<P, AlignedVec<P>> = %s::new(); check(&s.into_storage());" % (k, k)))
    MAKERS.append((k, "let s = %s::<P, _>::with_capacity(C); check(&s.into_storage());" % k))
for k in SERS:
    MAKERS.append((k + ", borrowed", "let mut v = AlignedVec::new(); { let s = %s::<P, _>::from_storage(&mut v); check(s.storage()); }" % k))
for k in DERS:
    c = "Hand(AlignedVec::<P>::new())" if k == "Hand" else "%s::of(AlignedVec::<P>::new())" % k
    MAKERS.append((k, "let s = %s; check(s.storage());" % c))


def text(x, r):
    return r.choice([str(x), str(x), "%#x" % x, "{ %d }" % x] + (["{ %d - 1 }" % (x + 1)] if x < (1 << 64) - 1 else []))


def params_case(r, ok):
    n = 4
    while True:
        if ok:
            c = config(r)
        else:
            c = broken(r)
        full = True
        if r.random() < 0.25:
            # Some left to the defaults
            n = r.choice([1, 2, 3])
            c2 = resolve(c[:n])
            if legal(c2) == ok:
                c, full = c2, False
                break
            n = 4
            continue
        break
    forms = MAKERS if full else [m for m in MAKERS if m[1].find("Loose") < 0 and m[1].find("_, >") < 0 and "Serializer" not in m[1]]
    label, body = r.choice(forms)
    ts = [text(x, r) for x in c[:n]]
    if n == 4 and ok and r.random() < 0.5:
        if c[3] == TOP - c[0]:
            ts[3] = "{ util::aligned_max_capacity(%d) }" % c[0]
        elif c[3] == 1 << 32 and c[0] < (1 << 32):
            ts[3] = "{ util::aligned_max_u32_capacity(%d) }" % c[1]
    p = ", ".join(ts)
    sa, mva, va, mx = c
    lim = min(mx, 5000)
    cap = r.choice([1, lim, max(1, lim // 2), r.randint(1, max(1, lim))])
    unch = mva if 0 < mva <= 4096 else 16
    body = body.replace("<P", "<" + p).replace("(C)", "(black_box(%d))" % max(1, cap)).replace("(U)", "(black_box(%d))" % unch)
    # Allocations aligned like this may not be had
    hide = (sa > 65536 or mva > 1 << 20) and "new()" not in body
    how = r.randrange(5)
    if how == 0 and full and "type X" not in body:
        # Parameters handed down
        args = ["SA", "MVA", "VA", "MAX"]
        body = "fn go<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>() { %s } %s" % (
            body.replace("<" + p, "<SA, MVA, VA, MAX"), "CALL")
        call = "go::<%s>();" % p
    elif how == 1:
        call = ""
        body = "trait Go { fn go(&self); } struct G; impl Go for G { fn go(&self) { %s } } let g: Box<dyn Go> = Box::new(G); CALL" % body
        call = "g.go();"
    else:
        body, call = "CALL", body
    if hide or r.random() < 0.1:
        call = "if std::env::args().count() > 50 { %s }" % call
    return {"text": body.replace("CALL", call), "what": "%s with %s: %s" % (label, p, "; ".join(rule(c)) or "legal"), "label": rule(c)[0] if not ok else "legal parameters", "maker": label}


# ---- alignment of values ----------------------------------------------------

PRIM = {1: ["u8", "bool", "[u8; 3]", "(u8, i8)"], 2: ["u16", "i16", "[u16; 2]"], 4: ["u32", "f32", "char", "(u8, u32)"],
        8: ["u64", "usize", "f64", "(u32, u64)", "[i64; 2]"]}

# Where a value of type T sits. P: has pointers, so is itself aligned to 8
WRAPS = [
    ("T", "T", "V", False),
    ("in an array", "[T; 2]", "[V, V]", False),
    ("in a tuple", "(u8, T)", "(1, V)", False),
    ("in a struct", "S1", "S1 { a: 1, t: V }", False),
    ("in an enum", "E1", "E1::B(V)", False),
    ("in an enum", "E1", "E1::A", False),
    ("in an Option", "Option<T>", "Some(V)", False),
    ("in a Box", "Box<T>", "Box::new(V)", True),
    ("in a Vec", "Vec<T>", "vec![V, V]", True),
    ("in an empty Vec", "Vec<T>", "Vec::new()", True),
    ("in a boxed array", "Box<[T; 3]>", "Box::new([V, V, V])", True),
    ("in an Option of Box", "Option<Box<T>>", "Some(Box::new(V))", True),
    ("in an absent Box", "Option<Box<T>>", "None", True),
    ("in nested Vecs", "Vec<Vec<T>>", "vec![vec![V], vec![]]", True),
    ("in a Box in a struct", "S2", "S2 { a: String::new(), t: Box::new(V) }", True),
    ("in a Vec in an enum", "E2", "E2::B { x: vec![V] }", True),
    ("in a Vec in an enum, other variant", "E2", "E2::A", True),
    ("in a Vec of structs", "Vec<S1>", "vec![S1 { a: 1, t: V }]", True),
    ("in a Box in a Vec of tuples", "Vec<(u8, Box<T>)>", "vec![(1, Box::new(V))]", True),
]

STORE_OPS = [
    ("push", "at::<T>(s.push(&V));"),
    ("push_slice", "at::<T>(s.push_slice(&[V, V][..]));"),
    ("push_slice of nothing", "at::<T>(s.push_slice::<T>(&[]));"),
    ("push_empty", "at::<T>(s.push_empty::<T>());"),
    ("push_empty_slice", "at::<T>(s.push_empty_slice::<T>(black_box(3)));"),
    ("align_for", "s.align_for::<T>(); at::<T>(s.pos());"),
]
SER_OPS = [
    ("push_raw", "at::<T>(s.push_raw(&V));"),
    ("push_raw_slice", "at::<T>(s.push_raw_slice(&[V, V][..]));"),
    ("push_empty", "at::<T>(s.push_empty::<T>());"),
    ("push_empty_slice", "at::<T>(s.push_empty_slice::<T>(black_box(2)));"),
    ("push", "let p = s.push_empty::<usize>(); let a = Addr::from_ref(&p); at::<T>(s.storage_mut().push(&V));"),
]
RAW_SER_OPS = [
    # The value gets written without its pointer being recorded, so the kinds
    # which record pointers need no place for one
    ("push by address", "fn op<Z: Serializer>(z: &mut Z) -> usize { let x: usize = 0; z.push(&V, Addr::from_ref(&x)) } at::<T>(op(&mut s));"),
    ("push_slice by address", "fn op<Z: Serializer>(z: &mut Z) -> usize { let x: usize = 0; z.push_slice(&[V, V][..], Addr::from_ref(&x)) } at::<T>(op(&mut s));"),
    ("push_and_process", "fn op<Z: Serializer>(z: &mut Z) -> usize { let x: usize = 0; z.push_and_process(&V, Addr::from_ref(&x), |_| {}) } at::<T>(op(&mut s));"),
    ("push_and_process_slice", "fn op<Z: Serializer>(z: &mut Z) -> usize { let x: usize = 0; z.push_and_process_slice(&[V][..], Addr::from_ref(&x), |_| {}) } at::<T>(op(&mut s));"),
]


def value_type(r, a):
    """(definition, type, value) of alignment `a`"""
    if a in PRIM and r.random() < 0.5:
        t = r.choice(PRIM[a])
        v = "unsafe { mem::zeroed::<T>() }"
        return "type T = %s;" % t, v
    if a == 8 and r.random() < 0.4:
        return "type T = %s;" % r.choice(["String", "Vec<u8>", "Option<Box<u8>>", "(u8, String)", "Vec<String>"]), "<T as Default>::default()"
    body = r.choice(["{ a: u8 }", "{ a: u8, b: [u8; 5] }", "{ a: [u8; 40] }"] + (["{ a: u16, b: u8 }"] if a >= 2 else []) + (["{ a: u32 }"] if a >= 4 else []) + (["{ a: u64, b: u8 }", "{ a: usize }"] if a >= 8 else []))
    v = "unsafe { mem::zeroed::<T>() }"
    return "#[derive(Serialize)] #[repr(%salign(%d))] pub struct T %s" % (r.choice(["", "C, "]), a, body), v


def align_case(r, ok):
    sa, mva, va, mx = config(r, True)
    while mva > 4096:
        sa, mva, va, mx = config(r, True)
    # Room for what is pushed
    mx = (1 << 30) if mva <= 1 << 30 else mx
    k = mva.bit_length() - 1
    if ok:
        a = 1 << r.choice([k, k, r.randint(0, k)])
    else:
        a = 1 << r.choice([k + 1, k + 1, k + 1, k + 2, r.randint(k + 1, k + 5)])
    p = "%d, %d, %d, %d" % (sa, mva, va, mx)
    deft, v = value_type(r, a)
    kind = r.choice(["storage", "ser", "ser", "ser"])
    mode = r.randrange(3)
    defs = deft
    if kind == "storage":
        label, op = r.choice(STORE_OPS)
        body = "let mut s = %s; %s" % (r.choice(["AlignedVec::<%s>::new()" % p, "AlignedVec::<%s>::with_capacity(64)" % p, "Loose::<%s>::new()" % p]), op)
        who = "storage"
    else:
        who = r.choice(SERS + DERS)
        if who in SERS:
            make = r.choice(["%s::<%s, _>::new()" % (who, p), "%s::<%s, _>::with_capacity(100)" % (who, p), "%s::from_storage(AlignedVec::<%s>::new())" % (who, p)])
        elif who == "Hand":
            make = "Hand(%s::<%s>::new())" % (r.choice(["AlignedVec", "Loose"]), p)
        elif who in ("DerPure", "DerTrack"):
            make = "%s::of(%s::<%s>::new())" % (who, r.choice(["AlignedVec", "Loose"]), p)
        else:
            make = "%s::of(AlignedVec::<%s>::new())" % (who, p)
        if mode == 0:
            ops = [o for o in SER_OPS[:4]]
            if who in ("PureCopySerializer", "DerPure", "Hand"):
                ops += RAW_SER_OPS
            elif not ok:
                ops += RAW_SER_OPS
            label, op = r.choice(ops)
            body = "let mut s = %s; %s" % (make, op)
        else:
            ws = [w for w in WRAPS if not (ok and w[3] and mva < 8)]
            label, wt, wv, ptr = r.choice(ws)
            defs += " #[derive(Serialize)] pub struct S1 { a: u8, t: T } #[derive(Serialize)] pub enum E1 { A, B(T) }"
            defs += " #[derive(Serialize)] pub struct S2 { a: String, t: Box<T> } #[derive(Serialize)] pub enum E2 { A, B { x: Vec<T> } }"
            if mode == 1 or who == "DerTrack":
                use = "let mut s = %s; let w: %s = %s; at::<%s>(s.serialize_value(&w));" % (make, wt, wv, wt)
            else:
                use = "let w: %s = %s; let (p, s) = %s.serialize(&w); at::<%s>(p);" % (wt, wv, make, wt)
            body = use
            label = "serialized, " + label
    body = body.replace("V]", v + "]").replace("[V,", "[%s," % v).replace("&V", "&" + v).replace("(V)", "(%s)" % v).replace("t: V ", "t: %s " % v).replace(", V)", ", %s)" % v).replace(" V,", " %s," % v)
    if body.endswith("= V;") or ": T = V;" in body:
        body = body.replace(": T = V;", ": T = %s;" % v)
    if r.random() < 0.1:
        body = "if std::env::args().count() > 50 { %s }" % body
    return {"text": defs + " " + body, "what": "%s by %s: alignment %d in %s" % (label, who, a, p),
            "label": ("value alignment above maximum: " if not ok else "legal value: ") + label, "maker": who}


def case(r, ok):
    return params_case(r, ok) if r.random() < 0.5 else align_case(r, ok)


def main(cases):
    o = []
    for i, c in enumerate(cases):
        o.append("pub fn c%d() { %s }\n" % (i, c["text"]))
    o.append("fn main() {\n%s\tprintln!(\"done\");\n}\n" % "".join("\tc%d();\n" % i for i in range(len(cases))))
    return "".join(o)


def program(cases):
    return PRELUDE + main(cases)

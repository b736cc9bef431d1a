//! C01-C07, C11, C19, C20, C21: whole serializations of generated values.

use std::num::*;

use num_bigint::{BigInt, BigUint};
use vlib::{
	big,
	deep::*,
	engine::{self, Prop},
	factory,
	model::*,
	node_gen, type_gen,
	universal::{n16, n64, n8},
};

const fn max(sa: usize) -> usize {
	isize::MAX as usize - (sa - 1)
}
const U32_MAX: usize = 1 << 32;
const ODD_MAX: usize = (20 << 30) + 192;

type MixA = (u8, Box<u32>, String, Vec<u16>);

macro_rules! entries {
	($($w:literal $name:literal $gen:expr, [$($f:expr),* $(,)?];)*) => {
		&[$(($w, Entry { name: $name, gen: $gen, factories: &[$($f),*] })),*]
	};
}

macro_rules! flat {
	($($w:literal $t:ty;)*) => {
		&[$((
			$w,
			Entry {
				name: stringify!($t),
				gen: type_gen!($t),
				factories: &[factory!($t, 16, 16, 8, max(16), false)],
			},
		)),*]
	};
}

static NODES: &[(u64, Entry)] = entries! {
	3 "nodes, alignment up to 8" node_gen!(n8), [
		factory!(n8::Node, 8, 8, 1, max(8), false),
		factory!(n8::Node, 16, 8, 4, ODD_MAX, false),
		factory!(n8::Node, 8, 8, 8, max(8), true),
		factory!(n8::Node, 4096, 8, 2, max(4096), true),
	];
	4 "nodes, alignment up to 16" node_gen!(n16), [
		factory!(n16::Node, 16, 16, 8, max(16), false),
		factory!(n16::Node, 16, 16, 8, max(16), true),
		factory!(n16::Node, 32, 16, 16, max(32), false),
	];
	3 "nodes, alignment up to 64" node_gen!(n64), [
		factory!(n64::Node, 64, 64, 1, U32_MAX, false),
		factory!(n64::Node, 128, 64, 64, ODD_MAX, true),
	];
};

static PLAIN: &[(u64, Entry)] = flat! {
	1 u8; 1 i16; 1 u32; 1 u64; 1 i128; 1 f32; 1 f64; 1 bool; 1 char; 1 usize;
	1 NonZeroU8; 1 NonZeroI32; 1 NonZeroU128;
	1 (NonZeroI8, NonZeroU16, NonZeroI16, NonZeroU32, NonZeroU64, NonZeroI64, NonZeroI128, NonZeroUsize, NonZeroIsize);
	1 (u16, i8, i32, i64, u128, isize);
	2 Box<u8>; 2 Box<Box<Box<u16>>>; 2 Vec<u8>; 2 Vec<u32>; 2 Vec<Vec<Vec<u16>>>; 2 String; 2 Vec<String>;
	2 Option<Box<u64>>; 2 Option<String>; 2 Vec<Option<Vec<u8>>>; 1 Option<NonZeroU8>; 2 Option<Option<u8>>;
	2 [Box<u8>; 40]; 2 [Vec<u16>; 3]; 2 [[String; 2]; 3]; 1 [u8; 33]; 1 [u32; 200];
	2 BigInt; 2 BigUint; 1 Vec<BigUint>; 1 [BigInt; 3]; 1 Option<BigInt>;
	1 Vec<A16>; 1 Box<A16S>; 1 (u8, A16, Box<A16>);
	1 Vec<(u8, u32)>; 1 Box<(u8, Vec<u64>, u8)>; 1 Vec<[u8; 3]>; 1 Vec<[Option<Box<u16>>; 2]>;
	1 Vec<bool>; 1 Vec<Box<i8>>; 1 Box<Vec<Box<String>>>; 1 Vec<f32>; 1 Vec<u128>; 1 Box<u128>;
};

// Every arity; kinds of member rotate so that each place has pointers
static TUPLES: &[(u64, Entry)] = flat! {
	1 (Box<u32>,);
	1 (String, Vec<u16>);
	1 (Box<u8>, u16, String);
	1 (Vec<u16>, u8, Box<u32>, String);
	1 (String, Box<u32>, u8, Vec<u16>, Box<u64>);
	1 (Box<u8>, String, Vec<u16>, u8, Box<u32>, String);
	1 (Vec<u16>, Box<u8>, String, Box<u32>, u16, Vec<u8>, Box<u16>);
	1 (String, Box<u8>, Box<u16>, Vec<u8>, Box<u32>, Vec<u16>, u8, String);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String, Box<u16>);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String, Box<u16>, Box<u8>);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String, Box<u16>, Box<u8>, String);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String, Box<u16>, Box<u8>, String, Box<u8>);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String, Box<u16>, Box<u8>, String, Box<u8>, Vec<u8>);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String, Box<u16>, Box<u8>, String, Box<u8>, Vec<u8>, Box<u16>);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String, Box<u16>, Box<u8>, String, Box<u8>, Vec<u8>, Box<u16>, Box<u8>);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String, Box<u16>, Box<u8>, String, Box<u8>, Vec<u8>, Box<u16>, Box<u8>, Box<u32>);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String, Box<u16>, Box<u8>, String, Box<u8>, Vec<u8>, Box<u16>, Box<u8>, Box<u32>, String);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String, Box<u16>, Box<u8>, String, Box<u8>, Vec<u8>, Box<u16>, Box<u8>, Box<u32>, String, Box<u8>);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String, Box<u16>, Box<u8>, String, Box<u8>, Vec<u8>, Box<u16>, Box<u8>, Box<u32>, String, Box<u8>, Vec<u8>);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String, Box<u16>, Box<u8>, String, Box<u8>, Vec<u8>, Box<u16>, Box<u8>, Box<u32>, String, Box<u8>, Vec<u8>, Box<u64>);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String, Box<u16>, Box<u8>, String, Box<u8>, Vec<u8>, Box<u16>, Box<u8>, Box<u32>, String, Box<u8>, Vec<u8>, Box<u64>, Box<u8>);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String, Box<u16>, Box<u8>, String, Box<u8>, Vec<u8>, Box<u16>, Box<u8>, Box<u32>, String, Box<u8>, Vec<u8>, Box<u64>, Box<u8>, String);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String, Box<u16>, Box<u8>, String, Box<u8>, Vec<u8>, Box<u16>, Box<u8>, Box<u32>, String, Box<u8>, Vec<u8>, Box<u64>, Box<u8>, String, Box<u16>);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String, Box<u16>, Box<u8>, String, Box<u8>, Vec<u8>, Box<u16>, Box<u8>, Box<u32>, String, Box<u8>, Vec<u8>, Box<u64>, Box<u8>, String, Box<u16>, Box<u8>);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String, Box<u16>, Box<u8>, String, Box<u8>, Vec<u8>, Box<u16>, Box<u8>, Box<u32>, String, Box<u8>, Vec<u8>, Box<u64>, Box<u8>, String, Box<u16>, Box<u8>, Vec<u8>);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String, Box<u16>, Box<u8>, String, Box<u8>, Vec<u8>, Box<u16>, Box<u8>, Box<u32>, String, Box<u8>, Vec<u8>, Box<u64>, Box<u8>, String, Box<u16>, Box<u8>, Vec<u8>, Box<u8>);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String, Box<u16>, Box<u8>, String, Box<u8>, Vec<u8>, Box<u16>, Box<u8>, Box<u32>, String, Box<u8>, Vec<u8>, Box<u64>, Box<u8>, String, Box<u16>, Box<u8>, Vec<u8>, Box<u8>, String);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String, Box<u16>, Box<u8>, String, Box<u8>, Vec<u8>, Box<u16>, Box<u8>, Box<u32>, String, Box<u8>, Vec<u8>, Box<u64>, Box<u8>, String, Box<u16>, Box<u8>, Vec<u8>, Box<u8>, String, Box<u16>);
	1 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String, Box<u16>, Box<u8>, String, Box<u8>, Vec<u8>, Box<u16>, Box<u8>, Box<u32>, String, Box<u8>, Vec<u8>, Box<u64>, Box<u8>, String, Box<u16>, Box<u8>, Vec<u8>, Box<u8>, String, Box<u16>, Box<u8>);
	2 (Box<u8>, Box<u16>, Box<u32>, Box<u64>, String, Vec<u8>, Vec<u16>, Vec<u32>, Box<u8>, String, Box<u16>, Box<u8>, String, Box<u8>, Vec<u8>, Box<u16>, Box<u8>, Box<u32>, String, Box<u8>, Vec<u8>, Box<u64>, Box<u8>, String, Box<u16>, Box<u8>, Vec<u8>, Box<u8>, String, Box<u16>, Box<u8>, Vec<u16>);
};

// Types of large size, owning data at the end of it, and arrays of many owners
static WIDE: &[(u64, Entry)] = flat! {
	2 Box<[Option<Box<u8>>; 300]>; 2 Vec<[Option<Box<u16>>; 150]>; 1 [Option<String>; 280]; 1 Vec<[Vec<u8>; 70]>;
	2 Box<(Pad<1100>, Box<u8>, Pad<300>, String)>; 2 Vec<(Pad<2100>, Vec<u16>)>; 1 (Pad<5000>, Box<Pad<5000>>, String);
	2 Vec<(String, Pad<4095>, Option<Box<u32>>)>; 1 Box<(Pad<66000>, Vec<Box<u8>>, String)>;
	1 Vec<(Pad<70001>, Option<Box<u64>>)>; 1 (Pad<131072>, Vec<u8>, Pad<70000>, Box<u16>);
	1 Box<(Pad<1048576>, String)>; 1 [Vec<(Pad<600>, Box<u8>)>; 3]; 1 Box<(Pad<5000>, BigInt)>;
};

static ALIGNED: &[(u64, Entry)] = entries! {
	2 "(u8, Box<A4K>, String, Vec<A256>)" type_gen!((u8, Box<A4K>, String, Vec<A256>)), [
		factory!((u8, Box<A4K>, String, Vec<A256>), 4096, 4096, 1, max(4096), false),
		factory!((u8, Box<A4K>, String, Vec<A256>), 8192, 4096, 16, ODD_MAX / 8192 * 8192, true),
		factory!((u8, Box<A4K>, String, Vec<A256>), 4096, 4096, 4096, max(4096), false),
	];
	2 "Vec<(A256, Box<A256>, Vec<u8>)>" type_gen!(Vec<(A256, Box<A256>, Vec<u8>)>), [
		factory!(Vec<(A256, Box<A256>, Vec<u8>)>, 256, 256, 8, max(256), true),
		factory!(Vec<(A256, Box<A256>, Vec<u8>)>, 512, 256, 256, max(512), false),
		factory!(Vec<(A256, Box<A256>, Vec<u8>)>, 65536, 1024, 2, max(65536), false),
	];
};

// Values of small maximum alignment, which can't own anything
static SMALL: &[(u64, Entry)] = entries! {
	1 "(u8, [bool; 3]), alignments 1" type_gen!((u8, [bool; 3])), [
		factory!((u8, [bool; 3]), bytes, 1, 1, 1, max(1), false),
		factory!((u8, [bool; 3]), bytes, 8, 2, 2, max(8), true),
		factory!((u8, [bool; 3]), bytes, 64, 4, 1, max(64), false),
	];
	1 "(u16, u8), alignment 2" type_gen!((u16, u8)), [
		factory!((u16, u8), bytes, 2, 2, 1, max(2), false),
		factory!((u16, u8), bytes, 4, 4, 4, max(4), true),
	];
};

fn empties() -> &'static [(u64, Entry)] {
	static E: &[(u64, Entry)] = flat! {
		2 (); 2 Z2; 2 Z4; 2 Z8; 2 Z16; 2 [u64; 0]; 2 [Box<u8>; 0]; 1 [(); 5]; 1 [Z16; 2]; 1 ((), Z8);
		2 Vec<()>; 2 Vec<Z8>; 2 Vec<Z16>; 2 Box<()>; 2 Box<Z8>; 2 Vec<[u32; 0]>; 2 Box<[u64; 0]>;
		2 String; 2 Vec<u8>; 2 Vec<u64>; 2 Vec<A16>; 2 Option<Box<u8>>; 2 Option<String>; 2 Vec<Vec<Z8>>;
		3 Vec<Vec<u8>>; 3 Vec<String>; 3 Vec<Option<Box<String>>>; 3 (Vec<u8>, String, Vec<()>, Box<Z8>, u8);
		3 Vec<(String, Vec<Z4>, Option<Vec<u32>>)>; 3 [Vec<Vec<u16>>; 3]; 2 Box<Vec<Box<Z2>>>;
		2 Option<Vec<Vec<()>>>; 2 (u8, (), u16, Z1, Vec<u8>); 2 Vec<Box<()>>; 2 BigInt; 2 Vec<BigUint>;
		2 Box<(String, u8)>; 2 Option<Option<Box<Vec<u64>>>>; 2 Vec<[String; 0]>; 2 Vec<Vec<[u8; 3]>>;
	};
	E
}

// Big integers on their own and in other values, in several configurations
macro_rules! bigs {
	($($w:literal $t:ty;)*) => {
		&[$((
			$w,
			Entry {
				name: stringify!($t),
				gen: type_gen!($t),
				factories: &[
					factory!($t, 16, 16, 8, max(16), false),
					factory!($t, 8, 8, 1, max(8), true),
					factory!($t, 64, 32, 32, ODD_MAX, false),
				],
			},
		)),*]
	};
}

static BIGS: &[(u64, Entry)] = bigs! {
	8 BigInt; 8 BigUint; 2 Vec<BigInt>; 2 Vec<BigUint>; 2 Box<BigInt>; 1 Box<BigUint>;
	2 Option<BigInt>; 2 Option<Box<BigUint>>; 2 [BigInt; 4]; 1 [BigUint; 3];
	2 (BigInt,); 2 (u8, BigInt, String, BigUint, u16, BigInt); 2 Vec<(BigUint, u8)>;
	1 Vec<Option<BigInt>>; 1 Vec<Vec<BigInt>>; 1 Box<[BigInt; 2]>; 1 (BigUint, Vec<u8>, BigInt);
	1 Vec<[BigInt; 2]>; 1 Option<Option<BigUint>>; 1 Box<(Pad<5000>, BigInt)>; 1 Vec<(BigUint, Pad<3000>, BigInt)>;
	1 Box<[BigUint; 150]>; 1 Box<(Pad<70000>, BigUint, u8)>;
};

fn for_bigs() -> &'static [(u64, Entry)] {
	use std::sync::Once;
	static mut ALL: Vec<(u64, Entry)> = Vec::new();
	static ONCE: Once = Once::new();
	unsafe {
		ONCE.call_once(|| {
			ALL = join(&[(NODES, 1), (BIGS, 4)]);
		});
		&ALL
	}
}

static EMPTY_MORE: &[(u64, Entry)] = entries! {
	1 "Z64, alignment 64" type_gen!(Z64), [
		factory!(Z64, 64, 64, 1, max(64), false),
		factory!(Z64, 64, 64, 64, max(64), true),
		factory!(Z64, 4096, 64, 8, max(4096), false),
	];
	1 "Vec<Z64>" type_gen!(Vec<Z64>), [factory!(Vec<Z64>, 64, 64, 8, max(64), true)];
	1 "[u64; 0], storage alignment 8" type_gen!([u64; 0]), [
		factory!([u64; 0], 8, 8, 1, max(8), true),
		factory!([u64; 0], 8, 8, 8, max(8), false),
	];
};

fn all() -> &'static [(u64, Entry)] {
	use std::sync::Once;
	static mut ALL: Vec<(u64, Entry)> = Vec::new();
	static ONCE: Once = Once::new();
	unsafe {
		ONCE.call_once(|| {
			ALL = join(&[(NODES, 40), (PLAIN, 2), (TUPLES, 2), (SMALL, 2), (WIDE, 1), (ALIGNED, 2)]);
		});
		&ALL
	}
}

fn join(parts: &[(&'static [(u64, Entry)], u64)]) -> Vec<(u64, Entry)> {
	let mut v = Vec::new();
	for &(p, m) in parts {
		for (w, e) in p {
			v.push((
				w * m,
				Entry {
					name: e.name,
					gen: e.gen,
					factories: e.factories,
				},
			));
		}
	}
	v
}

fn for_empty() -> &'static [(u64, Entry)] {
	use std::sync::Once;
	static mut ALL: Vec<(u64, Entry)> = Vec::new();
	static ONCE: Once = Once::new();
	unsafe {
		ONCE.call_once(|| {
			ALL = join(&[(NODES, 8), (empties(), 2), (EMPTY_MORE, 4)]);
		});
		&ALL
	}
}

fn main() {
	let _: Option<MixA> = None;
	engine::main(&[
		Prop { id: "C01", f: |s, c| c01(s, c, all()) },
		Prop { id: "C02", f: |s, c| c02(s, c, all()) },
		Prop { id: "C03", f: |s, c| c03(s, c, all()) },
		Prop { id: "C04", f: |s, c| c04(s, c, all()) },
		Prop { id: "C05", f: |s, c| c05(s, c, all()) },
		Prop { id: "C06", f: |s, c| c06(s, c, all()) },
		Prop { id: "C07", f: |s, c| c07(s, c, all()) },
		Prop { id: "C11", f: |s, c| c11(s, c, all()) },
		Prop { id: "C19", f: |s, c| c19(s, c, for_bigs()) },
		Prop { id: "C20", f: |s, c| c20(s, c, for_empty()) },
		Prop { id: "C21", f: |s, c| c21(s, c, all()) },
		Prop { id: "C01+big", f: |s, c| big::values(s, c, Kind::Complete) },
		Prop { id: "C04+big", f: |s, c| big::values(s, c, Kind::Offset) },
		Prop { id: "C05+big", f: |s, c| big::values(s, c, Kind::Pure) },
	]);
}

//! Values of many types, serialized in sessions by every kind of serializer,
//! and looked at in the output through offsets.

use std::{
	mem::{size_of, ManuallyDrop},
	num::NonZeroU16,
	sync::atomic::{AtomicUsize, Ordering::Relaxed},
};

#[cfg(feature = "num_bigint")]
use num_bigint::{BigInt, BigUint, Sign};
use ser_raw::{
	pos::{Addr, PosMapping, Ptrs},
	storage::{AlignedVec, ContiguousStorage, RandomAccessStorage, Storage},
	CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serialize, SerializeWith, Serializer,
};

use crate::engine::{catching, Ctx, PropResult, Src};

const MAX: usize = 1 << 30;

// Stand in for them where there are none
#[cfg(not(feature = "num_bigint"))]
type BigUint = String;
#[cfg(not(feature = "num_bigint"))]
type BigInt = Box<u16>;

pub struct Fuel(pub i64);

impl Fuel {
	fn spend(&mut self) -> bool {
		self.0 -= 1;
		self.0 >= 0
	}
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
	Pure,
	Offset,
	Complete,
}

/// Output being read
pub struct Rd {
	out: *const u8,
	len: usize,
	kind: Kind,
	leaves: usize,
}

impl Rd {
	/// Bytes of a leaf: reading them says they are initialised
	fn leaf<T: Copy + PartialEq + std::fmt::Debug>(&mut self, v: &T, at: usize) -> PropResult {
		if at + size_of::<T>() > self.len {
			return Err(format!("{} lies beyond the output ({} of {})", std::any::type_name::<T>(), at, self.len));
		}
		let got: T = unsafe { (self.out.add(at) as *const T).read_unaligned() };
		self.leaves += 1;
		if got == *v {
			Ok(())
		} else {
			Err(format!("{:?} became {:?}", v, got))
		}
	}

	/// Where a pointer leads, and how far it can be used
	fn target(&mut self, at: usize, size: usize, align: usize) -> Result<usize, String> {
		if at + size_of::<usize>() > self.len {
			return Err("pointer beyond the output".into());
		}
		let w = unsafe { (self.out.add(at) as *const usize).read_unaligned() };
		let p = match self.kind {
			Kind::Offset => w,
			_ => w.wrapping_sub(self.out as usize),
		};
		if p > self.len || size > self.len - p {
			return Err(format!("pointer leads to {:#x}, {} bytes, of {}", p, size, self.len));
		}
		if p % align != 0 {
			return Err(format!("pointer leads to {:#x}, which is not aligned to {}", p, align));
		}
		Ok(p)
	}
}

/// (offset of ptr, cap, len words) in `Vec`
fn vec_words() -> (usize, usize, usize) {
	static CACHE: AtomicUsize = AtomicUsize::new(0);
	let c = CACHE.load(Relaxed);
	if c != 0 {
		return (c & 0xff, (c >> 8) & 0xff, (c >> 16) & 0xff);
	}
	let mut v: Vec<u64> = Vec::with_capacity(77);
	v.extend_from_slice(&[1, 2, 3]);
	assert_eq!(v.capacity(), 77);
	let w: [usize; 3] = unsafe { std::ptr::read(&v as *const Vec<u64> as *const [usize; 3]) };
	let find = |x: usize| w.iter().position(|&y| y == x).unwrap() * size_of::<usize>();
	let r = (find(v.as_ptr() as usize), find(77), find(3));
	CACHE.store(r.0 | r.1 << 8 | r.2 << 16 | 1 << 30, Relaxed);
	r
}

fn off<A, B>(whole: &A, part: &B) -> usize {
	part as *const B as usize - whole as *const A as usize
}

pub trait V: Sized + 'static {
	fn gen(s: &mut Src, f: &mut Fuel) -> Self;
	/// Compare with what is at `at` in output
	fn check(&self, r: &mut Rd, at: usize) -> PropResult;
	fn owns(&self) -> bool {
		false
	}
}

macro_rules! leaf {
	($($t:ty: $g:expr;)*) => {
		$(impl V for $t {
			fn gen(s: &mut Src, _f: &mut Fuel) -> Self {
				let f: fn(&mut Src) -> $t = $g;
				f(s)
			}
			fn check(&self, r: &mut Rd, at: usize) -> PropResult {
				r.leaf(self, at)
			}
		})*
	};
}
leaf! {
	u8: |s| s.int() as u8;
	u16: |s| s.int() as u16;
	u32: |s| s.int() as u32;
	u64: |s| s.int();
	u128: |s| (s.int() as u128) << 64 | s.int() as u128;
	i8: |s| s.int() as i8;
	i64: |s| s.int() as i64;
	bool: |s| s.chance(1, 2);
	char: |s| char::from_u32(s.below(0xD800) as u32).unwrap();
	NonZeroU16: |s| NonZeroU16::new(s.int() as u16).unwrap_or(NonZeroU16::MIN1);
	(): |_| ();
}
trait Min1 {
	const MIN1: Self;
}
impl Min1 for NonZeroU16 {
	const MIN1: NonZeroU16 = match NonZeroU16::new(1) {
		Some(v) => v,
		None => panic!(),
	};
}

/// Has padding, and owns nothing
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C)]
pub struct Padded(pub u8, pub u32, pub u16);
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(align(16))]
pub struct Al16(pub u8, pub u8);
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Odd(pub [u8; 3]);
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(align(8))]
pub struct Z8;

macro_rules! plain {
	($($t:ident($($i:tt $g:expr),*);)*) => {
		$(
			impl<S: Serializer> Serialize<S> for $t {
				fn serialize_data(&self, _s: &mut S) {}
			}
			impl V for $t {
				fn gen(_s: &mut Src, _f: &mut Fuel) -> Self {
					$(let $i = $g(_s);)*
					plain!(@make $t $($i)*)
				}
				#[allow(unused)]
				fn check(&self, r: &mut Rd, at: usize) -> PropResult {
					plain!(@check self r at $t $($i)*)
				}
			}
		)*
	};
	(@make Z8) => { Z8 };
	(@make Odd $($i:ident)*) => { Odd([$($i),*]) };
	(@make $t:ident $($i:ident)*) => { $t($($i),*) };
	(@check $s:ident $r:ident $at:ident Z8) => { Ok(()) };
	(@check $s:ident $r:ident $at:ident Odd $($i:ident)*) => { $r.leaf(&$s.0, $at) };
	(@check $s:ident $r:ident $at:ident Padded $($i:ident)*) => {{
		$r.leaf(&$s.0, $at + off($s, &$s.0))?;
		$r.leaf(&$s.1, $at + off($s, &$s.1))?;
		$r.leaf(&$s.2, $at + off($s, &$s.2))
	}};
	(@check $s:ident $r:ident $at:ident Al16 $($i:ident)*) => {{
		$r.leaf(&$s.0, $at + off($s, &$s.0))?;
		$r.leaf(&$s.1, $at + off($s, &$s.1))
	}};
}
fn b(s: &mut Src) -> u8 {
	s.int() as u8
}
plain! {
	Padded(x b, y |s: &mut Src| s.int() as u32, z |s: &mut Src| s.int() as u16);
	Al16(x b, y b);
	Odd(x b, y b, z b);
	Z8();
}

impl<T: V> V for Vec<T> {
	fn gen(s: &mut Src, f: &mut Fuel) -> Self {
		let n = match s.below(6) {
			0 => 0,
			1 => 1,
			2 => s.range(0, 9),
			3 => s.range(0, 33),
			_ => s.range(0, 3),
		};
		let spare = if s.chance(1, 2) { s.range(0, 9) } else { 0 };
		let mut v = Vec::with_capacity(n + spare);
		for _ in 0..n {
			if !f.spend() {
				break;
			}
			v.push(T::gen(s, f));
		}
		v
	}
	fn check(&self, r: &mut Rd, at: usize) -> PropResult {
		let (p, c, l) = vec_words();
		r.leaf(&self.len(), at + l)?;
		if r.kind == Kind::Complete && size_of::<T>() > 0 {
			r.leaf(&self.len(), at + c)?;
		}
		if r.kind != Kind::Pure && self.len() * size_of::<T>() > 0 {
			let t = r.target(at + p, self.len() * size_of::<T>(), std::mem::align_of::<T>())?;
			for (i, x) in self.iter().enumerate() {
				x.check(r, t + i * size_of::<T>())?;
			}
		}
		Ok(())
	}
	fn owns(&self) -> bool {
		self.len() * size_of::<T>() > 0
	}
}

impl V for String {
	fn gen(s: &mut Src, f: &mut Fuel) -> Self {
		let v = Vec::<char>::gen(s, f);
		let spare = if s.chance(1, 2) { s.range(0, 9) } else { 0 };
		let mut o = String::with_capacity(v.len() + spare);
		o.extend(v);
		o
	}
	fn check(&self, r: &mut Rd, at: usize) -> PropResult {
		let (p, c, l) = vec_words();
		r.leaf(&self.len(), at + l)?;
		if r.kind == Kind::Complete {
			r.leaf(&self.len(), at + c)?;
		}
		if r.kind != Kind::Pure && !self.is_empty() {
			let t = r.target(at + p, self.len(), 1)?;
			for (i, x) in self.bytes().enumerate() {
				r.leaf(&x, t + i)?;
			}
		}
		Ok(())
	}
	fn owns(&self) -> bool {
		!self.is_empty()
	}
}

impl<T: V> V for Box<T> {
	fn gen(s: &mut Src, f: &mut Fuel) -> Self {
		Box::new(T::gen(s, f))
	}
	fn check(&self, r: &mut Rd, at: usize) -> PropResult {
		if r.kind != Kind::Pure && size_of::<T>() > 0 {
			let t = r.target(at, size_of::<T>(), std::mem::align_of::<T>())?;
			(**self).check(r, t)?;
		}
		Ok(())
	}
	fn owns(&self) -> bool {
		size_of::<T>() > 0
	}
}

impl<T: V> V for Option<T> {
	fn gen(s: &mut Src, f: &mut Fuel) -> Self {
		if s.chance(2, 3) && f.spend() {
			Some(T::gen(s, f))
		} else {
			None
		}
	}
	fn check(&self, r: &mut Rd, at: usize) -> PropResult {
		match self {
			Some(v) => v.check(r, at + off(self, v)),
			None => Ok(()),
		}
	}
	fn owns(&self) -> bool {
		self.as_ref().map_or(false, |v| v.owns())
	}
}

impl<T: V, const N: usize> V for [T; N] {
	fn gen(s: &mut Src, f: &mut Fuel) -> Self {
		std::array::from_fn(|_| T::gen(s, f))
	}
	fn check(&self, r: &mut Rd, at: usize) -> PropResult {
		for x in self {
			x.check(r, at + off(self, x))?;
		}
		Ok(())
	}
	fn owns(&self) -> bool {
		self.iter().any(|v| v.owns())
	}
}

macro_rules! structs {
	($($(#[$m:meta])* $t:ty { $($f:tt: $ft:ty),* } $make:expr;)*) => {
		$(#[allow(unused)]
		impl V for $t {
			fn gen(s: &mut Src, f: &mut Fuel) -> Self {
				let make: fn($($ft),*) -> $t = $make;
				make($(<$ft as V>::gen(s, f)),*)
			}
			fn check(&self, r: &mut Rd, at: usize) -> PropResult {
				$(self.$f.check(r, at + off(self, &self.$f))?;)*
				Ok(())
			}
			fn owns(&self) -> bool {
				false $(|| self.$f.owns())*
			}
		})*
	};
}

#[cfg_attr(feature = "derive", derive(Serialize))]
pub struct Rec {
	pub serializer: Vec<Node>,
	pub a: u8,
	pub b: Option<Box<Node>>,
	pub c: String,
	pub d: Padded,
}

#[cfg_attr(feature = "derive", derive(Serialize))]
pub struct Gen<const N: usize>(pub Vec<u8>, pub [Box<u16>; N], #[cfg_attr(feature = "derive", ser_with(Via))] pub Foreign);

#[cfg_attr(feature = "derive", derive(Serialize))]
pub struct Unit;

/// What the derive does, by hand
#[cfg(not(feature = "derive"))]
mod by_hand {
	use super::*;

	impl<S: Serializer> Serialize<S> for Rec {
		fn serialize_data(&self, s: &mut S) {
			self.serializer.serialize_data(s);
			self.a.serialize_data(s);
			self.b.serialize_data(s);
			self.c.serialize_data(s);
			self.d.serialize_data(s);
		}
	}
	impl<S: Serializer, const N: usize> Serialize<S> for Gen<N> {
		fn serialize_data(&self, s: &mut S) {
			self.0.serialize_data(s);
			self.1.serialize_data(s);
			Via::serialize_data_with(&self.2, s);
		}
	}
	impl<S: Serializer> Serialize<S> for Unit {
		fn serialize_data(&self, _: &mut S) {}
	}
}

structs! {
	Rec { serializer: Vec<Node>, a: u8, b: Option<Box<Node>>, c: String, d: Padded }
		|serializer, a, b, c, d| Rec { serializer, a, b, c, d };
	Gen<2> { 0: Vec<u8>, 1: [Box<u16>; 2], 2: Foreign } |a, b, c| Gen(a, b, c);
	Gen<0> { 0: Vec<u8>, 1: [Box<u16>; 0], 2: Foreign } |a, b, c| Gen(a, b, c);
	Unit {} || Unit;
	(u8,) { 0: u8 } |a| (a,);
	(u8, Vec<Odd>) { 0: u8, 1: Vec<Odd> } |a, b| (a, b);
	(Box<u8>, u64, String) { 0: Box<u8>, 1: u64, 2: String } |a, b, c| (a, b, c);
	(u8, (), Z8, Vec<()>) { 0: u8, 1: (), 2: Z8, 3: Vec<()> } |a, b, c, d| (a, b, c, d);
}

/// Serialized by hand, through a proxy
pub struct Foreign {
	pub tag: u8,
	pub data: Vec<u16>,
	pub more: ManuallyDrop<Box<u32>>,
}

impl Drop for Foreign {
	fn drop(&mut self) {
		unsafe { ManuallyDrop::drop(&mut self.more) }
	}
}

pub struct Via;

impl<S: Serializer> SerializeWith<Foreign, S> for Via {
	fn serialize_data_with(v: &Foreign, s: &mut S) {
		let (p, c, _) = vec_words();
		if !v.data.is_empty() {
			s.push_and_process_slice(v.data.as_slice(), S::Addr::from_ref_offset(&v.data, p), |s| {
				s.overwrite_with(|_| {});
			});
			s.overwrite_with(|s| unsafe { s.overwrite(S::Addr::from_ref_offset(&v.data, c), &v.data.len()) });
		} else {
			// As the library does for its own
			v.data.serialize_data(s);
		}
		s.push(&**v.more, S::Addr::from_ref(&v.more));
	}
}

impl V for Foreign {
	fn gen(s: &mut Src, f: &mut Fuel) -> Self {
		Foreign {
			tag: u8::gen(s, f),
			data: V::gen(s, f),
			more: ManuallyDrop::new(V::gen(s, f)),
		}
	}
	fn check(&self, r: &mut Rd, at: usize) -> PropResult {
		r.leaf(&self.tag, at + off(self, &self.tag))?;
		self.data.check(r, at + off(self, &self.data))?;
		(*self.more).check(r, at + off(self, &*self.more))
	}
	fn owns(&self) -> bool {
		true
	}
}

#[cfg(feature = "num_bigint")]
impl V for BigUint {
	fn gen(s: &mut Src, _f: &mut Fuel) -> Self {
		let n = [0, 1, 2, 3, 9][s.usize_below(5)];
		let mut v = BigUint::new((0..n).map(|_| s.int() as u32).collect());
		if s.chance(1, 3) {
			// Leave digits of capacity unused
			v >>= 32usize * s.range(0, 9);
		}
		v
	}
	fn check(&self, r: &mut Rd, at: usize) -> PropResult {
		#[cfg(target_pointer_width = "64")]
		let digits = self.to_u64_digits();
		#[cfg(not(target_pointer_width = "64"))]
		let digits = self.to_u32_digits();
		let (p, _, l) = vec_words();
		r.leaf(&digits.len(), at + l)?;
		if r.kind != Kind::Pure && !digits.is_empty() {
			let t = r.target(at + p, digits.len() * size_of::<usize>(), std::mem::align_of::<usize>())?;
			for (i, d) in digits.iter().enumerate() {
				r.leaf(d, t + i * size_of::<usize>())?;
			}
		}
		Ok(())
	}
	fn owns(&self) -> bool {
		self.bits() > 0
	}
}

#[cfg(feature = "num_bigint")]
impl V for BigInt {
	fn gen(s: &mut Src, f: &mut Fuel) -> Self {
		let sign = if s.chance(1, 2) { Sign::Minus } else { Sign::Plus };
		BigInt::from_biguint(sign, BigUint::gen(s, f))
	}
	fn check(&self, r: &mut Rd, at: usize) -> PropResult {
		// `magnitude` lends the number within
		let m = self.magnitude();
		m.check(r, at + off(self, m))
	}
	fn owns(&self) -> bool {
		self.magnitude().owns()
	}
}

macro_rules! node {
	($($v:ident($t:ty) $w:literal)*) => {
		#[cfg_attr(feature = "derive", derive(Serialize))]
		pub enum Node {
			Unit,
			$($v($t),)*
			Named { serializer: Box<Node>, value: String, b: u8 },
		}
		#[cfg(not(feature = "derive"))]
		impl<S: Serializer> Serialize<S> for Node {
			fn serialize_data(&self, s: &mut S) {
				match self {
					Node::Unit => {}
					$(Node::$v(x) => x.serialize_data(s),)*
					Node::Named { serializer, value, b } => {
						serializer.serialize_data(s);
						value.serialize_data(s);
						b.serialize_data(s);
					}
				}
			}
		}
		impl V for Node {
			fn gen(s: &mut Src, f: &mut Fuel) -> Self {
				if !f.spend() {
					return Node::Unit;
				}
				let w = [1, 2 $(, $w)*];
				let k = s.weighted(&w);
				if k == 0 {
					return Node::Unit;
				}
				if k == 1 {
					return Node::Named { serializer: V::gen(s, f), value: V::gen(s, f), b: V::gen(s, f) };
				}
				#[allow(unused_mut)]
				let mut i = 1;
				$(
					i += 1;
					if k == i {
						return Node::$v(<$t as V>::gen(s, f));
					}
				)*
				unreachable!()
			}
			fn check(&self, r: &mut Rd, at: usize) -> PropResult {
				match self {
					Node::Unit => Ok(()),
					$(Node::$v(x) => x.check(r, at + off(self, x)),)*
					Node::Named { serializer, value, b } => {
						serializer.check(r, at + off(self, serializer))?;
						value.check(r, at + off(self, value))?;
						b.check(r, at + off(self, b))
					}
				}
			}
			fn owns(&self) -> bool {
				match self {
					Node::Unit => false,
					$(Node::$v(x) => x.owns(),)*
					Node::Named { .. } => true,
				}
			}
		}
	};
}
node! {
	Byte(u8) 1
	Wide(u128) 1
	Flag(bool) 1
	Ch(Option<char>) 1
	Nz(Option<NonZeroU16>) 1
	List(Vec<Node>) 4
	Text(String) 3
	Texts(Vec<String>) 2
	Bytes(Vec<u8>) 3
	Padded(Vec<Padded>) 3
	Odds(Box<[Odd; 3]>) 2
	Over(Vec<Al16>) 3
	OverBox(Box<Al16>) 2
	Zs(Vec<Z8>) 1
	ZBox(Box<Z8>) 1
	Unit1(Vec<()>) 1
	Opt(Option<Box<Node>>) 3
	OptVec(Option<Vec<i64>>) 2
	Arr([Box<u32>; 2]) 2
	NoArr([Vec<u8>; 0]) 1
	Tup((Box<u8>, u64, String)) 2
	Tup2(Box<(u8, Vec<Odd>)>) 2
	Tup4(Box<(u8, (), Z8, Vec<()>)>) 2
	R(Box<Rec>) 3
	G(Gen<2>) 2
	G0(Gen<0>) 2
	Nested(Vec<Vec<Vec<u8>>>) 2
	BoxBox(Box<Box<Box<i8>>>) 1
	OptVecs(Vec<Option<Vec<u16>>>) 2
	Big(BigInt) 3
	BigU(Vec<BigUint>) 2
	Strs(Box<String>) 1
}

#[path = "lanes.rs"]
pub mod lanes;

// ---- serializers ----------------------------------------------------------

/// Derived, with its own storage type and extra fields
#[derive(Serializer)]
#[ser_type(complete)]
pub struct Own<X> {
	#[ser_storage(AlignedVec<16, 16, 4>)]
	storage: AlignedVec<16, 16, 4>,
	#[allow(unused)]
	x: X,
	#[ser_pos_mapping]
	mapping: PosMapping,
	#[ser_ptrs]
	ptrs: Ptrs,
}

#[derive(Serializer)]
#[ser_type(ptr_offset)]
pub struct OwnOffset<'a> {
	#[ser_pos_mapping]
	mapping: PosMapping,
	#[ser_storage(AlignedVec<32, 32, 1, MAX>)]
	storage: &'a mut AlignedVec<32, 32, 1, MAX>,
}

#[derive(Serializer)]
#[ser_type(pos_tracking)]
pub struct Track {
	#[ser_pos_mapping]
	mapping: PosMapping,
	#[ser_storage(AlignedVec)]
	storage: AlignedVec,
}

struct Panicky<'a>(&'a Node, u8);

impl<'a, S: Serializer> Serialize<S> for Panicky<'a>
where Node: Serialize<S>
{
	fn serialize_data(&self, s: &mut S) {
		s.push_and_process(self.0, S::Addr::from_ref(&self.0), |s| {
			if self.1 == 0 {
				panic!("as asked");
			}
			self.0.serialize_data(s);
			if self.1 == 1 {
				panic!("as asked");
			}
		});
	}
}

enum Step {
	Value(Node),
	Byte(u8),
	Words(Vec<u16>),
	Bytes(Vec<u8>),
	Empty(usize),
	Reserve(usize),
	Shrink,
	Panic(Node, u8),
}

fn gen_steps(s: &mut Src) -> Vec<Step> {
	let n = s.range(1, 4);
	let mut v: Vec<Step> = (0..n)
		.map(|_| match s.weighted(&[8, 1, 1, 1, 1, 1, 1, 1]) {
			0 => {
				let fuel = [3, 12, 40][s.usize_below(3)];
				Step::Value(Node::gen(s, &mut Fuel(fuel)))
			}
			1 => Step::Byte(s.int() as u8),
			2 => Step::Words(V::gen(s, &mut Fuel(9))),
			3 => Step::Bytes(V::gen(s, &mut Fuel(40))),
			4 => Step::Empty(s.range(0, 9)),
			5 => Step::Reserve(s.range(0, 300)),
			6 => Step::Shrink,
			_ => Step::Panic(Node::gen(s, &mut Fuel(12)), s.below(3) as u8),
		})
		.collect();
	if s.chance(1, 2) {
		v.push(Step::Value(Node::gen(s, &mut Fuel(20))));
	}
	v
}

/// Where values and raw data are
type Placed = Vec<(usize, usize)>;

fn run<S: Serializer>(ser: &mut S, steps: &[Step]) -> Placed
where Node: Serialize<S>
{
	let mut at = Vec::new();
	for (i, step) in steps.iter().enumerate() {
		let pos = match step {
			Step::Value(v) => ser.serialize_value(v),
			Step::Byte(b) => ser.push_raw(b),
			Step::Words(w) => ser.push_raw_slice(w.as_slice()),
			Step::Bytes(b) => ser.push_raw_bytes(b),
			Step::Empty(n) => ser.push_empty_slice::<u64>(*n),
			Step::Reserve(n) => {
				ser.storage_mut().reserve(*n);
				continue;
			}
			Step::Shrink => {
				ser.storage_mut().shrink_to_fit();
				continue;
			}
			Step::Panic(v, how) => {
				let _ = catching(|| ser.serialize_value(&Panicky(v, *how)));
				continue;
			}
		};
		at.push((i, pos));
	}
	at
}

fn check(steps: &[Step], at: &Placed, out: *const u8, len: usize, kind: Kind) -> Result<usize, String> {
	let mut r = Rd { out, len, kind, leaves: 0 };
	for &(i, pos) in at {
		match &steps[i] {
			Step::Value(v) => v.check(&mut r, pos)?,
			Step::Byte(b) => r.leaf(b, pos)?,
			Step::Words(w) => {
				for (k, x) in w.iter().enumerate() {
					r.leaf(x, pos + 2 * k)?;
				}
			}
			Step::Bytes(w) => {
				for (k, x) in w.iter().enumerate() {
					r.leaf(x, pos + k)?;
				}
			}
			_ => {}
		}
	}
	Ok(r.leaves)
}

/// Read plain data through the storage's own means
fn reads<S: RandomAccessStorage>(st: &mut S, steps: &[Step], at: &Placed) -> PropResult {
	for &(i, pos) in at {
		match &steps[i] {
			Step::Byte(b) if unsafe { *st.read::<u8>(pos) } != *b => return Err("byte read differs".into()),
			Step::Words(w) => {
				for (k, x) in w.iter().enumerate() {
					let m = unsafe { st.read_mut::<u16>(pos + 2 * k) };
					if *m != *x {
						return Err("word read differs".into());
					}
					*m = !*x;
					let p = unsafe { st.ptr(pos + 2 * k) } as *const u16;
					if unsafe { *p } != !*x {
						return Err("word written differs".into());
					}
				}
			}
			_ => {}
		}
	}
	Ok(())
}

struct Done {
	leaves: usize,
	len: usize,
}

fn finish<S: Storage + ContiguousStorage + RandomAccessStorage>(st: &mut S, steps: &[Step], at: &Placed, kind: Kind) -> Result<Done, String> {
	let (p, len) = (st.as_ptr(), st.pos());
	let leaves = check(steps, at, p, len, kind)?;
	if kind == Kind::Offset && len > 0 {
		// Decoded elsewhere
		let mut copy: Vec<std::mem::MaybeUninit<u8>> = Vec::with_capacity(len);
		unsafe {
			std::ptr::copy_nonoverlapping(p, copy.as_mut_ptr() as *mut u8, len);
			copy.set_len(len);
		}
		check(steps, at, copy.as_ptr() as *const u8, len, kind)?;
	}
	reads(st, steps, at)?;
	Ok(Done { leaves, len })
}

fn kinds<const SA: usize, const MVA: usize, const VA: usize>(s: &mut Src, steps: &[Step], ctx: &mut Ctx) -> Result<Done, String> {
	let kind = [Kind::Complete, Kind::Offset, Kind::Pure][s.usize_below(3)];
	ctx.label(&format!("{:?}", kind));
	let how = s.below(4);
	ctx.label(["new", "capacity", "lent", "used before"][how as usize]);
	let cap = s.range(0, 40) * MVA + MVA;
	type A<const SA: usize, const MVA: usize, const VA: usize> = AlignedVec<SA, MVA, VA, MAX>;
	let mut st: A<SA, MVA, VA> = A::new();
	if how >= 2 {
		st.reserve(s.range(0, 200));
	}
	if how == 3 {
		for i in 0..s.range(1, 60) {
			st.push(&(i as u32));
		}
		match s.below(3) {
			0 => st.clear(),
			1 => {
				st.clear();
				st.shrink_to_fit()
			}
			_ => {}
		}
	}
	macro_rules! go {
		($t:ident) => {
			match how {
				0 => {
					let mut ser = $t::<SA, MVA, VA, MAX, _>::new();
					let at = run(&mut ser, steps);
					finish(&mut ser.finalize(), steps, &at, kind)
				}
				1 => {
					let mut ser = $t::<SA, MVA, VA, MAX, _>::with_capacity(cap);
					let at = run(&mut ser, steps);
					finish(&mut ser.finalize(), steps, &at, kind)
				}
				2 => {
					let mut ser = $t::from_storage(&mut st);
					let at = run(&mut ser, steps);
					let st = ser.finalize();
					finish(st, steps, &at, kind)
				}
				_ => {
					let mut ser = $t::from_storage(st);
					let at = run(&mut ser, steps);
					finish(&mut ser.finalize(), steps, &at, kind)
				}
			}
		};
	}
	match kind {
		Kind::Complete => go!(CompleteSerializer),
		Kind::Offset => go!(PtrOffsetSerializer),
		Kind::Pure => go!(PureCopySerializer),
	}
}

fn show(steps: &[Step]) -> String {
	steps
		.iter()
		.map(|s| match s {
			Step::Value(_) => "value".to_string(),
			Step::Byte(b) => format!("byte {}", b),
			Step::Words(w) => format!("words {:?}", w),
			Step::Bytes(w) => format!("bytes {:?}", w),
			Step::Empty(n) => format!("empty {}", n),
			Step::Reserve(n) => format!("reserve {}", n),
			Step::Shrink => "shrink".into(),
			Step::Panic(..) => "panic in serialize_data".into(),
		})
		.collect::<Vec<_>>()
		.join(", ")
}

pub fn session(s: &mut Src, ctx: &mut Ctx) -> PropResult {
	let steps = gen_steps(s);
	let owns = steps.iter().any(|x| matches!(x, Step::Value(v) if v.owns()));
	ctx.label("session");
	let config = s.below(7);
	ctx.sample(|| format!("session, configuration {}: {}", config, show(&steps)));
	let d = match config {
		0 => kinds::<16, 16, 8>(s, &steps, ctx)?,
		1 => kinds::<16, 16, 1>(s, &steps, ctx)?,
		2 => kinds::<16, 16, 16>(s, &steps, ctx)?,
		3 => kinds::<64, 16, 4>(s, &steps, ctx)?,
		4 => {
			ctx.label("derived complete");
			let mut ser = Own {
				storage: AlignedVec::new(),
				x: "x".to_string(),
				mapping: PosMapping::dummy(),
				ptrs: Ptrs::new(),
			};
			let at = run(&mut ser, &steps);
			finish(&mut ser.finalize(), &steps, &at, Kind::Complete)?
		}
		5 => {
			ctx.label("derived offset");
			let mut st = AlignedVec::with_capacity(64);
			let ser = &mut OwnOffset {
				storage: &mut st,
				mapping: PosMapping::dummy(),
			};
			let at = run(ser, &steps);
			finish(&mut st, &steps, &at, Kind::Offset)?
		}
		_ => {
			ctx.label("derived tracking");
			let mut ser = Track {
				storage: AlignedVec::new(),
				mapping: PosMapping::dummy(),
			};
			let at = run(&mut ser, &steps);
			finish(&mut ser.finalize(), &steps, &at, Kind::Pure)?
		}
	};
	ctx.nontrivial = owns && d.leaves > 0 && d.len > 0;
	Ok(())
}

/// One value, several serializers at once, and storages which change threads
pub fn threads(s: &mut Src, ctx: &mut Ctx) -> PropResult {
	let steps = vec![Step::Value(Node::gen(s, &mut Fuel(20)))];
	ctx.label("threads");
	ctx.sample(|| "one value on two threads".into());
	ctx.nontrivial = matches!(&steps[0], Step::Value(v) if v.owns());
	let done: Result<Vec<()>, String> = std::thread::scope(|sc| {
		let steps = &steps;
		let a = sc.spawn(move || {
			let mut ser = CompleteSerializer::<16, 16, 8, MAX, _>::new();
			let at = run(&mut ser, steps);
			(ser.finalize(), at)
		});
		let b = sc.spawn(move || {
			let mut ser = PtrOffsetSerializer::<16, 16, 8, MAX, _>::new();
			let at = run(&mut ser, steps);
			(ser.finalize(), at)
		});
		let (mut x, at) = a.join().map_err(|_| "panicked on a thread".to_string())?;
		finish(&mut x, steps, &at, Kind::Complete)?;
		let (y, at) = b.join().map_err(|_| "panicked on a thread".to_string())?;
		let mut y = y;
		finish(&mut y, steps, &at, Kind::Offset)?;
		// Read from two threads at once
		let (p, len) = (&y, y.pos());
		let both = std::thread::scope(|sc| {
			let c = sc.spawn(move || p.pos() == len && p.capacity() >= len);
			let same = p.pos() == len;
			c.join().unwrap() && same
		});
		if !both {
			return Err("position read differs".into());
		}
		Ok(vec![()])
	});
	done.map(|_| ())
}

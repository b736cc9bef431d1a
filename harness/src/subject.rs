//! Type-erased access to the code under test: a storage with fixed parameters
//! and the three serializers for one type of value.

use std::{marker::PhantomData, mem::size_of};

use ser_raw::{
	storage::{AlignedVec, ContiguousStorage, RandomAccessStorage, Storage},
	CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serialize, Serializer,
};

use crate::{
	alloc,
	model::{Image, Kind, Model, Out},
};

#[derive(Clone, Copy, Debug)]
pub struct Params {
	pub sa: usize,
	pub mva: usize,
	pub va: usize,
	pub max: usize,
	pub borrowed: bool,
}

/// Raw pushes which may come between values
#[derive(Clone, Debug)]
pub enum Raw {
	U8(u8),
	U16(u16),
	U32(u32),
	U64(u64),
	Bytes(Vec<u8>),
	U16s(Vec<u16>),
	U64s(Vec<u64>),
	EmptyU8(usize),
	EmptyU32(usize),
	EmptyU64(usize),
	EmptyOneU64,
	Three([u8; 3]),
}

impl Raw {
	/// (size, align, bytes if any written)
	pub fn spec(&self) -> (usize, usize, Option<Vec<u8>>) {
		fn cat<const N: usize, T: Copy>(v: &[T], f: impl Fn(T) -> [u8; N]) -> Vec<u8> {
			v.iter().flat_map(|&x| f(x)).collect()
		}
		match self {
			Raw::U8(v) => (1, 1, Some(vec![*v])),
			Raw::U16(v) => (2, 2, Some(v.to_le_bytes().to_vec())),
			Raw::U32(v) => (4, 4, Some(v.to_le_bytes().to_vec())),
			Raw::U64(v) => (8, 8, Some(v.to_le_bytes().to_vec())),
			Raw::Bytes(v) => (v.len(), 1, Some(v.clone())),
			Raw::U16s(v) => (v.len() * 2, 2, Some(cat(v, u16::to_le_bytes))),
			Raw::U64s(v) => (v.len() * 8, 8, Some(cat(v, u64::to_le_bytes))),
			Raw::EmptyU8(n) => (*n, 1, None),
			Raw::EmptyU32(n) => (4 * n, 4, None),
			Raw::EmptyU64(n) => (8 * n, 8, None),
			Raw::EmptyOneU64 => (8, 8, None),
			Raw::Three(v) => (3, 1, Some(v.to_vec())),
		}
	}
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How {
	/// `Ser::new()`
	New,
	/// `Ser::with_capacity(n)`
	Cap(usize),
	/// `Ser::from_storage(..)` with existing storage
	From,
}

pub trait Ses {
	/// `v` points to a value of the type this was made for
	fn value(&mut self, v: *const ()) -> usize;
	fn raw(&mut self, op: &Raw) -> usize;
	fn reserve(&mut self, n: usize);
	fn shrink(&mut self);
	fn pos(&self) -> usize;
	fn cap(&self) -> usize;
	fn base(&self) -> usize;
}

pub trait Store {
	fn params(&self) -> Params;
	fn pos(&self) -> usize;
	fn cap(&self) -> usize;
	fn base(&self) -> usize;
	/// Replace storage with a new one
	fn renew(&mut self, cap: Option<usize>);
	fn clear(&mut self);
	fn shrink(&mut self);
	fn reserve(&mut self, n: usize);
	fn push_bytes(&mut self, b: &[u8]) -> usize;
	/// `push_empty_slice::<u8>`
	fn skip(&mut self, n: usize) -> usize;
	fn session(&mut self, kind: Kind, how: How, f: &mut dyn FnMut(&mut dyn Ses));
	/// `serialize`
	fn one_shot(&mut self, kind: Kind, how: How, v: *const ()) -> usize;
	/// Address of `storage.read::<T>(pos)`
	fn read_addr(&self, pos: usize) -> usize;

	fn out(&self) -> Out {
		Out {
			data: self.base() as *const u8,
			base: self.base(),
			len: self.pos(),
		}
	}
}

/// Blocks of the storage's alignment go to the arena while this lives
pub struct Track(usize);
impl Track {
	pub fn on(align: usize) -> Track {
		Track(alloc::track(align))
	}
}
impl Drop for Track {
	fn drop(&mut self) {
		alloc::track(self.0);
	}
}

pub struct St<
	T,
	R,
	const SA: usize,
	const MVA: usize,
	const VA: usize,
	const MAX: usize,
	const BORROWED: bool,
> {
	v: AlignedVec<SA, MVA, VA, MAX>,
	t: PhantomData<(T, R)>,
}

struct Ss<T, R, S> {
	s: S,
	t: PhantomData<(T, R)>,
}

impl<T, R, S> Ses for Ss<T, R, S>
where
	R: RawSel,
	S: Serializer,
	S::Storage: ContiguousStorage,
	T: Serialize<S>,
{
	fn value(&mut self, v: *const ()) -> usize {
		self.s.serialize_value(unsafe { &*(v as *const T) })
	}
	fn raw(&mut self, op: &Raw) -> usize {
		R::op(&mut self.s, op)
	}
	fn reserve(&mut self, n: usize) {
		self.s.storage_mut().reserve(n)
	}
	fn shrink(&mut self) {
		self.s.storage_mut().shrink_to_fit()
	}
	fn pos(&self) -> usize {
		self.s.pos()
	}
	fn cap(&self) -> usize {
		self.s.capacity()
	}
	fn base(&self) -> usize {
		self.s.storage().as_ptr() as usize
	}
}

/// Which raw pushes a storage supports
pub trait RawSel {
	fn op<S: Serializer>(s: &mut S, op: &Raw) -> usize;
}
pub struct AnyRaw;
impl RawSel for AnyRaw {
	fn op<S: Serializer>(s: &mut S, op: &Raw) -> usize {
		raw_op(s, op)
	}
}
/// For maximum value alignment below 8
pub struct ByteRaw;
impl RawSel for ByteRaw {
	fn op<S: Serializer>(s: &mut S, op: &Raw) -> usize {
		match op {
			Raw::U8(v) => s.push_raw(v),
			Raw::Bytes(v) => s.push_raw_bytes(v),
			Raw::EmptyU8(n) => s.push_empty_slice::<u8>(*n),
			Raw::Three(v) => s.push_raw(v),
			_ => unreachable!(),
		}
	}
}

pub fn raw_op<S: Serializer>(s: &mut S, op: &Raw) -> usize {
	match op {
		Raw::U8(v) => s.push_raw(v),
		Raw::U16(v) => s.push_raw(v),
		Raw::U32(v) => s.push_raw(v),
		Raw::U64(v) => s.push_raw(v),
		Raw::Bytes(v) => s.push_raw_bytes(v),
		Raw::U16s(v) => s.push_raw_slice(v),
		Raw::U64s(v) => s.push_raw_slice(v),
		Raw::EmptyU8(n) => s.push_empty_slice::<u8>(*n),
		Raw::EmptyU32(n) => s.push_empty_slice::<u32>(*n),
		Raw::EmptyU64(n) => s.push_empty_slice::<u64>(*n),
		Raw::EmptyOneU64 => s.push_empty::<u64>(),
		Raw::Three(v) => s.push_raw(v),
	}
}

fn run<T, R: RawSel, S>(s: S, f: &mut dyn FnMut(&mut dyn Ses)) -> S::BorrowedStorage
where
	S: Serializer,
	S::Storage: ContiguousStorage,
	T: Serialize<S>,
{
	let mut ss = Ss::<T, R, S> { s, t: PhantomData };
	f(&mut ss);
	ss.s.finalize()
}

impl<
		T,
		R,
		const SA: usize,
		const MVA: usize,
		const VA: usize,
		const MAX: usize,
		const BORROWED: bool,
	> St<T, R, SA, MVA, VA, MAX, BORROWED>
{
	pub fn new() -> Self {
		St {
			v: AlignedVec::new(),
			t: PhantomData,
		}
	}
}

/// Serializers over owned or borrowed storage
pub struct OwnedSel;
pub struct BorrowedSel;

pub trait StoreKind<T, const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> {
	fn session<R: RawSel>(
		v: &mut AlignedVec<SA, MVA, VA, MAX>,
		kind: Kind,
		how: How,
		f: &mut dyn FnMut(&mut dyn Ses),
	);
	fn one_shot(v: &mut AlignedVec<SA, MVA, VA, MAX>, kind: Kind, how: How, t: *const ()) -> usize;
}

macro_rules! owned_dispatch {
	($kind:ident, $how:ident, $v:ident, $s:ident => $e:expr) => {{
		macro_rules! make {
			($ser:ident) => {{
				let $s: $ser<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>> = match $how {
					How::New => $ser::new(),
					How::Cap(n) => $ser::with_capacity(n),
					How::From => $ser::from_storage(std::mem::replace($v, AlignedVec::new())),
				};
				$e
			}};
		}
		match $kind {
			Kind::Pure => make!(PureCopySerializer),
			Kind::Offset => make!(PtrOffsetSerializer),
			Kind::Complete => make!(CompleteSerializer),
		}
	}};
}

impl<T, const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>
	StoreKind<T, SA, MVA, VA, MAX> for OwnedSel
where
	T: Serialize<PureCopySerializer<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>>
		+ Serialize<PtrOffsetSerializer<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>>
		+ Serialize<CompleteSerializer<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>>,
{
	fn session<R: RawSel>(
		v: &mut AlignedVec<SA, MVA, VA, MAX>,
		kind: Kind,
		how: How,
		f: &mut dyn FnMut(&mut dyn Ses),
	) {
		*v = owned_dispatch!(kind, how, v, s => run::<T, R, _>(s, f));
	}
	fn one_shot(v: &mut AlignedVec<SA, MVA, VA, MAX>, kind: Kind, how: How, t: *const ()) -> usize {
		let t = unsafe { &*(t as *const T) };
		let (pos, st) = owned_dispatch!(kind, how, v, s => s.serialize(t));
		*v = st;
		pos
	}
}

impl<T, const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>
	StoreKind<T, SA, MVA, VA, MAX> for BorrowedSel
where T: for<'a> Serialize<PureCopySerializer<SA, MVA, VA, MAX, &'a mut AlignedVec<SA, MVA, VA, MAX>>>
		+ for<'a> Serialize<PtrOffsetSerializer<SA, MVA, VA, MAX, &'a mut AlignedVec<SA, MVA, VA, MAX>>>
		+ for<'a> Serialize<CompleteSerializer<SA, MVA, VA, MAX, &'a mut AlignedVec<SA, MVA, VA, MAX>>>
{
	fn session<R: RawSel>(
		v: &mut AlignedVec<SA, MVA, VA, MAX>,
		kind: Kind,
		how: How,
		f: &mut dyn FnMut(&mut dyn Ses),
	) {
		prepare(v, how);
		let a = v as *const _ as usize;
		let st = match kind {
			Kind::Pure => run::<T, R, _>(PureCopySerializer::from_storage(v), f),
			Kind::Offset => run::<T, R, _>(PtrOffsetSerializer::from_storage(v), f),
			Kind::Complete => run::<T, R, _>(CompleteSerializer::from_storage(v), f),
		};
		assert_eq!(st as *const _ as usize, a, "finalize returned another storage");
	}
	fn one_shot(v: &mut AlignedVec<SA, MVA, VA, MAX>, kind: Kind, how: How, t: *const ()) -> usize {
		prepare(v, how);
		let a = v as *const _ as usize;
		let t = unsafe { &*(t as *const T) };
		let (pos, st) = match kind {
			Kind::Pure => PureCopySerializer::from_storage(v).serialize(t),
			Kind::Offset => PtrOffsetSerializer::from_storage(v).serialize(t),
			Kind::Complete => CompleteSerializer::from_storage(v).serialize(t),
		};
		assert_eq!(st as *const _ as usize, a, "serialize returned another storage");
		pos
	}
}

fn prepare<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>(
	v: &mut AlignedVec<SA, MVA, VA, MAX>,
	how: How,
) {
	match how {
		How::New => *v = AlignedVec::new(),
		How::Cap(n) => *v = AlignedVec::with_capacity(n),
		How::From => {}
	}
}

macro_rules! impl_store {
	($sel:ident, $b:literal) => {
		impl<T: 'static, R: RawSel, const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Store
			for St<T, R, SA, MVA, VA, MAX, $b>
		where $sel: StoreKind<T, SA, MVA, VA, MAX>
		{
			fn params(&self) -> Params {
				Params {
					sa: SA,
					mva: MVA,
					va: VA,
					max: MAX,
					borrowed: $b,
				}
			}
			fn pos(&self) -> usize {
				self.v.pos()
			}
			fn cap(&self) -> usize {
				self.v.capacity()
			}
			fn base(&self) -> usize {
				self.v.as_ptr() as usize
			}
			fn renew(&mut self, cap: Option<usize>) {
				let _t = Track::on(SA);
				self.v = match cap {
					None => AlignedVec::new(),
					Some(n) => AlignedVec::with_capacity(n),
				};
			}
			fn clear(&mut self) {
				self.v.clear();
			}
			fn shrink(&mut self) {
				let _t = Track::on(SA);
				self.v.shrink_to_fit();
			}
			fn reserve(&mut self, n: usize) {
				let _t = Track::on(SA);
				self.v.reserve(n);
			}
			fn push_bytes(&mut self, b: &[u8]) -> usize {
				let _t = Track::on(SA);
				self.v.push_bytes(b)
			}
			fn skip(&mut self, n: usize) -> usize {
				let _t = Track::on(SA);
				self.v.push_empty_slice::<u8>(n)
			}
			fn session(&mut self, kind: Kind, how: How, f: &mut dyn FnMut(&mut dyn Ses)) {
				let _t = Track::on(SA);
				<$sel as StoreKind<T, SA, MVA, VA, MAX>>::session::<R>(&mut self.v, kind, how, f);
			}
			fn one_shot(&mut self, kind: Kind, how: How, v: *const ()) -> usize {
				let _t = Track::on(SA);
				<$sel as StoreKind<T, SA, MVA, VA, MAX>>::one_shot(&mut self.v, kind, how, v)
			}
			fn read_addr(&self, pos: usize) -> usize {
				unsafe { self.v.read::<T>(pos) as *const T as usize }
			}
		}
	};
}
impl_store!(OwnedSel, false);
impl_store!(BorrowedSel, true);

// ---- values ---------------------------------------------------------------

/// A value of some type
pub trait Subject {
	fn ptr(&self) -> *const ();
	fn image(&self) -> Image;
	/// Image of a value of the same type at an address
	fn image_at(&self, at: usize, limit: usize) -> Image;
	fn type_name(&self) -> &'static str;
	fn size(&self) -> usize;
	fn show(&self) -> String;
}

impl<T: Model> Subject for T {
	fn ptr(&self) -> *const () {
		self as *const T as *const ()
	}
	fn image(&self) -> Image {
		Image::of(self)
	}
	fn image_at(&self, at: usize, limit: usize) -> Image {
		Image::limited(unsafe { &*(at as *const T) }, limit)
	}
	fn type_name(&self) -> &'static str {
		std::any::type_name::<T>()
	}
	fn size(&self) -> usize {
		size_of::<T>()
	}
	fn show(&self) -> String {
		let mut o = String::new();
		Model::show(self, &mut o);
		o
	}
}

pub type Factory = fn() -> Box<dyn Store>;

#[macro_export]
macro_rules! factory {
	($t:ty, bytes, $sa:expr, $mva:expr, $va:expr, $max:expr, $b:expr) => {{
		fn f() -> ::std::boxed::Box<dyn $crate::subject::Store> {
			::std::boxed::Box::new($crate::subject::St::<
				$t,
				$crate::subject::ByteRaw,
				{ $sa },
				{ $mva },
				{ $va },
				{ $max },
				{ $b },
			>::new())
		}
		f as $crate::subject::Factory
	}};
	($t:ty, $sa:expr, $mva:expr, $va:expr, $max:expr, $b:expr) => {{
		fn f() -> ::std::boxed::Box<dyn $crate::subject::Store> {
			::std::boxed::Box::new($crate::subject::St::<$t, $crate::subject::AnyRaw, { $sa }, { $mva }, { $va }, { $max }, { $b }>::new())
		}
		f as $crate::subject::Factory
	}};
}

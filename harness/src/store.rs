//! Histories of storage operations against a model: C08, C09, C10, C22.

use std::{
	collections::BTreeMap,
	mem::{align_of, size_of},
};

use ser_raw::{
	storage::{AlignedVec, ContiguousStorage, RandomAccessStorage, Storage},
	CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serializer,
};

use crate::{
	alloc,
	custom::{Access, Skip},
	deep::draw_plan,
	engine::{self, catching, hash_bytes, Ctx, PropResult, Src},
	model::*,
	subject::{Params, Track},
	universal::n8,
};

// ---- types which can be stored --------------------------------------------

macro_rules! zsts {
	($($n:ident $a:literal),*) => { $(
		#[derive(Clone, Copy)]
		#[repr(align($a))]
		pub struct $n;
	)* };
}
zsts!(E1 1, E2 2, E4 4, E8 8, E16 16, E32 32, E64 64, E4K 4096);

macro_rules! blobs {
	($($n:ident $a:literal $s:literal),*) => { $(
		#[derive(Clone, Copy)]
		#[repr(C, align($a))]
		pub struct $n(pub [u8; $s]);
	)* };
}
blobs!(B2 2 6, B4 4 12, B8 8 24, B16 16 16, B16X 16 48, B32 32 32, B32X 32 96, B64 64 64, B64X 64 192, B256 256 768, B1K 1024 1024, B4K 4096 8192);

/// Operations with one type
pub struct Ty<S> {
	pub name: &'static str,
	pub size: usize,
	pub align: usize,
	push: fn(&mut S, *const u8) -> usize,
	push_slice: fn(&mut S, *const u8, usize) -> usize,
	/// The steps of a push made one by one
	manual: fn(&mut S, *const u8, usize) -> usize,
	push_empty: fn(&mut S) -> usize,
	push_empty_slice: fn(&mut S, usize) -> usize,
	align_for: fn(&mut S),
	write: Option<fn(&mut S, usize, *const u8)>,
	write_slice: Option<fn(&mut S, usize, *const u8, usize)>,
	read: Option<fn(&S, usize) -> usize>,
	read_mut: Option<fn(&mut S, usize) -> usize>,
}

pub fn ty<S: Storage, T: Copy>() -> Ty<S> {
	Ty {
		name: std::any::type_name::<T>(),
		size: size_of::<T>(),
		align: align_of::<T>(),
		push: |s, p| s.push(unsafe { &*(p as *const T) }),
		push_slice: |s, p, n| s.push_slice(unsafe { std::slice::from_raw_parts(p as *const T, n) }),
		manual: |s, p, n| unsafe {
			let sl = std::slice::from_raw_parts(p as *const T, n);
			let size = size_of::<T>() * n;
			s.align_for::<T>();
			s.reserve(size);
			let pos = s.pos();
			s.push_slice_unchecked(sl, size);
			s.align_after::<T>();
			pos
		},
		push_empty: |s| s.push_empty::<T>(),
		push_empty_slice: |s, n| s.push_empty_slice::<T>(n),
		align_for: |s| s.align_for::<T>(),
		write: None,
		write_slice: None,
		read: None,
		read_mut: None,
	}
}

pub fn ty_ra<S: RandomAccessStorage, T: Copy>() -> Ty<S> {
	Ty {
		write: Some(|s, pos, p| unsafe { s.write(pos, &*(p as *const T)) }),
		write_slice: Some(|s, pos, p, n| unsafe {
			s.write_slice(pos, std::slice::from_raw_parts(p as *const T, n))
		}),
		read: Some(|s, pos| unsafe { s.read::<T>(pos) as *const T as usize }),
		read_mut: Some(|s, pos| unsafe { s.read_mut::<T>(pos) as *mut T as usize }),
		..ty::<S, T>()
	}
}

#[macro_export]
macro_rules! tys {
	($f:ident, $s:ty, 1) => {{
		use $crate::store::*;
		vec![$f::<$s, u8>(), $f::<$s, [u8; 3]>(), $f::<$s, [u8; 16]>(), $f::<$s, [u8; 100]>(), $f::<$s, E1>()]
	}};
	($f:ident, $s:ty, 2) => {{
		let mut v = $crate::tys!($f, $s, 1);
		use $crate::store::*;
		v.extend([$f::<$s, u16>(), $f::<$s, B2>(), $f::<$s, E2>()]);
		v
	}};
	($f:ident, $s:ty, 4) => {{
		let mut v = $crate::tys!($f, $s, 2);
		use $crate::store::*;
		v.extend([$f::<$s, u32>(), $f::<$s, B4>(), $f::<$s, E4>()]);
		v
	}};
	($f:ident, $s:ty, 8) => {{
		let mut v = $crate::tys!($f, $s, 4);
		use $crate::store::*;
		v.extend([$f::<$s, u64>(), $f::<$s, u128>(), $f::<$s, B8>(), $f::<$s, E8>()]);
		v
	}};
	($f:ident, $s:ty, 16) => {{
		let mut v = $crate::tys!($f, $s, 8);
		use $crate::store::*;
		v.extend([$f::<$s, B16>(), $f::<$s, B16X>(), $f::<$s, E16>()]);
		v
	}};
	($f:ident, $s:ty, 32) => {{
		let mut v = $crate::tys!($f, $s, 16);
		use $crate::store::*;
		v.extend([$f::<$s, B32>(), $f::<$s, B32X>(), $f::<$s, E32>()]);
		v
	}};
	($f:ident, $s:ty, 64) => {{
		let mut v = $crate::tys!($f, $s, 32);
		use $crate::store::*;
		v.extend([$f::<$s, B64>(), $f::<$s, B64X>(), $f::<$s, E64>()]);
		v
	}};
	($f:ident, $s:ty, 4096) => {{
		let mut v = $crate::tys!($f, $s, 64);
		use $crate::store::*;
		v.extend([$f::<$s, B256>(), $f::<$s, B1K>(), $f::<$s, B4K>(), $f::<$s, E4K>(), $f::<$s, [u8; 3000]>()]);
		v
	}};
}

// ---- type-erased storage --------------------------------------------------

/// Serializes a node of a kind into the storage, possibly panicking half way
pub type SerFn<S> = fn(&mut S, Kind, &n8::Node, Option<usize>) -> Result<usize, String>;

pub struct Hold<S> {
	s: Option<S>,
	tys: Vec<Ty<S>>,
	par: Params,
	access: Access<S>,
	ser: Option<SerFn<S>>,
}

pub trait Av {
	fn par(&self) -> Params;
	fn create(&mut self, cap: Option<usize>);
	fn create_unchecked(&mut self, cap: usize);
	fn drop_it(&mut self);
	fn reserve(&mut self, n: usize);
	fn shrink(&mut self);
	fn clear(&mut self);
	fn pos(&self) -> usize;
	fn cap(&self) -> usize;
	fn set_pos(&mut self, n: usize);
	fn align(&mut self, n: usize);
	fn align_after_any(&mut self);
	fn push_bytes(&mut self, b: &[u8]) -> usize;
	/// Starts of buffer, by every way to ask
	fn bases(&mut self) -> Vec<usize>;
	/// Address of byte at a position
	fn at(&mut self, pos: usize) -> usize;
	/// By `ptr` and `mut_ptr`
	fn ptrs(&mut self, pos: usize) -> (usize, usize);
	fn contiguous(&self) -> bool;
	fn tys(&self) -> Vec<(&'static str, usize, usize)>;
	fn push(&mut self, t: usize, p: *const u8) -> usize;
	fn push_slice(&mut self, t: usize, p: *const u8, n: usize) -> usize;
	fn manual(&mut self, t: usize, p: *const u8, n: usize) -> usize;
	fn push_empty(&mut self, t: usize) -> usize;
	fn push_empty_slice(&mut self, t: usize, n: usize) -> usize;
	fn align_for(&mut self, t: usize);
	fn write(&mut self, t: usize, pos: usize, p: *const u8);
	fn write_slice(&mut self, t: usize, pos: usize, p: *const u8, n: usize);
	fn read(&self, t: usize, pos: usize) -> usize;
	fn read_mut(&mut self, t: usize, pos: usize) -> usize;
	fn skip(&self) -> Skip;
	fn can_serialize(&self) -> bool;
	fn serialize(&mut self, kind: Kind, v: &n8::Node, abandon: Option<usize>) -> Result<usize, String>;
	/// Move the storage itself about
	fn relocate(&mut self);
}

impl<S: Storage + 'static> Hold<S> {
	pub fn new(tys: Vec<Ty<S>>, access: Access<S>, ser: Option<SerFn<S>>) -> Self {
		Hold {
			s: None,
			tys,
			par: Params {
				sa: S::STORAGE_ALIGNMENT,
				mva: S::MAX_VALUE_ALIGNMENT,
				va: S::VALUE_ALIGNMENT,
				max: S::MAX_CAPACITY,
				borrowed: false,
			},
			access,
			ser,
		}
	}
	fn s(&mut self) -> &mut S {
		self.s.as_mut().unwrap()
	}
	fn g(&self) -> &S {
		self.s.as_ref().unwrap()
	}
	fn tr(&self) -> Track {
		Track::on(self.par.sa)
	}
}

impl<S: Storage + 'static> Av for Hold<S> {
	fn par(&self) -> Params {
		self.par
	}
	fn create(&mut self, cap: Option<usize>) {
		let _t = self.tr();
		self.s = None;
		self.s = Some(match cap {
			None => S::new(),
			Some(n) => S::with_capacity(n),
		});
	}
	fn create_unchecked(&mut self, cap: usize) {
		let _t = self.tr();
		self.s = None;
		self.s = Some(unsafe { S::with_capacity_unchecked(cap) });
	}
	fn drop_it(&mut self) {
		let _t = self.tr();
		self.s = None;
	}
	fn reserve(&mut self, n: usize) {
		let _t = self.tr();
		self.s().reserve(n)
	}
	fn shrink(&mut self) {
		let _t = self.tr();
		self.s().shrink_to_fit()
	}
	fn clear(&mut self) {
		let _t = self.tr();
		self.s().clear()
	}
	fn pos(&self) -> usize {
		self.g().pos()
	}
	fn cap(&self) -> usize {
		self.g().capacity()
	}
	fn set_pos(&mut self, n: usize) {
		unsafe { self.s().set_pos(n) }
	}
	fn align(&mut self, n: usize) {
		unsafe { self.s().align(n) }
	}
	fn align_after_any(&mut self) {
		self.s().align_after_any()
	}
	fn push_bytes(&mut self, b: &[u8]) -> usize {
		let _t = self.tr();
		self.s().push_bytes(b)
	}
	fn bases(&mut self) -> Vec<usize> {
		let f = self.access.bases;
		f(self.s())
	}
	fn at(&mut self, pos: usize) -> usize {
		let f = self.access.at;
		f(self.s(), pos)
	}
	fn ptrs(&mut self, pos: usize) -> (usize, usize) {
		let f = self.access.ptrs;
		f(self.s(), pos)
	}
	fn contiguous(&self) -> bool {
		self.access.contiguous
	}
	fn tys(&self) -> Vec<(&'static str, usize, usize)> {
		self.tys.iter().map(|t| (t.name, t.size, t.align)).collect()
	}
	fn push(&mut self, t: usize, p: *const u8) -> usize {
		let _t = self.tr();
		let f = self.tys[t].push;
		f(self.s(), p)
	}
	fn push_slice(&mut self, t: usize, p: *const u8, n: usize) -> usize {
		let _t = self.tr();
		let f = self.tys[t].push_slice;
		f(self.s(), p, n)
	}
	fn manual(&mut self, t: usize, p: *const u8, n: usize) -> usize {
		let _t = self.tr();
		let f = self.tys[t].manual;
		f(self.s(), p, n)
	}
	fn push_empty(&mut self, t: usize) -> usize {
		let _t = self.tr();
		let f = self.tys[t].push_empty;
		f(self.s())
	}
	fn push_empty_slice(&mut self, t: usize, n: usize) -> usize {
		let _t = self.tr();
		let f = self.tys[t].push_empty_slice;
		f(self.s(), n)
	}
	fn align_for(&mut self, t: usize) {
		let f = self.tys[t].align_for;
		f(self.s())
	}
	fn write(&mut self, t: usize, pos: usize, p: *const u8) {
		let f = self.tys[t].write.unwrap();
		f(self.s(), pos, p)
	}
	fn write_slice(&mut self, t: usize, pos: usize, p: *const u8, n: usize) {
		let f = self.tys[t].write_slice.unwrap();
		f(self.s(), pos, p, n)
	}
	fn read(&self, t: usize, pos: usize) -> usize {
		(self.tys[t].read.unwrap())(self.g(), pos)
	}
	fn read_mut(&mut self, t: usize, pos: usize) -> usize {
		let f = self.tys[t].read_mut.unwrap();
		f(self.s(), pos)
	}
	fn skip(&self) -> Skip {
		self.access.skip
	}
	fn can_serialize(&self) -> bool {
		self.ser.is_some()
	}
	fn serialize(&mut self, kind: Kind, v: &n8::Node, abandon: Option<usize>) -> Result<usize, String> {
		let _t = self.tr();
		let f = self.ser.unwrap();
		f(self.s(), kind, v, abandon)
	}
	fn relocate(&mut self) {
		let b = Box::new(self.s.take());
		let filler = [0u8; 256];
		std::hint::black_box(&filler);
		self.s = *b;
	}
}

// ---- AlignedVec -----------------------------------------------------------

pub fn aligned_access<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>(
) -> Access<AlignedVec<SA, MVA, VA, MAX>> {
	Access {
		contiguous: true,
		bases: |s| vec![s.as_ptr() as usize, s.as_mut_ptr() as usize],
		at: |s, pos| s.as_ptr() as usize + pos,
		ptrs: |s, pos| unsafe { (s.ptr(pos) as usize, s.mut_ptr(pos) as usize) },
		skip: Skip::None,
	}
}

/// Serialize a node, owning the storage if `abandon` is even; `abandon`: panic
/// after so many values
pub fn aligned_ser<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>(
	s: &mut AlignedVec<SA, MVA, VA, MAX>,
	kind: Kind,
	v: &n8::Node,
	abandon: Option<usize>,
) -> Result<usize, String> {
	fn go<Z: Serializer>(mut z: Z, v: &n8::Node, abandon: Option<usize>) -> (usize, Z::BorrowedStorage)
	where n8::Node: ser_raw::Serialize<Z> {
		let pos = z.serialize_value(v);
		if let Some(n) = abandon {
			for _ in 0..n % 3 {
				z.serialize_value(v);
			}
			if n % 2 == 0 {
				panic!("abandoned");
			}
			// Drop without finalizing
			return (usize::MAX, z.into_storage());
		}
		(pos, z.finalize())
	}
	macro_rules! kinds {
		($st:expr) => {
			match kind {
				Kind::Pure => {
					let (p, st) = go(PureCopySerializer::from_storage($st), v, abandon);
					(p, Some(st))
				}
				Kind::Offset => {
					let (p, st) = go(PtrOffsetSerializer::from_storage($st), v, abandon);
					(p, Some(st))
				}
				Kind::Complete => {
					let (p, st) = go(CompleteSerializer::from_storage($st), v, abandon);
					(p, Some(st))
				}
			}
		};
	}
	let own = matches!(abandon, Some(n) if n >= 6);
	if own {
		let st = std::mem::replace(s, AlignedVec::new());
		let (p, st) = catching(|| kinds!(st))?;
		*s = st.unwrap();
		Ok(p)
	} else {
		catching(|| {
			let (p, _) = kinds!(&mut *s);
			p
		})
	}
}

#[macro_export]
macro_rules! aligned {
	($sa:expr, $mva:tt, $va:expr, $max:expr, noser) => {{
		fn f() -> Box<dyn $crate::store::Av> {
			type S = AlignedVec<{ $sa }, { $mva }, { $va }, { $max }>;
			Box::new($crate::store::Hold::<S>::new(
				$crate::tys!(ty_ra, S, $mva),
				$crate::store::aligned_access::<{ $sa }, { $mva }, { $va }, { $max }>(),
				None,
			))
		}
		f as fn() -> Box<dyn $crate::store::Av>
	}};
	($sa:expr, $mva:tt, $va:expr, $max:expr) => {{
		fn f() -> Box<dyn $crate::store::Av> {
			type S = AlignedVec<{ $sa }, { $mva }, { $va }, { $max }>;
			Box::new($crate::store::Hold::<S>::new(
				$crate::tys!(ty_ra, S, $mva),
				$crate::store::aligned_access::<{ $sa }, { $mva }, { $va }, { $max }>(),
				Some($crate::store::aligned_ser::<{ $sa }, { $mva }, { $va }, { $max }>),
			))
		}
		f as fn() -> Box<dyn $crate::store::Av>
	}};
}

pub type AvFactory = fn() -> Box<dyn Av>;

// ---- model ----------------------------------------------------------------

/// What the storage should hold: segments of known bytes
#[derive(Default)]
struct Mem {
	segs: BTreeMap<usize, Vec<u8>>,
}

impl Mem {
	fn write(&mut self, pos: usize, b: &[u8]) {
		if b.is_empty() {
			return;
		}
		self.cut(pos, pos + b.len());
		self.segs.insert(pos, b.to_vec());
	}
	/// Forget bytes in range
	fn cut(&mut self, from: usize, to: usize) {
		let mut hit: Vec<usize> = self.segs.range(from..to).map(|(k, _)| *k).collect();
		if let Some((k, v)) = self.segs.range(..from).next_back() {
			if k + v.len() > from {
				hit.push(*k);
			}
		}
		for k in hit {
			let v = self.segs.remove(&k).unwrap();
			if k < from {
				self.segs.insert(k, v[..from - k].to_vec());
			}
			if k + v.len() > to {
				self.segs.insert(to, v[to - k..].to_vec());
			}
		}
	}
	fn truncate(&mut self, to: usize) {
		self.cut(to, usize::MAX);
	}
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Aim {
	/// Contents, positions, alignment
	Data,
	/// Capacity
	Capacity,
	/// Memory management
	Memory,
	/// Custom storage: like `Data` with position skips
	Custom,
}

fn describe(o: &mut String, s: String) {
	if o.len() < 4000 {
		o.push_str(&s);
		o.push_str("; ");
	}
}

/// Capacity after growing so that `need` bytes fit
fn grown(need: usize, p: &Params) -> usize {
	let pow = need.checked_next_power_of_two().unwrap_or(usize::MAX);
	pow.min(p.max).max(p.mva)
}

pub fn history(s: &mut Src, ctx: &mut Ctx, factories: &[(u64, AvFactory)], aim: Aim) -> PropResult {
	let w: Vec<u64> = factories.iter().map(|f| f.0).collect();
	let factory = factories[s.weighted(&w)].1;
	draw_plan(s);
	let mut desc = String::new();
	let res = {
		let mut av = factory();
		let par = av.par();
		let r = run_history(s, ctx, &mut *av, par, aim, &mut desc);
		if aim == Aim::Memory {
			av.drop_it();
		}
		r
	};
	ctx.sample(|| desc.clone());
	res?;
	if aim == Aim::Memory {
		alloc::check_guards();
		let st = alloc::stats();
		if st.live != 0 || st.allocs != st.deallocs {
			return Err(format!(
				"storage dropped, but buffers allocated {} times and released {} times ({} live)",
				st.allocs, st.deallocs, st.live
			));
		}
		if let Some(v) = alloc::take_violation() {
			return Err(v);
		}
	}
	Ok(())
}

fn run_history(
	s: &mut Src,
	ctx: &mut Ctx,
	av: &mut dyn Av,
	par: Params,
	aim: Aim,
	desc: &mut String,
) -> PropResult {
	let tys = av.tys();
	let exact = aim == Aim::Capacity;
	let custom = aim == Aim::Custom;
	describe(desc, format!("{:?}", par));
	let small = par.max <= 1 << 16;
	let huge_ok = !small && !custom && par.max > 20 << 30 && alloc::can_huge();
	let mut mem = Mem::default();
	let mut pos = 0usize;
	let mut hist = Hist::default();
	let data = Data::new();

	// Creation
	let ncap = match s.below(6) {
		0 | 1 => None,
		2 => Some(0),
		3 => Some(s.usize_below(200.min(par.max) + 1)),
		4 if small => Some(par.max - s.usize_below(par.max.min(40))),
		_ => Some(s.usize_below(3000.min(par.max) + 1)),
	};
	if aim == Aim::Capacity && s.below(12) == 11 {
		// Too much
		let n = match s.below(4) {
			0 => par.max + 1,
			1 => usize::MAX - s.usize_below(40),
			2 => par.max + 1 + s.usize_below(usize::MAX - par.max),
			_ => par.max + s.usize_below(64) + 1,
		};
		describe(desc, format!("with_capacity({})", n));
		if catching(|| av.create(Some(n))).is_ok() {
			return Err(format!(
				"with_capacity({}) succeeded, maximum capacity is {}",
				n, par.max
			));
		}
		hist.rejected += 1;
	}
	describe(desc, format!("create {:?}", ncap));
	match ncap {
		Some(n) if n > 0 && s.below(4) == 3 => av.create_unchecked(up(n, par.mva)),
		_ => av.create(ncap),
	}
	if exact {
		let want = up(ncap.unwrap_or(0), par.mva);
		if av.cap() != want {
			return Err(format!("capacity {} on creation with {:?}, should be {}", av.cap(), ncap, want));
		}
	}
	if av.pos() != 0 {
		return Err(format!("new storage has position {}", av.pos()));
	}
	let mut cap = av.cap();

	let nops = match s.below(4) {
		0 => s.range(1, 4),
		1 => s.range(1, 12),
		2 => s.range(1, 30),
		_ => s.range(1, 70),
	};
	for i in 0..nops {
		let room = cap - pos;
		let before_pos = pos;
		let before_cap = cap;
		let op = s.weighted(&[10, 14, 6, 4, 6, 8, 8, 4, 3, 3, 8, 4, 3, 4, 3, 3]);
		if matches!(op, 0..=3 | 12..=15)
			&& !within_means(pos as u128 + 2 * DATA as u128, cap, par, huge_ok)
		{
			continue;
		}
		let name;
		// Where the room which was needed ends; None: op doesn't reserve
		let mut need: Option<usize> = None;
		macro_rules! fail {
			($($t:tt)*) => {
				return Err(format!("op {} ({}): {}", i, name, format!($($t)*)))
			};
		}
		match op {
			// Pushes of values
			0 | 1 | 2 | 3 => {
				let t = s.usize_below(tys.len());
				let (tn, size, align) = tys[t];
				let mut n: usize = if op == 0 { 1 } else { draw_count(s, size, room, par, small) };
				if size == 0 && op != 0 && s.below(4) == 3 {
					n = usize::MAX;
				}
				let bytes = size.saturating_mul(n);
				if bytes > DATA / 2 {
					continue;
				}
				let off = s.usize_below(200) / align * align;
				let p = data.at(off);
				let f = match op {
					0 => "push",
					1 => "push_slice",
					2 => "manual push",
					_ => "push_bytes",
				};
				let bytes_push = op == 3;
				let (size, align) = if bytes_push { (1, 1) } else { (size, align) };
				name = format!("{} {} x {} at {}/{}", f, tn, n, pos, cap);
				let r = catching(|| match op {
					0 => av.push(t, p),
					1 => av.push_slice(t, p, n),
					2 => av.manual(t, p, n),
					_ => av.push_bytes(data.slice(off, bytes)),
				});
				let start = up(pos, align.max(par.va));
				let total = if bytes_push { bytes } else { size * n.min(DATA) };
				let fits = custom || (start <= par.max && total <= par.max - start);
				match r {
					Err(e) => {
						if fits && size > 0 {
							fail!("panicked, though {} + {} bytes fit {}: {}", start, total, par.max, e);
						}
						if size == 0 {
							fail!("panicked: {}", e);
						}
						hist.rejected += 1;
						let np = av.pos();
						if np != pos && np != start {
							fail!("position changed from {} to {} by a push which failed", pos, np);
						}
						pos = np;
					}
					Ok(p0) => {
						if !fits && size > 0 {
							fail!("succeeded, though {} + {} bytes exceed {}", start, total, par.max);
						}
						if size == 0 && op != 2 {
							if p0 != 0 {
								fail!("push of zero-sized values returned {}", p0);
							}
							if av.pos() != pos {
								fail!("push of zero-sized values changed position from {} to {}", pos, av.pos());
							}
						} else {
							if p0 % align != 0 || p0 % par.va != 0 {
								fail!("returned {}, not a multiple of {}", p0, align.max(par.va));
							}
							if p0 < pos {
								fail!("returned {}, before end of earlier contents {}", p0, pos);
							}
							let np = av.pos();
							if np < p0 + total {
								fail!("returned {}, new position {} is too low", p0, np);
							}
							if total > 0 {
								mem.write(p0, data.slice(off, total));
								hist.pushes += 1;
							}
							need = Some(p0 + total);
							if exact && np > up(p0 + total, par.va) {
								// More room than needed was used
								fail!("position is {} after pushing {} bytes to {}", np, total, p0);
							}
							pos = np;
						}
					}
				}
			}
			// Empty space
			4 | 5 => {
				let t = s.usize_below(tys.len());
				let (tn, size, align) = tys[t];
				let one = op == 4 && s.below(3) == 0;
				let wild = aim == Aim::Capacity || (!custom && s.below(4) == 3);
				let n = if one {
					1
				} else if wild {
					draw_wild(s, size, pos, par, exact)
				} else if huge_ok && s.below(40) == 39 {
					(3usize << 30) / size.max(1) + s.usize_below(100)
				} else {
					draw_count(s, size, room, par, small)
				};
				name = format!("push_empty_slice {} x {} at {}/{}", tn, n, pos, cap);
				let start = up(pos, align.max(par.va));
				let total = size as u128 * n as u128;
				let fits = custom || start as u128 + total <= par.max as u128;
				if fits && !within_means(start as u128 + total, cap, par, huge_ok) {
					continue;
				}
				let r = catching(|| if one { av.push_empty(t) } else { av.push_empty_slice(t, n) });
				match r {
					Err(e) => {
						if fits {
							fail!("panicked, though {} + {} bytes fit {}: {}", start, total, par.max, e);
						}
						hist.rejected += 1;
						let np = av.pos();
						if np != pos && np != start {
							fail!("position changed from {} to {} by an operation which failed", pos, np);
						}
						pos = np;
					}
					Ok(p0) => {
						if !fits {
							fail!("succeeded, though {} + {} bytes exceed {}", start, total, par.max);
						}
						let np = av.pos();
						if size > 0 {
							if p0 % align != 0 || p0 % par.va != 0 {
								fail!("returned {}, not a multiple of {}", p0, align.max(par.va));
							}
							if p0 < pos {
								fail!("returned {}, before end of earlier contents {}", p0, pos);
							}
							if np < p0 + total as usize {
								fail!("returned {}, new position {} is too low", p0, np);
							}
							if exact && np > up(p0 + total as usize, par.va) {
								fail!("position is {} after leaving {} bytes at {}", np, total, p0);
							}
							need = Some(p0 + total as usize);
							// The space can be written to
							if total > 0 && total < 20000 && n > 0 && s.below(2) == 0 && has_ra(av) {
								let off = s.usize_below(200) / align * align;
								av.write_slice(t, p0, data.at(off), n);
								mem.write(p0, data.slice(off, total as usize));
							}
						} else {
							if np < pos {
								fail!("position went back from {} to {}", pos, np);
							}
						}
						pos = np;
					}
				}
			}
			// Reserve
			6 => {
				let n = if aim == Aim::Capacity && s.below(2) == 0 {
					draw_wild(s, 1, pos, par, true)
				} else {
					draw_count(s, 1, room, par, small)
				};
				name = format!("reserve {} at {}/{}", n, pos, cap);
				let fits = custom || pos as u128 + n as u128 <= par.max as u128;
				if fits && !within_means(pos as u128 + n as u128, cap, par, huge_ok) {
					continue;
				}
				match catching(|| av.reserve(n)) {
					Err(e) => {
						if fits {
							fail!("panicked, though it fits {}: {}", par.max, e);
						}
						hist.rejected += 1;
						if av.pos() != pos {
							fail!("position changed from {} to {}", pos, av.pos());
						}
					}
					Ok(()) => {
						if !fits {
							fail!("succeeded, though it exceeds {}", par.max);
						}
						if !custom && av.pos() != pos {
							fail!("position changed from {} to {}", pos, av.pos());
						}
						if av.pos() < pos {
							fail!("position went back from {} to {}", pos, av.pos());
						}
						pos = av.pos();
						if av.cap() - pos < n {
							fail!("room for {} bytes only", av.cap() - pos);
						}
						need = Some(before_pos + n);
					}
				}
			}
			7 => {
				name = format!("shrink_to_fit at {}/{}", pos, cap);
				av.shrink();
				hist.shrinks += 1;
				if av.pos() != pos {
					fail!("position changed from {} to {}", pos, av.pos());
				}
				if exact && av.cap() != up(pos, par.mva) {
					fail!("capacity is {}, should be {}", av.cap(), up(pos, par.mva));
				}
				cap = av.cap();
				if cap < pos {
					fail!("capacity {} is less than position", cap);
				}
			}
			8 => {
				name = format!("clear at {}/{}", pos, cap);
				av.clear();
				if av.pos() != 0 {
					fail!("position is {}", av.pos());
				}
				pos = 0;
				mem.truncate(0);
			}
			9 => {
				// Take back the last part
				let np = s.usize_below(pos.min(1 << 20) + 1) / par.va * par.va;
				let np = if pos > 1 << 20 { pos - np } else { np } / par.va * par.va;
				name = format!("set_pos {} at {}/{}", np, pos, cap);
				av.set_pos(np);
				if av.pos() != np {
					fail!("position is {}", av.pos());
				}
				pos = np;
				mem.truncate(np);
			}
			10 => {
				// Overwrite
				if !has_ra(av) {
					continue;
				}
				let t = s.usize_below(tys.len());
				let (tn, size, align) = tys[t];
				let lim = pos.min(1 << 20);
				if size > lim {
					continue;
				}
				let p0 = s.usize_below(lim - size + 1) / align * align;
				let p0 = if pos > 1 << 20 && s.below(2) == 0 {
					(pos - lim + p0) / align * align
				} else {
					p0
				};
				let max_n = if size == 0 { 5 } else { (pos - p0) / size };
				let n = s.len(max_n.min(40).min(DATA / 2 / size.max(1)));
				if n == 0 && size > 0 && p0 + size > pos {
					continue;
				}
				let one = s.below(2) == 0 && n >= 1;
				let n = if one { 1 } else { n };
				let off = s.usize_below(200) / align * align;
				name = format!("write {} x {} to {} at {}/{}", tn, n, p0, pos, cap);
				if one {
					av.write(t, p0, data.at(off));
				} else {
					av.write_slice(t, p0, data.at(off), n);
				}
				mem.write(p0, data.slice(off, size * n));
				hist.writes += 1;
				if av.pos() != pos {
					fail!("position changed from {} to {}", pos, av.pos());
				}
			}
			11 => {
				// Read
				if !has_ra(av) || mem.segs.is_empty() {
					continue;
				}
				let k = s.usize_below(mem.segs.len());
				let (&seg, b) = mem.segs.iter().nth(k).unwrap();
				let t = s.usize_below(tys.len());
				let (tn, size, align) = tys[t];
				let p0 = up(seg, align);
				if p0 + size > seg + b.len() {
					continue;
				}
				name = format!("read {} at {}", tn, p0);
				let want = av.at(p0);
				let got = if s.below(2) == 0 { av.read(t, p0) } else { av.read_mut(t, p0) };
				if got != want {
					fail!("gives a reference to {:#x}, position is at {:#x}", got, want);
				}
				let have = unsafe { std::slice::from_raw_parts(got as *const u8, size) };
				if have != &b[p0 - seg..p0 - seg + size] {
					fail!("reads other bytes than written");
				}
				if par.sa >= align && cap > 0 && got % align != 0 {
					fail!("misaligned");
				}
			}
			12 => {
				// Make space, write beyond the position, then move it there
				if !has_ra(av) || custom {
					continue;
				}
				let t = s.usize_below(tys.len());
				let (tn, size, align) = tys[t];
				let n = s.len(6);
				let start = up(pos, align.max(par.va));
				let total = size * n;
				if start + total > par.max || size == 0 || total == 0 {
					continue;
				}
				name = format!("reserve, write {} x {}, set_pos at {}/{}", tn, n, pos, cap);
				let extra = start - pos;
				av.reserve(extra + total);
				if av.cap() < start + total {
					fail!("room for {} bytes only", av.cap() - pos);
				}
				let off = s.usize_below(200) / align * align;
				av.write_slice(t, start, data.at(off), n);
				let np = up(start + total, par.va);
				if np > av.cap() {
					fail!("capacity {} is not a multiple of {}", av.cap(), par.va);
				}
				av.set_pos(np);
				mem.write(start, data.slice(off, total));
				need = Some(start + total);
				pos = np;
				hist.pushes += 1;
			}
			13 => {
				let k = s.below(3);
				let mut a = par.va;
				while a < par.mva && s.below(2) == 1 {
					a *= 2;
				}
				let t = s.usize_below(tys.len());
				let want = match k {
					0 => up(pos, a),
					1 => pos,
					_ => up(pos, tys[t].2.max(par.va)),
				};
				name = format!("align (way {}) to {} at {}/{}", k, a, pos, cap);
				match k {
					0 => av.align(a),
					1 => av.align_after_any(),
					_ => av.align_for(t),
				}
				if av.pos() != want {
					fail!("position is {}, should be {}", av.pos(), want);
				}
				pos = want;
			}
			14 => {
				name = "relocate".into();
				av.relocate();
			}
			_ => {
				if aim == Aim::Memory && av.can_serialize() {
					let mut f = Fuel::new(s.range(0, 12) as i64);
					let v = n8::Node::gen(s, &mut f);
					let kind = *s.pick(&KINDS);
					let abandon = if s.below(3) == 0 { None } else { Some(s.usize_below(12)) };
					name = format!("serialize {:?} abandon {:?} at {}/{}", kind, abandon, pos, cap);
					engine::clear_last_panic();
					let others = alloc::live().0 - alloc::stats().live;
					let r = av.serialize(kind, &v, abandon).is_ok();
					engine::clear_last_panic();
					let left = alloc::live().0 - alloc::stats().live - others;
					if left != 0 {
						fail!("{} blocks more are allocated after serializing than before", left);
					}
					hist.serialized += 1;
					hist.abandoned += (!r || abandon.is_some()) as usize;
					mem.truncate(0);
					pos = av.pos();
				} else if aim == Aim::Memory && s.below(2) == 0 {
					let n = s.usize_below(500.min(par.max) + 1);
					name = format!("recreate {}", n);
					av.create(Some(n));
					mem.truncate(0);
					pos = 0;
				} else {
					continue;
				}
			}
		}
		describe(desc, name.clone());

		// Invariants
		let (np, nc) = (av.pos(), av.cap());
		if np != pos {
			fail!("position is {}, should be {}", np, pos);
		}
		if np % par.va != 0 {
			fail!("position {} is not a multiple of {}", np, par.va);
		}
		if np > nc {
			fail!("position {} is beyond capacity {}", np, nc);
		}
		if nc % par.mva != 0 {
			fail!("capacity {} is not a multiple of {}", nc, par.mva);
		}
		if nc > par.max {
			fail!("capacity {} exceeds maximum {}", nc, par.max);
		}
		if exact && op != 7 && op != 15 {
			let want = match need {
				Some(must) => {
					if must <= before_cap {
						before_cap
					} else {
						grown(must, &par)
					}
				}
				None => before_cap,
			};
			if nc != want {
				fail!("capacity became {}, should be {}", nc, want);
			}
		}
		if nc != before_cap {
			hist.cap_changes += 1;
		}
		cap = nc;
		if aim == Aim::Memory || aim == Aim::Data {
			for b in av.bases() {
				if b % par.sa != 0 || b == 0 {
					fail!("buffer is at {:#x}, not aligned to {} (capacity {})", b, par.sa, nc);
				}
				if nc > 0 && aim == Aim::Memory {
					if let Some(sz) = alloc::tracked_size(b) {
						if sz != nc {
							fail!("buffer has {} bytes, capacity is {}", sz, nc);
						}
					}
				}
			}
		}
		if nc > 0 && aim != Aim::Memory {
			let (a, b) = av.ptrs(np);
			let p = s.usize_below(8);
			if av.contiguous() {
				let base = av.bases()[0];
				if a != base + np || b != base + np {
					fail!("ptr({}) is {:#x} / {:#x}, buffer is at {:#x}", np, a, b, base);
				}
			}
			if p == 0 || i + 1 == nops {
				verify(av, &mem, np).map_err(|e| format!("op {} ({}): {}", i, name, e))?;
			}
		}
		if aim == Aim::Memory {
			if s.below(8) == 7 {
				alloc::check_guards();
			}
			if let Some(v) = alloc::take_violation() {
				fail!("{}", v);
			}
		}
	}
	if cap > 0 && aim != Aim::Memory {
		verify(av, &mem, pos).map_err(|e| format!("at end: {}", e))?;
	}
	ctx.nontrivial = match aim {
		Aim::Data => hist.pushes >= 2 && hist.cap_changes >= 1,
		Aim::Capacity => hist.cap_changes >= 1 && (hist.cap_changes >= 2 || hist.rejected > 0),
		Aim::Memory => hist.cap_changes >= 1,
		Aim::Custom => hist.pushes >= 2,
	};
	ctx.sig = hash_bytes(desc.as_bytes(), 0xcbf29ce484222325) | 1;
	ctx.label_if(hist.rejected > 0, "requests beyond maximum capacity");
	ctx.label_if(hist.shrinks > 0, "shrunk");
	ctx.label_if(hist.writes > 0, "random-access writes");
	ctx.label_if(hist.cap_changes > 3, "capacity changed more than 3 times");
	ctx.label_if(hist.abandoned > 0, "serializer abandoned by panic or drop");
	ctx.label_if(pos > 1 << 32, "more than 4 GiB");
	ctx.label_if(cap == par.max, "filled to maximum capacity");
	Ok(())
}

#[derive(Default)]
struct Hist {
	pushes: usize,
	writes: usize,
	cap_changes: usize,
	shrinks: usize,
	rejected: usize,
	serialized: usize,
	abandoned: usize,
}

fn has_ra(av: &mut dyn Av) -> bool {
	av.skip() != Skip::NoRandomAccess
}

/// Requests the machine can be expected to meet
fn within_means(need: u128, cap: usize, par: Params, huge_ok: bool) -> bool {
	if need <= cap as u128 {
		return true;
	}
	let g = grown(need as usize, &par);
	g <= 1 << 22 || (huge_ok && g <= 22 << 30)
}

/// Element count: small, just filling the room, or just more
fn draw_count(s: &mut Src, size: usize, room: usize, par: Params, small: bool) -> usize {
	let size = size.max(1);
	let fit = room.min(4000) / size;
	match s.below(if small { 10 } else { 9 }) {
		0 | 1 | 2 => s.len(6),
		3 | 4 => s.len(60),
		5 => fit,
		6 => fit + 1,
		7 => fit.saturating_sub(1),
		8 => s.usize_below(2000 / size + 1),
		_ => par.max / size + s.usize_below(3),
	}
}

/// Element count at and beyond limits
fn draw_wild(s: &mut Src, size: usize, pos: usize, par: Params, beyond: bool) -> usize {
	let size = size.max(1);
	let left = par.max - pos;
	let d = s.usize_below(4);
	match s.below(if beyond { 8 } else { 2 }) {
		0 => (left / size).saturating_sub(d),
		1 => left / size + 1 + d,
		2 => usize::MAX - d,
		3 => (usize::MAX / size).wrapping_add(1 + d),
		4 => (usize::MAX / size).saturating_sub(d),
		5 => ((usize::MAX - pos) / size).wrapping_add(d),
		6 => isize::MAX as usize / size + d,
		_ => (1usize << (63 - s.below(63))).wrapping_add(d),
	}
}

fn verify(av: &mut dyn Av, mem: &Mem, pos: usize) -> PropResult {
	for (&k, b) in &mem.segs {
		if k + b.len() > pos {
			continue;
		}
		let mut o = 0;
		while o < b.len() {
			// Non-contiguous storages are checked byte by byte
			let step = if av.contiguous() { b.len() } else { 1 };
			let a = av.at(k + o);
			let have = unsafe { std::slice::from_raw_parts(a as *const u8, step) };
			if have != &b[o..o + step] {
				let i = (0..step).find(|&i| have[i] != b[o + i]).unwrap();
				return Err(format!(
					"byte {} is {:#04x}, {:#04x} was stored ({} bytes stored at {})",
					k + o + i,
					have[i],
					b[o + i],
					b.len(),
					k
				));
			}
			o += step;
		}
	}
	Ok(())
}

/// Bytes to push
const DATA: usize = 1 << 18;

#[derive(Clone, Copy)]
struct Data(&'static [u8]);
impl Data {
	fn new() -> Data {
		thread_local! {
			static B: &'static [u8] = {
				let mut x = 12345u32;
				// Aligned for all types pushed
				let len = DATA + 4096;
				let layout = std::alloc::Layout::from_size_align(len, 4096).unwrap();
				unsafe {
					let p = std::alloc::alloc(layout);
					assert!(!p.is_null());
					for i in 0..len {
						x = x.wrapping_mul(1664525).wrapping_add(1013904223);
						p.add(i).write(((x >> 24) as u8) | 1);
					}
					std::slice::from_raw_parts(p, len)
				}
			};
		}
		Data(B.with(|b| *b))
	}
	fn at(&self, off: usize) -> *const u8 {
		unsafe { self.0.as_ptr().add(off) }
	}
	fn slice(&self, off: usize, len: usize) -> &[u8] {
		&self.0[off..off + len]
	}
}

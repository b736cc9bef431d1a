//! Storages which implement only what a storage must, in various lawful ways,
//! and serializers over them: C22.

use std::{
	alloc::{alloc, dealloc, Layout},
	borrow::BorrowMut,
	marker::PhantomData,
	mem::size_of_val,
	ptr::copy_nonoverlapping,
};

use ser_raw::{
	pos::{PosMapping, Ptrs},
	storage::{ContiguousStorage, RandomAccessStorage, Storage},
	Serialize, Serializer,
};

use crate::{
	deep::{draw_raw, Entry},
	engine::{Ctx, PropResult, Src},
	model::*,
	subject::{raw_op, Raw},
};

/// How a test gets at the insides of a storage
pub struct Access<S> {
	pub contiguous: bool,
	pub bases: fn(&mut S) -> Vec<usize>,
	pub at: fn(&mut S, usize) -> usize,
	pub ptrs: fn(&mut S, usize) -> (usize, usize),
	pub skip: Skip,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Skip {
	None,
	Some,
	NoRandomAccess,
}

/// Memory block of a custom storage. Released memory is poisoned by the
/// allocator.
struct Block {
	p: *mut u8,
	size: usize,
	align: usize,
}

impl Block {
	fn new(size: usize, align: usize) -> Block {
		let p = if size == 0 {
			align as *mut u8
		} else {
			unsafe { alloc(Layout::from_size_align(size, align).unwrap()) }
		};
		assert!(!p.is_null());
		Block { p, size, align }
	}
	fn resized(&self, size: usize) -> Block {
		let b = Block::new(size, self.align);
		unsafe { copy_nonoverlapping(self.p, b.p, self.size.min(size)) };
		b
	}
}

impl Drop for Block {
	fn drop(&mut self) {
		if self.size > 0 {
			unsafe { dealloc(self.p, Layout::from_size_align(self.size, self.align).unwrap()) }
		}
	}
}

const MAX: usize = 1 << 30;

/// Contiguous; buffer moves on every reservation. With `PAGE > 0`, data never
/// straddles pages if it's smaller than one: reserving skips to the next page.
/// An odd `PAGE` is a page of one byte less, and skips go to the first position
/// in the next page which is as good for any alignment as the one before.
pub struct Moving<const SA: usize, const MVA: usize, const VA: usize, const PAGE: usize> {
	b: Block,
	pos: usize,
	moves: usize,
}

fn page_start(start: usize, size: usize, page: usize, mva: usize) -> usize {
	let odd = page % 2 == 1;
	let page = page - odd as usize;
	if page > 0 && start % page + size > page {
		if odd {
			start + up(up(start, page) - start, mva)
		} else {
			up(start, page)
		}
	} else {
		start
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const PAGE: usize> Storage
	for Moving<SA, MVA, VA, PAGE>
{
	const STORAGE_ALIGNMENT: usize = SA;
	const MAX_VALUE_ALIGNMENT: usize = MVA;
	const VALUE_ALIGNMENT: usize = VA;
	const MAX_CAPACITY: usize = MAX;

	fn new() -> Self {
		let _ = Self::ASSERT_ALIGNMENTS_VALID;
		Moving {
			b: Block::new(0, SA),
			pos: 0,
			moves: 0,
		}
	}
	unsafe fn with_capacity_unchecked(capacity: usize) -> Self {
		let _ = Self::ASSERT_ALIGNMENTS_VALID;
		assert!(capacity > 0 && capacity % MVA == 0 && capacity <= MAX, "requirements of with_capacity_unchecked");
		Moving {
			b: Block::new(capacity, SA),
			pos: 0,
			moves: 0,
		}
	}
	fn capacity(&self) -> usize {
		self.b.size
	}
	fn pos(&self) -> usize {
		self.pos
	}
	unsafe fn set_pos(&mut self, new_pos: usize) {
		assert!(new_pos <= self.b.size && new_pos % VA == 0, "requirements of set_pos ({})", new_pos);
		self.pos = new_pos;
	}
	unsafe fn push_slice_unchecked<T>(&mut self, slice: &[T], size: usize) {
		assert_eq!(size, size_of_val(slice), "requirements of push_slice_unchecked");
		assert!(self.b.size - self.pos >= size, "requirements of push_slice_unchecked: capacity");
		copy_nonoverlapping(slice.as_ptr() as *const u8, self.b.p.add(self.pos), size);
		self.pos += size;
	}
	fn reserve(&mut self, additional: usize) {
		self.pos = page_start(self.pos, additional, PAGE, MVA);
		let need = self.pos.checked_add(additional).expect("too much");
		assert!(need <= MAX, "too much");
		self.moves += 1;
		let size = up(need, MVA) + self.moves % 3 * MVA;
		self.b = self.b.resized(size);
	}
	fn shrink_to_fit(&mut self) {
		self.b = self.b.resized(up(self.pos, MVA));
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const PAGE: usize> RandomAccessStorage
	for Moving<SA, MVA, VA, PAGE>
{
	unsafe fn write_slice<T>(&mut self, pos: usize, slice: &[T]) {
		assert!(pos + size_of_val(slice) <= self.b.size, "requirements of write_slice");
		copy_nonoverlapping(
			slice.as_ptr() as *const u8,
			self.b.p.add(pos),
			size_of_val(slice),
		);
	}
	unsafe fn read<T>(&self, pos: usize) -> &T {
		&*(self.b.p.add(pos) as *const T)
	}
	unsafe fn read_mut<T>(&mut self, pos: usize) -> &mut T {
		&mut *(self.b.p.add(pos) as *mut T)
	}
	unsafe fn ptr(&self, pos: usize) -> *const u8 {
		self.b.p.add(pos)
	}
	unsafe fn mut_ptr(&mut self, pos: usize) -> *mut u8 {
		self.b.p.add(pos)
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const PAGE: usize> ContiguousStorage
	for Moving<SA, MVA, VA, PAGE>
{
	fn as_ptr(&self) -> *const u8 {
		self.b.p
	}
	fn as_mut_ptr(&mut self) -> *mut u8 {
		self.b.p
	}
}

/// Separate segments of memory which never move; not contiguous. Data goes to
/// the next segment if there is no room for all of it in the current one.
pub struct Segments<const SA: usize, const MVA: usize, const VA: usize, const PAGE: usize> {
	/// (first position, memory)
	segs: Vec<(usize, Block)>,
	pos: usize,
}

impl<const SA: usize, const MVA: usize, const VA: usize, const PAGE: usize>
	Segments<SA, MVA, VA, PAGE>
{
	fn end(&self) -> usize {
		self.segs.last().map_or(0, |s| s.0 + s.1.size)
	}
	fn addr(&self, pos: usize, size: usize) -> *mut u8 {
		if size == 0 && (self.segs.is_empty() || pos == self.end()) {
			return SA as *mut u8;
		}
		let s = self
			.segs
			.iter()
			.find(|s| pos >= s.0 && pos < s.0 + s.1.size)
			.expect("position within capacity");
		assert!(pos + size <= s.0 + s.1.size, "data within room reserved");
		unsafe { s.1.p.add(pos - s.0) }
	}
	/// Where data goes, given the segments there are
	fn start(&self, pos: usize, size: usize) -> usize {
		let mut pos = pos;
		for s in &self.segs {
			let end = s.0 + s.1.size;
			if pos < end && pos >= s.0 {
				if pos + size <= end {
					return pos;
				}
				pos = end;
			}
		}
		pos
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const PAGE: usize> Storage
	for Segments<SA, MVA, VA, PAGE>
{
	const STORAGE_ALIGNMENT: usize = SA;
	const MAX_VALUE_ALIGNMENT: usize = MVA;
	const VALUE_ALIGNMENT: usize = VA;
	const MAX_CAPACITY: usize = MAX;

	fn new() -> Self {
		let _ = Self::ASSERT_ALIGNMENTS_VALID;
		Segments {
			segs: Vec::new(),
			pos: 0,
		}
	}
	unsafe fn with_capacity_unchecked(capacity: usize) -> Self {
		let _ = Self::ASSERT_ALIGNMENTS_VALID;
		assert!(capacity > 0 && capacity % MVA == 0 && capacity <= MAX, "requirements of with_capacity_unchecked");
		Segments {
			segs: vec![(0, Block::new(up(capacity, PAGE), SA))],
			pos: 0,
		}
	}
	fn capacity(&self) -> usize {
		self.end()
	}
	fn pos(&self) -> usize {
		self.pos
	}
	unsafe fn set_pos(&mut self, new_pos: usize) {
		assert!(new_pos <= self.end() && new_pos % VA == 0, "requirements of set_pos ({})", new_pos);
		self.pos = new_pos;
	}
	unsafe fn push_slice_unchecked<T>(&mut self, slice: &[T], size: usize) {
		assert_eq!(size, size_of_val(slice), "requirements of push_slice_unchecked");
		let p = self.addr(self.pos, size);
		copy_nonoverlapping(slice.as_ptr() as *const u8, p, size);
		self.pos += size;
	}
	fn reserve(&mut self, additional: usize) {
		assert!(additional <= MAX, "too much");
		self.pos = self.start(self.pos, additional);
		let end = self.end();
		if self.pos == end && additional > 0 {
			self.segs.push((end, Block::new(up(additional, PAGE), SA)));
		}
	}
	fn shrink_to_fit(&mut self) {
		let pos = self.pos;
		self.segs.retain(|s| s.0 < pos);
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const PAGE: usize> RandomAccessStorage
	for Segments<SA, MVA, VA, PAGE>
{
	unsafe fn write_slice<T>(&mut self, pos: usize, slice: &[T]) {
		let n = size_of_val(slice);
		copy_nonoverlapping(slice.as_ptr() as *const u8, self.addr(pos, n), n);
	}
	unsafe fn read<T>(&self, pos: usize) -> &T {
		&*(self.addr(pos, std::mem::size_of::<T>()) as *const T)
	}
	unsafe fn read_mut<T>(&mut self, pos: usize) -> &mut T {
		&mut *(self.addr(pos, std::mem::size_of::<T>()) as *mut T)
	}
	unsafe fn ptr(&self, pos: usize) -> *const u8 {
		self.addr(pos, 0)
	}
	unsafe fn mut_ptr(&mut self, pos: usize) -> *mut u8 {
		self.addr(pos, 0)
	}
}

// ---- op histories ---------------------------------------------------------

pub fn moving_access<const SA: usize, const MVA: usize, const VA: usize, const PAGE: usize>(
) -> Access<Moving<SA, MVA, VA, PAGE>> {
	Access {
		contiguous: true,
		bases: |s| vec![s.as_ptr() as usize, s.as_mut_ptr() as usize],
		at: |s, pos| s.as_ptr() as usize + pos,
		ptrs: |s, pos| unsafe { (s.ptr(pos) as usize, s.mut_ptr(pos) as usize) },
		skip: if PAGE > 0 { Skip::Some } else { Skip::None },
	}
}

pub fn segments_access<const SA: usize, const MVA: usize, const VA: usize, const PAGE: usize>(
) -> Access<Segments<SA, MVA, VA, PAGE>> {
	Access {
		contiguous: false,
		bases: |_| vec![],
		at: |s, pos| s.addr(pos, 1) as usize,
		ptrs: |s, pos| unsafe { (s.ptr(pos) as usize, s.mut_ptr(pos) as usize) },
		skip: Skip::NoRandomAccess,
	}
}

#[macro_export]
macro_rules! custom_av {
	($ty:ident, $acc:ident, $f:ident, $sa:expr, $mva:tt, $va:expr, $page:expr) => {{
		fn f() -> Box<dyn $crate::store::Av> {
			type S = $crate::custom::$ty<{ $sa }, { $mva }, { $va }, { $page }>;
			Box::new($crate::store::Hold::<S>::new(
				$crate::tys!($f, S, $mva),
				$crate::custom::$acc::<{ $sa }, { $mva }, { $va }, { $page }>(),
				None,
			))
		}
		f as fn() -> Box<dyn $crate::store::Av>
	}};
}

// ---- serializers ----------------------------------------------------------

#[derive(Serializer)]
#[ser_type(pure_copy)]
pub struct PureSer<S: Storage, B: BorrowMut<S>> {
	#[ser_storage(S)]
	storage: B,
	of: PhantomData<S>,
}

#[derive(Serializer)]
#[ser_type(ptr_offset)]
pub struct OffsetSer<S: RandomAccessStorage, B: BorrowMut<S>> {
	#[ser_storage(S)]
	storage: B,
	#[ser_pos_mapping]
	pos: PosMapping,
	of: PhantomData<S>,
}

#[derive(Serializer)]
#[ser_type(complete)]
pub struct CompleteSer<S: RandomAccessStorage + ContiguousStorage, B: BorrowMut<S>> {
	#[ser_ptrs]
	ptrs: Ptrs,
	#[ser_storage(S)]
	storage: B,
	#[ser_pos_mapping]
	pos: PosMapping,
	of: PhantomData<S>,
}

impl<S: Storage, B: BorrowMut<S>> PureSer<S, B> {
	pub fn new(storage: B) -> Self {
		PureSer { storage, of: PhantomData }
	}
}

impl<S: RandomAccessStorage, B: BorrowMut<S>> OffsetSer<S, B> {
	pub fn new(storage: B) -> Self {
		OffsetSer { storage, pos: PosMapping::dummy(), of: PhantomData }
	}
}

impl<S: RandomAccessStorage + ContiguousStorage, B: BorrowMut<S>> CompleteSer<S, B> {
	pub fn new(storage: B) -> Self {
		CompleteSer { storage, pos: PosMapping::dummy(), ptrs: Ptrs::new(), of: PhantomData }
	}
}

/// Storage and serializers over it
pub trait CStore {
	fn va(&self) -> usize;
	fn kinds(&self) -> &'static [Kind];
	/// Serialize (type-erased) values with raw pushes between
	fn session(&mut self, kind: Kind, owned: bool, cap: Option<usize>, items: &[Item]) -> Vec<usize>;
	/// Contents and the address of the buffer (0 if not contiguous)
	fn contents(&mut self) -> (Bytes, usize);
	/// Where a piece goes
	fn start(&self, pos: usize, size: usize) -> usize;
}

pub enum Item {
	Value(*const ()),
	Raw(Raw),
}

pub struct CS<T, S> {
	s: S,
	t: PhantomData<T>,
}

impl<T, S: Storage> CS<T, S> {
	pub fn new() -> Self {
		CS {
			s: S::new(),
			t: PhantomData,
		}
	}
}

fn run<T, Z: Serializer>(mut z: Z, items: &[Item], pos: &mut Vec<usize>) -> Z::BorrowedStorage
where T: Serialize<Z> {
	for it in items {
		pos.push(match it {
			Item::Value(v) => z.serialize_value(unsafe { &*(*v as *const T) }),
			Item::Raw(r) => raw_op(&mut z, r),
		});
	}
	z.finalize()
}

macro_rules! with_ser {
	($self:ident, $owned:ident, $items:ident, $pos:ident, $st:ident => $ser:expr) => {
		if $owned {
			let $st = std::mem::replace(&mut $self.s, S2::new());
			$self.s = run::<T, _>($ser, $items, &mut $pos);
		} else {
			let $st = &mut $self.s;
			run::<T, _>($ser, $items, &mut $pos);
		}
	};
}

impl<T, const SA: usize, const MVA: usize, const VA: usize, const PAGE: usize> CStore
	for CS<T, Moving<SA, MVA, VA, PAGE>>
where
	T: Serialize<PureSer<Moving<SA, MVA, VA, PAGE>, Moving<SA, MVA, VA, PAGE>>>
		+ Serialize<OffsetSer<Moving<SA, MVA, VA, PAGE>, Moving<SA, MVA, VA, PAGE>>>
		+ Serialize<CompleteSer<Moving<SA, MVA, VA, PAGE>, Moving<SA, MVA, VA, PAGE>>>
		+ for<'a> Serialize<PureSer<Moving<SA, MVA, VA, PAGE>, &'a mut Moving<SA, MVA, VA, PAGE>>>
		+ for<'a> Serialize<OffsetSer<Moving<SA, MVA, VA, PAGE>, &'a mut Moving<SA, MVA, VA, PAGE>>>
		+ for<'a> Serialize<CompleteSer<Moving<SA, MVA, VA, PAGE>, &'a mut Moving<SA, MVA, VA, PAGE>>>,
{
	fn va(&self) -> usize {
		VA
	}
	fn kinds(&self) -> &'static [Kind] {
		&KINDS
	}
	fn session(&mut self, kind: Kind, owned: bool, cap: Option<usize>, items: &[Item]) -> Vec<usize> {
		type S2<const SA: usize, const MVA: usize, const VA: usize, const PAGE: usize> =
			Moving<SA, MVA, VA, PAGE>;
		if let Some(n) = cap {
			self.s = Storage::with_capacity(n);
		}
		let mut pos = Vec::new();
		match kind {
			Kind::Pure => with_ser!(self, owned, items, pos, st => PureSer::new(st)),
			Kind::Offset => {
				with_ser!(self, owned, items, pos, st => OffsetSer::new(st))
			}
			Kind::Complete => {
				with_ser!(self, owned, items, pos, st => CompleteSer::new(st))
			}
		}
		pos
	}
	fn contents(&mut self) -> (Bytes, usize) {
		let base = self.s.as_ptr();
		(unsafe { Bytes::copy(base, self.s.pos()) }, base as usize)
	}
	fn start(&self, pos: usize, size: usize) -> usize {
		page_start(pos, size, PAGE, MVA)
	}
}

impl<T, const SA: usize, const MVA: usize, const VA: usize, const PAGE: usize> CStore
	for CS<T, Segments<SA, MVA, VA, PAGE>>
where
	T: Serialize<PureSer<Segments<SA, MVA, VA, PAGE>, Segments<SA, MVA, VA, PAGE>>>
		+ Serialize<OffsetSer<Segments<SA, MVA, VA, PAGE>, Segments<SA, MVA, VA, PAGE>>>
		+ for<'a> Serialize<PureSer<Segments<SA, MVA, VA, PAGE>, &'a mut Segments<SA, MVA, VA, PAGE>>>
		+ for<'a> Serialize<OffsetSer<Segments<SA, MVA, VA, PAGE>, &'a mut Segments<SA, MVA, VA, PAGE>>>,
{
	fn va(&self) -> usize {
		VA
	}
	fn kinds(&self) -> &'static [Kind] {
		&[Kind::Offset, Kind::Pure]
	}
	fn session(&mut self, kind: Kind, owned: bool, cap: Option<usize>, items: &[Item]) -> Vec<usize> {
		type S2<const SA: usize, const MVA: usize, const VA: usize, const PAGE: usize> =
			Segments<SA, MVA, VA, PAGE>;
		if let Some(n) = cap {
			self.s = Storage::with_capacity(n);
		}
		let mut pos = Vec::new();
		match kind {
			Kind::Pure => with_ser!(self, owned, items, pos, st => PureSer::new(st)),
			_ => {
				with_ser!(self, owned, items, pos, st => OffsetSer::new(st))
			}
		}
		pos
	}
	fn contents(&mut self) -> (Bytes, usize) {
		let mut v = vec![0u8; self.s.end()];
		for (start, b) in &self.s.segs {
			unsafe { copy_nonoverlapping(b.p, v.as_mut_ptr().add(*start), b.size) };
		}
		v.truncate(self.s.pos);
		(unsafe { Bytes::copy(v.as_ptr(), v.len()) }, 0)
	}
	fn start(&self, pos: usize, size: usize) -> usize {
		self.s.start(pos, size)
	}
}

pub type CFactory = fn() -> Box<dyn CStore>;

#[macro_export]
macro_rules! cstore {
	($t:ty, $s:ident, $sa:expr, $mva:expr, $va:expr, $page:expr) => {{
		fn f() -> Box<dyn $crate::custom::CStore> {
			Box::new($crate::custom::CS::<
				$t,
				$crate::custom::$s<{ $sa }, { $mva }, { $va }, { $page }>,
			>::new())
		}
		f as $crate::custom::CFactory
	}};
}

pub fn custom_values(
	s: &mut Src,
	ctx: &mut Ctx,
	factories: &[CFactory],
	entry: &Entry,
) -> PropResult {
	let k = s.usize_below(factories.len());
	let mut st = factories[k]();
	let kind = *s.pick(st.kinds());
	let owned = s.below(2) == 0;
	let n = s.range(1, 5);
	let mut subjs = Vec::new();
	let mut items = Vec::new();
	for _ in 0..n {
		if s.below(3) == 0 {
			items.push(Item::Raw(draw_raw(s, 16)));
		}
		let mut opts = crate::deep::GenOpts {
			fuel: 60,
			empty: s.below(6) == 5,
			large: true,
			rare: false,
		};
		let subj = (entry.gen)(s, &mut opts);
		let img = subj.image();
		items.push(Item::Value(subj.ptr()));
		subjs.push((subj, img));
	}
	let cap = if s.below(2) == 0 { Some(s.usize_below(500)) } else { None };
	let rounds = if s.below(3) == 0 { 2 } else { 1 };
	ctx.sample(|| {
		format!(
			"storage {} {:?} owned {}: {}",
			k,
			kind,
			owned,
			subjs.iter().map(|x| x.0.show()).collect::<Vec<_>>().join(" | ")
		)
	});
	ctx.nontrivial = subjs.iter().any(|x| x.1.pieces.len() > 1);
	ctx.sig = subjs.iter().fold(k as u64, |h, x| h.rotate_left(7) ^ x.1.hash()) | 1;
	ctx.label("values serialized to custom storage");
	let va = st.va();
	let mut end = 0;
	for round in 0..rounds {
		let before = end;
		let cap = if round == 0 { cap } else { None };
		let positions = st.session(kind, owned, cap, &items);
		let (bytes, base) = st.contents();
		let out = Out {
			data: bytes.ptr(),
			base,
			len: bytes.slice().len(),
		};
		end = out.len;
		let mut r = vec![(0, before)];
		let mut vi = 0;
		for (i, (it, &pos)) in items.iter().zip(&positions).enumerate() {
			let what = |e: String| format!("storage {}, round {}, item {} ({:?}): {}", k, round, i, kind, e);
			match it {
				Item::Value(_) => {
					let img = &subjs[vi].1;
					vi += 1;
					let place = if kind == Kind::Pure {
						// Each piece is in the next place the storage would put it
						let mut place = vec![pos];
						let root = img.root();
						if root.size > 0 && pos % root.align.max(va) != 0 {
							return Err(what(format!("position {} is misaligned", pos)));
						}
						let mut p = up(pos + root.size, va);
						for q in &img.pieces[1..] {
							let at = st.start(up(p, q.align.max(va)), q.size);
							place.push(at);
							p = up(at + q.size, va);
						}
						place
					} else {
						vec![]
					};
					let place = check_placed(img, pos, &out, kind, va, ALL, place).map_err(what)?;
					r.extend(ranges(img, &place));
				}
				Item::Raw(op) => {
					let (size, align, b) = op.spec();
					if size == 0 {
						continue;
					}
					if pos % align != 0 || pos + size > out.len {
						return Err(what(format!("{:?} at position {}", op, pos)));
					}
					r.push((pos, size));
					if let Some(b) = b {
						if out.bytes()[pos..pos + size] != b[..] {
							return Err(what(format!("{:?} at {} was overwritten or not stored there", op, pos)));
						}
					}
				}
			}
		}
		check_disjoint(&mut r).map_err(|e| format!("storage {}, round {} ({:?}): {}", k, round, kind, e))?;
	}
	Ok(())
}

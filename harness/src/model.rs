//! Reference model of values.
//!
//! `Image::of(&value)` walks a value and records every piece of memory it
//! consists of: the value itself and each non-empty allocation it owns, depth
//! first in field and element order, with a snapshot of the bytes, the ranges of
//! bytes which carry data, where the pointers are and which piece each leads
//! to. All checks of serializer output compare the output with such an image.

use std::{
	fmt::Write,
	mem::{self, align_of, size_of, MaybeUninit},
	num::*,
	ptr,
};

use num_bigint::{BigInt, BigUint, Sign};

use crate::engine::{hash_bytes, Src};

// ---- pieces ---------------------------------------------------------------

#[repr(C, align(64))]
#[derive(Clone, Copy)]
struct Chunk([u8; 64]);

/// Copy of bytes, aligned to 64
pub struct Bytes {
	v: Vec<Chunk>,
	len: usize,
}

impl Bytes {
	pub unsafe fn copy(p: *const u8, len: usize) -> Bytes {
		let n = (len + 63) / 64;
		let mut v: Vec<Chunk> = Vec::with_capacity(n);
		ptr::copy_nonoverlapping(p, v.as_mut_ptr() as *mut u8, len);
		let b = v.as_mut_ptr() as *mut u8;
		ptr::write_bytes(b.add(len), 0, n * 64 - len);
		v.set_len(n);
		Bytes { v, len }
	}
	pub fn ptr(&self) -> *const u8 {
		self.v.as_ptr() as *const u8
	}
	pub fn slice(&self) -> &[u8] {
		unsafe { std::slice::from_raw_parts(self.ptr(), self.len) }
	}
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum PtrKind {
	/// `Box`
	Single,
	/// `Vec`, `String`, big integer digits: pointer, capacity and length words
	Slice,
}

#[derive(Clone, Copy, Debug)]
pub struct PtrField {
	pub kind: PtrKind,
	/// Offset of the owner (`Box`, `Vec`, `String`) in its piece
	pub off: usize,
	pub len: usize,
	pub cap: usize,
	/// Index of piece pointed to. `None` if empty or zero-sized.
	pub target: Option<usize>,
	pub elem_align: usize,
	pub elem_size: usize,
}

pub type SameFn = unsafe fn(*const u8, *const u8) -> bool;

pub struct Piece {
	pub addr: usize,
	pub size: usize,
	pub align: usize,
	pub bytes: Bytes,
	/// (offset, length) of data bytes
	pub leaves: Vec<(usize, usize)>,
	/// Comparisons of data whose representation is not known (discriminants)
	pub same: Vec<(usize, SameFn)>,
	pub ptrs: Vec<PtrField>,
}

pub struct Image {
	pub pieces: Vec<Piece>,
}

pub struct Walk {
	pieces: Vec<Piece>,
	cur: usize,
	base: usize,
	limit: usize,
}

impl Walk {
	/// Data bytes
	pub fn leaf<T>(&mut self, v: &T) {
		self.leaf_at(v as *const T as usize, size_of::<T>());
	}
	fn leaf_at(&mut self, addr: usize, len: usize) {
		if len == 0 {
			return;
		}
		let off = addr.wrapping_sub(self.base);
		let p = &mut self.pieces[self.cur];
		debug_assert!(off + len <= p.size);
		if let Some(l) = p.leaves.last_mut() {
			if l.0 + l.1 == off {
				l.1 += len;
				return;
			}
		}
		p.leaves.push((off, len));
	}
	/// Enum discriminant
	pub fn disc<T>(&mut self, v: &T) {
		unsafe fn same<T>(a: *const u8, b: *const u8) -> bool {
			mem::discriminant(&*(a as *const T)) == mem::discriminant(&*(b as *const T))
		}
		self.same_by(v, same::<T>);
	}
	pub fn same_by<T>(&mut self, v: &T, f: SameFn) {
		let off = (v as *const T as usize).wrapping_sub(self.base);
		self.pieces[self.cur].same.push((off, f));
	}
	fn enter<T: Model>(&mut self, slice: &[T]) -> usize {
		let size = mem::size_of_val(slice);
		let idx = self.pieces.len();
		if size + 64 > self.limit {
			panic!("value read back is larger than any value serialized");
		}
		self.limit -= size + 64;
		self.pieces.push(Piece {
			addr: slice.as_ptr() as usize,
			size,
			align: align_of::<T>(),
			bytes: unsafe { Bytes::copy(slice.as_ptr() as *const u8, size) },
			leaves: vec![],
			same: vec![],
			ptrs: vec![],
		});
		let (cur, base) = (self.cur, self.base);
		self.cur = idx;
		self.base = slice.as_ptr() as usize;
		if T::POD {
			self.leaf_at(self.base, size);
		} else {
			for v in slice {
				v.walk(self);
			}
		}
		self.cur = cur;
		self.base = base;
		idx
	}
	pub fn slice_owner<T: Model>(&mut self, owner: usize, slice: &[T], cap: usize) {
		let off = owner.wrapping_sub(self.base);
		let empty = size_of::<T>() == 0 || slice.len() == 0;
		let target = if empty { None } else { Some(self.pieces.len()) };
		self.pieces[self.cur].ptrs.push(PtrField {
			kind: PtrKind::Slice,
			off,
			len: slice.len(),
			cap,
			target,
			elem_align: align_of::<T>(),
			elem_size: size_of::<T>(),
		});
		if !empty {
			self.enter(slice);
		}
	}
	pub fn box_owner<T: Model>(&mut self, owner: usize, v: &T) {
		let off = owner.wrapping_sub(self.base);
		let empty = size_of::<T>() == 0;
		let target = if empty { None } else { Some(self.pieces.len()) };
		self.pieces[self.cur].ptrs.push(PtrField {
			kind: PtrKind::Single,
			off,
			len: 1,
			cap: 1,
			target,
			elem_align: align_of::<T>(),
			elem_size: size_of::<T>(),
		});
		if !empty {
			self.enter(std::slice::from_ref(v));
		}
	}
}

impl Image {
	pub fn of<T: Model>(v: &T) -> Image {
		Image::limited(v, usize::MAX)
	}

	/// Panics if the value is larger than the limit
	pub fn limited<T: Model>(v: &T, limit: usize) -> Image {
		let mut w = Walk {
			pieces: Vec::new(),
			cur: 0,
			base: 0,
			limit,
		};
		w.enter(std::slice::from_ref(v));
		Image { pieces: w.pieces }
	}

	pub fn root(&self) -> &Piece {
		&self.pieces[0]
	}

	pub fn total_size(&self) -> usize {
		self.pieces.iter().map(|p| p.size).sum()
	}

	pub fn num_ptrs(&self) -> usize {
		self.pieces.iter().map(|p| p.ptrs.len()).sum()
	}

	/// Every byte of the input is as it was when the image was taken
	pub fn check_unchanged(&self) -> Result<(), String> {
		for (i, p) in self.pieces.iter().enumerate() {
			let now = unsafe { std::slice::from_raw_parts(p.addr as *const u8, p.size) };
			if now != p.bytes.slice() {
				let at = (0..p.size).find(|&k| now[k] != p.bytes.slice()[k]).unwrap();
				return Err(format!(
					"input memory changed: piece {} (size {}), byte {}: {:#x} became {:#x}",
					i,
					p.size,
					at,
					p.bytes.slice()[at],
					now[at]
				));
			}
		}
		Ok(())
	}

	/// Position of each piece when serialized starting at `pos`, and end position
	pub fn predict(&self, mut pos: usize, va: usize) -> (Vec<usize>, usize) {
		let mut v = Vec::with_capacity(self.pieces.len());
		for p in &self.pieces {
			if p.size == 0 {
				v.push(0);
				continue;
			}
			let start = up(pos, p.align.max(va));
			v.push(start);
			pos = up(start + p.size, va);
		}
		(v, pos)
	}

	/// Images of two values are the same value (addresses and capacities aside)
	pub fn same_value(&self, o: &Image) -> Result<(), String> {
		if self.pieces.len() != o.pieces.len() {
			return Err(format!(
				"value has {} pieces, read back {}",
				self.pieces.len(),
				o.pieces.len()
			));
		}
		for (i, (a, b)) in self.pieces.iter().zip(&o.pieces).enumerate() {
			if a.size != b.size || a.ptrs.len() != b.ptrs.len() || a.leaves != b.leaves {
				return Err(format!("shape of piece {} differs in value read back", i));
			}
			for (x, y) in a.ptrs.iter().zip(&b.ptrs) {
				if x.off != y.off || x.len != y.len || x.target != y.target {
					return Err(format!(
						"piece {}: length {} at offset {} reads back as {} at {}",
						i, x.len, x.off, y.len, y.off
					));
				}
			}
			data_same(a, b.bytes.ptr()).map_err(|e| format!("piece {}: read back: {}", i, e))?;
		}
		Ok(())
	}

	pub fn hash(&self) -> u64 {
		let mut h = 0xcbf29ce484222325;
		for p in &self.pieces {
			h = hash_bytes(&(p.size as u64).to_le_bytes(), h);
			for &(o, l) in &p.leaves {
				h = hash_bytes(&p.bytes.slice()[o..o + l.min(256)], h);
			}
			for f in &p.ptrs {
				h = hash_bytes(&(f.len as u64).to_le_bytes(), h);
				h = hash_bytes(&(f.off as u64).to_le_bytes(), h);
			}
		}
		h | 1
	}
}

/// Data of piece (leaves and discriminants) equals that of memory at `at`
pub fn data_same(p: &Piece, at: *const u8) -> Result<(), String> {
	for &(off, len) in &p.leaves {
		let got = unsafe { std::slice::from_raw_parts(at.add(off), len) };
		let want = &p.bytes.slice()[off..off + len];
		if got != want {
			let k = (0..len).find(|&k| got[k] != want[k]).unwrap();
			return Err(format!(
				"data byte {} of piece is {:#04x}, should be {:#04x}",
				off + k,
				got[k],
				want[k]
			));
		}
	}
	for &(off, f) in &p.same {
		if !unsafe { f(at.add(off), p.bytes.ptr().add(off)) } {
			return Err(format!("discriminant at byte {} of piece differs", off));
		}
	}
	Ok(())
}

pub fn up(pos: usize, align: usize) -> usize {
	(pos + align - 1) / align * align
}

// ---- checks of output -----------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
	Pure,
	Offset,
	Complete,
}

pub const KINDS: [Kind; 3] = [Kind::Complete, Kind::Offset, Kind::Pure];

/// Output bytes. `data` is where they can be read now, `base` the address they
/// had when serialization finished.
#[derive(Clone, Copy)]
pub struct Out {
	pub data: *const u8,
	pub base: usize,
	pub len: usize,
}

impl Out {
	pub fn bytes(&self) -> &[u8] {
		unsafe { std::slice::from_raw_parts(self.data, self.len) }
	}
	fn word(&self, at: usize) -> usize {
		unsafe { (self.data.add(at) as *const usize).read_unaligned() }
	}
}

/// (offset of ptr, cap, len words) in `Vec`
pub fn vec_words() -> (usize, usize, usize) {
	use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
	static CACHE: AtomicUsize = AtomicUsize::new(0);
	let c = CACHE.load(Relaxed);
	if c != 0 {
		return (c & 0xff, (c >> 8) & 0xff, (c >> 16) & 0xff);
	}
	let mut v: Vec<u64> = Vec::with_capacity(77);
	v.extend_from_slice(&[1, 2, 3]);
	assert_eq!(v.capacity(), 77);
	let w: [usize; 3] = unsafe { ptr::read(&v as *const Vec<u64> as *const [usize; 3]) };
	let find = |x: usize| w.iter().position(|&y| y == x).unwrap() * 8;
	let r = (find(v.as_ptr() as usize), find(77), find(3));
	CACHE.store(r.0 | r.1 << 8 | r.2 << 16 | 1 << 31, Relaxed);
	r
}

/// Check representation of a value at `pos` in output; returns start position of
/// every piece.
///
/// `Pure`: pieces must be where `predict` puts them. Others: wherever the
/// pointers in the output lead.
pub fn check_output(
	img: &Image,
	pos: usize,
	out: &Out,
	kind: Kind,
	va: usize,
) -> Result<Vec<usize>, String> {
	check_aspects(img, pos, out, kind, va, ALL)
}

/// What to look at besides where the pieces are
#[derive(Clone, Copy)]
pub struct Aspects {
	/// Data bytes and discriminants
	pub data: bool,
	/// Lengths
	pub lens: bool,
	/// Capacities
	pub caps: bool,
	/// Pointers of empty owners
	pub dangling: bool,
}
pub const ALL: Aspects = Aspects {
	data: true,
	lens: true,
	caps: true,
	dangling: true,
};
pub const PTRS: Aspects = Aspects {
	data: true,
	lens: false,
	caps: false,
	dangling: false,
};
pub const PLACES: Aspects = Aspects {
	data: false,
	lens: false,
	caps: false,
	dangling: false,
};

pub fn check_aspects(
	img: &Image,
	pos: usize,
	out: &Out,
	kind: Kind,
	va: usize,
	asp: Aspects,
) -> Result<Vec<usize>, String> {
	check_placed(img, pos, out, kind, va, asp, vec![])
}

/// `places`: where pieces of pure copy output are, if not where `predict` puts
/// them
pub fn check_placed(
	img: &Image,
	pos: usize,
	out: &Out,
	kind: Kind,
	va: usize,
	asp: Aspects,
	places: Vec<usize>,
) -> Result<Vec<usize>, String> {
	let (w_ptr, w_cap, w_len) = vec_words();
	let n = img.pieces.len();
	let mut place: Vec<usize> = vec![usize::MAX; n];
	if !places.is_empty() {
		place = places;
	} else if kind == Kind::Pure {
		place = img.predict(pos, va).0;
		if img.root().size == 0 {
			place[0] = pos;
		}
		if place[0] != pos {
			return Err(format!(
				"value returned position {}, which is not aligned to {}",
				pos,
				img.root().align.max(va)
			));
		}
	}
	place[0] = pos;

	for i in 0..n {
		let p = &img.pieces[i];
		let at = place[i];
		let here = |e: String| {
			format!(
				"{:?} output, piece {} (size {} align {}) at {}: {}",
				kind, i, p.size, p.align, at, e
			)
		};
		if at == usize::MAX {
			return Err(here("no pointer leads to it".into()));
		}
		if p.size == 0 {
			if (out.base + at) % p.align != 0 {
				return Err(here("zero-sized value is misaligned".into()));
			}
			continue;
		}
		if at > out.len || p.size > out.len - at {
			return Err(here(format!("extends beyond output of length {}", out.len)));
		}
		if at % p.align != 0 || (out.base + at) % p.align != 0 {
			return Err(here(format!("misaligned (buffer at {:#x})", out.base)));
		}
		for f in &p.ptrs {
			let o = at + f.off;
			let slice = f.kind == PtrKind::Slice;
			let (pw, cw, lw) = if slice {
				(out.word(o + w_ptr), out.word(o + w_cap), out.word(o + w_len))
			} else {
				(out.word(o), 1, 1)
			};
			let poff = if slice { f.off + w_ptr } else { f.off };
			let orig = |off: usize| unsafe {
				(p.bytes.ptr().add(off) as *const usize).read_unaligned()
			};
			let in_ptr = orig(poff);
			if asp.lens && slice && lw != f.len {
				return Err(here(format!(
					"length at offset {} is {}, should be {}",
					f.off, lw, f.len
				)));
			}
			match kind {
				Kind::Pure => {
					if asp.dangling && pw != in_ptr {
						return Err(here(format!(
							"pointer at offset {} is {:#x}, not copied from input ({:#x})",
							f.off, pw, in_ptr
						)));
					}
				}
				Kind::Offset => match f.target {
					Some(t) => place[t] = pw,
					None => {
						if asp.dangling && pw != in_ptr {
							return Err(here(format!(
								"pointer of empty owner at offset {} is {:#x}, not copied from input ({:#x})",
								f.off, pw, in_ptr
							)));
						}
					}
				},
				Kind::Complete => match f.target {
					Some(t) => {
						let tp = pw.wrapping_sub(out.base);
						if tp >= out.len {
							return Err(here(format!(
								"pointer at offset {} is {:#x}, outside output at {:#x}..{:#x}{}",
								f.off,
								pw,
								out.base,
								out.base + out.len,
								if pw == in_ptr { " (still points to input)" } else { "" }
							)));
						}
						place[t] = tp;
					}
					None if !asp.dangling => {}
					None => {
						if pw == 0 || pw % f.elem_align != 0 {
							return Err(here(format!(
								"pointer of empty owner at offset {} is {:#x}, which is not a valid dangling pointer",
								f.off, pw
							)));
						}
						if slice && f.elem_size > 0 && f.cap != 0 && pw == in_ptr {
							return Err(here(format!(
								"pointer of empty owner at offset {} still leads to input's allocation",
								f.off
							)));
						}
					}
				},
			}
			if slice && asp.caps {
				let cap_in = orig(f.off + w_cap);
				if kind == Kind::Complete && f.elem_size > 0 {
					if cw != f.len {
						return Err(here(format!(
							"capacity at offset {} is {}, but length is {}",
							f.off, cw, f.len
						)));
					}
				} else if cw != cap_in {
					return Err(here(format!(
						"capacity at offset {} is {}, not copied from input ({})",
						f.off, cw, cap_in
					)));
				}
			}
		}
		if asp.data {
			data_same(p, unsafe { out.data.add(at) }).map_err(here)?;
		}
	}
	Ok(place)
}

/// Pieces with their places don't overlap
pub fn check_disjoint(ranges: &mut Vec<(usize, usize)>) -> Result<(), String> {
	ranges.retain(|r| r.1 > 0);
	ranges.sort();
	for w in ranges.windows(2) {
		if w[0].0 + w[0].1 > w[1].0 {
			return Err(format!(
				"pieces overlap: {}..{} and {}..{}",
				w[0].0,
				w[0].0 + w[0].1,
				w[1].0,
				w[1].0 + w[1].1
			));
		}
	}
	Ok(())
}

pub fn ranges(img: &Image, place: &[usize]) -> Vec<(usize, usize)> {
	img.pieces
		.iter()
		.zip(place)
		.map(|(p, &at)| (at, p.size))
		.collect()
}

// ---- values ---------------------------------------------------------------

/// Budget for size of generated value
pub struct Fuel {
	pub n: i64,
	pub depth: u32,
	/// Favour empty and zero-sized contents
	pub empty: bool,
}

impl Fuel {
	pub fn new(n: i64) -> Fuel {
		Fuel {
			n,
			depth: 0,
			empty: false,
		}
	}
	pub fn spend(&mut self) -> bool {
		self.n -= 1;
		self.n >= 0 && self.depth < 40
	}
}

pub trait Model: Sized + 'static {
	/// All bytes of the type carry data and there's no padding
	const POD: bool = false;
	fn walk(&self, w: &mut Walk);
	fn gen(s: &mut Src, f: &mut Fuel) -> Self;
	fn show(&self, o: &mut String);
}

macro_rules! model_int {
	($($t:ty),*) => { $(
		impl Model for $t {
			const POD: bool = true;
			fn walk(&self, w: &mut Walk) { w.leaf(self); }
			fn gen(s: &mut Src, _f: &mut Fuel) -> Self { gen_bits(s, size_of::<$t>()) as $t }
			fn show(&self, o: &mut String) { let _ = write!(o, "{}", self); }
		}
	)* };
}
fn gen_bits(s: &mut Src, size: usize) -> u128 {
	if size <= 8 {
		s.int() as u128
	} else {
		s.int() as u128 | (s.int() as u128) << 64
	}
}
model_int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);

macro_rules! model_nz {
	($($t:ident $p:ty),*) => { $(
		impl Model for $t {
			const POD: bool = true;
			fn walk(&self, w: &mut Walk) { w.leaf(self); }
			fn gen(s: &mut Src, _f: &mut Fuel) -> Self {
				$t::new(gen_bits(s, size_of::<$t>()) as $p).unwrap_or($t::new(1).unwrap())
			}
			fn show(&self, o: &mut String) { let _ = write!(o, "nz{}", self); }
		}
	)* };
}
model_nz!(
	NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64, NonZeroU128 u128, NonZeroUsize usize,
	NonZeroI8 i8, NonZeroI16 i16, NonZeroI32 i32, NonZeroI64 i64, NonZeroI128 i128, NonZeroIsize isize
);

impl Model for f32 {
	const POD: bool = true;
	fn walk(&self, w: &mut Walk) {
		w.leaf(self);
	}
	fn gen(s: &mut Src, _f: &mut Fuel) -> Self {
		f32::from_bits(s.int() as u32)
	}
	fn show(&self, o: &mut String) {
		let _ = write!(o, "f{:#x}", self.to_bits());
	}
}
impl Model for f64 {
	const POD: bool = true;
	fn walk(&self, w: &mut Walk) {
		w.leaf(self);
	}
	fn gen(s: &mut Src, _f: &mut Fuel) -> Self {
		f64::from_bits(s.int())
	}
	fn show(&self, o: &mut String) {
		let _ = write!(o, "f{:#x}", self.to_bits());
	}
}
impl Model for bool {
	const POD: bool = true;
	fn walk(&self, w: &mut Walk) {
		w.leaf(self);
	}
	fn gen(s: &mut Src, _f: &mut Fuel) -> Self {
		s.below(2) == 1
	}
	fn show(&self, o: &mut String) {
		let _ = write!(o, "{}", self);
	}
}
impl Model for char {
	const POD: bool = true;
	fn walk(&self, w: &mut Walk) {
		w.leaf(self);
	}
	fn gen(s: &mut Src, _f: &mut Fuel) -> Self {
		char::from_u32(s.below(0x110000) as u32).unwrap_or('x')
	}
	fn show(&self, o: &mut String) {
		let _ = write!(o, "{:?}", self);
	}
}
impl Model for () {
	fn walk(&self, _w: &mut Walk) {}
	fn gen(_s: &mut Src, _f: &mut Fuel) -> Self {}
	fn show(&self, o: &mut String) {
		o.push_str("()");
	}
}

impl<T: Model> Model for Box<T> {
	fn walk(&self, w: &mut Walk) {
		w.box_owner(self as *const _ as usize, &**self);
	}
	fn gen(s: &mut Src, f: &mut Fuel) -> Self {
		f.depth += 1;
		let v = Box::new(T::gen(s, f));
		f.depth -= 1;
		v
	}
	fn show(&self, o: &mut String) {
		o.push('@');
		(**self).show(o);
	}
}

/// Spare capacity, for elements of `size` bytes
fn spare(s: &mut Src, size: usize) -> usize {
	match s.below(16) {
		0..=7 => 0,
		8..=11 => 1 + s.usize_below(3),
		15 if size > 0 && s.chance(1, 8) => (1 << s.range(8, 18)) / size + s.usize_below(3),
		_ => 1 + s.usize_below(40),
	}
}

pub fn gen_vec<T>(s: &mut Src, n: usize, mut g: impl FnMut(&mut Src) -> T) -> Vec<T> {
	let sp = spare(s, size_of::<T>());
	let mut v = Vec::with_capacity(n + sp);
	for _ in 0..n {
		v.push(g(s));
	}
	v
}

impl<T: Model> Model for Vec<T> {
	fn walk(&self, w: &mut Walk) {
		w.slice_owner(self as *const _ as usize, self.as_slice(), self.capacity());
	}
	fn gen(s: &mut Src, f: &mut Fuel) -> Self {
		f.depth += 1;
		let n = if f.spend() {
			let max = if size_of::<T>() > 64 { 12 } else { 40 };
			s.len(max.min(f.n.max(1) as usize))
		} else {
			s.usize_below(2)
		};
		let n = if f.depth >= 40 || (f.empty && s.below(4) > 0) {
			0
		} else {
			n
		};
		let n = if size_of::<T>() == 0 && s.below(4) == 0 {
			s.usize_below(3000)
		} else {
			n
		};
		let v = gen_vec(s, n, |s| T::gen(s, f));
		f.depth -= 1;
		v
	}
	fn show(&self, o: &mut String) {
		let _ = write!(o, "[{}/{}:", self.len(), self.capacity());
		for (i, v) in self.iter().enumerate() {
			if i > 0 {
				o.push(',');
			}
			if i == 12 {
				o.push_str("..");
				break;
			}
			v.show(o);
		}
		o.push(']');
	}
}

pub fn gen_string(s: &mut Src, n: usize) -> String {
	let sp = spare(s, 1);
	let mut v = String::with_capacity(n + sp);
	while v.len() < n {
		let left = n - v.len();
		let c = match s.below(8) {
			0 if left >= 2 => 'é',
			1 if left >= 3 => '語',
			2 if left >= 4 => '🦀',
			3 => '\0',
			k => (b'a' + k as u8) as char,
		};
		v.push(c);
	}
	v
}

impl Model for String {
	fn walk(&self, w: &mut Walk) {
		w.slice_owner(self as *const _ as usize, self.as_bytes(), self.capacity());
	}
	fn gen(s: &mut Src, f: &mut Fuel) -> Self {
		f.spend();
		let n = if f.empty && s.below(4) > 0 { 0 } else { s.len(60) };
		gen_string(s, n)
	}
	fn show(&self, o: &mut String) {
		let mut t: String = self.chars().take(16).collect();
		if t.len() < self.len() {
			t.push_str("..");
		}
		let _ = write!(o, "{:?}/{}", t, self.capacity());
	}
}

impl<T: Model> Model for Option<T> {
	fn walk(&self, w: &mut Walk) {
		w.disc(self);
		if let Some(v) = self {
			v.walk(w);
		}
	}
	fn gen(s: &mut Src, f: &mut Fuel) -> Self {
		if s.below(3) == 0 || f.n < 0 || (f.empty && s.below(2) == 0) {
			None
		} else {
			Some(T::gen(s, f))
		}
	}
	fn show(&self, o: &mut String) {
		match self {
			None => o.push('-'),
			Some(v) => {
				o.push('?');
				v.show(o);
			}
		}
	}
}

impl<T: Model, const N: usize> Model for [T; N] {
	const POD: bool = T::POD && N > 0;
	fn walk(&self, w: &mut Walk) {
		for v in self {
			v.walk(w);
		}
	}
	fn gen(s: &mut Src, f: &mut Fuel) -> Self {
		std::array::from_fn(|_| T::gen(s, f))
	}
	fn show(&self, o: &mut String) {
		o.push_str("a[");
		for (i, v) in self.iter().enumerate() {
			if i > 0 {
				o.push(',');
			}
			if i == 12 {
				o.push_str("..");
				break;
			}
			v.show(o);
		}
		o.push(']');
	}
}

macro_rules! model_tuple {
	($($t:ident $i:tt),+) => {
		impl<$($t: Model),+> Model for ($($t,)+) {
			fn walk(&self, w: &mut Walk) { $( self.$i.walk(w); )+ }
			fn gen(s: &mut Src, f: &mut Fuel) -> Self { ($($t::gen(s, f),)+) }
			fn show(&self, o: &mut String) {
				o.push('(');
				$( self.$i.show(o); o.push(','); )+
				o.push(')');
			}
		}
	};
}
macro_rules! model_tuples {
	([$($done:ident $di:tt),*]) => {};
	([$($done:ident $di:tt),*] $t:ident $i:tt $(, $rest:ident $ri:tt)*) => {
		model_tuple!($($done $di,)* $t $i);
		model_tuples!([$($done $di,)* $t $i] $($rest $ri),*);
	};
}
model_tuples!([] A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15,
	Q 16, R 17, S 18, T 19, U 20, V 21, W 22, X 23, Y 24, Z 25, AA 26, AB 27, AC 28, AD 29, AE 30, AF 31);

// Big integers

pub fn digits(b: &BigUint) -> &Vec<u64> {
	assert_eq!(size_of::<BigUint>(), size_of::<Vec<u64>>());
	unsafe { &*(b as *const BigUint as *const Vec<u64>) }
}

impl Model for BigUint {
	fn walk(&self, w: &mut Walk) {
		let d = digits(self);
		w.slice_owner(self as *const _ as usize, d.as_slice(), d.capacity());
	}
	fn gen(s: &mut Src, f: &mut Fuel) -> Self {
		f.spend();
		let n = if f.empty && s.below(2) == 0 {
			0
		} else if s.below(60) == 59 {
			s.usize_below(3000)
		} else {
			s.len(40)
		};
		let mut d: Vec<u32> = Vec::new();
		for _ in 0..n {
			let v = s.int();
			d.push(v as u32);
			d.push((v >> 32) as u32);
		}
		if n > 0 && s.below(3) == 0 {
			// Odd number of 32 bit halves
			d.pop();
		}
		let b = BigUint::new(d);
		match s.below(6) {
			3 => {
				// As much spare capacity as the number which was there before
				let mut c = BigUint::new(vec![1; s.range(1, 40) as usize]);
				c.clone_from(&b);
				c
			}
			4 => {
				// Zero, or a little more, in the memory of what it was
				let mut c = b.clone();
				c -= b;
				if s.below(4) == 0 {
					c += 1u32;
				}
				c
			}
			5 => {
				let mut c = b;
				let more = if s.below(16) == 15 { 1 << s.range(9, 22) } else { 0 };
				let bit = c.bits() + s.below(130) + more;
				c.set_bit(bit, true);
				c.set_bit(bit, false);
				c
			}
			0 if s.below(64) == 63 => {
				// Many digits
				let k = 1usize << s.range(14, 23);
				(&b << k) + b
			}
			0 => b,
			1 => {
				// Spare internal capacity: shrink by shifting down in place
				let k = s.usize_below(6) * 64;
				(b << k) >> k
			}
			_ => {
				let mut b = b;
				b += 1u32;
				b -= 1u32;
				b
			}
		}
	}
	fn show(&self, o: &mut String) {
		let d = digits(self);
		let _ = write!(o, "big[{}/{}]{:x}", d.len(), d.capacity(), d.first().unwrap_or(&0));
	}
}

impl Model for BigInt {
	fn walk(&self, w: &mut Walk) {
		unsafe fn same(a: *const u8, b: *const u8) -> bool {
			(*(a as *const BigInt)).sign() == (*(b as *const BigInt)).sign()
		}
		w.same_by(self, same);
		self.magnitude().walk(w);
	}
	fn gen(s: &mut Src, f: &mut Fuel) -> Self {
		let b = BigUint::gen(s, f);
		let sign = if s.below(2) == 0 { Sign::Plus } else { Sign::Minus };
		BigInt::from_biguint(sign, b)
	}
	fn show(&self, o: &mut String) {
		let _ = write!(o, "{:?}", self.sign());
		self.magnitude().show(o);
	}
}

/// Owns data which it does not drop
pub struct Keep<T>(pub std::mem::ManuallyDrop<T>);

impl<T: ser_raw::Serialize<S>, S: ser_raw::Serializer> ser_raw::Serialize<S> for Keep<T> {
	fn serialize_data(&self, s: &mut S) {
		(*self.0).serialize_data(s)
	}
}

impl<T: Model> Model for Keep<T> {
	fn walk(&self, w: &mut Walk) {
		(*self.0).walk(w)
	}
	fn gen(s: &mut Src, f: &mut Fuel) -> Self {
		Keep(std::mem::ManuallyDrop::new(T::gen(s, f)))
	}
	fn show(&self, o: &mut String) {
		o.push_str("keep ");
		(*self.0).show(o)
	}
}

/// Over-aligned payload
macro_rules! aligned_payload {
	($($n:ident $a:tt $len:tt),*) => { $(
		#[repr(C, align($a))]
		#[derive(Clone, Copy, PartialEq, Debug)]
		pub struct $n(pub [u8; $len]);
		impl<S: ser_raw::Serializer> ser_raw::Serialize<S> for $n {
			fn serialize_data(&self, _s: &mut S) {}
		}
		impl Model for $n {
			fn walk(&self, w: &mut Walk) { w.leaf(&self.0); }
			fn gen(s: &mut Src, _f: &mut Fuel) -> Self {
				let v = s.int();
				let mut a = [0u8; $len];
				for (i, x) in a.iter_mut().enumerate() {
					*x = (v >> (i % 8 * 8)) as u8 ^ i as u8;
				}
				$n(a)
			}
			fn show(&self, o: &mut String) { let _ = write!(o, "{}({:x})", stringify!($n), self.0[0]); }
		}
	)* };
}
aligned_payload!(A16 16 16, A16S 16 5, A32 32 33, A64 64 64, A64S 64 9, A256 256 3, A4K 4096 100);

/// Makes the type it is in large
#[derive(Clone, PartialEq, Debug)]
pub struct Pad<const N: usize>(pub [u8; N]);
impl<S: ser_raw::Serializer, const N: usize> ser_raw::Serialize<S> for Pad<N> {
	fn serialize_data(&self, _s: &mut S) {}
}
impl<const N: usize> Model for Pad<N> {
	fn walk(&self, w: &mut Walk) {
		w.leaf(&self.0);
	}
	fn gen(s: &mut Src, _f: &mut Fuel) -> Self {
		let v = s.int() | 1;
		Pad(std::array::from_fn(|i| (v as usize).wrapping_mul(i + 1).wrapping_add(i >> 7) as u8))
	}
	fn show(&self, o: &mut String) {
		let _ = write!(o, "Pad<{}>({:x})", N, self.0[0]);
	}
}

/// Zero-sized types of each alignment
macro_rules! zst {
	($($n:ident $a:tt),*) => { $(
		#[repr(C, align($a))]
		#[derive(Clone, Copy, PartialEq, Debug)]
		pub struct $n;
		impl<S: ser_raw::Serializer> ser_raw::Serialize<S> for $n {
			fn serialize_data(&self, _s: &mut S) {}
		}
		impl Model for $n {
			fn walk(&self, _w: &mut Walk) {}
			fn gen(_s: &mut Src, _f: &mut Fuel) -> Self { $n }
			fn show(&self, o: &mut String) { o.push_str(stringify!($n)); }
		}
	)* };
}
zst!(Z1 1, Z2 2, Z4 4, Z8 8, Z16 16, Z64 64);

/// Implement `Model` for a struct by listing its fields (names or indexes)
#[macro_export]
macro_rules! model_struct {
	($t:ty { $($f:tt : $ft:ty),* $(,)? }) => {
		impl $crate::model::Model for $t {
			#[allow(unused)]
			fn walk(&self, w: &mut $crate::model::Walk) {
				$( $crate::model::Model::walk(&self.$f, w); )*
			}
			#[allow(unused)]
			fn gen(s: &mut $crate::engine::Src, f: &mut $crate::model::Fuel) -> Self {
				Self { $( $f: <$ft as $crate::model::Model>::gen(s, f), )* }
			}
			#[allow(unused)]
			fn show(&self, o: &mut String) {
				o.push('{');
				$( $crate::model::Model::show(&self.$f, o); o.push(','); )*
				o.push('}');
			}
		}
	};
}

#[allow(dead_code)]
fn _unused(_: MaybeUninit<u8>) {}

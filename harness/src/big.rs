//! Single pieces of data of 4 GiB and more. Few cases, as each copies them.

use std::{
	mem::{self, ManuallyDrop},
	ops::Range,
	ptr,
};

use num_bigint::BigUint;
use ser_raw::{
	storage::{AlignedVec, ContiguousStorage, RandomAccessStorage, Storage},
	util::aligned_max_capacity,
	CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serialize, Serializer,
};

use crate::{
	alloc,
	engine::{Ctx, PropResult, Src},
	model::Kind,
};

extern "C" {
	fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
	fn munmap(addr: *mut u8, len: usize) -> i32;
}

const LINE: usize = 1 << 32;
const SPARE: usize = 1 << 20;

/// Mostly zeros, which take no memory
struct Bytes {
	p: *mut u8,
	len: usize,
	marks: Vec<(usize, u8)>,
}

impl Bytes {
	fn new(s: &mut Src, len: usize) -> Option<Bytes> {
		let p = unsafe { mmap(ptr::null_mut(), len + SPARE, 3, 0x2 | 0x20 | 0x4000, -1, 0) };
		if p as isize == -1 {
			return None;
		}
		let mut marks: Vec<(usize, u8)> = [0, 1, LINE / 2, LINE - 1, LINE, len - 2, len - 1]
			.into_iter()
			.filter(|&i| i < len)
			.chain((0..12).map(|_| s.usize_below(len)))
			.map(|i| (i, 0))
			.collect();
		marks.sort();
		marks.dedup();
		for m in &mut marks {
			m.1 = 1 + s.below(127) as u8;
			unsafe { *p.add(m.0) = m.1 };
		}
		Some(Bytes { p, len, marks })
	}

	fn at(&self, i: usize) -> u8 {
		match self.marks.binary_search_by_key(&i, |m| m.0) {
			Ok(k) => self.marks[k].1,
			Err(_) => 0,
		}
	}

	/// `q` is where it has been copied to
	fn check(&self, q: *const u8) -> PropResult {
		let mut places: Vec<Range<usize>> = self.marks.iter().map(|m| m.0.saturating_sub(40)..(m.0 + 40).min(self.len)).collect();
		places.push(self.len - 4096..self.len);
		places.extend((0..self.len - 8).step_by(1_000_003).map(|i| i..i + 8));
		for r in places {
			for i in r {
				let b = unsafe { *q.add(i) };
				if b != self.at(i) {
					return Err(format!("byte {} is {}, should be {}", i, b, self.at(i)));
				}
			}
		}
		Ok(())
	}
}

impl Drop for Bytes {
	fn drop(&mut self) {
		unsafe { munmap(self.p, self.len + SPARE) };
	}
}

#[derive(Clone, Copy)]
#[repr(C)]
pub struct Three([u32; 3]);
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Page([u64; 512]);
pub struct Giant([u8; LINE + 4099]);

macro_rules! plain {
	($($t:ty)*) => {
		$(impl<S: Serializer> Serialize<S> for $t {
			fn serialize_data(&self, _: &mut S) {}
		})*
	};
}
plain!(Three Page Giant);

/// Something which owns one big piece of data
trait Shape: Sized {
	const UNIT: usize;
	const ALIGN: usize;
	const NAME: &'static str;
	const FIXED: Option<usize> = None;
	/// Not to be dropped
	unsafe fn make(p: *mut u8, units: usize, spare: usize) -> Self;
}

macro_rules! vecs {
	($($t:ty)*) => {
		$(impl Shape for Vec<$t> {
			const UNIT: usize = mem::size_of::<$t>();
			const ALIGN: usize = mem::align_of::<$t>();
			const NAME: &'static str = concat!("Vec<", stringify!($t), ">");
			unsafe fn make(p: *mut u8, units: usize, spare: usize) -> Self {
				Vec::from_raw_parts(p as *mut $t, units, units + spare)
			}
		})*
	};
}
vecs!(u8 u16 Three Page);

impl Shape for String {
	const UNIT: usize = 1;
	const ALIGN: usize = 1;
	const NAME: &'static str = "String";
	unsafe fn make(p: *mut u8, units: usize, spare: usize) -> Self {
		String::from_raw_parts(p, units, units + spare)
	}
}

impl Shape for BigUint {
	const UNIT: usize = 8;
	const ALIGN: usize = 8;
	const NAME: &'static str = "BigUint";
	unsafe fn make(p: *mut u8, units: usize, spare: usize) -> Self {
		mem::transmute(Vec::from_raw_parts(p as *mut u64, units, units + spare))
	}
}

impl Shape for Box<Giant> {
	const UNIT: usize = 1;
	const ALIGN: usize = 1;
	const NAME: &'static str = "Box of array";
	const FIXED: Option<usize> = Some(LINE + 4099);
	unsafe fn make(p: *mut u8, _: usize, _: usize) -> Self {
		Box::from_raw(p as *mut Giant)
	}
}

fn up(n: usize, a: usize) -> usize {
	(n + a - 1) & !(a - 1)
}

/// Where the words of a vector are
fn vec_words() -> [usize; 3] {
	let v: ManuallyDrop<Vec<u8>> = ManuallyDrop::new(unsafe { Vec::from_raw_parts(64 as *mut u8, 5, 9) });
	let w: [usize; 3] = unsafe { mem::transmute_copy(&v) };
	[64, 5, 9].map(|x| w.iter().position(|&y| y == x).unwrap() * 8)
}

type Top<V> = (u32, V, Vec<u16>);

fn one<V: Shape, const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>(s: &mut Src, ctx: &mut Ctx, kind: Kind) -> PropResult
where
	Top<V>: Serialize<CompleteSerializer<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>>
		+ Serialize<PtrOffsetSerializer<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>>
		+ Serialize<PureCopySerializer<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>>,
{
	let size = V::FIXED.unwrap_or_else(|| near_line(s, V::UNIT));
	let Some(bytes) = Bytes::new(s, size) else {
		return Ok(());
	};
	let units = size / V::UNIT;
	let spare = if V::FIXED.is_none() && s.chance(1, 2) { s.range(1, 200) } else { 0 };
	let small: Vec<u16> = (0..s.range(1, 40)).map(|i| i as u16 ^ 0x5500).collect();
	let top: ManuallyDrop<Top<V>> = ManuallyDrop::new((s.int() as u32, unsafe { V::make(bytes.p, units, spare) }, small.clone()));
	let before = s.usize_below(3);
	let sized = s.chance(1, 2);
	ctx.nontrivial = true;
	ctx.label(V::NAME);
	let what = format!("{:?} {}/{}/{} {} of {} bytes, {} after {}, storage {}", kind, SA, MVA, VA, V::NAME, size, small.len(), before, if sized { "pre-sized" } else { "new" });
	ctx.sample(|| what.clone());
	ctx.sig = crate::engine::hash_bytes(what.as_bytes(), 0xcbf29ce484222325) | 1;

	// Where everything must be
	let top_at = up(up(before, VA), mem::align_of::<Top<V>>());
	let data_at = up(up(top_at + mem::size_of::<Top<V>>(), VA), V::ALIGN);
	let small_at = up(up(data_at + size, VA), 2);
	let end = up(small_at + small.len() * 2, VA);

	alloc::FILLED.store(true, std::sync::atomic::Ordering::Relaxed);
	alloc::track(SA);
	let mut st: AlignedVec<SA, MVA, VA, MAX> = if sized { AlignedVec::with_capacity(end) } else { AlignedVec::new() };
	let first: Vec<u8> = (0..before as u8).map(|i| i + 1).collect();
	if before > 0 {
		st.push_bytes(&first);
	}
	macro_rules! go {
		($ser:ident) => {{
			let mut ser = $ser::<SA, MVA, VA, MAX, _>::from_storage(st);
			let pos = ser.serialize_value(&*top);
			(pos, ser.finalize())
		}};
	}
	let (pos, out) = match kind {
		Kind::Complete => go!(CompleteSerializer),
		Kind::Offset => go!(PtrOffsetSerializer),
		Kind::Pure => go!(PureCopySerializer),
	};
	let r = (|| {
		if let Some(v) = alloc::take_violation() {
			return Err(v);
		}
		if pos != top_at {
			return Err(format!("value at {}, should be {}", pos, top_at));
		}
		if out.pos() != end {
			return Err(format!("ends at {}, should be {}", out.pos(), end));
		}
		let base = out.as_ptr();
		bytes.check(unsafe { base.add(data_at) })?;
		for (i, v) in small.iter().enumerate() {
			if unsafe { *(base.add(small_at) as *const u16).add(i) } != *v {
				return Err("data after the big piece changed".into());
			}
		}
		if unsafe { std::slice::from_raw_parts(base, before) } != first {
			return Err("data before changed".into());
		}
		// The value itself
		let a = &*top as *const Top<V> as usize;
		let field = |p: usize| top_at + p - a;
		let (num, big, lil) = (field(&top.0 as *const _ as usize), field(&top.1 as *const _ as usize), field(&top.2 as *const _ as usize));
		let word = |at: usize| unsafe { *(base.add(at) as *const usize) };
		if unsafe { *(base.add(num) as *const u32) } != top.0 {
			return Err("number before the big piece changed".into());
		}
		let [p, len, cap] = vec_words();
		let addr = |at: usize| match kind {
			Kind::Complete => Some(base as usize + at),
			Kind::Offset => Some(at),
			Kind::Pure => None,
		};
		let mut checks = vec![("length", lil + len, Some(small.len()), "data after"), ("pointer", lil + p, addr(small_at), "data after")];
		if V::FIXED.is_some() {
			checks.push(("pointer", big, addr(data_at), "big piece"));
		} else {
			checks.push(("length", big + len, Some(units), "big piece"));
			checks.push(("pointer", big + p, addr(data_at), "big piece"));
			if kind == Kind::Complete {
				checks.push(("capacity", big + cap, Some(units), "big piece"));
			}
		}
		for (w, at, want, of) in checks {
			if let Some(want) = want {
				if word(at) != want {
					return Err(format!("{} of {} is {:#x}, should be {:#x}", w, of, word(at), want));
				}
			}
		}
		Ok(())
	})();
	drop(out);
	alloc::track(0);
	drop(unsafe { ptr::read(&top.2) });
	if r.is_ok() {
		if let Some(v) = alloc::take_violation() {
			return Err(v);
		}
	}
	r.map_err(|e| format!("{} ({})", e, what))
}

fn near_line(s: &mut Src, unit: usize) -> usize {
	let n = match s.below(5) {
		0 => LINE - s.usize_below(3 * unit),
		1 | 2 => LINE + s.usize_below(3 * unit),
		_ => LINE + s.usize_below(1 << 24),
	};
	(n / unit + 1) * unit
}

const M8: usize = aligned_max_capacity(8);
const M16: usize = aligned_max_capacity(16);
const M64: usize = aligned_max_capacity(64);

pub fn values(s: &mut Src, ctx: &mut Ctx, kind: Kind) -> PropResult {
	if !alloc::can_huge() {
		return Ok(());
	}
	match s.weighted(&[4, 3, 1, 1, 1, 2, 1]) {
		0 => one::<Vec<u8>, 16, 16, 8, M16>(s, ctx, kind),
		1 => one::<String, 16, 16, 1, M16>(s, ctx, kind),
		2 => one::<Vec<Three>, 64, 32, 16, M64>(s, ctx, kind),
		3 => one::<Vec<Page>, 8, 8, 4, M8>(s, ctx, kind),
		4 => one::<BigUint, 16, 16, 8, M16>(s, ctx, kind),
		5 => one::<Box<Giant>, 16, 16, 16, M16>(s, ctx, kind),
		_ => one::<Vec<u16>, 16, 8, 2, M16>(s, ctx, kind),
	}
}

/// Operations of a storage itself
pub fn storage(s: &mut Src, ctx: &mut Ctx) -> PropResult {
	if !alloc::can_huge() {
		return Ok(());
	}
	match s.below(3) {
		0 => slices::<16, 16, 8, M16>(s, ctx),
		1 => slices::<64, 32, 1, M64>(s, ctx),
		_ => slices::<8, 8, 4, M8>(s, ctx),
	}
}

fn slices<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>(s: &mut Src, ctx: &mut Ctx) -> PropResult {
	let unit = [1usize, 2, 12, 4096][s.weighted(&[6, 1, 1, 1])];
	let size = near_line(s, unit);
	let Some(bytes) = Bytes::new(s, size) else {
		return Ok(());
	};
	let n = size / unit;
	let how = s.below(3);
	let before = s.usize_below(3);
	let what = format!("{}/{}/{}: {} slice of {} x {} bytes after {}", SA, MVA, VA, ["push", "make space, write", "reserve, push"][how as usize], n, unit, before);
	ctx.nontrivial = true;
	ctx.sample(|| what.clone());
	ctx.sig = crate::engine::hash_bytes(what.as_bytes(), 0xcbf29ce484222325) | 1;
	alloc::FILLED.store(true, std::sync::atomic::Ordering::Relaxed);
	alloc::track(SA);
	let mut st: AlignedVec<SA, MVA, VA, MAX> = AlignedVec::new();
	if before > 0 {
		st.push_bytes(&[7u8, 8][..before]);
	}
	macro_rules! put {
		($t:ty) => {{
			let v = unsafe { std::slice::from_raw_parts(bytes.p as *const $t, n) };
			match how {
				0 => st.push_slice(v),
				1 => {
					let at = st.push_empty_slice::<$t>(n);
					unsafe { st.write_slice(at, v) };
					at
				}
				_ => {
					st.reserve(size + 64);
					let cap = st.capacity();
					let at = st.push_slice(v);
					assert_eq!(st.capacity(), cap, "pushing what was reserved for changed capacity");
					at
				}
			}
		}};
	}
	let (at, align) = match unit {
		1 => (put!(u8), 1),
		2 => (put!(u16), 2),
		12 => (put!(Three), 4),
		_ => (put!(Page), 8),
	};
	let next = st.push(&0x1234_5678u32);
	let want = up(up(before, VA), align);
	let want_next = up(up(want + size, VA), 4);
	let r = (|| {
		if let Some(v) = alloc::take_violation() {
			return Err(v);
		}
		if at != want || next != want_next || st.pos() != up(want_next + 4, VA) {
			return Err(format!("positions are {}, {}, {}; should be {}, {}, {}", at, next, st.pos(), want, want_next, up(want_next + 4, VA)));
		}
		if st.pos() > st.capacity() {
			return Err("position beyond capacity".into());
		}
		bytes.check(unsafe { st.as_ptr().add(at) })?;
		if unsafe { *st.read::<u32>(next) } != 0x1234_5678 || (before > 0 && unsafe { *st.read::<u8>(0) } != 7) {
			return Err("data before or after the big slice changed".into());
		}
		Ok(())
	})();
	drop(st);
	alloc::track(0);
	if r.is_ok() {
		if let Some(v) = alloc::take_violation() {
			return Err(v);
		}
	}
	r.map_err(|e| format!("{} ({})", e, what))
}

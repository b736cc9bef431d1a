//! Arithmetic at the limits of what an address can be, against wider arithmetic.

use std::alloc::Layout;

use ser_raw::{
	storage::{AlignedVec, RandomAccessStorage, Storage},
	util::{align_up_to, aligned_max_capacity, aligned_max_u32_capacity, is_aligned_to},
};

use crate::engine::{catching, Ctx, PropResult, Src};

/// Any word, often near a limit
fn word(s: &mut Src) -> usize {
	let base = match s.below(6) {
		0 => 0,
		1 => usize::MAX,
		2 => isize::MAX as usize,
		3 => u32::MAX as usize,
		4 => 1usize << s.below(usize::BITS as u64),
		_ => s.int() as usize,
	};
	let d = s.below(40) as usize;
	if s.chance(1, 2) {
		base.wrapping_add(d)
	} else {
		base.wrapping_sub(d)
	}
}

fn helpers(s: &mut Src, log: &mut String) -> PropResult {
	let align = 1usize << s.below(usize::BITS as u64);
	let pos = word(s);
	*log = format!("alignment {}, position {}", align, pos);
	let (a, p) = (align as u128, pos as u128);
	if p + a <= usize::MAX as u128 {
		let got = align_up_to(pos, align) as u128;
		if got != (p + a - 1) / a * a {
			return Err(format!("align_up_to returned {}", got));
		}
	}
	if is_aligned_to(pos, align) != (p % a == 0) {
		return Err("is_aligned_to is wrong".into());
	}

	// What the allocator takes says what the limit is
	let fits = |cap: u128| cap <= usize::MAX as u128 && Layout::from_size_align(cap as usize, align).is_ok();
	match catching(|| aligned_max_capacity(align) as u128) {
		Ok(cap) if a >= isize::MAX as u128 => return Err(format!("aligned_max_capacity returned {} for {}", cap, align)),
		Ok(cap) => {
			if !fits(cap) || fits(cap + 1) {
				return Err(format!("aligned_max_capacity returned {}", cap));
			}
		}
		Err(_) if a >= isize::MAX as u128 => {}
		Err(e) => return Err(format!("aligned_max_capacity panicked: {:?}", e)),
	}
	let lawful = a < u32::MAX as u128 && a < isize::MAX as u128;
	match catching(|| aligned_max_u32_capacity(align) as u128) {
		Ok(cap) if !lawful => return Err(format!("aligned_max_u32_capacity returned {} for {}", cap, align)),
		Ok(cap) => {
			if !fits(cap) || cap > 1 << 32 || (cap < 1 << 32 && fits(cap + 1)) {
				return Err(format!("aligned_max_u32_capacity returned {}", cap));
			}
		}
		Err(_) if !lawful => {}
		Err(e) => return Err(format!("aligned_max_u32_capacity panicked: {:?}", e)),
	}
	Ok(())
}

fn refusals<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>(s: &mut Src, log: &mut String) -> PropResult {
	let mut st: AlignedVec<SA, MVA, VA, MAX> = AlignedVec::new();
	*log = format!("storage {}/{}/{}/{}", SA, MVA, VA, MAX);
	// (gaps between values are not initialised)
	let live: Vec<(usize, u32)> = (0..s.range(0, 5) as u32).map(|i| (st.push(&i), i)).collect();
	for _ in 0..s.range(1, 6) {
		let n = word(s);
		let (pos, cap) = (st.pos(), st.capacity());
		let (what, size) = match s.below(5) {
			0 => ("reserve", 1),
			1 => ("push_empty_slice::<u8>", 1),
			2 => ("push_empty_slice::<u16>", 2),
			3 => ("push_empty_slice::<[u32; 3]>", 12),
			_ => ("with_capacity", 1),
		};
		let end = n as u128 * size + if what == "with_capacity" { 0 } else { pos as u128 };
		if end <= MAX as u128 {
			// Could be had, but is too much to have here
			if n > 3000 {
				continue;
			}
		}
		log.push_str(&format!(", {} {}", what, n));
		let r = match (what, size) {
			("reserve", _) => catching(|| st.reserve(n)),
			("with_capacity", _) => catching(|| {
				let o = AlignedVec::<SA, MVA, VA, MAX>::with_capacity(n);
				assert!(o.capacity() >= n);
			}),
			(_, 1) => catching(|| {
				st.push_empty_slice::<u8>(n);
			}),
			(_, 2) => catching(|| {
				st.push_empty_slice::<u16>(n);
			}),
			_ => catching(|| {
				st.push_empty_slice::<[u32; 3]>(n);
			}),
		};
		if end > MAX as u128 {
			if r.is_ok() {
				return Err(format!("{} {} beyond the maximum was granted", what, n));
			}
			if st.capacity() != cap {
				return Err(format!("{} {} beyond the maximum changed the capacity", what, n));
			}
		} else if r.is_err() && !(what == "with_capacity" && n == 0) && end + 16 <= MAX as u128 {
			return Err(format!("{} {} was refused: {:?}", what, n, r.err()));
		}
		let kept = live.iter().all(|&(at, v)| unsafe { *st.read::<u32>(at) } == v);
		if st.pos() > st.capacity() || st.capacity() > MAX || !kept {
			return Err(format!("{} {} damaged the storage", what, n));
		}
	}
	Ok(())
}

const A16: usize = aligned_max_u32_capacity(16);
const A64: usize = aligned_max_u32_capacity(64);
const B128: usize = aligned_max_capacity(128);
const B16: usize = aligned_max_capacity(16);

pub fn case(s: &mut Src, ctx: &mut Ctx) -> PropResult {
	let mut log = String::new();
	let r = match s.below(6) {
		0 | 1 => helpers(s, &mut log),
		2 => refusals::<16, 16, 8, A16>(s, &mut log),
		3 => refusals::<64, 16, 1, A64>(s, &mut log),
		4 => refusals::<128, 128, 4, B128>(s, &mut log),
		_ => refusals::<16, 16, 16, B16>(s, &mut log),
	};
	ctx.nontrivial = true;
	ctx.label("limits");
	ctx.sample(|| log.clone());
	r.map_err(|e| format!("{} ({})", e, log))
}

//! C14, C18.

use std::{collections::BTreeMap, ptr};

use ser_raw::pos::{ActiveAddr, Addr, NoopAddr, PosMapping, PtrGroup, Ptrs, TrackingAddr};
use vlib::{
	engine::{self, Ctx, Prop, PropResult, Src},
	low::{self, Machine},
	machines,
};

const fn max(sa: usize) -> usize {
	isize::MAX as usize - (sa - 1)
}

fn c14(s: &mut Src, ctx: &mut Ctx) -> PropResult {
	let a = machines!(aligned 16, 16, 8, max(16));
	let b = machines!(aligned 16, 16, 1, max(16));
	let c = machines!(aligned 64, 32, 16, 1 << 32);
	let d = machines!(moving 16, 16, 8);
	let e = machines!(moving 32, 16, 2);
	let f = machines!(aligned 128, 64, 64, (20 << 30) + 192);
	let groups: [&[&dyn Machine]; 6] = [&a, &b, &c, &d, &e, &f];
	low::c14(s, ctx, &groups)
}

// ---- C18 ------------------------------------------------------------------

/// Any address at all
#[derive(Clone, Copy)]
struct Any(usize);
impl Addr for Any {
	fn from_ref<T>(v: &T) -> Self {
		Any(v as *const T as usize)
	}
	fn from_ref_offset<T>(v: &T, offset: usize) -> Self {
		Any(v as *const T as usize + offset)
	}
}
impl ActiveAddr for Any {
	fn addr(&self) -> usize {
		self.0
	}
}

extern "C" {
	fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
	fn munmap(addr: *mut u8, len: usize) -> i32;
}

struct Map(*mut u8, usize);
impl Map {
	fn new(len: usize) -> Option<Map> {
		// Private, anonymous, no reservation
		let p = unsafe { mmap(ptr::null_mut(), len, 3, 0x2 | 0x20 | 0x4000, -1, 0) };
		if p as usize == usize::MAX {
			None
		} else {
			Some(Map(p, len))
		}
	}
}
impl Drop for Map {
	fn drop(&mut self) {
		unsafe { munmap(self.0, self.1) };
	}
}

fn mapping(s: &mut Src, ctx: &mut Ctx) -> PropResult {
	ctx.label("position mapping");
	ctx.nontrivial = true;
	// Made-up addresses
	let size = match s.below(3) {
		0 => s.usize_below(5000),
		1 => s.usize_below(1 << 36),
		_ => s.int() as usize >> 1,
	};
	let start = s.int() as usize;
	let pos = match s.below(3) {
		0 => s.usize_below(5000),
		1 => s.usize_below(1 << 36),
		_ => s.int() as usize >> 1,
	};
	let start = start.min(usize::MAX - size);
	let off = match s.below(4) {
		0 => 0,
		1 => size,
		_ => s.usize_below(size + 1),
	};
	if pos.checked_add(off).is_none() {
		ctx.nontrivial = false;
		return Ok(());
	}
	ctx.sig = (start as u64).rotate_left(13) ^ (off as u64).rotate_left(41) ^ pos as u64 | 1;
	ctx.sample(|| format!("mapping {:#x} -> {:#x}, offset {:#x}", start, pos, off));
	let m = PosMapping::new(start, pos);
	for m in [m, m.clone()] {
		let got = m.pos_for_addr(Any(start + off));
		if got != pos + off {
			return Err(format!("mapping {:#x} -> {:#x}: address {:#x} at position {:#x}", start, pos, start + off, got));
		}
	}
	let got = PosMapping::dummy().pos_for_addr(Any(start));
	if got != start {
		return Err(format!("dummy mapping: address {:#x} at position {:#x}", start, got));
	}
	// Real values
	let buf: Vec<u64> = vec![0; s.range(1, 600)];
	let base = buf.as_ptr() as usize;
	let bytes = buf.len() * 8;
	let pos = pos.min(usize::MAX - bytes);
	let m = PosMapping::new(base, pos);
	macro_rules! check {
		($t:ty) => {
			if bytes >= std::mem::size_of::<$t>() {
				let n = (bytes - std::mem::size_of::<$t>()) / std::mem::align_of::<$t>();
				let off = s.usize_below(n + 1) * std::mem::align_of::<$t>();
				let v = unsafe { &*((base + off) as *const $t) };
				let a = TrackingAddr::from_ref(v);
				if a.addr() != base + off {
					return Err(format!("TrackingAddr::from_ref: {:#x} for value at {:#x}", a.addr(), base + off));
				}
				let add = s.usize_below(bytes - off + 1);
				let b = TrackingAddr::from_ref_offset(v, add);
				if b.addr() != base + off + add {
					return Err(format!(
						"TrackingAddr::from_ref_offset: {:#x} for value at {:#x} with offset {}",
						b.addr(),
						base + off,
						add
					));
				}
				if m.pos_for(v) != pos + off || m.pos_for_addr(a) != pos + off || m.pos_for_addr(b) != pos + off + add {
					return Err(format!(
						"mapping to {:#x}: value at offset {} at position {:#x}, {:#x}; at offset {}: {:#x}",
						pos,
						off,
						m.pos_for(v),
						m.pos_for_addr(a),
						off + add,
						m.pos_for_addr(b)
					));
				}
			}
		};
	}
	check!(u8);
	check!(u64);
	check!([u8; 3]);
	check!([u64; 5]);
	check!(u16);
	check!(());
	check!((u8, u32));
	// Zero-sized values may be at any address
	let at = (s.below(0) as usize >> s.below(40)).max(1);
	let v: &() = unsafe { &*(at as *const ()) };
	let add = s.usize_below(usize::MAX - at);
	if TrackingAddr::from_ref(v).addr() != at || TrackingAddr::from_ref_offset(v, add).addr() != at + add {
		return Err(format!("TrackingAddr of value at {:#x} with offset {:#x}", at, add));
	}
	if std::mem::size_of::<NoopAddr>() != 0 {
		return Err("NoopAddr isn't zero-sized".into());
	}
	let _ = (NoopAddr::from_ref(&1u8), NoopAddr::from_ref_offset(&1u8, usize::MAX));
	Ok(())
}

fn ptr_group(s: &mut Src, ctx: &mut Ctx) -> PropResult {
	let huge = s.below(8) == 7;
	let many = !huge && s.below(300) == 299;
	let len = if huge { (1usize << 32) + (1 << 20) } else if many { 1 << 20 } else { 4096 };
	let map = match Map::new(len) {
		Some(m) => m,
		None => return Ok(()),
	};
	ctx.label(if huge { "pointers beyond 4 GiB" } else { "pointer group" });
	let base = map.0 as usize;
	// Words of the buffer which aren't zero
	let mut words: BTreeMap<usize, usize> = BTreeMap::new();
	let n_noise = s.usize_below(30);
	for _ in 0..n_noise {
		let v = s.int() as usize;
		words.insert(s.usize_below(len / 8), v);
	}
	let ps = Ptrs::new();
	if !ps.current.is_empty() || !ps.past.is_empty() {
		return Err("Ptrs::new isn't empty".into());
	}
	let old0 = s.int() as usize;
	let (mut g, mut addr) = match s.below(3) {
		0 => (PtrGroup::new(old0), old0),
		1 => (PtrGroup::dummy(), 0),
		_ => (ps.current, 0),
	};
	if !g.is_empty() || (addr != 0 && g.addr() != addr) {
		return Err(format!("new group: empty {}, address {:#x}, should be {:#x}", g.is_empty(), g.addr(), addr));
	}
	let mut known = addr != 0;
	let mut recorded: Vec<usize> = Vec::new();
	let steps = 1 + s.len(40);
	let mut desc = format!("group at {:#x}, buffer at {:#x}: ", addr, base);
	for (&w, &v) in &words {
		unsafe { *((base + w * 8) as *mut usize) = v };
	}
	for _ in 0..steps {
		match s.below(8) {
			0 => {
				addr = match s.below(4) {
					0 => base,
					1 => base.wrapping_add(s.usize_below(1 << 20)),
					2 => base.wrapping_sub(s.usize_below(1 << 34)),
					_ => s.int() as usize,
				};
				g.set_addr(addr);
				known = true;
				desc.push_str(&format!("addr={:#x} ", addr));
			}
			1 if known => {
				unsafe { g.correct_ptrs(map.0) };
				let d = base.wrapping_sub(addr);
				for w in &recorded {
					let v = words.entry(*w).or_insert(0);
					*v = v.wrapping_add(d);
				}
				desc.push_str("correct ");
			}
			_ => {
				let w = match s.below(4) {
					0 if huge => len / 8 - 1 - s.usize_below(1 << 16),
					1 if huge => s.usize_below(len / 8),
					0 => len / 8 - 1,
					_ => s.usize_below(512),
				};
				if recorded.contains(&w) {
					continue;
				}
				if s.below(2) == 0 {
					// A pointer into the buffer as it was
					let v = addr.wrapping_add(s.usize_below(len));
					words.insert(w, v);
					unsafe { *((base + w * 8) as *mut usize) = v };
				}
				g.push_pos(w * 8);
				recorded.push(w);
				desc.push_str(&format!("push {} ", w * 8));
			}
		}
		if g.is_empty() != recorded.is_empty() {
			return Err(format!("{} is_empty() = {} with {} pointers", desc, g.is_empty(), recorded.len()));
		}
		if known && g.addr() != addr {
			return Err(format!("{} addr() = {:#x}, should be {:#x}", desc, g.addr(), addr));
		}
	}
	if many {
		let n = s.usize_below(len / 8 - 600) >> s.below(6);
		let x = s.int() as usize;
		for i in 0..n {
			let w = 512 + i;
			let v = addr.wrapping_add(x.wrapping_mul(i + 1) % len);
			words.insert(w, v);
			unsafe { *((base + w * 8) as *mut usize) = v };
			g.push_pos(w * 8);
			recorded.push(w);
		}
		ctx.label_if(n > 4096, "more than 4096 pointers in the group");
		desc.push_str(&format!("push {} more ", n));
	}
	if known {
		unsafe { g.correct_ptrs(map.0) };
		let d = base.wrapping_sub(addr);
		for w in &recorded {
			let v = words.entry(*w).or_insert(0);
			*v = v.wrapping_add(d);
		}
	}
	ctx.nontrivial = recorded.len() > 1;
	ctx.sig = s.log_hash();
	ctx.label_if(recorded.len() > 1 && addr > base, "moved down");
	ctx.label_if(recorded.len() > 1 && addr < base, "moved up");
	ctx.sample(|| desc.clone());
	// The whole of a small buffer; surroundings of what was written of a large one
	let check = |w: usize| {
		let got = unsafe { *((base + w * 8) as *const usize) };
		let want = words.get(&w).copied().unwrap_or(0);
		if got != want {
			return Err(format!("{}: word at {} is {:#x}, should be {:#x}", desc, w * 8, got, want));
		}
		Ok(())
	};
	if huge {
		for (&w, _) in &words {
			for x in w.saturating_sub(40)..(w + 40).min(len / 8) {
				check(x)?;
			}
			// Where it would be if positions were truncated
			check(w & ((1 << 29) - 1))?;
		}
	} else {
		for w in 0..len / 8 {
			check(w)?;
		}
	}
	Ok(())
}

fn c18(s: &mut Src, ctx: &mut Ctx) -> PropResult {
	if s.below(2) == 0 {
		mapping(s, ctx)
	} else {
		ptr_group(s, ctx)
	}
}

fn main() {
	engine::main(&[Prop { id: "C14", f: c14 }, Prop { id: "C18", f: c18 }]);
}

//! Histories of a storage.

use std::mem::size_of;

use ser_raw::storage::{AlignedVec, ContiguousStorage, RandomAccessStorage, Storage};

use crate::{
	engine::{catching, Ctx, PropResult, Src},
	values::{Al16, Odd, Padded, Z8},
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Data {
	U8(u8),
	U32(u32),
	Odd(Odd),
	Pad(Padded),
	Al(Al16),
}

struct Model {
	/// What was pushed, where
	items: Vec<(usize, Data)>,
	log: Vec<String>,
	live_changes: usize,
}

fn verify<S: Storage + RandomAccessStorage + ContiguousStorage>(st: &S, m: &Model) -> PropResult {
	fn same<T: PartialEq + Copy + std::fmt::Debug>(st: &(impl RandomAccessStorage + ContiguousStorage), pos: usize, v: T) -> PropResult {
		let (a, b, c) = unsafe {
			(
				*st.read::<T>(pos),
				*(st.ptr(pos) as *const T),
				*(st.as_ptr().add(pos) as *const T),
			)
		};
		if a != v || b != v || c != v {
			return Err(format!("{:?} at {} became {:?}", v, pos, a));
		}
		Ok(())
	}
	for &(pos, d) in &m.items {
		match d {
			Data::U8(v) => same(st, pos, v)?,
			Data::U32(v) => same(st, pos, v)?,
			Data::Odd(v) => same(st, pos, v)?,
			Data::Pad(v) => same(st, pos, v)?,
			Data::Al(v) => same(st, pos, v)?,
		}
	}
	Ok(())
}

fn draw(s: &mut Src, k: u64) -> Data {
	let b = |s: &mut Src| s.int() as u8;
	match k {
		0 => Data::U8(b(s)),
		1 => Data::U32(s.int() as u32),
		2 => Data::Odd(Odd([b(s), b(s), b(s)])),
		3 => Data::Pad(Padded(b(s), s.int() as u32, b(s) as u16)),
		_ => Data::Al(Al16(b(s), b(s))),
	}
}

fn size(d: &Data) -> usize {
	match d {
		Data::U8(_) => 1,
		Data::U32(_) => 4,
		Data::Odd(_) => 3,
		Data::Pad(_) => size_of::<Padded>(),
		Data::Al(_) => size_of::<Al16>(),
	}
}

fn go<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>(s: &mut Src, ctx: &mut Ctx) -> PropResult {
	let mut m = Model {
		items: Vec::new(),
		log: Vec::new(),
		live_changes: 0,
	};
	let mut st: AlignedVec<SA, MVA, VA, MAX> = if s.chance(1, 3) {
		let c = s.range(1, MAX.min(200));
		m.log.push(format!("with_capacity {}", c));
		AlignedVec::with_capacity(c)
	} else {
		AlignedVec::new()
	};
	let r = ops(s, ctx, &mut st, &mut m);
	ctx.nontrivial = m.live_changes > 0;
	ctx.sample(|| format!("storage {}/{}/{}/{}: {}", SA, MVA, VA, MAX, m.log.join(", ")));
	if let Err(e) = r {
		return Err(format!("{} (after {})", e, m.log.join(", ")));
	}
	if s.chance(1, 4) {
		// Dropped on another thread
		std::thread::scope(|sc| sc.spawn(move || drop(st)).join().unwrap());
	}
	Ok(())
}

fn ops<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>(
	s: &mut Src,
	ctx: &mut Ctx,
	st: &mut AlignedVec<SA, MVA, VA, MAX>,
	m: &mut Model,
) -> PropResult {
	for _ in 0..s.range(1, 14) {
		let cap = st.capacity();
		match s.weighted(&[6, 6, 3, 2, 2, 2, 2, 1, 3, 2]) {
			0 => {
				let k = s.below(5);
				let d = draw(s, k);
				m.log.push(format!("push {:?}", d));
				let pos = catching(|| match d {
					Data::U8(v) => st.push(&v),
					Data::U32(v) => st.push(&v),
					Data::Odd(v) => st.push(&v),
					Data::Pad(v) => st.push(&v),
					Data::Al(v) => st.push(&v),
				});
				if let Ok(pos) = pos {
					m.items.push((pos, d));
				}
			}
			1 => {
				let k = s.below(5);
				let n = match s.below(4) {
					0 => 0,
					1 => s.range(0, 40),
					_ => s.range(1, 6),
				};
				let v: Vec<Data> = (0..n).map(|_| draw(s, k)).collect();
				m.log.push(format!("push_slice {:?}", v));
				macro_rules! all {
					($v:ident) => {
						catching(|| st.push_slice(&v.iter().map(|d| if let Data::$v(x) = d { *x } else { unreachable!() }).collect::<Vec<_>>()))
					};
				}
				let pos = match k {
					0 if s.chance(1, 2) => {
						let b: Vec<u8> = v.iter().map(|d| if let Data::U8(x) = d { *x } else { unreachable!() }).collect();
						catching(|| st.push_bytes(&b))
					}
					0 => all!(U8),
					1 => all!(U32),
					2 => all!(Odd),
					3 => all!(Pad),
					_ => all!(Al),
				};
				if let Ok(pos) = pos {
					for (i, d) in v.into_iter().enumerate() {
						m.items.push((pos + i * size(&d), d));
					}
				}
			}
			2 => {
				m.log.push("push zero-sized".into());
				let _ = catching(|| st.push(&()));
				let _ = catching(|| st.push_slice(&[(), ()]));
				let _ = catching(|| st.push_empty_slice::<Z8>(3));
				if SA >= 8 && MVA >= 8 {
					let _ = catching(|| st.push_slice(&[Z8; 3]));
				}
			}
			3 => {
				let n = s.range(0, 9);
				m.log.push(format!("push_empty_slice {}", n));
				if let Ok(pos) = catching(|| st.push_empty_slice::<u32>(n)) {
					// To be filled
					for i in 0..n {
						let v = s.int() as u32;
						unsafe { st.write(pos + 4 * i, &v) };
						m.items.push((pos + 4 * i, Data::U32(v)));
					}
				}
			}
			4 => {
				let n = s.range(0, 300);
				m.log.push(format!("reserve {}", n));
				let _ = catching(|| st.reserve(n));
			}
			5 => {
				m.log.push("shrink_to_fit".into());
				st.shrink_to_fit();
			}
			6 => {
				m.log.push("clear".into());
				st.clear();
				m.items.clear();
			}
			7 => {
				let n = s.int() as usize;
				m.log.push(format!("reserve {}", n));
				if n > MAX {
					if catching(|| st.reserve(n)).is_ok() {
						return Err("reserved more than the maximum".into());
					}
					if catching(|| st.push_empty_slice::<u64>(n)).is_ok() {
						return Err("made more space than the maximum".into());
					}
				}
			}
			8 => {
				if !m.items.is_empty() {
					let i = s.usize_below(m.items.len());
					let (pos, old) = m.items[i];
					let k = match old {
						Data::U8(_) => 0,
						Data::U32(_) => 1,
						Data::Odd(_) => 2,
						Data::Pad(_) => 3,
						Data::Al(_) => 4,
					};
					let d = draw(s, k);
					m.log.push(format!("write {:?} at {}", d, pos));
					let how = s.below(4);
					macro_rules! put {
						($v:expr, $t:ty) => {
							unsafe {
								match how {
									0 => st.write(pos, &$v),
									1 => st.write_slice(pos, &[$v]),
									2 => *st.read_mut::<$t>(pos) = $v,
									_ => {
										if s.chance(1, 2) {
											*(st.mut_ptr(pos) as *mut $t) = $v;
										} else {
											*(st.as_mut_ptr().add(pos) as *mut $t) = $v;
										}
									}
								}
							}
						};
					}
					match d {
						Data::U8(v) => put!(v, u8),
						Data::U32(v) => put!(v, u32),
						Data::Odd(v) => put!(v, Odd),
						Data::Pad(v) => put!(v, Padded),
						Data::Al(v) => put!(v, Al16),
					}
					m.items[i].1 = d;
				}
			}
			_ => {
				// The whole buffer is the caller's to write
				m.log.push("fill spare".into());
				let (pos, cap) = (st.pos(), st.capacity());
				if cap > pos {
					unsafe { std::ptr::write_bytes(st.as_mut_ptr().add(pos), 0xEE, cap - pos) };
				}
			}
		}
		if st.capacity() != cap && !m.items.is_empty() {
			m.live_changes += 1;
		}
		if (st.as_ptr() as usize) % SA != 0 {
			return Err(format!("buffer is not aligned to {}", SA));
		}
		if st.pos() > st.capacity() || st.capacity() > MAX {
			return Err("position or capacity out of range".into());
		}
		if st.capacity() != cap || s.chance(1, 4) {
			verify(st, m)?;
		}
	}
	verify(st, m)?;
	ctx.label("storage");
	Ok(())
}

pub fn history(s: &mut Src, ctx: &mut Ctx) -> PropResult {
	match s.below(5) {
		0 => go::<16, 16, 8, 0x4000_0000>(s, ctx),
		1 => go::<16, 16, 1, 0x4000_0000>(s, ctx),
		2 => go::<16, 16, 16, 256>(s, ctx),
		3 => go::<128, 32, 4, 480>(s, ctx),
		_ => go::<64, 64, 2, 0x4000_0000>(s, ctx),
	}
}

//! C17.

use ser_raw::util::*;
use vlib::engine::{self, catching, Ctx, Prop, PropResult, Src};

fn c17(s: &mut Src, ctx: &mut Ctx) -> PropResult {
	let f = s.below(4);
	let shift = s.below(64) as u32;
	let a = 1usize << shift;
	let pos = match s.below(7) {
		0 => s.usize_below(5000),
		1 => s.int() as usize,
		2 => (1usize << s.below(63)).wrapping_add(s.usize_below(5)).wrapping_sub(2),
		3 => a.wrapping_mul(s.usize_below(100)).wrapping_add(s.usize_below(3)).wrapping_sub(1),
		4 => (isize::MAX as usize).wrapping_sub(s.usize_below(3000)),
		5 => s.usize_below(1 << 34),
		_ => s.below(0) as usize,
	};
	ctx.nontrivial = true;
	ctx.sig = (pos as u64).rotate_left(9) ^ a as u64 ^ (f << 62) | 1;
	let pos_sample = || format!("function {} position {} alignment {}", f, pos, a);
	ctx.sample(pos_sample);
	match f {
		0 => {
			// `pos + alignment` must not overflow
			let (a, pos) = (a as u128, pos as u128);
			if a + pos > usize::MAX as u128 {
				ctx.nontrivial = false;
				return Ok(());
			}
			ctx.label("align_up_to");
			let got = align_up_to(pos as usize, a as usize) as u128;
			// Smallest multiple not below
			let want = (pos / a + (pos % a != 0) as u128) * a;
			if got != want {
				return Err(format!("align_up_to({}, {}) = {}, should be {}", pos, a, got, want));
			}
		}
		1 => {
			ctx.label("is_aligned_to");
			let got = is_aligned_to(pos, a);
			if got != (pos % a == 0) {
				return Err(format!("is_aligned_to({}, {}) = {}", pos, a, got));
			}
		}
		_ => {
			let u32_fn = f == 3;
			let name = if u32_fn { "aligned_max_u32_capacity" } else { "aligned_max_capacity" };
			let a = match s.below(4) {
				0 => s.int() as usize,
				_ => a,
			};
			let limit = if u32_fn { u32::MAX as usize } else { isize::MAX as usize };
			let valid = a.is_power_of_two() && a < limit;
			let r = catching(|| if u32_fn { aligned_max_u32_capacity(a) } else { aligned_max_capacity(a) });
			ctx.label(name);
			ctx.label_if(!valid, "refused alignment");
			match (valid, r) {
				(false, Ok(x)) => return Err(format!("{}({}) = {}, should be refused", name, a, x)),
				(true, Err(e)) => return Err(format!("{}({}) panics: {}", name, a, e)),
				(false, Err(_)) => {}
				(true, Ok(x)) => {
					// Largest size which rounded up to the alignment doesn't exceed isize::MAX
					let (m, a128) = (isize::MAX as u128, a as u128);
					let mut want = m / a128 * a128;
					if u32_fn {
						want = want.min(1 << 32);
					}
					if x as u128 != want {
						return Err(format!("{}({}) = {}, should be {}", name, a, x, want));
					}
					if !u32_fn && std::alloc::Layout::from_size_align(x, a).is_err() {
						return Err(format!("{}({}) = {} isn't a valid layout", name, a, x));
					}
				}
			}
		}
	}
	Ok(())
}

fn main() {
	engine::main(&[Prop { id: "C17", f: c17 }]);
}

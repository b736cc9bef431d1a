//! Cases run under an interpreter (Miri) or sanitizer which watches every access
//! to memory: C24 on this platform, C25 on others. Unwatched:
//! C26 with all features and profiles, C27 with types laid out in other ways.

#![allow(clippy::all, dead_code)]

mod alloc;
#[path = "../../harness/src/engine.rs"]
mod engine;
mod limits;
mod storage;
mod values;

use engine::{Ctx, Prop, PropResult, Src};

fn c24(s: &mut Src, ctx: &mut Ctx) -> PropResult {
	match s.weighted(&[5, 4, 1]) {
		0 => values::session(s, ctx),
		1 => storage::history(s, ctx),
		_ => values::threads(s, ctx),
	}
}

fn c25(s: &mut Src, ctx: &mut Ctx) -> PropResult {
	match s.weighted(&[9, 4, 3]) {
		0 => values::session(s, ctx),
		1 => storage::history(s, ctx),
		_ => limits::case(s, ctx),
	}
}

/// How types of the standard library are laid out here
fn layout() -> String {
	let mut v = Vec::<u16>::with_capacity(9);
	v.extend([1, 2, 3]);
	let v = std::mem::ManuallyDrop::new(v);
	let words: [usize; 3] = unsafe { std::mem::transmute_copy(&*v) };
	let name = |w| if w == 3 { "len" } else if w == 9 { "cap" } else { "ptr" };
	let order: Vec<&str> = words.into_iter().map(name).collect();
	let mut out = format!("Vec: {}", order.join(", "));
	#[cfg(feature = "num_bigint")]
	{
		let i = num_bigint::BigInt::from(1);
		let at = i.magnitude() as *const _ as usize - &i as *const _ as usize;
		out += if at == 0 { "; BigInt: sign last" } else { "; BigInt: sign first" };
	}
	out
}

pub fn main() {
	if std::env::args().nth(1).as_deref() == Some("layout") {
		println!("{}", layout());
		return;
	}
	engine::main(&[Prop { id: "C24", f: c24 }, Prop { id: "C25", f: c25 }, Prop { id: "C26", f: c25 }, Prop { id: "C27", f: c25 }, Prop { id: "C28", f: values::lanes::case }]);
}

//! C10: what a storage does when it gets no memory. The standard handler must
//! be called, which ends the process, so each case is a process.

use std::{alloc::Layout, hint::black_box};

use crate::{
	alloc,
	engine::{catching, Ctx, PropResult, Src},
	store::Av,
};

extern "C" {
	fn fork() -> i32;
	fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
	fn _exit(code: i32) -> !;
}

#[derive(Debug)]
enum Op {
	Create(Option<usize>),
	Reserve(usize),
	Push(usize),
	Shrink,
	Clear,
}

const HANDLED: i32 = 42;
const IGNORED: i32 = 43;

fn hook(_l: Layout) {
	unsafe { _exit(if alloc::refused() { HANDLED } else { 44 }) }
}

fn child(av: &mut dyn Av, ops: &[Op], nth: usize) -> ! {
	std::alloc::set_alloc_error_hook(hook);
	alloc::refuse_at(nth);
	let data = vec![7u8; 600];
	for op in ops {
		let _ = catching(|| match op {
			Op::Create(cap) => {
				av.drop_it();
				av.create(*cap);
			}
			Op::Reserve(n) => av.reserve(*n),
			Op::Push(n) => {
				black_box(av.push_bytes(&data[..*n]));
			}
			Op::Shrink => av.shrink(),
			Op::Clear => av.clear(),
		});
		if alloc::refused() {
			unsafe { _exit(IGNORED) }
		}
	}
	unsafe { _exit(0) }
}

pub fn starved(s: &mut Src, ctx: &mut Ctx, factories: &[(u64, fn() -> Box<dyn Av>)]) -> PropResult {
	let w: Vec<u64> = factories.iter().map(|f| f.0).collect();
	let mut av = factories[s.weighted(&w)].1();
	let par = av.par();
	let max = par.max.min(600);
	let nth = s.range(1, 5);
	let mut ops = vec![Op::Create(if s.chance(1, 2) { Some(s.range(1, max)) } else { None })];
	for _ in 0..s.range(1, 12) {
		ops.push(match s.below(8) {
			0 => Op::Create(Some(s.range(1, max))),
			1 | 2 => Op::Reserve(s.range(1, max)),
			3 | 4 | 5 => Op::Push(s.range(1, max)),
			6 => Op::Shrink,
			_ => Op::Clear,
		});
	}
	ctx.label("no memory");
	ctx.sample(|| format!("{:?}: {:?}, nothing is given to request {}", par, ops, nth));
	let code = unsafe {
		let pid = fork();
		if pid == 0 {
			child(&mut *av, &ops, nth);
		}
		if pid < 0 {
			return Ok(());
		}
		let mut st = 0;
		if waitpid(pid, &mut st, 0) != pid {
			return Ok(());
		}
		st
	};
	let exit = (code >> 8) & 0xff;
	if code & 0x7f != 0 {
		return Err(format!("killed by signal {} when there is no memory", code & 0x7f));
	}
	match exit {
		0 => Ok(()),
		HANDLED => {
			ctx.label("allocation failure handled");
			ctx.nontrivial = true;
			Ok(())
		}
		IGNORED => Err("went on after getting no memory".into()),
		c => Err(format!("ended with {} when there is no memory", c)),
	}
}

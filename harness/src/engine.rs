//! Property-based testing engine.
//!
//! A case is a pure function of a sequence of draws (`Src`). In a search the
//! draws come from a PRNG seeded by (VERIF_SEED, property, case number) and are
//! recorded; a failure is shrunk by editing the recorded sequence (the driver
//! does that, running candidates in fresh processes, so that crashes shrink
//! too); the shrunk sequence is the replay file.

use std::{
	cell::RefCell,
	collections::{BTreeMap, HashSet},
	fs::{self, File, OpenOptions},
	io::Write,
	panic,
};

use crate::alloc;

/// Source of choices.
pub struct Src {
	state: u64,
	replay: Option<Vec<u64>>,
	pub log: Vec<u64>,
	tee: Option<File>,
}

fn splitmix(x: &mut u64) -> u64 {
	*x = x.wrapping_add(0x9E3779B97F4A7C15);
	let mut z = *x;
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
	z ^ (z >> 31)
}

pub fn hash_bytes(bytes: &[u8], mut h: u64) -> u64 {
	for &b in bytes {
		h = (h ^ b as u64).wrapping_mul(0x100000001b3);
	}
	h
}

impl Src {
	pub fn random(seed: u64, prop: &str, idx: u64) -> Src {
		let mut s = seed ^ hash_bytes(prop.as_bytes(), 0xcbf29ce484222325);
		let a = splitmix(&mut s);
		let mut s2 = a ^ idx.wrapping_mul(0xD1342543DE82EF95);
		let state = splitmix(&mut s2);
		Src {
			state,
			replay: None,
			log: Vec::new(),
			tee: None,
		}
	}

	pub fn replay(log: Vec<u64>) -> Src {
		Src {
			state: 0,
			replay: Some(log),
			log: Vec::new(),
			tee: None,
		}
	}

	/// Uniform draw in `0..n` (`n == 0` means any u64). 0 is the simplest choice.
	pub fn below(&mut self, n: u64) -> u64 {
		let v = match &self.replay {
			Some(r) => {
				let v = r.get(self.log.len()).copied().unwrap_or(0);
				if n != 0 && v >= n {
					v % n
				} else {
					v
				}
			}
			None => {
				let v = splitmix(&mut self.state);
				if n == 0 {
					v
				} else {
					((v as u128 * n as u128) >> 64) as u64
				}
			}
		};
		self.log.push(v);
		if let Some(f) = &mut self.tee {
			let _ = f.write_all(format!("{}\n", v).as_bytes());
		}
		v
	}

	pub fn usize_below(&mut self, n: usize) -> usize {
		self.below(n as u64) as usize
	}

	/// Draw in `a..=b`.
	pub fn range(&mut self, a: usize, b: usize) -> usize {
		a + self.below((b - a) as u64 + 1) as usize
	}

	/// True with probability `num / den`. False is simplest.
	pub fn chance(&mut self, num: u64, den: u64) -> bool {
		self.below(den) >= den - num
	}

	pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
		&items[self.usize_below(items.len())]
	}

	/// Index drawn with the given weights.
	pub fn weighted(&mut self, weights: &[u64]) -> usize {
		let total: u64 = weights.iter().sum();
		let mut v = self.below(total);
		for (i, &w) in weights.iter().enumerate() {
			if v < w {
				return i;
			}
			v -= w;
		}
		unreachable!()
	}

	/// A u64 with edge cases over-represented.
	pub fn int(&mut self) -> u64 {
		match self.below(6) {
			0 => self.below(4),
			1 => self.below(256),
			2 => u64::MAX - self.below(3),
			3 => {
				let sh = self.below(64);
				(1u64 << sh).wrapping_sub(self.below(2))
			}
			4 => 0x0101010101010101u64.wrapping_mul(self.below(256)),
			_ => self.below(0),
		}
	}

	/// Skewed length in `0..=max`.
	pub fn len(&mut self, max: usize) -> usize {
		let m = match self.below(8) {
			0 => 0,
			1 => 1,
			2 => 2,
			3 | 4 => 5,
			5 => 9,
			6 => 33,
			_ => max,
		}
		.min(max);
		self.range(0, m)
	}

	pub fn log_hash(&self) -> u64 {
		let mut h = 0xcbf29ce484222325;
		for v in &self.log {
			h = hash_bytes(&v.to_le_bytes(), h);
		}
		h
	}
}

/// Per-case reporting.
pub struct Ctx {
	pub nontrivial: bool,
	pub labels: BTreeMap<String, u64>,
	pub want_sample: bool,
	pub sample: Option<String>,
	/// Signature of the case for counting distinct ones (0: use hash of draws).
	pub sig: u64,
	/// Extra evaluations inside this case (for cases that make several checks)
	pub tier_thorough: bool,
	pub show: bool,
}

impl Ctx {
	pub fn label(&mut self, l: &str) {
		if let Some(n) = self.labels.get_mut(l) {
			*n += 1;
		} else {
			self.labels.insert(l.to_string(), 1);
		}
	}
	pub fn label_if(&mut self, c: bool, l: &str) {
		if c {
			self.label(l);
		}
	}
	pub fn sample(&mut self, f: impl FnOnce() -> String) {
		if self.want_sample || self.show {
			let text = f();
			if self.show {
				// At once, in case the process dies later
				println!("CASE {}", text.replace('\n', " "));
			}
			self.sample = Some(text);
		}
	}
}

pub type PropResult = Result<(), String>;
pub type PropFn = fn(&mut Src, &mut Ctx) -> PropResult;

pub struct Prop {
	pub id: &'static str,
	pub f: PropFn,
}

thread_local! {
	static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
	panic::set_hook(Box::new(|info| {
		let tracked = alloc::track(0);
		let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = info.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			"<non-string panic>".to_string()
		};
		let loc = info
			.location()
			.map(|l| format!("{}:{}", l.file(), l.line()))
			.unwrap_or_default();
		let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} at {}", &msg, &loc));
		drop(loc);
		drop(msg);
		alloc::track(tracked);
	}));
}

pub fn last_panic() -> String {
	LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn clear_last_panic() {
	LAST_PANIC.with(|p| *p.borrow_mut() = String::new());
}

/// Run closure, turning a panic into `Err`.
pub fn catching<R>(f: impl FnOnce() -> R) -> Result<R, String> {
	panic::catch_unwind(panic::AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn run_case(f: PropFn, src: &mut Src, ctx: &mut Ctx) -> PropResult {
	alloc::case_begin();
	let res = match catching(|| f(src, ctx)) {
		Ok(r) => r,
		Err(p) => Err(format!("panic: {}", p)),
	};
	alloc::case_end();
	res
}

fn new_ctx(thorough: bool) -> Ctx {
	Ctx {
		nontrivial: false,
		labels: BTreeMap::new(),
		want_sample: false,
		sample: None,
		sig: 0,
		tier_thorough: thorough,
		show: false,
	}
}

fn read_log(path: &str) -> Vec<u64> {
	fs::read_to_string(path)
		.expect("read log")
		.split_whitespace()
		.map(|s| s.parse().expect("log entry"))
		.collect()
}

/// Entry point of harness binaries.
///
/// * `work PROP SEED WORKER NWORKERS CASES TIER DIR`
/// * `one PROP SEED IDX TIER LOGOUT` - run one case, teeing draws to a file
/// * `replay PROP LOG TIER` - run from recorded draws
///
/// Exit 0: passed. Exit 10: property failed (message on stdout). A signal means
/// the code under test crashed.
pub fn main(props: &[Prop]) {
	let args: Vec<String> = std::env::args().collect();
	install_panic_hook();
	let find = |id: &str| props.iter().find(|p| p.id == id).expect("unknown property");
	match args[1].as_str() {
		"list" => {
			for p in props {
				println!("{}", p.id);
			}
		}
		"work" => {
			let prop = find(&args[2]);
			let seed: u64 = args[3].parse().unwrap();
			let worker: u64 = args[4].parse().unwrap();
			let nworkers: u64 = args[5].parse().unwrap();
			let cases: u64 = args[6].parse().unwrap();
			let thorough = args[7] == "thorough";
			work(prop, seed, worker, nworkers, cases, thorough, &args[8]);
		}
		"one" => {
			let prop = find(&args[2]);
			let mut src = Src::random(args[3].parse().unwrap(), prop.id, args[4].parse().unwrap());
			let _ = fs::remove_file(&args[6]);
			src.tee = Some(
				OpenOptions::new()
					.create(true)
					.append(true)
					.open(&args[6])
					.unwrap(),
			);
			let mut ctx = new_ctx(args[5] == "thorough");
			finish(run_case(prop.f, &mut src, &mut ctx));
		}
		"replay" => {
			let prop = find(&args[2]);
			let mut src = Src::replay(read_log(&args[3]));
			let mut ctx = new_ctx(args[4] == "thorough");
			ctx.show = true;
			finish(run_case(prop.f, &mut src, &mut ctx));
		}
		other => panic!("unknown mode {}", other),
	}
}

fn finish(res: PropResult) {
	match res {
		Ok(()) => {
			println!("PASS");
			std::process::exit(0);
		}
		Err(m) => {
			println!("FAIL {}", m.replace('\n', " "));
			std::process::exit(10);
		}
	}
}

fn work(
	prop: &Prop,
	seed: u64,
	worker: u64,
	nworkers: u64,
	cases: u64,
	thorough: bool,
	dir: &str,
) {
	let status = alloc::map_status(&format!("{}/st.{}", dir, worker));
	let mut evals = 0u64;
	let mut nontrivial = 0u64;
	let mut labels: BTreeMap<String, u64> = BTreeMap::new();
	let mut hashes: HashSet<u64> = HashSet::new();
	let mut samples: Vec<String> = Vec::new();
	let mut fail: Option<(u64, String)> = None;

	let mut i = worker;
	while i < cases {
		unsafe { status.write_volatile(i) };
		let mut src = Src::random(seed, prop.id, i);
		let mut ctx = new_ctx(thorough);
		ctx.want_sample = worker == 0 && samples.len() < 4 && evals >= samples.len() as u64 * 7;
		let res = run_case(prop.f, &mut src, &mut ctx);
		evals += 1;
		if ctx.nontrivial {
			nontrivial += 1;
			if hashes.len() < 4_000_000 {
				hashes.insert(if ctx.sig != 0 { ctx.sig } else { src.log_hash() });
			}
			if let Some(s) = ctx.sample.take() {
				let mut s: String = s.replace('\n', " ");
				if s.len() > 700 {
					let mut cut = 700;
					while !s.is_char_boundary(cut) {
						cut -= 1;
					}
					s.truncate(cut);
					s.push_str("...");
				}
				samples.push(format!("case {}: {}", i, s));
			}
		}
		for (k, v) in ctx.labels {
			*labels.entry(k).or_insert(0) += v;
		}
		if let Err(m) = res {
			fail = Some((i, m));
			break;
		}
		i += nworkers;
	}

	let mut out = String::new();
	out.push_str(&format!("EVALS {}\nNONTRIVIAL {}\n", evals, nontrivial));
	for (k, v) in &labels {
		out.push_str(&format!("LABEL {} {}\n", v, k));
	}
	for s in &samples {
		out.push_str(&format!("SAMPLE {}\n", s));
	}
	if let Some((i, m)) = &fail {
		out.push_str(&format!("FAIL {} {}\n", i, m.replace('\n', " ")));
	}
	out.push_str("DONE\n");
	let mut hb = Vec::with_capacity(hashes.len() * 8);
	for h in &hashes {
		hb.extend_from_slice(&h.to_le_bytes());
	}
	fs::write(format!("{}/h.{}", dir, worker), hb).unwrap();
	fs::write(format!("{}/res.{}", dir, worker), out).unwrap();
	std::process::exit(if fail.is_some() { 10 } else { 0 });
}

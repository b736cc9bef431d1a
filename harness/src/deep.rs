//! Checks of whole serializations: C01-C07, C11, C19-C21.

use crate::{
	alloc,
	engine::{catching, clear_last_panic, Ctx, PropResult, Src},
	gen,
	model::*,
	subject::*,
};

pub struct Entry {
	pub name: &'static str,
	pub gen: fn(&mut Src, &mut GenOpts) -> Box<dyn Subject>,
	pub factories: &'static [Factory],
}

#[derive(Clone, Copy)]
pub struct GenOpts {
	/// Upper limit of fuel
	pub fuel: i64,
	pub empty: bool,
	/// Allow long chains, wide and big values
	pub large: bool,
	/// Allow the very large
	pub rare: bool,
}

pub const NORMAL: GenOpts = GenOpts {
	fuel: 300,
	empty: false,
	large: true,
	rare: true,
};

impl GenOpts {
	pub fn fuel(&self, s: &mut Src) -> Fuel {
		let n = match s.below(6) {
			0 => 2,
			1 | 2 => 12,
			3 => 40,
			4 => 100,
			_ => self.fuel,
		};
		let mut f = Fuel::new(s.range(0, n.min(self.fuel) as usize) as i64);
		f.empty = self.empty;
		f
	}
}

#[macro_export]
macro_rules! node_gen {
	($m:ident) => {{
		fn gen(
			s: &mut $crate::engine::Src,
			o: &mut $crate::deep::GenOpts,
		) -> Box<dyn $crate::subject::Subject> {
			use $crate::universal::$m::Node;
			let style = if o.large { s.below(100) } else { 0 };
			let n = match style {
				90..=92 => {
					let d = if o.rare && s.below(8) == 7 { s.range(100, 900) } else { s.range(1, 100) };
					Node::chain(s, d)
				}
				93..=95 => {
					let n = if o.rare && s.below(100) == 99 {
						s.range(65_000, 70_000)
					} else if s.below(10) == 9 {
						s.range(300, 3000)
					} else {
						s.range(1, 300)
					};
					Node::wide(s, n)
				}
				96..=99 => {
					let base = match s.below(12) {
						0..=3 => 256,
						4..=5 => 4096,
						6..=8 => 1000,
						9..=10 => 65536,
						_ if o.rare => 1 << s.range(17, 20),
						_ => 512,
					};
					let n = base - 2 + s.usize_below(5);
					Node::big(s, n)
				}
				_ => {
					let mut f = o.fuel(s);
					<Node as $crate::model::Model>::gen(s, &mut f)
				}
			};
			Box::new(n)
		}
		gen
	}};
}

#[macro_export]
macro_rules! type_gen {
	($t:ty) => {{
		fn gen(
			s: &mut $crate::engine::Src,
			o: &mut $crate::deep::GenOpts,
		) -> ::std::boxed::Box<dyn $crate::subject::Subject> {
			let mut f = o.fuel(s);
			::std::boxed::Box::new(<$t as $crate::model::Model>::gen(s, &mut f))
		}
		gen
	}};
}

// ---- helpers --------------------------------------------------------------

pub fn draw_plan(s: &mut Src) -> [u8; 16] {
	let mut plan = [1u8; 16];
	match s.below(6) {
		0 => {}
		1 => plan = [0; 16],
		2 => plan = [2; 16],
		3 => {
			// Back and forth
			for (i, p) in plan.iter_mut().enumerate() {
				*p = if i == 0 { 1 } else { 3 };
			}
		}
		_ => {
			for p in plan.iter_mut() {
				*p = s.below(4) as u8;
			}
		}
	}
	let off = s.usize_below(31);
	alloc::set_plan(&plan, off);
	plan
}

pub fn draw_how(s: &mut Src, predicted: usize, max: usize) -> How {
	match s.below(5) {
		0 | 1 => How::New,
		2 => How::Cap(s.usize_below(predicted.min(max / 2) + 16)),
		3 => How::Cap(predicted.min(max)),
		_ => How::From,
	}
}

fn entry<'a>(s: &mut Src, entries: &'a [(u64, Entry)]) -> &'a Entry {
	let total: u64 = entries.iter().map(|e| e.0).sum();
	let mut v = s.below(total);
	for e in entries {
		if v < e.0 {
			return &e.1;
		}
		v -= e.0;
	}
	unreachable!()
}

pub struct Case {
	pub subj: Box<dyn Subject>,
	pub factory: Factory,
	pub store: Box<dyn Store>,
	pub par: Params,
	pub img: Image,
}

fn case(s: &mut Src, ctx: &mut Ctx, entries: &[(u64, Entry)], opts: &GenOpts) -> Case {
	let e = entry(s, entries);
	let factory = *s.pick(e.factories);
	let mut opts = *opts;
	let subj = (e.gen)(s, &mut opts);
	let img = subj.image();
	let store = factory();
	let par = store.params();
	ctx.label(e.name);
	ctx.nontrivial = img.pieces.len() > 1;
	ctx.sig = img.hash() ^ (par.sa * 31 + par.va) as u64;
	ctx.label_if(img.pieces.len() > 100, "more than 100 pieces");
	ctx.label_if(img.pieces.len() > 65536, "more than 65536 pieces");
	ctx.label_if(img.total_size() > 1 << 16, "more than 64 KiB");
	ctx.label_if(img.total_size() > 1 << 20, "more than 1 MiB");
	ctx.sample(|| {
		format!(
			"{} with {:?}: {} ({} pieces, {} bytes)",
			subj.type_name(),
			par,
			subj.show(),
			img.pieces.len(),
			img.total_size()
		)
	});
	Case {
		subj,
		factory,
		store,
		par,
		img,
	}
}

/// Contents already in storage before the session
pub struct Prefix {
	bytes: Vec<u8>,
	/// These, and possibly gigabytes of nothing
	len: usize,
}

impl Prefix {
	fn none() -> Self {
		Prefix {
			bytes: vec![],
			len: 0,
		}
	}

	fn huge(&self) -> bool {
		self.len >= 4 << 30
	}

	fn check(&self, out: &Out) -> PropResult {
		if out.len < self.len || out.bytes()[..self.bytes.len()] != self.bytes[..] {
			return Err("existing contents changed".into());
		}
		Ok(())
	}

	fn label(&self, ctx: &mut Ctx) {
		ctx.label_if(self.len > 0, "appended to existing contents");
		ctx.label_if(self.huge(), "appended beyond 4 GiB");
	}
}

pub fn draw_prefix(s: &mut Src, store: &mut dyn Store) -> Prefix {
	let n = match s.below(4) {
		0 => 0,
		1 => s.range(1, 40),
		2 => s.range(1, 300),
		_ => 1,
	};
	let seed = s.below(256) as u8;
	let bytes: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(7) ^ seed).collect();
	if n > 0 {
		assert_eq!(store.push_bytes(&bytes), 0, "first push into empty storage");
	}
	let mut len = n;
	if s.chance(1, 100) && store.params().max > 17 << 30 && alloc::can_huge() {
		let more = (4 << 30) + s.usize_below(1000);
		let at = store.skip(more);
		assert_eq!(at, up(n, store.params().va), "first space after the first push");
		len = at + more;
	}
	Prefix { bytes, len }
}

fn serialize_value(s: &mut Src, store: &mut dyn Store, kind: Kind, how: How, v: *const ()) -> usize {
	if s.below(2) == 0 {
		store.one_shot(kind, how, v)
	} else {
		let mut pos = 0;
		store.session(kind, how, &mut |ses| pos = ses.value(v));
		pos
	}
}

fn limit(img: &Image) -> usize {
	img.total_size() * 2 + 64 * img.pieces.len() + (1 << 16)
}

// ---- C01 ------------------------------------------------------------------

pub fn c01(s: &mut Src, ctx: &mut Ctx, entries: &[(u64, Entry)]) -> PropResult {
	let mut c = case(s, ctx, entries, &NORMAL);
	let how = draw_how(s, c.img.total_size(), c.par.max);
	draw_plan(s);
	let pre = if how == How::From {
		draw_prefix(s, &mut *c.store)
	} else {
		Prefix::none()
	};
	let pos = serialize_value(s, &mut *c.store, Kind::Complete, how, c.subj.ptr());
	pre.label(ctx);
	ctx.label_if(alloc::stats().reallocs > 0, "buffer grew while serializing");
	read_back(&c, pos)?;
	Ok(())
}

/// Typed reading of value at position in complete output
fn read_back(c: &Case, pos: usize) -> PropResult {
	read_back_at(&*c.store, &*c.subj, &c.img, pos)
}

fn read_back_at(store: &dyn Store, subj: &dyn Subject, img: &Image, pos: usize) -> PropResult {
	if subj.size() > 0 && (pos > store.pos() || store.pos() - pos < subj.size()) {
		return Err(format!(
			"returned position {}, output has length {}",
			pos,
			store.pos()
		));
	}
	let at = store.base().wrapping_add(pos);
	if at % img.root().align != 0 {
		return Err(format!("position {} is misaligned for the type", pos));
	}
	let ra = store.read_addr(pos);
	if ra != at {
		return Err(format!(
			"read({}) gives a reference to {:#x}, buffer starts at {:#x}",
			pos,
			ra,
			store.base()
		));
	}
	let img2 = subj.image_at(at, limit(img));
	img.same_value(&img2)?;
	// Data which is missing from output must not be taken for there because pointers still lead
	// to the input
	let (start, end) = (store.base(), store.base() + store.pos());
	for (i, p) in img2.pieces.iter().enumerate() {
		if p.size > 0 && (p.addr < start || p.addr > end || end - p.addr < p.size) {
			return Err(format!(
				"piece {} ({} bytes) is not in the output, it was read at {:#x}; output is {:#x} to {:#x}",
				i, p.size, p.addr, start, end
			));
		}
	}
	Ok(())
}

// ---- C02 ------------------------------------------------------------------

pub fn c02(s: &mut Src, ctx: &mut Ctx, entries: &[(u64, Entry)]) -> PropResult {
	let opts = GenOpts {
		empty: s.below(4) == 3,
		..NORMAL
	};
	let mut c = case(s, ctx, entries, &opts);
	let how = draw_how(s, c.img.total_size(), c.par.max);
	draw_plan(s);
	let pre = if how == How::From {
		draw_prefix(s, &mut *c.store)
	} else {
		Prefix::none()
	};
	pre.label(ctx);
	let spare = c
		.img
		.pieces
		.iter()
		.any(|p| p.ptrs.iter().any(|f| f.elem_size > 0 && f.cap > f.len));
	ctx.nontrivial = c.img.num_ptrs() > 0;
	ctx.label_if(spare, "has spare capacity");
	let pos = serialize_value(s, &mut *c.store, Kind::Complete, how, c.subj.ptr());
	// The input goes away; its memory is overwritten when released
	let Case {
		subj, store, img, par, ..
	} = c;
	drop(subj);
	let place = check_output(&img, pos, &store.out(), Kind::Complete, par.va)?;
	let mut r = ranges(&img, &place);
	r.push((0, pre.len));
	check_disjoint(&mut r)?;
	Ok(())
}

// ---- sessions (C03, C07) --------------------------------------------------

enum Step {
	Value(Box<dyn Subject>, Image),
	/// Value of an earlier step, once more
	Again(usize),
	Raw(Raw),
	Reserve(usize),
	Shrink,
}

pub fn draw_raw(s: &mut Src, mva: usize) -> Raw {
	fn n(s: &mut Src) -> usize {
		s.len(50)
	}
	if mva < 8 {
		return match s.below(4) {
			0 => Raw::U8(s.int() as u8),
			1 => Raw::Bytes((0..n(s)).map(|i| i as u8 + 1).collect()),
			2 => Raw::EmptyU8(n(s)),
			_ => Raw::Three([s.int() as u8, 7, 9]),
		};
	}
	match s.below(12) {
		0 => Raw::U8(s.int() as u8),
		1 => Raw::U16(s.int() as u16),
		2 => Raw::U32(s.int() as u32),
		3 => Raw::U64(s.int()),
		4 => Raw::Bytes((0..n(s)).map(|i| i as u8 + 1).collect()),
		5 => Raw::U16s((0..n(s)).map(|i| i as u16 * 3 + 1).collect()),
		6 => Raw::U64s((0..n(s)).map(|i| !(i as u64)).collect()),
		7 => Raw::EmptyU8(n(s)),
		8 => Raw::EmptyU32(n(s)),
		9 => Raw::EmptyU64(n(s)),
		10 => Raw::EmptyOneU64,
		_ => Raw::Three([s.int() as u8, 7, 9]),
	}
}

/// Value serialized by a step
fn value_of(steps: &[Step], i: usize) -> Option<(&dyn Subject, &Image)> {
	match &steps[i] {
		Step::Value(v, img) => Some((&**v, img)),
		Step::Again(i) => value_of(steps, *i),
		_ => None,
	}
}

struct Sess {
	steps: Vec<Step>,
	store: Box<dyn Store>,
	par: Params,
	pre: Prefix,
	how: How,
	huge: bool,
}

fn draw_session(
	s: &mut Src,
	ctx: &mut Ctx,
	entries: &[(u64, Entry)],
	max_values: usize,
	moves: bool,
) -> Sess {
	let e = entry(s, entries);
	let factory = *s.pick(e.factories);
	let mut store = factory();
	let par = store.params();
	ctx.label(e.name);
	let n = s.range(1, max_values);
	let mut steps = Vec::new();
	let mut sig = 0u64;
	let mut total = 0;
	let huge = s.chance(1, 150) && par.max > 17 << 30 && alloc::can_huge();
	let huge_at = s.usize_below(n);
	for i in 0..n {
		if huge && i == huge_at {
			steps.push(Step::Raw(Raw::EmptyU8((4 << 30) + 8 * s.usize_below(1000))));
		}
		match s.below(if moves { 8 } else { 6 }) {
			0 | 1 => steps.push(Step::Raw(draw_raw(s, par.mva))),
			5 => steps.push(Step::Reserve(s.usize_below(400))),
			6 => steps.push(Step::Shrink),
			7 => {
				steps.push(Step::Shrink);
				steps.push(Step::Reserve(1 + s.usize_below(100)));
			}
			_ => {}
		}
		if i > 0 && s.chance(1, 5) {
			// Often the one just serialized
			let back = if s.below(2) == 0 { 1 } else { s.range(1, i) };
			let at = (0..steps.len())
				.filter(|&i| matches!(steps[i], Step::Value(..)))
				.rev()
				.take(back)
				.last();
			if let Some(at) = at {
				if let Step::Value(_, img) = &steps[at] {
					sig = sig.rotate_left(3) ^ img.hash();
					total += img.total_size();
				}
				steps.push(Step::Again(at));
				continue;
			}
		}
		let mut opts = GenOpts {
			fuel: if n == 1 { 300 } else { 60 },
			empty: false,
			large: s.below(3) == 0,
			rare: n == 1,
		};
		let subj = (e.gen)(s, &mut opts);
		let img = subj.image();
		sig = sig.rotate_left(7) ^ img.hash();
		total += img.total_size();
		steps.push(Step::Value(subj, img));
		if moves && i + 1 == n {
			match s.below(4) {
				0 => steps.push(Step::Shrink),
				1 => steps.push(Step::Reserve(1 + s.usize_below(2000))),
				_ => {}
			}
		}
	}
	// The same values again and again, with moves between, or with raw data only
	if !huge && s.chance(1, 300) && total < 3000 {
		let first = steps.len();
		let values: Vec<usize> =
			(0..first).filter(|&i| matches!(steps[i], Step::Value(..))).collect();
		let mut left = s.range(20, 320);
		while left > 0 && total < par.max / 4 {
			left -= 1;
			let at = *s.pick(&values);
			if let Step::Value(_, img) = &steps[at] {
				total += img.total_size();
			}
			steps.push(Step::Again(at));
			match s.below(4) {
				0 => steps.push(Step::Raw(draw_raw(s, par.mva))),
				_ if !moves => {}
				1 => steps.push(Step::Reserve(1 + s.usize_below(600))),
				_ => {
					steps.push(Step::Shrink);
					steps.push(Step::Reserve(1 + s.usize_below(100)));
				}
			}
		}
		ctx.label("long session");
		sig = sig.rotate_left(5) ^ steps.len() as u64;
	}
	ctx.sig = sig | 1;
	let how = draw_how(s, total, par.max);
	draw_plan(s);
	let pre = if how == How::From {
		draw_prefix(s, &mut *store)
	} else {
		Prefix::none()
	};
	ctx.label_if(huge || pre.huge(), "output larger than 4 GiB");
	ctx.sample(|| {
		let mut o = format!("{} {:?} {:?} prefix {}: ", e.name, par, how, pre.len);
		for st in &steps {
			o.push_str(&match st {
				Step::Value(v, _) => format!("value {}; ", v.show()),
				Step::Again(i) => format!("value of step {} again; ", i),
				Step::Raw(r) => format!("{:?}; ", r),
				Step::Reserve(n) => format!("reserve {}; ", n),
				Step::Shrink => "shrink; ".into(),
			});
		}
		o
	});
	Sess {
		steps,
		store,
		par,
		pre,
		how,
		huge,
	}
}

/// Run session; returns position returned by each step and number of moves which
/// happened when there were pointers in the output already
fn run_session(x: &mut Sess, kind: Kind) -> (Vec<usize>, usize) {
	let mut positions = Vec::with_capacity(x.steps.len());
	let mut moved = 0;
	let (steps, how) = (&x.steps, x.how);
	x.store.session(kind, how, &mut |ses| {
		let mut any_ptr = false;
		for (i, st) in steps.iter().enumerate() {
			let before = ses.base();
			let cap = ses.cap();
			positions.push(match st {
				Step::Value(..) | Step::Again(_) => ses.value(value_of(steps, i).unwrap().0.ptr()),
				Step::Raw(r) => ses.raw(r),
				Step::Reserve(n) => {
					ses.reserve(*n);
					0
				}
				Step::Shrink => {
					ses.shrink();
					0
				}
			});
			if let Some((_, img)) = value_of(steps, i) {
				if img.pieces.len() > 1 {
					if ses.base() != before && (cap > 0 || img.pieces.len() > 2) {
						moved += 1;
					}
					any_ptr = true;
					continue;
				}
			}
			if any_ptr && ses.base() != before {
				moved += 1;
			}
		}
	});
	(positions, moved)
}

pub fn c03(s: &mut Src, ctx: &mut Ctx, entries: &[(u64, Entry)]) -> PropResult {
	let max = if s.below(2) == 0 { 1 } else { 6 };
	let mut x = draw_session(s, ctx, entries, max, true);
	let (positions, moved) = run_session(&mut x, Kind::Complete);
	ctx.nontrivial = moved > 0;
	ctx.label_if(moved > 1, "moved in several steps");
	ctx.label_if(moved > 64, "moved more than 64 times");
	let st = alloc::stats();
	ctx.label_if(st.moves_down > 0, "moved down");
	ctx.label_if(st.moves_back > 0, "moved back to earlier address");
	let out = x.store.out();
	for (i, &pos) in positions.iter().enumerate() {
		if let Some((_, img)) = value_of(&x.steps, i) {
			check_aspects(img, pos, &out, Kind::Complete, x.par.va, PTRS)
				.map_err(|e| format!("step {} of session ({:?}): {}", i, x.how, e))?;
		}
	}
	Ok(())
}

// ---- C04 ------------------------------------------------------------------

pub fn c04(s: &mut Src, ctx: &mut Ctx, entries: &[(u64, Entry)]) -> PropResult {
	let mut c = case(s, ctx, entries, &NORMAL);
	let how = draw_how(s, c.img.total_size(), c.par.max);
	draw_plan(s);
	let pre = if how == How::From {
		draw_prefix(s, &mut *c.store)
	} else {
		Prefix::none()
	};
	pre.label(ctx);
	let pos = serialize_value(s, &mut *c.store, Kind::Offset, how, c.subj.ptr());
	ctx.label_if(alloc::stats().reallocs > 0, "buffer grew while serializing");
	let Case {
		subj, store, img, par, ..
	} = c;
	drop(subj);
	let out = store.out();
	// At another place, unless it's too much to move around
	let copy;
	let mut kept = None;
	let out = if pre.huge() {
		kept = Some(store);
		Out { base: 0, ..out }
	} else {
		copy = unsafe { Bytes::copy(out.data, out.len) };
		drop(store);
		Out {
			data: copy.ptr(),
			base: 0,
			len: out.len,
		}
	};
	let _ = &kept;
	let place = check_output(&img, pos, &out, Kind::Offset, par.va)?;
	pre.check(&out)?;
	let mut r = ranges(&img, &place);
	r.push((0, pre.len));
	check_disjoint(&mut r)
}

// ---- C05 ------------------------------------------------------------------

pub fn c05(s: &mut Src, ctx: &mut Ctx, entries: &[(u64, Entry)]) -> PropResult {
	let mut c = case(s, ctx, entries, &NORMAL);
	let how = draw_how(s, c.img.total_size(), c.par.max);
	draw_plan(s);
	let pre = if how == How::From {
		draw_prefix(s, &mut *c.store)
	} else {
		Prefix::none()
	};
	pre.label(ctx);
	let start = up(pre.len, c.par.va);
	let pos = serialize_value(s, &mut *c.store, Kind::Pure, how, c.subj.ptr());
	let out = c.store.out();
	let (place, end) = c.img.predict(start, c.par.va);
	if c.img.root().size > 0 && pos != place[0] {
		return Err(format!(
			"value is at {}, aligned start after existing contents is {}",
			pos, place[0]
		));
	}
	if out.len != end {
		return Err(format!(
			"output has length {}, the value's pieces need {}",
			out.len, end
		));
	}
	check_output(&c.img, pos, &out, Kind::Pure, c.par.va)?;
	pre.check(&out)?;
	Ok(())
}

// ---- C06 ------------------------------------------------------------------

pub fn c06(s: &mut Src, ctx: &mut Ctx, entries: &[(u64, Entry)]) -> PropResult {
	let mut c = case(s, ctx, entries, &NORMAL);
	let prefix = s.below(3) == 2;
	let plen = if prefix { s.range(1, 100) } else { 0 };
	let pre: Vec<u8> = (0..plen).map(|i| i as u8).collect();
	let beyond = if prefix && s.chance(1, 60) && c.par.max > 17 << 30 && alloc::can_huge() {
		(4 << 30) + s.usize_below(1000)
	} else {
		0
	};
	ctx.label_if(beyond > 0, "appended beyond 4 GiB");
	let mut results: Vec<(Kind, usize, usize, Vec<usize>, Vec<Vec<u8>>)> = Vec::new();
	let extra = *s.pick(&KINDS);
	let mut moved = false;
	for kind in [Kind::Pure, Kind::Offset, Kind::Complete, extra] {
		draw_plan(s);
		let how = if prefix {
			let cap = match s.below(3) {
				0 => None,
				1 => Some(plen),
				_ => Some(s.usize_below(c.img.total_size().min(c.par.max / 2) + 64)),
			};
			c.store.renew(cap);
			c.store.push_bytes(&pre);
			if beyond > 0 {
				c.store.skip(beyond);
			}
			How::From
		} else {
			let how = draw_how(s, c.img.total_size(), c.par.max);
			if how == How::From {
				c.store.renew(None);
			}
			how
		};
		let pos = serialize_value(s, &mut *c.store, kind, how, c.subj.ptr());
		let out = c.store.out();
		moved |= alloc::stats().reallocs > 0;
		let place = check_aspects(&c.img, pos, &out, kind, c.par.va, PLACES)?;
		let bytes: Vec<Vec<u8>> = c
			.img
			.pieces
			.iter()
			.zip(&place)
			.map(|(p, &at)| {
				let mut v = Vec::new();
				for &(o, l) in &p.leaves {
					v.extend_from_slice(&out.bytes()[at + o..at + o + l]);
				}
				for f in &p.ptrs {
					if f.kind == PtrKind::Slice {
						let o = at + f.off + vec_words().2;
						v.extend_from_slice(&out.bytes()[o..o + 8]);
					}
				}
				v
			})
			.collect();
		results.push((kind, pos, out.len, place, bytes));
	}
	ctx.label_if(moved, "buffer grew while serializing");
	let a = &results[0];
	for b in &results[1..] {
		let what = format!("{:?} and {:?}", a.0, b.0);
		if a.1 != b.1 {
			return Err(format!("{}: value at {} and {}", what, a.1, b.1));
		}
		if a.2 != b.2 {
			return Err(format!("{}: output length {} and {}", what, a.2, b.2));
		}
		if a.3 != b.3 {
			let i = (0..a.3.len()).find(|&i| a.3[i] != b.3[i]).unwrap();
			return Err(format!(
				"{}: piece {} at {} and {}",
				what, i, a.3[i], b.3[i]
			));
		}
		if a.4 != b.4 {
			let i = (0..a.4.len()).find(|&i| a.4[i] != b.4[i]).unwrap();
			return Err(format!("{}: data of piece {} differs", what, i));
		}
	}
	Ok(())
}

// ---- C07 ------------------------------------------------------------------

pub fn c07(s: &mut Src, ctx: &mut Ctx, entries: &[(u64, Entry)]) -> PropResult {
	let kind = *s.pick(&KINDS);
	let mut x = draw_session(s, ctx, entries, 10, false);
	let (positions, _) = run_session(&mut x, kind);
	let again = x.steps.iter().any(|s| matches!(s, Step::Again(_)));
	let values = (0..x.steps.len())
		.filter(|&i| value_of(&x.steps, i).map_or(false, |v| v.1.root().size > 0))
		.count();
	let ptrs = x
		.steps
		.iter()
		.any(|s| matches!(s, Step::Value(_, i) if i.pieces.len() > 1));
	ctx.nontrivial = values > 1 && ptrs;
	ctx.label(match kind {
		Kind::Pure => "pure copy",
		Kind::Offset => "pointer offset",
		Kind::Complete => "complete",
	});
	ctx.label_if(x.pre.len > 0, "after existing contents");
	ctx.label_if(again, "same value serialized again");
	let out = x.store.out();
	let mut r = vec![(0, x.pre.len)];
	let mut last: Option<usize> = None;
	for (i, (st, &pos)) in x.steps.iter().zip(&positions).enumerate() {
		let what = |e: String| format!("step {} of {:?} session: {}", i, kind, e);
		match st {
			Step::Value(..) | Step::Again(_) => {
				let img = value_of(&x.steps, i).unwrap().1;
				let place = check_output(img, pos, &out, kind, x.par.va).map_err(what)?;
				r.extend(ranges(img, &place));
				if img.root().size > 0 {
					if let Some(l) = last {
						if pos <= l {
							return Err(what(format!("position {} not after earlier {}", pos, l)));
						}
					}
					last = Some(pos);
				}
			}
			Step::Raw(op) => {
				let (size, align, bytes) = op.spec();
				if size > 0 {
					if pos % align != 0 {
						return Err(what(format!("{:?} at misaligned position {}", op, pos)));
					}
					if pos + size > out.len {
						return Err(what(format!("{:?} at {} is beyond the output", op, pos)));
					}
					if let Some(l) = last {
						if pos <= l {
							return Err(what(format!("position {} not after earlier {}", pos, l)));
						}
					}
					last = Some(pos);
					r.push((pos, size));
				}
				if let Some(b) = bytes {
					if b.len() > 0 && out.bytes()[pos..pos + size] != b[..] {
						return Err(what(format!("{:?} at {} was overwritten", op, pos)));
					}
				}
			}
			_ => {}
		}
	}
	if !x.huge {
		x.pre.check(&out)?;
	}
	check_disjoint(&mut r)
}

// ---- C11 ------------------------------------------------------------------

pub fn c11(s: &mut Src, ctx: &mut Ctx, entries: &[(u64, Entry)]) -> PropResult {
	let e = entry(s, entries);
	let factory = *s.pick(e.factories);
	let mut store = factory();
	let par = store.params();
	ctx.label(e.name);
	ctx.label(if par.borrowed { "borrowed" } else { "owned" });
	draw_plan(s);
	let rounds = if s.chance(1, 300) {
		s.range(20, 300)
	} else {
		s.range(2, 7)
	};
	ctx.label_if(rounds > 7, "many rounds");
	let mut desc = String::new();
	let mut sig = 0u64;
	let mut nontrivial_rounds = 0;
	// Values appended since storage was cleared: must stay as they are
	let mut kept: Vec<(Image, usize, Kind)> = Vec::new();
	let mut dirty = false;
	let mut abandoned = 0;
	for round in 0..rounds {
		let mut opts = GenOpts {
			fuel: 40,
			empty: s.below(6) == 5,
			large: s.below(4) == 0,
			rare: false,
		};
		let subj = (e.gen)(s, &mut opts);
		let img = subj.image();
		sig = sig.rotate_left(9) ^ img.hash();
		let kind = *s.pick(&KINDS);
		let op = s.below(8);
		let what = |m: String| format!("round {} ({:?}, op {}): {}", round, kind, op, m);
		let mut cleared = true;
		// A session which never comes to its end: serializer is dropped by a panic
		if round > 0 && s.chance(1, 6) {
			let k = *s.pick(&KINDS);
			let overflow = par.mva >= 8 && s.below(2) == 0;
			let before = draw_raw(s, par.mva);
			let value = s.below(3) > 0;
			let cap = store.cap();
			let r = catching(|| {
				store.session(k, How::From, &mut |ses| {
					ses.raw(&before);
					if value {
						ses.value(subj.ptr());
					}
					if overflow {
						ses.raw(&Raw::EmptyU64(usize::MAX / 4));
					} else {
						panic!("session abandoned");
					}
				})
			});
			if r.is_ok() {
				return Err(what("push of more than the address space went through".into()));
			}
			clear_last_panic();
			abandoned += 1;
			if !par.borrowed {
				// Storage went with the serializer
				kept.clear();
				dirty = false;
			} else if store.cap() < cap || store.pos() > store.cap() {
				return Err(what(format!(
					"after an abandoned session position is {}, capacity {} (was {})",
					store.pos(),
					store.cap(),
					cap
				)));
			}
		}
		match op {
			0 | 1 => {
				let cap = store.cap();
				store.clear();
				if store.cap() != cap {
					return Err(what(format!(
						"clear changed capacity from {} to {}",
						cap,
						store.cap()
					)));
				}
			}
			2 => {
				store.clear();
				store.shrink();
			}
			3 => {
				store.clear();
				store.reserve(s.usize_below(500));
			}
			4 => {
				store.shrink();
				store.clear();
			}
			5 => {
				let cap = s.usize_below(300);
				store.renew(Some(cap));
			}
			_ => cleared = false,
		}
		if cleared {
			kept.clear();
			if store.pos() != 0 {
				return Err(what(format!("position {} after clear", store.pos())));
			}
		}
		if desc.len() < 600 {
			desc.push_str(&format!("{:?}/op{} {}; ", kind, op, subj.show()));
		}
		let start = store.pos();
		let cap_before = store.cap();
		let pos = serialize_value(s, &mut *store, kind, How::From, subj.ptr());
		let out = store.out();
		// Same thing in fresh storage
		let mut fresh = factory();
		if start > 0 {
			fresh.push_bytes(&vec![0x55; start]);
			if fresh.pos() != start {
				return Err(what(format!(
					"storage is at {}, pushing as many bytes into fresh storage leads to {}",
					start,
					fresh.pos()
				)));
			}
		}
		let fpos = fresh.one_shot(kind, How::From, subj.ptr());
		let fout = fresh.out();
		if pos != fpos || out.len != fout.len {
			return Err(what(format!(
				"position {} length {}, in fresh storage {} and {}",
				pos, out.len, fpos, fout.len
			)));
		}
		if cap_before >= out.len && store.cap() != cap_before {
			return Err(what(format!(
				"capacity changed from {} to {} without need",
				cap_before,
				store.cap()
			)));
		}
		let place = check_output(&img, pos, &out, kind, par.va).map_err(what)?;
		let fplace = check_output(&img, fpos, &fout, kind, par.va).map_err(what)?;
		if place != fplace {
			return Err(what("pieces are placed differently from fresh storage".into()));
		}
		if dirty && img.pieces.len() > 1 {
			nontrivial_rounds += 1;
		}
		dirty = true;
		// A serializer leaves earlier contents alone. (In complete output
		// appended to, pointers of earlier values lead to where the buffer was.)
		for (img, pos, kind) in &kept {
			if *kind != Kind::Complete {
				check_output(img, *pos, &out, *kind, par.va)
					.map_err(|m| what(format!("earlier value: {}", m)))?;
			} else {
				let n = img.root().size;
				let _ = n;
				data_same(img.root(), (out.base + pos) as *const u8)
					.map_err(|m| what(format!("earlier value: {}", m)))?;
			}
		}
		kept.push((img, pos, kind));
	}
	ctx.nontrivial = nontrivial_rounds > 0;
	ctx.label_if(abandoned > 0, "after a session was abandoned");
	ctx.sig = sig | 1;
	ctx.sample(|| format!("{} {:?}: {}", e.name, par, desc));
	Ok(())
}

// ---- C19, C20 -------------------------------------------------------------

fn all_kinds(s: &mut Src, c: &mut Case) -> PropResult {
	all_kinds_and(s, c, &mut |_| Ok(()))
}

fn all_kinds_and(s: &mut Src, c: &mut Case, after: &mut dyn FnMut(Kind) -> PropResult) -> PropResult {
	for kind in KINDS {
		draw_plan(s);
		let how = draw_how(s, c.img.total_size(), c.par.max);
		c.store.renew(None);
		let pre = if how == How::From {
			draw_prefix(s, &mut *c.store)
		} else {
			Prefix::none()
		};
		let start = up(pre.len, c.par.va);
		let pos = serialize_value(s, &mut *c.store, kind, how, c.subj.ptr());
		after(kind)?;
		let out = c.store.out();
		let (_, end) = c.img.predict(start, c.par.va);
		if out.len != end {
			return Err(format!(
				"{:?}: output has length {}, should be {}",
				kind, out.len, end
			));
		}
		let place = check_output(&c.img, pos, &out, kind, c.par.va)?;
		let mut r = ranges(&c.img, &place);
		r.push((0, pre.len));
		check_disjoint(&mut r)?;
		if kind == Kind::Complete {
			read_back(c, pos)?;
		}
	}
	Ok(())
}

pub fn c19(s: &mut Src, ctx: &mut Ctx, entries: &[(u64, Entry)]) -> PropResult {
	let mut c = case(s, ctx, entries, &NORMAL);
	ctx.nontrivial = true;
	ctx.label_if(
		c.img.pieces.iter().any(|p| p.ptrs.iter().any(|f| f.elem_size == 8 && f.len == 0)),
		"has zero",
	);
	ctx.label_if(
		c.img
			.pieces
			.iter()
			.any(|p| p.ptrs.iter().any(|f| f.elem_size == 8 && f.cap > f.len)),
		"has spare internal capacity",
	);
	all_kinds(s, &mut c)
}

/// Values of types of generated programs: C12, C15
pub fn program_values(s: &mut Src, ctx: &mut Ctx, entries: &[(u64, Entry)], logged: bool) -> PropResult {
	let opts = GenOpts {
		fuel: 60,
		empty: false,
		large: false,
		rare: false,
	};
	let (c, want) = gen::wanting(|| case(s, ctx, entries, &opts));
	let mut c = c;
	if logged {
		ctx.nontrivial = want.iter().any(|x| x.0 != "own");
		ctx.label_if(want.iter().any(|x| x.0 == "own"), "own implementation called too");
		ctx.label_if(want.len() > 1, "several logged calls");
	}
	gen::take_log();
	all_kinds_and(s, &mut c, &mut |kind| {
		let log = gen::take_log();
		if log != want {
			let names = |l: &[(&'static str, u64)]| {
				l.iter()
					.take(20)
					.map(|x| format!("{}({:x})", x.0, x.1 & 0xffff))
					.collect::<Vec<_>>()
					.join(", ")
			};
			return Err(format!(
				"{:?}: calls were [{}], should be [{}]",
				kind,
				names(&log),
				names(&want)
			));
		}
		Ok(())
	})
}

pub fn c20(s: &mut Src, ctx: &mut Ctx, entries: &[(u64, Entry)]) -> PropResult {
	let opts = GenOpts {
		fuel: 60,
		empty: true,
		large: false,
		rare: false,
	};
	let mut c = case(s, ctx, entries, &opts);
	let empties = c
		.img
		.pieces
		.iter()
		.any(|p| p.size == 0 || p.ptrs.iter().any(|f| f.target.is_none()));
	ctx.nontrivial = empties;
	ctx.label_if(c.img.root().size == 0, "value itself is zero-sized");
	if c.img.root().size == 0 {
		// Never allocated
		for kind in KINDS {
			c.store.renew(None);
			let pos = serialize_value(s, &mut *c.store, kind, How::New, c.subj.ptr());
			read_back(&c, pos).map_err(|e| format!("{:?}, storage never allocated: {}", kind, e))?;
			if c.store.pos() != 0 {
				return Err(format!("zero-sized value used {} bytes", c.store.pos()));
			}
		}
	}
	all_kinds(s, &mut c)
}

// ---- C21 ------------------------------------------------------------------

pub fn c21(s: &mut Src, ctx: &mut Ctx, entries: &[(u64, Entry)]) -> PropResult {
	let opts = GenOpts {
		empty: s.below(5) == 4,
		rare: false,
		..NORMAL
	};
	let mut c = case(s, ctx, entries, &opts);
	let n = s.range(1, 4);
	let mut expect: Vec<(Kind, usize, usize)> = Vec::new();
	for _ in 0..n {
		let kind = *s.pick(&KINDS);
		draw_plan(s);
		let how = draw_how(s, c.img.total_size(), c.par.max);
		if how == How::From {
			c.store.renew(None);
		}
		let pos = serialize_value(s, &mut *c.store, kind, how, c.subj.ptr());
		c.img
			.check_unchanged()
			.map_err(|e| format!("{:?}: {}", kind, e))?;
		let len = c.store.pos();
		if let Some(x) = expect.iter().find(|x| x.0 == kind) {
			if x.1 != pos || x.2 != len {
				return Err(format!("{:?}: serializing again gives other positions", kind));
			}
		} else {
			expect.push((kind, pos, len));
		}
	}
	if s.below(8) == 7 {
		ctx.label("concurrent");
		let ptr = c.subj.ptr() as usize;
		let factory = c.factory;
		let kinds: Vec<Kind> = (0..3).map(|_| *s.pick(&KINDS)).collect();
		let img = &c.img;
		let results: Vec<Result<(), String>> = std::thread::scope(|sc| {
			let hs: Vec<_> = kinds
				.iter()
				.map(|&kind| {
					let expect = &expect;
					sc.spawn(move || {
						let imgp = SendImg(img);
						let img = imgp.get();
						catching(|| -> PropResult {
							for _ in 0..2 {
								let mut st = factory();
								let pos = st.one_shot(kind, How::New, ptr as *const ());
								let out = st.out();
								check_output(img, pos, &out, kind, st.params().va)?;
								if let Some(x) = expect.iter().find(|x| x.0 == kind) {
									if x.1 != pos || x.2 != out.len {
										return Err("positions differ from sequential run".into());
									}
								}
							}
							Ok(())
						})
						.unwrap_or_else(Err)
					})
				})
				.collect();
			hs.into_iter()
				.map(|h| h.join().unwrap_or_else(|_| Err("thread panicked".into())))
				.collect()
		});
		for r in results {
			r.map_err(|e| format!("concurrent serialization: {}", e))?;
		}
		c.img.check_unchanged()?;
	}
	Ok(())
}

#[derive(Clone, Copy)]
struct SendImg<'a>(&'a Image);
unsafe impl<'a> Send for SendImg<'a> {}
impl<'a> SendImg<'a> {
	fn get(self) -> &'a Image {
		self.0
	}
}
unsafe impl Sync for Bytes {}
unsafe impl Send for Bytes {}

//! Hand-written serialization from the serializer's operations: C14, C13.
//!
//! A program is a tree of operations over allocations ("blocks"). The same
//! program is run by serializers of every kind. A simulation of the output
//! (position rules, bytes, pointer slots) says what must come out.

use std::{
	borrow::{Borrow, BorrowMut},
	cell::{Cell, RefCell},
	fmt::Write,
	marker::PhantomData,
	mem::{align_of, size_of},
	slice,
};

use num_bigint::BigInt;
use ser_raw::{
	pos::{Addr, NoopAddr, PosMapping, Ptrs, TrackingAddr},
	ser_traits::{Complete, PosTracking, PtrOffset, PtrWriting, Writable},
	storage::{AlignedVec, ContiguousStorage, RandomAccessStorage, Storage},
	CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serialize, Serializer,
};

use crate::{
	custom::{CompleteSer, Moving, OffsetSer, PureSer},
	deep::{draw_plan, draw_raw},
	engine::{Ctx, PropResult, Src},
	model::{check_output, up, Bytes, Fuel, Image, Kind, Model, Out, Walk},
	subject::{raw_op, Raw, Track},
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
	Pure,
	Track,
	Offset,
	Complete,
	/// Pointers as offsets, but overwrites too: by hand only
	Mix,
}
impl K {
	fn writes(self) -> bool {
		matches!(self, K::Complete | K::Mix)
	}
}

// ---- serializers ----------------------------------------------------------

#[derive(Serializer)]
#[ser_type(pos_tracking)]
pub struct TrackSer<S: Storage, B: BorrowMut<S>> {
	of: PhantomData<S>,
	#[ser_pos_mapping]
	pos: PosMapping,
	#[ser_storage(S)]
	storage: B,
}

/// Only the required methods
pub struct Hand<S: Storage, B: BorrowMut<S>> {
	storage: B,
	of: PhantomData<S>,
}

impl<S: Storage, B: BorrowMut<S>> Serializer for Hand<S, B> {
	type Storage = S;
	type BorrowedStorage = B;
	type Addr = NoopAddr;
	fn storage(&self) -> &S {
		Borrow::<S>::borrow(&self.storage)
	}
	fn storage_mut(&mut self) -> &mut S {
		BorrowMut::<S>::borrow_mut(&mut self.storage)
	}
	fn into_storage(self) -> B {
		self.storage
	}
}

/// By hand from the building blocks in `ser_traits`. `N`: 1 is position-tracking,
/// 2 pointer-offset, 3 complete, 4 pointer-offset with overwrites.
pub struct Build<S: Storage, B: BorrowMut<S>, const N: u8> {
	pos: PosMapping,
	storage: B,
	ptrs: Ptrs,
	of: PhantomData<S>,
}
impl<S: Storage, B: BorrowMut<S>, const N: u8> Build<S, B, N> {
	pub fn new(storage: B) -> Self {
		Build { pos: PosMapping::dummy(), storage, ptrs: Ptrs::new(), of: PhantomData }
	}
}
impl<S: Storage, B: BorrowMut<S>, const N: u8> PosTracking for Build<S, B, N>
where Self: Serializer
{
	fn pos_mapping(&self) -> &PosMapping {
		&self.pos
	}
	fn set_pos_mapping(&mut self, m: PosMapping) {
		self.pos = m;
	}
}
macro_rules! built {
	($n:literal, $addr:ty, [$($more:tt)*], $via:ident, { $($m:tt)* }) => {
		impl<S: Storage $($more)*, B: BorrowMut<S>> Serializer for Build<S, B, $n> {
			type Storage = S;
			type BorrowedStorage = B;
			type Addr = $addr;
			fn storage(&self) -> &S {
				Borrow::<S>::borrow(&self.storage)
			}
			fn storage_mut(&mut self) -> &mut S {
				BorrowMut::<S>::borrow_mut(&mut self.storage)
			}
			fn into_storage(self) -> B {
				self.storage
			}
			fn serialize_value<T: Serialize<Self>>(&mut self, value: &T) -> usize {
				PosTracking::do_serialize_value(self, value)
			}
			fn push_slice<T>(&mut self, slice: &[T], at: Self::Addr) -> usize {
				$via::do_push_slice(self, slice, at)
			}
			fn push_and_process_slice<T, P: FnOnce(&mut Self)>(&mut self, slice: &[T], at: Self::Addr, process: P) -> usize {
				$via::do_push_and_process_slice(self, slice, at, process)
			}
			$($m)*
		}
	};
}
built!(1, NoopAddr, [], PosTracking, {});
built!(2, TrackingAddr, [+ RandomAccessStorage], PtrWriting, {});
built!(3, TrackingAddr, [+ RandomAccessStorage + ContiguousStorage], PtrWriting, {
	unsafe fn overwrite<T>(&mut self, at: Self::Addr, value: &T) {
		Complete::do_overwrite(self, at, value)
	}
	fn overwrite_with<W: FnOnce(&mut Self)>(&mut self, write: W) {
		self.do_overwrite_with(write)
	}
	fn finalize(self) -> B {
		self.do_finalize()
	}
});
built!(4, TrackingAddr, [+ RandomAccessStorage], PtrWriting, {
	unsafe fn overwrite<T>(&mut self, at: Self::Addr, value: &T) {
		Writable::do_overwrite(self, at, value)
	}
	fn overwrite_with<W: FnOnce(&mut Self)>(&mut self, write: W) {
		write(self)
	}
});
impl<S: RandomAccessStorage, B: BorrowMut<S>> PtrWriting for Build<S, B, 2> {
	unsafe fn overwrite_ptr(&mut self, ptr_pos: usize, target_pos: usize) {
		self.do_overwrite_ptr(ptr_pos, target_pos)
	}
}
impl<S: RandomAccessStorage, B: BorrowMut<S>> PtrOffset for Build<S, B, 2> {}
impl<S: RandomAccessStorage + ContiguousStorage, B: BorrowMut<S>> PtrWriting for Build<S, B, 3> {
	unsafe fn overwrite_ptr(&mut self, ptr_pos: usize, target_pos: usize) {
		self.do_overwrite_ptr(ptr_pos, target_pos)
	}
}
impl<S: RandomAccessStorage + ContiguousStorage, B: BorrowMut<S>> Writable for Build<S, B, 3> {}
impl<S: RandomAccessStorage + ContiguousStorage, B: BorrowMut<S>> Complete for Build<S, B, 3> {
	fn ptrs(&self) -> &Ptrs {
		&self.ptrs
	}
	fn ptrs_mut(&mut self) -> &mut Ptrs {
		&mut self.ptrs
	}
}
impl<S: RandomAccessStorage, B: BorrowMut<S>> PtrWriting for Build<S, B, 4> {
	unsafe fn overwrite_ptr(&mut self, ptr_pos: usize, target_pos: usize) {
		self.do_overwrite_ptr(ptr_pos, target_pos)
	}
}
impl<S: RandomAccessStorage, B: BorrowMut<S>> PtrOffset for Build<S, B, 4> {}
impl<S: RandomAccessStorage, B: BorrowMut<S>> Writable for Build<S, B, 4> {}

pub trait Watch: Serializer {
	const KIND: K;
	fn where_is<T>(&self, v: &T) -> Option<usize>;
}

macro_rules! watch {
	([$($g:tt)*] $t:ty, Pure) => { watch!([$($g)*] $t, Pure, |_s, _v| None); };
	([$($g:tt)*] $t:ty, $k:ident) => { watch!([$($g)*] $t, $k, |s, v| Some(PosTracking::pos_for(s, v))); };
	([$($g:tt)*] $t:ty, $k:ident, |$s:ident, $v:ident| $e:expr) => {
		impl<$($g)*> Watch for $t {
			const KIND: K = K::$k;
			fn where_is<Z>(&self, $v: &Z) -> Option<usize> {
				let $s = self;
				$e
			}
		}
	};
}
watch!([const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B: BorrowMut<AlignedVec<SA, MVA, VA, MAX>>]
	PureCopySerializer<SA, MVA, VA, MAX, B>, Pure);
watch!([const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B: BorrowMut<AlignedVec<SA, MVA, VA, MAX>>]
	PtrOffsetSerializer<SA, MVA, VA, MAX, B>, Offset);
watch!([const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B: BorrowMut<AlignedVec<SA, MVA, VA, MAX>>]
	CompleteSerializer<SA, MVA, VA, MAX, B>, Complete);
watch!([S: Storage, B: BorrowMut<S>] PureSer<S, B>, Pure);
watch!([S: RandomAccessStorage, B: BorrowMut<S>] OffsetSer<S, B>, Offset);
watch!([S: RandomAccessStorage + ContiguousStorage, B: BorrowMut<S>] CompleteSer<S, B>, Complete);
watch!([S: Storage, B: BorrowMut<S>] TrackSer<S, B>, Track);
watch!([S: Storage, B: BorrowMut<S>] Hand<S, B>, Pure);
watch!([S: Storage, B: BorrowMut<S>] Build<S, B, 1>, Track);
watch!([S: RandomAccessStorage, B: BorrowMut<S>] Build<S, B, 2>, Offset);
watch!([S: RandomAccessStorage + ContiguousStorage, B: BorrowMut<S>] Build<S, B, 3>, Complete);
watch!([S: RandomAccessStorage, B: BorrowMut<S>] Build<S, B, 4>, Mix);

// ---- programs -------------------------------------------------------------

#[repr(C, align(16))]
#[derive(Clone, Copy)]
pub struct A16(pub [u8; 32]);

pub enum Data {
	U8(Vec<u8>),
	U16(Vec<u16>),
	U32(Vec<u32>),
	U64(Vec<u64>),
	Three(Vec<[u8; 3]>),
	Cell(Vec<[u64; 5]>),
	Wide(Vec<[u64; 24]>),
	A16(Vec<A16>),
	Unit(Vec<()>),
}

macro_rules! each {
	($d:expr, $v:ident => $e:expr) => {
		match $d {
			Data::U8($v) => $e,
			Data::U16($v) => $e,
			Data::U32($v) => $e,
			Data::U64($v) => $e,
			Data::Three($v) => $e,
			Data::Cell($v) => $e,
			Data::Wide($v) => $e,
			Data::A16($v) => $e,
			Data::Unit($v) => $e,
		}
	};
}

impl Data {
	fn addr(&self) -> *const u8 {
		each!(self, v => v.as_ptr() as *const u8)
	}
	fn len(&self) -> usize {
		each!(self, v => v.len())
	}
	/// Size and alignment of an element
	fn elem(&self) -> (usize, usize) {
		fn of<T>(_: &Vec<T>) -> (usize, usize) {
			(size_of::<T>(), align_of::<T>())
		}
		each!(self, v => of(v))
	}
	fn bytes(&self) -> &[u8] {
		unsafe { slice::from_raw_parts(self.addr(), self.len() * self.elem().0) }
	}
	fn name(&self) -> &'static str {
		match self {
			Data::U8(_) => "u8",
			Data::U16(_) => "u16",
			Data::U32(_) => "u32",
			Data::U64(_) => "u64",
			Data::Three(_) => "[u8;3]",
			Data::Cell(_) => "[u64;5]",
			Data::Wide(_) => "[u64;24]",
			Data::A16(_) => "a16",
			Data::Unit(_) => "()",
		}
	}
}

pub struct Block {
	data: Data,
	ops: Vec<Op>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Form {
	Push,
	PushSlice,
	Process,
	ProcessSlice,
}

#[derive(Clone, Copy, Debug)]
pub enum AddrForm {
	Ref,
	FromFirst,
	FromElem,
}

#[derive(Clone, Debug)]
pub enum Val {
	U8(u8),
	U16(u16),
	U32(u32),
	U64(u64),
	Two([u64; 2]),
	Three([u8; 3]),
	Long([u64; 11]),
	Longer(Box<[u64; 70]>),
}

impl Val {
	fn spec(&self) -> (usize, usize) {
		match self {
			Val::U8(_) => (1, 1),
			Val::U16(_) => (2, 2),
			Val::U32(_) => (4, 4),
			Val::U64(_) => (8, 8),
			Val::Two(_) => (16, 8),
			Val::Three(_) => (3, 1),
			Val::Long(_) => (88, 8),
			Val::Longer(_) => (560, 8),
		}
	}
	fn bytes(&self) -> Vec<u8> {
		match self {
			Val::U8(v) => vec![*v],
			Val::U16(v) => v.to_le_bytes().to_vec(),
			Val::U32(v) => v.to_le_bytes().to_vec(),
			Val::U64(v) => v.to_le_bytes().to_vec(),
			Val::Two(v) => v.iter().flat_map(|x| x.to_le_bytes()).collect(),
			Val::Three(v) => v.to_vec(),
			Val::Long(v) => v.iter().flat_map(|x| x.to_le_bytes()).collect(),
			Val::Longer(v) => v.iter().flat_map(|x| x.to_le_bytes()).collect(),
		}
	}
}

pub enum Op {
	/// Push block reached by pointer in slot at offset of current block
	Child(usize, AddrForm, Form, Box<Block>),
	Overwrite(usize, AddrForm, Val),
	With(Vec<Op>),
	Raw(Raw),
	/// Value/slice pushed without pointer: data, and whether as a single value
	RawData(Data, bool),
	Reserve(usize),
	Shrink,
	/// Ask a position tracking serializer where element is
	Where(usize),
}

fn gen_data(s: &mut Src, need: usize, rich: bool) -> Data {
	let n = match s.below(8) {
		0 => 0,
		1 | 2 | 3 => 1,
		4 => 2,
		5 => 3,
		_ if s.below(600) == 599 => 1 << s.range(9, 17),
		_ => s.len(60),
	}
	.max(need);
	let x = s.int();
	let b = move |i: usize| (x.rotate_left(i as u32 * 7) as u8) ^ (i as u8).wrapping_mul(31);
	let w = move |i: usize| x.rotate_left(i as u32).wrapping_add((i as u64).wrapping_mul(0x9E3779B97F4A7C15));
	let kind = if rich { [5, 8, 6, 5, 3, 8, 4, 2][s.usize_below(8)] } else { s.below(9) };
	match kind {
		0 => Data::U8((0..n).map(b).collect()),
		1 => Data::U16((0..n).map(|i| w(i) as u16).collect()),
		2 => Data::U32((0..n).map(|i| w(i) as u32).collect()),
		3 => Data::U64((0..n).map(w).collect()),
		4 => Data::Three((0..n).map(|i| [b(i), b(i + 1), b(i + 2)]).collect()),
		5 => Data::Cell((0..n).map(|i| [w(i), w(i + 9), w(i + 2), w(i + 5), w(i + 4)]).collect()),
		8 => Data::Wide(
			(0..n.min(if n > 60 { 6000 } else { 7 }))
				.map(|i| {
					let mut a = [0; 24];
					for (j, v) in a.iter_mut().enumerate() {
						*v = w(i * 24 + j);
					}
					a
				})
				.collect(),
		),
		6 => Data::A16(
			(0..n)
				.map(|i| {
					let mut a = [0; 32];
					for (j, v) in a.iter_mut().enumerate() {
						*v = b(i * 32 + j);
					}
					A16(a)
				})
				.collect(),
		),
		_ => Data::Unit(vec![(); n]),
	}
}

struct Budget {
	ops: usize,
	max_depth: usize,
}

fn addr_form(s: &mut Src) -> AddrForm {
	*s.pick(&[AddrForm::Ref, AddrForm::FromFirst, AddrForm::FromElem])
}

fn gen_overwrite(s: &mut Src, d: &Data) -> Option<Op> {
	let (_, align) = d.elem();
	let size = d.bytes().len();
	let x = s.int();
	let v = match s.below(6) {
		3 | 4 if align >= 8 && size >= 88 && x % 4 == 1 => {
			let f = |i: usize| x.rotate_left(i as u32) ^ i as u64;
			if size >= 560 && s.below(2) == 0 {
				Val::Longer(Box::new(std::array::from_fn(f)))
			} else {
				Val::Long(std::array::from_fn(f))
			}
		}
		0 => Val::U8(s.int() as u8),
		1 => Val::U16(s.int() as u16),
		2 => Val::U32(s.int() as u32),
		3 => Val::U64(s.int()),
		4 => Val::Two([s.int(), s.int()]),
		_ => Val::Three([s.int() as u8, 1, 2]),
	};
	let (vs, va) = v.spec();
	if va > align || vs > size {
		return None;
	}
	let off = s.usize_below((size - vs) / va + 1) * va;
	Some(Op::Overwrite(off, addr_form(s), v))
}

fn gen_ops(s: &mut Src, d: &Data, b: &mut Budget, depth: usize) -> Vec<Op> {
	let n = if depth == 0 { s.range(0, 24) } else { s.range(0, 7) };
	let mut v = Vec::new();
	for _ in 0..n {
		if b.ops == 0 {
			break;
		}
		b.ops -= 1;
		let (esize, ealign) = d.elem();
		let size = d.bytes().len();
		match s.below(16) {
			0..=6 if ealign >= 8 && size >= 8 => {
				let off = s.usize_below(size / 8) * 8;
				let af = addr_form(s);
				let form = *s.pick(&[Form::ProcessSlice, Form::Process, Form::PushSlice, Form::Push]);
				let single = matches!(form, Form::Push | Form::Process);
				let mut data = gen_data(s, single as usize, depth < b.max_depth);
				if single {
					each!(&mut data, v => v.truncate(1));
				}
				let ops = if matches!(form, Form::Process | Form::ProcessSlice) && depth < b.max_depth {
					gen_ops(s, &data, b, depth + 1)
				} else {
					vec![]
				};
				v.push(Op::Child(off, af, form, Box::new(Block { data, ops })));
			}
			7 | 8 => v.extend(gen_overwrite(s, d)),
			9 => {
				let k = s.usize_below(4);
				let ops = (0..k).filter_map(|_| gen_overwrite(s, d)).collect();
				v.push(Op::With(ops));
			}
			10 => v.push(Op::Raw(draw_raw(s, 16))),
			11 => {
				let single = s.below(2) == 0;
				let mut data = gen_data(s, single as usize, false);
				if single {
					each!(&mut data, v => v.truncate(1));
				}
				v.push(Op::RawData(data, single));
			}
			12 => {
				let n = s.len(3000);
				v.push(Op::Reserve(n));
			}
			13 => v.push(Op::Shrink),
			_ => {
				if esize > 0 && d.len() > 0 {
					v.push(Op::Where(s.usize_below(d.len())));
				}
			}
		}
	}
	v
}

fn show_ops(ops: &[Op], o: &mut String) {
	for op in ops {
		match op {
			Op::Child(off, _, form, b) => {
				let _ = write!(o, "{:?}@{}({}x{}", form, off, b.data.name(), b.data.len());
				if !b.ops.is_empty() {
					o.push_str(": ");
					show_ops(&b.ops, o);
				}
				o.push_str(") ");
			}
			Op::Overwrite(off, _, v) => {
				let _ = write!(o, "over@{}({:?}) ", off, v);
			}
			Op::With(ops) => {
				o.push_str("with{");
				show_ops(ops, o);
				o.push_str("} ");
			}
			Op::Raw(r) => {
				let _ = write!(o, "{:?} ", r);
			}
			Op::RawData(d, one) => {
				let _ = write!(o, "{}({}x{}) ", if *one { "push_raw" } else { "push_raw_slice" }, d.name(), d.len());
			}
			Op::Reserve(n) => {
				let _ = write!(o, "reserve({}) ", n);
			}
			Op::Shrink => o.push_str("shrink "),
			Op::Where(i) => {
				let _ = write!(o, "where[{}] ", i);
			}
		}
	}
}

// ---- simulation -----------------------------------------------------------

pub struct Sim {
	va: usize,
	kind: K,
	pos: usize,
	/// Expected byte, or None if not determined
	out: Vec<Option<u8>>,
	/// (position of pointer, position it leads to)
	ptrs: Vec<(usize, usize)>,
	err: Option<String>,
	ops: usize,
	max_depth: usize,
	after_nested: usize,
	/// (item, positions of its pieces)
	nodes: Vec<(usize, Vec<usize>)>,
	spots: usize,
}

impl Sim {
	fn fail(&mut self, e: String) {
		if self.err.is_none() {
			self.err = Some(format!("operation {}: {}", self.ops, e));
		}
	}
	fn place(&mut self, size: usize, align: usize, zst: bool) -> usize {
		if zst {
			return 0;
		}
		let start = up(self.pos, align.max(self.va));
		self.out.resize(start, None);
		self.out.resize(start + size, None);
		self.pos = up(start + size, self.va);
		self.out.resize(self.pos, None);
		start
	}
	fn put(&mut self, pos: usize, b: &[u8]) {
		for (i, x) in b.iter().enumerate() {
			self.out[pos + i] = Some(*x);
		}
	}
	fn slot_taken(&self, pos: usize, size: usize) -> bool {
		self.ptrs.iter().any(|p| p.0 < pos + size && pos < p.0 + 8)
	}
	fn data(&mut self, d: &Data) -> usize {
		let (size, align) = d.elem();
		let p = self.place(d.bytes().len(), align, size == 0);
		if size > 0 {
			self.put(p, d.bytes());
		}
		p
	}
	fn ptr(&mut self, slot: usize, target: usize) {
		self.ptrs.push((slot, target));
		if matches!(self.kind, K::Offset | K::Complete | K::Mix) {
			for x in &mut self.out[slot..slot + 8] {
				*x = None;
			}
		}
	}
}

fn addr_of<S: Serializer>(d: &Data, off: usize, f: AddrForm) -> S::Addr {
	let (size, _) = d.elem();
	unsafe {
		match f {
			AddrForm::Ref => S::Addr::from_ref(&*d.addr().add(off)),
			AddrForm::FromFirst => each!(d, v => S::Addr::from_ref_offset(&v[0], off)),
			AddrForm::FromElem => {
				let i = off / size;
				each!(d, v => S::Addr::from_ref_offset(&v[i], off - i * size))
			}
		}
	}
}

fn run_ops<S: Watch>(z: &mut S, ops: &[Op], cur: &Data, cur_pos: usize, depth: usize, sim: *mut Sim) {
	// One simulation, used from nested closures in turn
	macro_rules! sim {
		() => {
			(unsafe { &mut *sim })
		};
	}
	let mut nested = false;
	sim!().max_depth = sim!().max_depth.max(depth);
	for op in ops {
		if sim!().err.is_some() {
			return;
		}
		sim!().ops += 1;
		match op {
			Op::Child(off, af, form, b) => {
				let slot = cur_pos + off;
				if sim!().slot_taken(slot, 8) {
					continue;
				}
				if nested {
					sim!().after_nested += 1;
				}
				let a = addr_of::<S>(cur, *off, *af);
				let want = sim!().data(&b.data);
				sim!().ptr(slot, want);
				let mut ran = 0;
				let got = match form {
					Form::Push => each!(&b.data, v => z.push(&v[0], a)),
					Form::PushSlice => each!(&b.data, v => z.push_slice(v, a)),
					Form::Process => each!(&b.data, v => z.push_and_process(&v[0], a, |z| {
						ran += 1;
						run_ops(z, &b.ops, &b.data, want, depth + 1, sim);
					})),
					Form::ProcessSlice => each!(&b.data, v => z.push_and_process_slice(v, a, |z| {
						ran += 1;
						run_ops(z, &b.ops, &b.data, want, depth + 1, sim);
					})),
				};
				nested = true;
				let runs = matches!(form, Form::Process | Form::ProcessSlice) as usize;
				if ran != runs {
					sim!().fail(format!("{:?}: process function ran {} times", form, ran));
				}
				if got != want {
					sim!().fail(format!("{:?} of {} returned position {}, should be {}", form, b.data.name(), got, want));
				}
			}
			Op::Overwrite(off, af, v) => {
				let (size, _) = v.spec();
				if sim!().slot_taken(cur_pos + off, size) {
					continue;
				}
				if nested {
					sim!().after_nested += 1;
				}
				let a = addr_of::<S>(cur, *off, *af);
				unsafe {
					match v {
						Val::U8(x) => z.overwrite(a, x),
						Val::U16(x) => z.overwrite(a, x),
						Val::U32(x) => z.overwrite(a, x),
						Val::U64(x) => z.overwrite(a, x),
						Val::Two(x) => z.overwrite(a, x),
						Val::Three(x) => z.overwrite(a, x),
						Val::Long(x) => z.overwrite(a, x),
						Val::Longer(x) => z.overwrite(a, &**x),
					}
				}
				if S::KIND.writes() {
					sim!().put(cur_pos + off, &v.bytes());
				}
			}
			Op::With(ops) => {
				let mut ran = 0;
				z.overwrite_with(|z| {
					ran += 1;
					run_ops(z, ops, cur, cur_pos, depth, sim);
				});
				if ran != S::KIND.writes() as usize {
					sim!().fail(format!("overwrite_with in {:?} ran its closure {} times", S::KIND, ran));
				}
			}
			Op::Raw(r) => {
				let (size, align, b) = r.spec();
				let want = sim!().place(size, align, false);
				if let Some(b) = b {
					sim!().put(want, &b);
				}
				let got = raw_op(z, r);
				if got != want {
					sim!().fail(format!("{:?} returned position {}, should be {}", r, got, want));
				}
			}
			Op::RawData(d, one) => {
				let want = sim!().data(d);
				let got = each!(d, v => if *one { z.push_raw(&v[0]) } else { z.push_raw_slice(v) });
				if got != want {
					sim!().fail(format!("raw push of {} returned position {}, should be {}", d.name(), got, want));
				}
			}
			Op::Reserve(n) => z.storage_mut().reserve(*n),
			Op::Shrink => z.storage_mut().shrink_to_fit(),
			Op::Where(i) => {
				if nested {
					sim!().after_nested += 1;
				}
				let got = each!(cur, v => z.where_is(&v[*i]));
				let want = cur_pos + i * cur.elem().0;
				if let Some(got) = got {
					if got != want {
						sim!().fail(format!("{:?}: element {} reported at position {}, is at {}", S::KIND, i, got, want));
					}
				}
			}
		}
		let s = sim!();
		if z.pos() != s.pos || z.storage().pos() != s.pos {
			s.fail(format!("position is {}, should be {}", z.pos(), s.pos));
		}
		if z.capacity() != z.storage().capacity() || z.capacity() < z.pos() {
			s.fail(format!("capacity is {}, of storage {}, position {}", z.capacity(), z.storage().capacity(), z.pos()));
		}
	}
}

// ---- running --------------------------------------------------------------

thread_local! {
	static CURRENT: Cell<(*const Block, *mut Sim, usize)> = const { Cell::new((std::ptr::null(), std::ptr::null_mut(), 0)) };
}

#[repr(transparent)]
struct Prog<T>(T);

impl<S: Watch, T> Serialize<S> for Prog<T> {
	fn serialize_data(&self, z: &mut S) {
		let (b, sim, want) = CURRENT.with(|c| c.replace((std::ptr::null(), std::ptr::null_mut(), 0)));
		assert!(!b.is_null(), "serialize_data called twice");
		let b = unsafe { &*b };
		assert_eq!(self as *const _ as *const u8, b.data.addr(), "serialize_data given another value");
		run_ops(z, &b.ops, &b.data, want, 0, sim);
	}
}

// ---- values of ordinary types ---------------------------------------------

thread_local! {
	/// Where values were while being serialized, and where the serializer says
	/// their representation is
	static SPOTS: RefCell<Vec<(usize, usize, Option<usize>)>> = RefCell::new(Vec::new());
}

/// Asks serializer where it is, when being serialized
pub struct Spot<T>(T);

impl<T, S: Watch> Serialize<S> for Spot<T> {
	fn serialize_data(&self, z: &mut S) {
		let w = z.where_is(self);
		SPOTS.with(|s| s.borrow_mut().push((self as *const Self as usize, size_of::<T>(), w)));
	}
}

impl<T: Model> Model for Spot<T> {
	fn walk(&self, w: &mut Walk) {
		self.0.walk(w);
	}
	fn gen(s: &mut Src, f: &mut Fuel) -> Self {
		Spot(T::gen(s, f))
	}
	fn show(&self, o: &mut String) {
		o.push('@');
		self.0.show(o);
	}
}

#[derive(Serialize)]
#[ser_bound(Watch)]
pub struct Rec {
	a: Vec<u16>,
	b: Spot<u32>,
	c: Vec<Vec<Spot<u8>>>,
	d: Option<Box<Probe>>,
	e: Spot<u64>,
	f: String,
	g: Spot<u16>,
}
crate::model_struct!(Rec { a: Vec<u16>, b: Spot<u32>, c: Vec<Vec<Spot<u8>>>, d: Option<Box<Probe>>, e: Spot<u64>, f: String, g: Spot<u16> });

macro_rules! probe {
	($($i:literal $v:ident($t:ty))*) => {
		#[derive(Serialize)]
		#[ser_bound(Watch)]
		pub enum Probe {
			Unit,
			$($v($t),)*
		}
		impl Model for Probe {
			fn walk(&self, w: &mut Walk) {
				w.disc(self);
				match self {
					Probe::Unit => {}
					$(Probe::$v(x) => x.walk(w),)*
				}
			}
			fn gen(s: &mut Src, f: &mut Fuel) -> Self {
				if !f.spend() {
					return Probe::Unit;
				}
				f.depth += 1;
				let r = match s.below(14) {
					$($i => Probe::$v(Model::gen(s, f)),)*
					_ => Probe::Unit,
				};
				f.depth -= 1;
				r
			}
			fn show(&self, o: &mut String) {
				match self {
					Probe::Unit => o.push_str("Unit"),
					$(Probe::$v(x) => {
						o.push_str(stringify!($v));
						o.push(' ');
						x.show(o);
					})*
				}
			}
		}
	};
}
probe! {
	13 Rec(Box<Rec>)
	12 List(Vec<Probe>)
	11 Boxed(Box<Probe>)
	10 Recs(Vec<Rec>)
	9 Spots(Vec<Spot<u64>>)
	8 Boxes([Box<Spot<u8>>; 3])
	7 Opts(Vec<Option<Box<Spot<[u8; 5]>>>>)
	6 Big(BigInt)
	5 Str(String)
	4 Arr([Spot<u16>; 4])
	3 Empty(Vec<Box<[u64; 2]>>)
	2 Zero(Vec<()>)
	1 Spot(Spot<u32>)
}

fn check_spots(img: &Image, place: &[usize]) -> Result<usize, String> {
	let spots = SPOTS.with(|s| std::mem::take(&mut *s.borrow_mut()));
	let mut n = 0;
	for (addr, size, got) in spots {
		let got = match got {
			Some(g) => g,
			None => continue,
		};
		let (p, at) = match img.pieces.iter().zip(place).find(|(p, _)| p.addr <= addr && addr + size <= p.addr + p.size) {
			Some(x) => x,
			None => return Err(format!("serialize_data called on a value at {:#x} which isn't part of the input", addr)),
		};
		let want = at + (addr - p.addr);
		n += 1;
		if got != want {
			return Err(format!("value at offset {} of piece of {} bytes reported at position {}, is at {}", addr - p.addr, p.size, got, want));
		}
	}
	Ok(n)
}

pub enum Item {
	Node(Box<Probe>, Image),
	Value(Block),
	Raw(Raw),
	Data(Data, bool),
	Reserve(usize),
	Shrink,
}

fn after_node(i: usize, img: &Image, got: usize, pos: usize, sim: &mut Sim) {
	let (place, end) = img.predict(sim.pos, sim.va);
	if got != place[0] {
		sim.fail(format!("position {} returned for value, should be {}", got, place[0]));
	}
	if pos != end {
		sim.fail(format!("position after value is {}, should be {}", pos, end));
	}
	match check_spots(img, &place) {
		Ok(n) => sim.spots += n,
		Err(e) => sim.fail(e),
	}
	sim.out.resize(end, None);
	sim.pos = end;
	sim.nodes.push((i, place));
}

pub fn run_items<S: Watch>(mut z: S, set: &Setup, sim: &mut Sim) -> S::BorrowedStorage {
	let Setup { items, one_shot, .. } = *set;
	fn cast<T>(v: &T) -> &Prog<T> {
		unsafe { &*(v as *const T as *const Prog<T>) }
	}
	if one_shot {
		if let [Item::Node(v, img)] = items {
			let (got, st) = z.serialize(&**v);
			let pos = Borrow::<S::Storage>::borrow(&st).pos();
			after_node(0, img, got, pos, sim);
			return st;
		}
	}
	if one_shot {
		if let [Item::Value(b)] = items {
			let want = sim.data(&b.data);
			CURRENT.with(|c| c.set((b, sim, want)));
			let (got, st) = each!(&b.data, v => z.serialize(cast(&v[0])));
			if got != want {
				sim.fail(format!("serialize returned {}, should be {}", got, want));
			}
			return st;
		}
	}
	for (i, it) in items.iter().enumerate() {
		if sim.err.is_some() {
			break;
		}
		match it {
			Item::Node(v, img) => {
				let got = z.serialize_value(&**v);
				after_node(i, img, got, z.pos(), sim);
			}
			Item::Value(b) => {
				let want = sim.data(&b.data);
				CURRENT.with(|c| c.set((b, sim, want)));
				let got = each!(&b.data, v => z.serialize_value(cast(&v[0])));
				if !CURRENT.with(|c| c.get()).0.is_null() {
					sim.fail("serialize_data wasn't called".into());
				}
				if got != want {
					sim.fail(format!("serialize_value returned {}, should be {}", got, want));
				}
			}
			Item::Raw(_) | Item::Data(..) | Item::Reserve(_) | Item::Shrink => {
				let none = Data::Unit(vec![]);
				// As operations without a current block
				let op = match it {
					Item::Raw(r) => Op::Raw(r.clone()),
					Item::Data(d, one) => {
						let want = sim.data(d);
						let got = each!(d, v => if *one { z.push_raw(&v[0]) } else { z.push_raw_slice(v) });
						if got != want {
							sim.fail(format!("raw push returned {}, should be {}", got, want));
						}
						continue;
					}
					Item::Reserve(n) => Op::Reserve(*n),
					_ => Op::Shrink,
				};
				run_ops(&mut z, &[op], &none, 0, 0, sim);
			}
		}
	}
	z.finalize()
}

/// Contents of output: (bytes, address)
pub struct Done {
	bytes: Bytes,
	base: usize,
}

pub fn done<S: RandomAccessStorage + ContiguousStorage>(s: &S) -> Done {
	Done {
		bytes: unsafe { Bytes::copy(s.as_ptr(), s.pos()) },
		base: s.as_ptr() as usize,
	}
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Own {
	Borrowed,
	Owned,
}

pub struct Setup<'a> {
	items: &'a [Item],
	pre: usize,
	cap: usize,
	own: Own,
	one_shot: bool,
	va: usize,
}

/// Which serializer over which storage
pub trait Machine {
	fn kind(&self) -> K;
	fn va(&self) -> usize;
	fn run(&self, set: &Setup, sim: &mut Sim) -> Done;
	fn name(&self) -> String;
}

pub struct M<S, const N: usize>(PhantomData<S>);
impl<S, const N: usize> M<S, N> {
	pub const fn new() -> Self {
		M(PhantomData)
	}
}

pub fn storage<S: Storage>(set: &Setup, sim: &mut Sim) -> S {
	let mut st = if set.cap == 0 { S::new() } else { S::with_capacity(set.cap) };
	if set.pre > 0 {
		let b: Vec<u8> = (0..set.pre).map(|i| 0xC0 ^ i as u8).collect();
		let want = sim.place(b.len(), 1, false);
		sim.put(want, &b);
		let got = st.push_bytes(&b);
		assert_eq!(got, want);
	}
	st
}

macro_rules! machine {
	([$($g:tt)*] $s:ty, $n:literal, $k:ident, $label:literal, |$st:ident| $e:expr) => {
		impl<$($g)*> Machine for M<$s, $n> {
			fn kind(&self) -> K {
				K::$k
			}
			fn va(&self) -> usize {
				<$s as Storage>::VALUE_ALIGNMENT
			}
			fn name(&self) -> String {
				format!(
					"{} over {} of alignments {}, {}, {}",
					$label,
					std::any::type_name::<$s>().split('<').next().unwrap().rsplit("::").next().unwrap(),
					<$s as Storage>::STORAGE_ALIGNMENT,
					<$s as Storage>::MAX_VALUE_ALIGNMENT,
					<$s as Storage>::VALUE_ALIGNMENT
				)
			}
			fn run(&self, set: &Setup, sim: &mut Sim) -> Done {
				let _t = Track::on(<$s as Storage>::STORAGE_ALIGNMENT);
				let mut st: $s = storage(set, sim);
				if set.own == Own::Owned {
					let $st = st;
					let st = run_items($e, set, sim);
					done(&st)
				} else {
					{
						let $st = &mut st;
						run_items($e, set, sim);
					}
					done(&st)
				}
			}
		}
	};
}

machine!([const SA: usize, const MVA: usize, const VA: usize, const MAX: usize] AlignedVec<SA, MVA, VA, MAX>, 0, Pure, "PureCopySerializer",
	|st| PureCopySerializer::<SA, MVA, VA, MAX, _>::from_storage(st));
machine!([const SA: usize, const MVA: usize, const VA: usize, const MAX: usize] AlignedVec<SA, MVA, VA, MAX>, 1, Offset, "PtrOffsetSerializer",
	|st| PtrOffsetSerializer::<SA, MVA, VA, MAX, _>::from_storage(st));
machine!([const SA: usize, const MVA: usize, const VA: usize, const MAX: usize] AlignedVec<SA, MVA, VA, MAX>, 2, Complete, "CompleteSerializer",
	|st| CompleteSerializer::<SA, MVA, VA, MAX, _>::from_storage(st));

macro_rules! derived {
	([$($g:tt)*] $s:ty) => {
		machine!([$($g)*] $s, 3, Track, "derived pos_tracking", |st| TrackSer::<$s, _> {
			of: PhantomData, pos: PosMapping::dummy(), storage: st,
		});
		machine!([$($g)*] $s, 4, Pure, "hand-written", |st| Hand::<$s, _> { of: PhantomData, storage: st });
		machine!([$($g)*] $s, 5, Pure, "derived pure_copy", |st| PureSer::<$s, _>::new(st));
		machine!([$($g)*] $s, 6, Offset, "derived ptr_offset", |st| OffsetSer::<$s, _>::new(st));
		machine!([$($g)*] $s, 7, Complete, "derived complete", |st| CompleteSer::<$s, _>::new(st));
		machine!([$($g)*] $s, 8, Track, "hand-built position tracking", |st| Build::<$s, _, 1>::new(st));
		machine!([$($g)*] $s, 9, Offset, "hand-built pointer offset", |st| Build::<$s, _, 2>::new(st));
		machine!([$($g)*] $s, 10, Complete, "hand-built complete", |st| Build::<$s, _, 3>::new(st));
		machine!([$($g)*] $s, 11, Mix, "hand-built pointer offset with overwrites", |st| Build::<$s, _, 4>::new(st));
	};
}
derived!([const SA: usize, const MVA: usize, const VA: usize, const MAX: usize] AlignedVec<SA, MVA, VA, MAX>);
derived!([const SA: usize, const MVA: usize, const VA: usize] Moving<SA, MVA, VA, 0>);

#[macro_export]
macro_rules! machines {
	(aligned $($p:expr),*) => {{
		type S = ser_raw::storage::AlignedVec<$({ $p }),*>;
		[
			&$crate::low::M::<S, 0>::new() as &dyn $crate::low::Machine,
			&$crate::low::M::<S, 1>::new(),
			&$crate::low::M::<S, 2>::new(),
			&$crate::low::M::<S, 3>::new(),
			&$crate::low::M::<S, 4>::new(),
			&$crate::low::M::<S, 5>::new(),
			&$crate::low::M::<S, 6>::new(),
			&$crate::low::M::<S, 7>::new(),
			&$crate::low::M::<S, 8>::new(),
			&$crate::low::M::<S, 9>::new(),
			&$crate::low::M::<S, 10>::new(),
			&$crate::low::M::<S, 11>::new(),
		]
	}};
	(moving $($p:expr),*) => {{
		type S = $crate::custom::Moving<$({ $p }),*, 0>;
		[
			&$crate::low::M::<S, 3>::new() as &dyn $crate::low::Machine,
			&$crate::low::M::<S, 4>::new(),
			&$crate::low::M::<S, 5>::new(),
			&$crate::low::M::<S, 6>::new(),
			&$crate::low::M::<S, 7>::new(),
			&$crate::low::M::<S, 8>::new(),
			&$crate::low::M::<S, 9>::new(),
			&$crate::low::M::<S, 10>::new(),
			&$crate::low::M::<S, 11>::new(),
		]
	}};
}

pub fn c14(s: &mut Src, ctx: &mut Ctx, groups: &[&[&dyn Machine]]) -> PropResult {
	let group = groups[s.usize_below(groups.len())];
	programs(s, ctx, group, false)
}

/// `machines`: serializers over storages with maximum value alignment of 16 or
/// more
pub fn c13(s: &mut Src, ctx: &mut Ctx, machines: &[&dyn Machine]) -> PropResult {
	let m = machines[s.usize_below(machines.len())];
	ctx.label(&format!("{:?}", m.kind()));
	programs(s, ctx, &[m], true)
}

fn programs(s: &mut Src, ctx: &mut Ctx, group: &[&dyn Machine], nodes: bool) -> PropResult {
	// Program
	let n = 1 + s.len(4);
	let mut budget = Budget { ops: 80, max_depth: s.range(0, 6) };
	let mut items = Vec::new();
	for _ in 0..n {
		match s.below(if nodes { 16 } else { 9 }) {
			9.. => {
				let mut f = Fuel::new([2, 8, 30, 30, 80][s.usize_below(5)]);
				let v = Box::new(Probe::gen(s, &mut f));
				let img = Image::of(&*v);
				items.push(Item::Node(v, img));
			}
			0 => items.push(Item::Raw(draw_raw(s, 16))),
			1 => {
				let one = s.below(2) == 0;
				let mut data = gen_data(s, one as usize, false);
				if one {
					each!(&mut data, v => v.truncate(1));
				}
				items.push(Item::Data(data, one));
			}
			2 => {
				let n = s.len(5000);
				items.push(Item::Reserve(n));
			}
			3 => items.push(Item::Shrink),
			_ => {
				let mut data = gen_data(s, 1, true);
				each!(&mut data, v => v.truncate(1));
				let ops = gen_ops(s, &data, &mut budget, 0);
				items.push(Item::Value(Block { data, ops }));
			}
		}
	}
	let va = group[0].va();
	let set = Setup {
		items: &items,
		pre: if s.below(3) == 0 { s.len(90) } else { 0 },
		cap: if s.below(2) == 0 { s.len(700) } else { 0 },
		own: *s.pick(&[Own::Borrowed, Own::Owned]),
		one_shot: s.below(2) == 0,
		va,
	};
	ctx.sample(|| {
		let mut o = format!("{}: ", group[0].name());
		for it in &items {
			match it {
				Item::Node(v, _) => {
					v.show(&mut o);
					o.push(' ');
				}
				Item::Value(b) => {
					let _ = write!(o, "value {} [", b.data.name());
					show_ops(&b.ops, &mut o);
					o.push_str("] ");
				}
				Item::Raw(r) => {
					let _ = write!(o, "{:?} ", r);
				}
				Item::Data(d, one) => {
					let _ = write!(o, "raw{} {}x{} ", if *one { "" } else { "_slice" }, d.name(), d.len());
				}
				Item::Reserve(n) => {
					let _ = write!(o, "reserve({}) ", n);
				}
				Item::Shrink => o.push_str("shrink "),
			}
		}
		o
	});
	for m in group {
		draw_plan(s);
		let mut sim = Sim {
			va: set.va,
			kind: m.kind(),
			pos: 0,
			out: vec![],
			ptrs: vec![],
			err: None,
			ops: 0,
			max_depth: 0,
			after_nested: 0,
			nodes: vec![],
			spots: 0,
		};
		SPOTS.with(|s| s.borrow_mut().clear());
		let out = m.run(&set, &mut sim);
		let what = |e: String| format!("{} ({:?}): {}", m.name(), set.own, e);
		if let Some(e) = sim.err {
			return Err(what(e));
		}
		if (sim.ptrs.len() > 1 && sim.ops > 3) || sim.nodes.iter().any(|n| n.1.len() > 2) {
			ctx.nontrivial = true;
		}
		ctx.label_if(sim.spots > 0, "positions reported while serializing a value");
		if m.kind().writes() {
			ctx.label_if(sim.max_depth >= 2, "nested two or deeper");
			ctx.label_if(sim.after_nested > 0, "operation after nested data");
			ctx.label_if(set.one_shot && items.len() == 1, "serialize");
		}
		let bytes = out.bytes.slice();
		if bytes.len() != sim.pos {
			return Err(what(format!("output has length {}, should be {}", bytes.len(), sim.pos)));
		}
		for (i, place) in &sim.nodes {
			let img = match &items[*i] {
				Item::Node(_, img) => img,
				_ => unreachable!(),
			};
			let kind = match m.kind() {
				K::Complete => Kind::Complete,
				K::Offset => Kind::Offset,
				K::Mix => unreachable!(),
				_ => Kind::Pure,
			};
			let o = Out {
				data: out.bytes.ptr(),
				base: out.base,
				len: bytes.len(),
			};
			let got = check_output(img, place[0], &o, kind, va).map_err(&what)?;
			if &got != place {
				return Err(what(format!("pieces of value are at {:?}, should be at {:?}", got, place)));
			}
			img.check_unchanged().map_err(&what)?;
		}
		for (i, (got, want)) in bytes.iter().zip(&sim.out).enumerate() {
			if let Some(w) = want {
				if got != w {
					return Err(what(format!("byte {} is {:#x}, should be {:#x}", i, got, w)));
				}
			}
		}
		let add = match m.kind() {
			K::Offset | K::Mix => 0,
			K::Complete => out.base,
			_ => continue,
		};
		for (p, t) in &sim.ptrs {
			let mut a = [0u8; 8];
			a.copy_from_slice(&bytes[*p..p + 8]);
			let got = usize::from_le_bytes(a);
			if got != add.wrapping_add(*t) {
				return Err(what(format!(
					"pointer at {} is {:#x} ({:#x} from start), data is at position {}",
					p,
					got,
					got.wrapping_sub(add),
					t
				)));
			}
		}
	}
	Ok(())
}

/// A way of holding a storage which is neither of the usual. Has methods of its
/// own named as those of `Borrow`.
pub struct Holder<S>(pub S);
impl<S> Holder<S> {
	pub fn borrow(&self) -> &'static str {
		"not this one"
	}
	pub fn borrow_mut(&mut self) -> &'static str {
		"not this one"
	}
}
impl<S> Borrow<S> for Holder<S> {
	fn borrow(&self) -> &S {
		&self.0
	}
}
impl<S> BorrowMut<S> for Holder<S> {
	fn borrow_mut(&mut self) -> &mut S {
		&mut self.0
	}
}

/// For braced generic arguments
pub struct Num<const N: usize>;

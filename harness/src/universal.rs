//! Universal value types: one enum (per maximum alignment of its payload) whose
//! values nest all supported containers in each other.

macro_rules! node_types {
	(($d:tt) $m:ident, $pay:ty, $pay2:ty, $zst:ty) => {
		pub mod $m {
			use std::num::*;

			use num_bigint::{BigInt, BigUint};
			use ser_raw::Serialize;

			use crate::{
				engine::Src,
				model::{Fuel, Keep, Model, Walk},
				model_struct,
			};

			pub type Pay = $pay;
			pub type Pay2 = $pay2;
			pub type Zst = $zst;

			/// Fields named as the derive macros name their own things
			#[derive(Serialize)]
			pub struct Named {
				pub serializer: Vec<Node>,
				pub value: u8,
				pub val_0: Option<Box<Node>>,
				pub s: String,
				pub pay: Option<Pay>,
			}
			model_struct!(Named { serializer: Vec<Node>, value: u8, val_0: Option<Box<Node>>, s: String,
				pay: Option<Pay> });

			#[derive(Serialize)]
			pub struct Pair<const N: usize>(pub [Box<Node>; N], pub u16);
			model_struct!(Pair<2> { 0: [Box<Node>; 2], 1: u16 });
			model_struct!(Pair<0> { 0: [Box<Node>; 0], 1: u16 });

			macro_rules! node_enum {
				($d($d v:ident($d t:ty) $d wt:literal)*) => {
					#[derive(Serialize)]
					pub enum Node {
						Unit,
						$d($d v($d t),)*
						Rec { serializer: Box<Node>, val_serializer: String, b: u8 },
					}

					impl Model for Node {
						fn walk(&self, w: &mut Walk) {
							w.disc(self);
							match self {
								Node::Unit => {}
								$d(Node::$d v(x) => x.walk(w),)*
								Node::Rec { serializer, val_serializer, b } => {
									serializer.walk(w);
									val_serializer.walk(w);
									b.walk(w);
								}
							}
						}
						fn gen(s: &mut Src, f: &mut Fuel) -> Self {
							if !f.spend() {
								return match s.below(4) {
									0 => Node::Unit,
									1 => Node::U8(s.below(256) as u8),
									2 => Node::Str(String::gen(s, f)),
									_ => Node::Bytes(Vec::gen(s, f)),
								};
							}
							f.depth += 1;
							let mut total = 4u64;
							$d(total += $d wt;)*
							let mut k = s.below(total) as i64;
							k -= 1;
							let r = 'r: {
								if k < 0 {
									break 'r Node::Unit;
								}
								$d(
									k -= $d wt;
									if k < 0 {
										break 'r Node::$d v(Model::gen(s, f));
									}
								)*
								Node::Rec {
									serializer: Model::gen(s, f),
									val_serializer: Model::gen(s, f),
									b: Model::gen(s, f),
								}
							};
							f.depth -= 1;
							r
						}
						fn show(&self, o: &mut String) {
							match self {
								Node::Unit => o.push_str("Unit"),
								$d(Node::$d v(x) => {
									o.push_str(stringify!($d v));
									o.push(' ');
									x.show(o);
								})*
								Node::Rec { serializer, val_serializer, b } => {
									o.push_str("Rec{");
									serializer.show(o);
									o.push(',');
									val_serializer.show(o);
									o.push(',');
									b.show(o);
									o.push('}');
								}
							}
						}
					}
				};
			}

			node_enum! {
				U8(u8) 2
				U16(u16) 1
				U32(u32) 1
				U64(u64) 1
				U128(u128) 1
				Usize(usize) 1
				I8(i8) 1
				I16(i16) 1
				I32(i32) 1
				I64(i64) 1
				I128(i128) 1
				Isize(isize) 1
				F32(f32) 1
				F64(f64) 1
				Bool(bool) 1
				Char(char) 1
				P(Pay) 2
				P2(Pay2) 2
				Str(String) 4
				Bytes(Vec<u8>) 3
				U16s(Vec<u16>) 2
				U32s(Vec<u32>) 2
				U64s(Vec<u64>) 1
				U128s(Vec<u128>) 1
				Pays(Vec<Pay>) 2
				Pays2(Vec<Pay2>) 2
				F64s(Vec<f64>) 1
				Chars(Vec<char>) 1
				Threes(Vec<[u8; 3]>) 2
				Pods(Vec<(u8, u16)>) 2
				B(Box<Node>) 10
				BPrim(Box<u8>) 2
				BU16(Box<u16>) 2
				BPay(Box<Pay>) 2
				BB(Box<Box<Node>>) 3
				BStr(Box<String>) 3
				BVec(Box<Vec<Node>>) 3
				List(Vec<Node>) 14
				VecVec(Vec<Vec<Node>>) 4
				Strs(Vec<String>) 5
				VecBox(Vec<Box<Node>>) 4
				VecOpt(Vec<Option<Box<Node>>>) 4
				VecVecU8(Vec<Vec<u8>>) 4
				VecVecStr(Vec<Vec<String>>) 2
				VecTup(Vec<(u8, String, Vec<u16>)>) 4
				VecNamed(Vec<Named>) 3
				Opt(Option<Box<Node>>) 3
				OptStr(Option<String>) 3
				OptOptVec(Option<Option<Vec<Node>>>) 3
				OptU32(Option<u32>) 1
				OptNz(Option<NonZeroU32>) 1
				OptPay(Option<Pay>) 1
				OptBool(Option<Option<bool>>) 1
				Arr2([Box<Node>; 2]) 4
				ArrStr([String; 3]) 3
				ArrArr([[Vec<u8>; 2]; 2]) 3
				Arr0([Box<Node>; 0]) 1
				Tup1((Box<Node>,)) 2
				Tup2((u8, Box<Node>)) 3
				Tup3((Vec<Node>, u16, String)) 3
				Tup4((Box<u8>, Vec<u16>, u8, Box<Node>)) 3
				Zsts(Vec<()>) 2
				ZstA(Vec<Zst>) 2
				ZstBox(Box<Zst>) 2
				ZstArr(Box<[u64; 0]>) 1
				UnitV(()) 1
				BigI(BigInt) 3
				BigU(BigUint) 3
				BigIs(Vec<BigInt>) 2
				BigTup((u8, BigInt, u16)) 2
				Nz((NonZeroU8, NonZeroI16, NonZeroU64, NonZeroI128)) 1
				Nm(Named) 6
				Pr(Pair<2>) 3
				Pr0(Pair<0>) 1
				Kept(Keep<Box<u16>>) 1
				KeptBox(Box<Keep<Box<u32>>>) 1
				KeptVec(Vec<Keep<String>>) 2
				KeptArr(Box<[Keep<Vec<u16>>; 2]>) 1
			}

			// Scenario builders
			impl Node {
				/// Chain of boxes / vectors of one element
				pub fn chain(s: &mut Src, depth: usize) -> Node {
					let mut f = Fuel::new(4);
					let mut n = Node::gen(s, &mut f);
					let style = s.below(4);
					for i in 0..depth {
						n = match (style, i % 3) {
							(0, _) | (3, 0) => Node::B(Box::new(n)),
							(1, _) | (3, 1) => {
								let mut v = Vec::with_capacity(1 + i % 2);
								v.push(n);
								Node::List(v)
							}
							_ => Node::Rec {
								serializer: Box::new(n),
								val_serializer: String::with_capacity(i % 3),
								b: i as u8,
							},
						};
					}
					n
				}
				/// Many small children
				pub fn wide(s: &mut Src, n: usize) -> Node {
					let style = s.below(6);
					let seed = s.below(256) as usize;
					match style {
						0 => Node::VecBox((0..n).map(|i| Box::new(Node::U32((i + seed) as u32))).collect()),
						1 => Node::List((0..n).map(|i| Node::BPrim(Box::new((i ^ seed) as u8))).collect()),
						2 => Node::Strs(
							(0..n)
								.map(|i| {
									let mut t = String::with_capacity((i + seed) % 7);
									t.push_str(&"abcdef"[..(i + seed) % 5]);
									t
								})
								.collect(),
						),
						3 => Node::VecVecU8((0..n).map(|i| vec![i as u8; (i * 7 + seed) % 11]).collect()),
						4 => Node::VecOpt(
							(0..n)
								.map(|i| {
									if (i + seed) % 3 == 0 {
										None
									} else {
										Some(Box::new(Node::I16((i * seed) as i16)))
									}
								})
								.collect(),
						),
						_ => Node::VecTup(
							(0..n)
								.map(|i| (i as u8, "x".repeat((i + seed) % 4), vec![i as u16; i % 3]))
								.collect(),
						),
					}
				}
				/// One big run of data, with something after it
				pub fn big(s: &mut Src, n: usize) -> Node {
					let sp = s.usize_below(3);
					let seed = s.below(256) as u8;
					let style = s.below(6);
					let mut tail = Fuel::new(6);
					let after = Node::gen(s, &mut tail);
					fn fill<T>(n: usize, sp: usize, f: impl Fn(usize) -> T) -> Vec<T> {
						let mut v = Vec::with_capacity(n + sp);
						for i in 0..n {
							v.push(f(i));
						}
						v
					}
					let b = |i: usize| (i as u8).wrapping_mul(31).wrapping_add((i >> 8) as u8) ^ seed;
					let big = match style {
						0 => Node::Bytes(fill(n, sp, b)),
						1 => Node::U16s(fill(n, sp, |i| b(i) as u16 * 257)),
						2 => Node::U64s(fill(n, sp, |i| (b(i) as u64) << 56 | i as u64)),
						3 => {
							let mut t = String::with_capacity(n + sp);
							for i in 0..n {
								t.push((b'a' + (b(i) % 26)) as char);
							}
							Node::Str(t)
						}
						4 => Node::Threes(fill(n, sp, |i| [b(i), seed, b(i + 1)])),
						_ => Node::U32s(fill(n, sp, |i| i as u32 ^ seed as u32)),
					};
					match s.below(3) {
						0 => Node::List(vec![big, after]),
						1 => Node::Arr2([Box::new(big), Box::new(after)]),
						_ => Node::VecOpt(vec![Some(Box::new(after)), None, Some(Box::new(big))]),
					}
				}
			}
		}
	};
}

node_types!(($) n8, u64, [u16; 3], crate::model::Z8);
node_types!(($) n16, crate::model::A16, crate::model::A16S, crate::model::Z16);
node_types!(($) n64, crate::model::A64, crate::model::A64S, crate::model::Z64);

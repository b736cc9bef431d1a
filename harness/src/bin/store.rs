//! C08, C09, C10, C22.

use ser_raw::storage::AlignedVec;
use vlib::{
	big,
	aligned, cstore, custom_av,
	custom::*,
	deep::*,
	engine::{self, Ctx, Prop, PropResult, Src},
	node_gen,
	starved::starved,
	store::*,
	universal::n16,
};

const fn max(sa: usize) -> usize {
	isize::MAX as usize - (sa - 1)
}
const ODD_MAX: usize = (20 << 30) + 192;

fn all() -> Vec<(u64, AvFactory)> {
	vec![
		(4, aligned!(16, 16, 8, max(16))),
		(2, aligned!(1, 1, 1, max(1), noser)),
		(2, aligned!(2, 2, 1, 10, noser)),
		(2, aligned!(8, 4, 2, 44, noser)),
		(3, aligned!(8, 8, 8, 64)),
		(3, aligned!(16, 16, 8, 4096)),
		(2, aligned!(16, 16, 1, 80)),
		(3, aligned!(64, 64, 1, 192)),
		(2, aligned!(64, 32, 16, 4096 + 32)),
		(3, aligned!(128, 64, 64, 1 << 32)),
		(3, aligned!(16, 8, 4, ODD_MAX)),
		(2, aligned!(4096, 8, 2, max(4096))),
		(1, aligned!(4096, 4096, 1, max(4096))),
		(1, aligned!(8192, 4096, 64, 1 << 20)),
		(1, aligned!(4096, 4096, 4096, 4096 * 5)),
		(1, aligned!(32, 32, 32, 32)),
		(2, aligned!(16, 16, 4, 1 << 16)),
		(1, aligned!(4, 4, 4, 65532, noser)),
		(2, aligned!(16, 8, 8, 1000)),
		(1, aligned!(16, 16, 16, 1 << 61)),
	]
}

fn custom() -> Vec<(u64, AvFactory)> {
	vec![
		(2, custom_av!(Moving, moving_access, ty_ra, 16, 16, 8, 0)),
		(2, custom_av!(Moving, moving_access, ty_ra, 64, 64, 1, 0)),
		(1, custom_av!(Moving, moving_access, ty_ra, 4, 2, 1, 0)),
		(2, custom_av!(Moving, moving_access, ty_ra, 16, 16, 8, 64)),
		(2, custom_av!(Moving, moving_access, ty_ra, 64, 64, 16, 256)),
		(1, custom_av!(Moving, moving_access, ty_ra, 32, 8, 2, 4096)),
		(2, custom_av!(Moving, moving_access, ty_ra, 32, 32, 8, 65)),
		(1, custom_av!(Moving, moving_access, ty_ra, 64, 64, 1, 257)),
		(2, custom_av!(Segments, segments_access, ty, 16, 16, 8, 64)),
		(2, custom_av!(Segments, segments_access, ty, 64, 32, 1, 1024)),
		(1, custom_av!(Segments, segments_access, ty, 8, 8, 8, 8)),
	]
}

fn values() -> [CFactory; 11] {
	[
		cstore!(n16::Node, Moving, 16, 16, 8, 0),
		cstore!(n16::Node, Moving, 16, 16, 1, 0),
		cstore!(n16::Node, Moving, 16, 16, 8, 64),
		cstore!(n16::Node, Moving, 64, 32, 16, 256),
		cstore!(n16::Node, Moving, 16, 16, 2, 256),
		cstore!(n16::Node, Moving, 4096, 16, 8, 4096),
		cstore!(n16::Node, Moving, 32, 32, 8, 65),
		cstore!(n16::Node, Moving, 16, 16, 2, 257),
		cstore!(n16::Node, Segments, 16, 16, 8, 64),
		cstore!(n16::Node, Segments, 64, 64, 1, 256),
		cstore!(n16::Node, Segments, 16, 16, 16, 4096),
	]
}

fn c08(s: &mut Src, ctx: &mut Ctx) -> PropResult {
	history(s, ctx, &all(), Aim::Data)
}
fn c09(s: &mut Src, ctx: &mut Ctx) -> PropResult {
	history(s, ctx, &all(), Aim::Capacity)
}
fn c10(s: &mut Src, ctx: &mut Ctx) -> PropResult {
	if s.chance(1, 150) {
		return starved(s, ctx, &all());
	}
	history(s, ctx, &all(), Aim::Memory)
}
fn c22(s: &mut Src, ctx: &mut Ctx) -> PropResult {
	if s.below(2) == 0 {
		history(s, ctx, &custom(), Aim::Custom)
	} else {
		static ENTRY: Entry = Entry {
			name: "nodes",
			gen: node_gen!(n16),
			factories: &[],
		};
		custom_values(s, ctx, &values(), &ENTRY)
	}
}

fn main() {
	engine::main(&[
		Prop { id: "C08", f: c08 },
		Prop { id: "C09", f: c09 },
		Prop { id: "C10", f: c10 },
		Prop { id: "C22", f: c22 },
		Prop { id: "C08+big", f: big::storage },
	]);
}

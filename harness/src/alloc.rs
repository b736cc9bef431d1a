//! Checking global allocator.
//!
//! Every block carries a header and guard bytes; releasing or resizing with a
//! layout other than the one it was obtained with, releasing twice, or damaged
//! guard bytes are recorded as violations. Fresh and released memory is
//! poisoned.
//!
//! While tracking is on for an alignment (thread local), blocks of exactly that
//! alignment are placed in an arena of slots, and whether and where a
//! reallocation moves (stay, up, down, back to the previous address) follows a
//! plan drawn by the test case. Blocks are aligned to what was asked for and no
//! more.

use std::{
	alloc::{GlobalAlloc, Layout, System},
	cell::Cell,
	ptr,
	sync::atomic::{AtomicBool, AtomicIsize, AtomicUsize, Ordering::*},
};

pub struct GuardAlloc;

const MAGIC: u64 = 0x5EA1ED_B10C_C0DE;
const FREED: u64 = 0xDEAD_B10C_DEAD_B10C;
const HDR: usize = 64;
const FRONT: usize = 32;
const BACK: usize = 64;
const FRONT_BYTE: u8 = 0xFB;
const BACK_BYTE: u8 = 0xBB;
const FRESH_BYTE: u8 = 0xA5;
const FREED_BYTE: u8 = 0xDD;

#[repr(C)]
struct Hdr {
	magic: u64,
	size: usize,
	align: usize,
	raw: *mut u8,
	raw_size: usize,
}

// ---- violations -----------------------------------------------------------

static LOCK: AtomicBool = AtomicBool::new(false);
static VIOLATIONS: AtomicUsize = AtomicUsize::new(0);
static mut VMSG: [u8; 256] = [0; 256];
static mut VLEN: usize = 0;

struct Guard;
fn lock() -> Guard {
	while LOCK
		.compare_exchange_weak(false, true, Acquire, Relaxed)
		.is_err()
	{
		std::hint::spin_loop();
	}
	Guard
}
impl Drop for Guard {
	fn drop(&mut self) {
		LOCK.store(false, Release);
	}
}

struct Buf<'a>(&'a mut [u8], usize);
impl<'a> std::fmt::Write for Buf<'a> {
	fn write_str(&mut self, s: &str) -> std::fmt::Result {
		let n = s.len().min(self.0.len() - self.1);
		self.0[self.1..self.1 + n].copy_from_slice(&s.as_bytes()[..n]);
		self.1 += n;
		Ok(())
	}
}

fn violation(args: std::fmt::Arguments) {
	use std::fmt::Write;
	if VIOLATIONS.fetch_add(1, SeqCst) == 0 {
		unsafe {
			let mut b = Buf(&mut VMSG, 0);
			let _ = b.write_fmt(args);
			VLEN = b.1;
		}
	}
}

/// First memory violation recorded since start of the case.
pub fn take_violation() -> Option<String> {
	if VIOLATIONS.swap(0, SeqCst) == 0 {
		return None;
	}
	unsafe { Some(String::from_utf8_lossy(&VMSG[..VLEN]).into_owned()) }
}

// ---- counters -------------------------------------------------------------

static LIVE: AtomicIsize = AtomicIsize::new(0);
static LIVE_BYTES: AtomicIsize = AtomicIsize::new(0);

/// (live blocks, live bytes)
pub fn live() -> (isize, isize) {
	(LIVE.load(SeqCst), LIVE_BYTES.load(SeqCst))
}

// ---- arena ----------------------------------------------------------------

const SLOTS: usize = 8;
const SLOT_SIZE: usize = 96 << 20;
const SLOT_MAX: usize = 64 << 20;
const HUGE_MAX: usize = 24 << 30;
const PAGE: usize = 4096;
const MAX_ALIGN: usize = 1 << 17;

#[derive(Clone, Copy)]
struct Slot {
	used: bool,
	ptr: usize,
	size: usize,
	align: usize,
}

#[derive(Clone, Copy)]
struct Huge {
	used: bool,
	map: usize,
	map_size: usize,
	ptr: usize,
	size: usize,
	align: usize,
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Stats {
	pub allocs: usize,
	pub reallocs: usize,
	pub deallocs: usize,
	pub stays: usize,
	pub moves_up: usize,
	pub moves_down: usize,
	pub moves_back: usize,
	pub live: isize,
}

const NO_SLOT: Slot = Slot {
	used: false,
	ptr: 0,
	size: 0,
	align: 0,
};
const NO_HUGE: Huge = Huge {
	used: false,
	map: 0,
	map_size: 0,
	ptr: 0,
	size: 0,
	align: 0,
};

static mut ARENA: usize = 0;
static mut SLOT: [Slot; SLOTS] = [NO_SLOT; SLOTS];
static mut HUGE: [Huge; 4] = [NO_HUGE; 4];
static mut PLAN: [u8; 16] = [0; 16];
static mut PLAN_I: usize = 0;
static mut OFF: usize = 0;
static mut PREV_SLOT: usize = usize::MAX;
static mut STATS: Stats = Stats {
	allocs: 0,
	reallocs: 0,
	deallocs: 0,
	stays: 0,
	moves_up: 0,
	moves_down: 0,
	moves_back: 0,
	live: 0,
};

thread_local! {
	static TRACK: Cell<usize> = const { Cell::new(0) };
}

/// Place blocks of this alignment in the arena from now on (0: off).
pub fn track(align: usize) -> usize {
	TRACK.with(|t| t.replace(align))
}

/// How reallocations behave: each entry 0 = stay, 1 = up, 2 = down, 3 = back.
pub fn set_plan(plan: &[u8; 16], off: usize) {
	let _g = lock();
	unsafe {
		PLAN = *plan;
		PLAN_I = 0;
		OFF = off % 31;
	}
}

pub fn stats() -> Stats {
	let _g = lock();
	unsafe { STATS }
}

pub fn case_begin() {
	VIOLATIONS.store(0, SeqCst);
	let _g = lock();
	unsafe {
		PLAN = [1; 16];
		PLAN_I = 0;
		OFF = 0;
		PREV_SLOT = usize::MAX;
		STATS = Stats::default();
	}
}

static REFUSE: AtomicUsize = AtomicUsize::new(0);
static REFUSED: AtomicBool = AtomicBool::new(false);

/// Give nothing to the n-th request for a tracked block from now on (1: the next; 0: off)
pub fn refuse_at(n: usize) {
	REFUSE.store(n, SeqCst);
	REFUSED.store(false, SeqCst);
}

pub fn refused() -> bool {
	REFUSED.load(SeqCst)
}

fn refuse() -> bool {
	match REFUSE.load(Relaxed) {
		0 => false,
		1 => {
			REFUSE.store(0, SeqCst);
			REFUSED.store(true, SeqCst);
			true
		}
		n => {
			REFUSE.store(n - 1, SeqCst);
			false
		}
	}
}

pub fn case_end() {
	track(0);
}

extern "C" {
	fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
	fn munmap(addr: *mut u8, len: usize) -> i32;
	fn madvise(addr: *mut u8, len: usize, advice: i32) -> i32;
	fn mremap(old: *mut u8, old_len: usize, new_len: usize, flags: i32, ...) -> *mut u8;
	fn open(path: *const u8, flags: i32, ...) -> i32;
	fn ftruncate(fd: i32, len: i64) -> i32;
	fn close(fd: i32) -> i32;
	fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
	fn flock(fd: i32, op: i32) -> i32;
	fn usleep(us: u32) -> i32;
	fn fork() -> i32;
	fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
	fn alarm(s: u32) -> u32;
	fn _exit(code: i32) -> !;
}
const FAILED: *mut u8 = usize::MAX as *mut u8;

/// Whether large blocks will be filled, rather than mostly skipped
pub static FILLED: AtomicBool = AtomicBool::new(false);

/// Set when a block of many GiB turned out to hold as much memory: storage which copies its
/// buffer or fills it with zeros is no less correct, but there's no room for many such
static HEAVY: AtomicBool = AtomicBool::new(false);
/// File whose lock is held while this process has blocks of many GiB (-1: none)
static mut HUGE_LOCK: i32 = -1;
static mut HUGE_LIVE: usize = 0;
static mut NO_WAIT: bool = false;

/// Only one worker of each build at a time has blocks of many GiB, in case they're heavy.
/// Does not wait for ever: another may have lost its block, or be slow.
unsafe fn huge_enter() {
	HUGE_LIVE += 1;
	if HUGE_LIVE > 1 || FILLED.load(Relaxed) {
		return;
	}
	let fd = open(b"/proc/self/exe\0".as_ptr(), 0o2000000);
	if fd < 0 {
		return;
	}
	let mut tries = 0;
	// LOCK_EX | LOCK_NB
	while flock(fd, 2 | 4) != 0 {
		tries += 1;
		if NO_WAIT || tries > 60000 {
			NO_WAIT = true;
			close(fd);
			return;
		}
		usleep(200);
	}
	HUGE_LOCK = fd;
}

unsafe fn huge_leave() {
	HUGE_LIVE -= 1;
	if HUGE_LIVE == 0 && HUGE_LOCK >= 0 {
		close(HUGE_LOCK);
		HUGE_LOCK = -1;
	}
}

/// Memory this process holds
unsafe fn resident() -> usize {
	let mut b = [0u8; 128];
	let fd = open(b"/proc/self/statm\0".as_ptr(), 0o2000000);
	if fd < 0 {
		return 0;
	}
	let n = read(fd, b.as_mut_ptr(), b.len());
	close(fd);
	let mut field = 0;
	let mut pages = 0;
	for i in 0..n.max(0) as usize {
		match b[i] {
			b' ' if field == 1 => break,
			b' ' => field += 1,
			c if field == 1 => pages = pages * 10 + (c - b'0') as usize,
			_ => {}
		}
	}
	pages * PAGE
}

/// Whether a large buffer holds memory after skipping over it and growing: in a process of its
/// own, as it may do anything
unsafe fn heavy() -> bool {
	let pid = fork();
	if pid == 0 {
		alarm(30);
		REFUSE.store(0, SeqCst);
		let before = resident();
		let r = std::panic::catch_unwind(|| {
			use ser_raw::storage::{AlignedVec, Storage};
			track(64);
			let mut s: AlignedVec<64, 64, 8, { ser_raw::util::aligned_max_capacity(64) }> = AlignedVec::new();
			s.push(&1u64);
			s.push_empty_slice::<u8>(600 << 20);
			s.reserve(600 << 20);
			resident()
		});
		_exit(match r {
			Ok(after) if after > before + (300 << 20) => 1,
			_ => 0,
		});
	}
	let mut status = 0;
	pid > 0 && waitpid(pid, &mut status, 0) == pid && status == 1 << 8
}

unsafe fn weigh() {
	if !FILLED.load(Relaxed) && !HEAVY.load(Relaxed) && resident() > 2 << 30 {
		HEAVY.store(true, Relaxed);
	}
}

unsafe fn map(len: usize) -> *mut u8 {
	// PROT_READ|WRITE, MAP_PRIVATE|ANON|NORESERVE
	let m = mmap(ptr::null_mut(), len, 3, 0x2 | 0x20 | 0x4000, -1, 0);
	if m != FAILED && FILLED.load(Relaxed) {
		// MADV_HUGEPAGE
		madvise(m, len, 14);
	}
	m
}

/// Shared file mapping where a worker notes the case it is in.
pub fn map_status(path: &str) -> *mut u64 {
	let mut p = path.as_bytes().to_vec();
	p.push(0);
	unsafe {
		let fd = open(p.as_ptr(), 0o102 | 0o1000, 0o644);
		assert!(fd >= 0);
		assert!(ftruncate(fd, 8) == 0);
		let m = mmap(ptr::null_mut(), 8, 3, 1, fd, 0);
		assert!(m != FAILED);
		close(fd);
		m as *mut u64
	}
}

unsafe fn slot_base(i: usize) -> usize {
	ARENA + i * SLOT_SIZE
}

unsafe fn slot_ptr(i: usize, align: usize) -> usize {
	// Aligned to `align` exactly (not to `2 * align`), room for guard before
	let base = slot_base(i) + PAGE;
	let p = (base + align - 1) & !(align - 1);
	let p = p + align * 2 * (OFF % ((24 << 20) / (2 * align)).max(1));
	if p & align == 0 {
		p + align
	} else {
		p
	}
}

unsafe fn slot_of(p: usize) -> Option<usize> {
	if ARENA != 0 && p >= ARENA && p < ARENA + SLOTS * SLOT_SIZE {
		Some((p - ARENA) / SLOT_SIZE)
	} else {
		None
	}
}

unsafe fn arm_slot(i: usize, p: usize, size: usize, align: usize) {
	SLOT[i] = Slot {
		used: true,
		ptr: p,
		size,
		align,
	};
	ptr::write_bytes((p - 256) as *mut u8, FRONT_BYTE, 256);
	ptr::write_bytes((p + size) as *mut u8, BACK_BYTE, 1024);
}

unsafe fn all_are(p: usize, n: usize, b: u8) -> bool {
	std::slice::from_raw_parts(p as *const u8, n)
		.iter()
		.all(|&x| x == b)
}

unsafe fn check_slot(i: usize) {
	let s = SLOT[i];
	if !all_are(s.ptr - 256, 256, FRONT_BYTE) {
		violation(format_args!(
			"bytes before storage buffer (size {}) overwritten",
			s.size
		));
	}
	if !all_are(s.ptr + s.size, 1024, BACK_BYTE) {
		violation(format_args!(
			"bytes after storage buffer (size {}) overwritten",
			s.size
		));
	}
}

/// Check guard bytes of all tracked blocks in use.
pub fn check_guards() {
	let _g = lock();
	unsafe {
		for i in 0..SLOTS {
			if SLOT[i].used {
				check_slot(i);
			}
		}
	}
}

/// Size of tracked block starting at this address, if there is one.
pub fn tracked_size(p: usize) -> Option<usize> {
	let _g = lock();
	unsafe {
		for i in 0..SLOTS {
			if SLOT[i].used && SLOT[i].ptr == p {
				return Some(SLOT[i].size);
			}
		}
		for h in HUGE.iter() {
			if h.used && h.ptr == p {
				return Some(h.size);
			}
		}
	}
	None
}

unsafe fn next_plan() -> u8 {
	let r = PLAN[PLAN_I % 16];
	PLAN_I += 1;
	r
}

unsafe fn arena_alloc(size: usize, align: usize) -> *mut u8 {
	let _g = lock();
	if ARENA == 0 {
		let m = map(SLOTS * SLOT_SIZE);
		if m == FAILED {
			return ptr::null_mut();
		}
		ARENA = m as usize;
	}
	if size > SLOT_MAX {
		return huge_alloc(size, align);
	}
	// Initial placement in the middle, so there's room to move both ways
	for i in [4usize, 3, 5, 2, 6, 1, 7, 0] {
		if !SLOT[i].used {
			let p = slot_ptr(i, align);
			arm_slot(i, p, size, align);
			ptr::write_bytes(p as *mut u8, FRESH_BYTE, size.min(1 << 16));
			STATS.allocs += 1;
			STATS.live += 1;
			return p as *mut u8;
		}
	}
	ptr::null_mut()
}

/// Mapping whose second page has this alignment
unsafe fn map_huge(size: usize, align: usize) -> *mut u8 {
	if align <= PAGE {
		return map(size);
	}
	let m = map(size + align);
	if m == FAILED {
		return m;
	}
	let m = m as usize;
	let start = ((m + PAGE + align - 1) & !(align - 1)) - PAGE;
	if start > m {
		munmap(m as *mut u8, start - m);
	}
	munmap((start + size) as *mut u8, m + align - start);
	start as *mut u8
}

unsafe fn huge_alloc(size: usize, align: usize) -> *mut u8 {
	if size > HUGE_MAX || align > MAX_ALIGN {
		return ptr::null_mut();
	}
	for h in HUGE.iter_mut() {
		if !h.used {
			let map_size = (size + 3 * PAGE) & !(PAGE - 1);
			let m = map_huge(map_size, align);
			if m == FAILED {
				return ptr::null_mut();
			}
			huge_enter();
			*h = Huge {
				used: true,
				map: m as usize,
				map_size,
				ptr: m as usize + PAGE,
				size,
				align,
			};
			STATS.allocs += 1;
			STATS.live += 1;
			return h.ptr as *mut u8;
		}
	}
	ptr::null_mut()
}

unsafe fn arena_dealloc(p: *mut u8, size: usize, align: usize, i: usize) {
	let _g = lock();
	let s = SLOT[i];
	if !s.used || s.ptr != p as usize {
		violation(format_args!(
			"release of storage memory which is not allocated (double free?)"
		));
		return;
	}
	check_layout("release", s.size, s.align, size, align);
	check_slot(i);
	ptr::write_bytes(p, FREED_BYTE, s.size);
	SLOT[i].used = false;
	STATS.deallocs += 1;
	STATS.live -= 1;
}

fn check_layout(what: &str, size: usize, align: usize, size2: usize, align2: usize) {
	if size != size2 || align != align2 {
		violation(format_args!(
			"{} with layout (size {}, align {}) but block has (size {}, align {})",
			what, size2, align2, size, align
		));
	}
}

unsafe fn arena_realloc(p: *mut u8, size: usize, align: usize, new: usize, i: usize) -> *mut u8 {
	let _g = lock();
	let s = SLOT[i];
	if !s.used || s.ptr != p as usize {
		violation(format_args!(
			"resize of storage memory which is not allocated"
		));
		return ptr::null_mut();
	}
	check_layout("resize", s.size, s.align, size, align);
	check_slot(i);
	STATS.reallocs += 1;
	if new > SLOT_MAX {
		let q = huge_alloc(new, s.align);
		if !q.is_null() {
			STATS.allocs -= 1;
			STATS.live -= 1;
			ptr::copy_nonoverlapping(p, q, s.size);
			ptr::write_bytes(p, FREED_BYTE, s.size);
			SLOT[i].used = false;
		}
		return q;
	}
	let action = next_plan();
	let target = match action {
		0 => i,
		1 => (i + 1..SLOTS)
			.find(|&k| !SLOT[k].used)
			.or_else(|| (0..i).find(|&k| !SLOT[k].used))
			.unwrap_or(i),
		2 => (0..i)
			.rev()
			.find(|&k| !SLOT[k].used)
			.or_else(|| (i + 1..SLOTS).rev().find(|&k| !SLOT[k].used))
			.unwrap_or(i),
		_ => {
			if PREV_SLOT < SLOTS && PREV_SLOT != i && !SLOT[PREV_SLOT].used {
				STATS.moves_back += 1;
				PREV_SLOT
			} else {
				(0..SLOTS).find(|&k| !SLOT[k].used).unwrap_or(i)
			}
		}
	};
	if target == i {
		STATS.stays += 1;
		if new > s.size {
			ptr::write_bytes(p.add(s.size), FRESH_BYTE, (new - s.size).min(1 << 16));
		}
		arm_slot(i, s.ptr, new, s.align);
		return p;
	}
	if target > i {
		STATS.moves_up += 1;
	} else {
		STATS.moves_down += 1;
	}
	PREV_SLOT = i;
	let q = slot_ptr(target, s.align);
	arm_slot(target, q, new, s.align);
	ptr::write_bytes(q as *mut u8, FRESH_BYTE, new.min(1 << 16));
	ptr::copy_nonoverlapping(p, q as *mut u8, s.size.min(new));
	ptr::write_bytes(p, FREED_BYTE, s.size);
	SLOT[i].used = false;
	q as *mut u8
}

unsafe fn huge_of(p: usize) -> Option<usize> {
	(0..HUGE.len()).find(|&i| HUGE[i].used && p >= HUGE[i].map && p < HUGE[i].map + HUGE[i].map_size)
}

unsafe fn huge_dealloc(i: usize, size: usize, align: usize) {
	let _g = lock();
	let h = HUGE[i];
	check_layout("release", h.size, h.align, size, align);
	weigh();
	munmap(h.map as *mut u8, h.map_size);
	HUGE[i].used = false;
	huge_leave();
	STATS.deallocs += 1;
	STATS.live -= 1;
}

unsafe fn huge_realloc(i: usize, size: usize, align: usize, new: usize) -> *mut u8 {
	let _g = lock();
	let h = HUGE[i];
	check_layout("resize", h.size, h.align, size, align);
	STATS.reallocs += 1;
	if new > HUGE_MAX {
		return ptr::null_mut();
	}
	let map_size = (new + 3 * PAGE) & !(PAGE - 1);
	let dest = map_huge(map_size, h.align);
	if dest == FAILED {
		return ptr::null_mut();
	}
	// MREMAP_MAYMOVE | MREMAP_FIXED: always moves
	let m = mremap(h.map as *mut u8, h.map_size, map_size, 3, dest);
	if m == FAILED {
		return ptr::null_mut();
	}
	if m as usize > h.map {
		STATS.moves_up += 1;
	} else {
		STATS.moves_down += 1;
	}
	HUGE[i] = Huge {
		used: true,
		map: m as usize,
		map_size,
		ptr: m as usize + PAGE,
		size: new,
		align: h.align,
	};
	HUGE[i].ptr as *mut u8
}

// ---- general blocks -------------------------------------------------------

unsafe fn general_alloc(size: usize, align: usize) -> *mut u8 {
	if size > (4 << 30) {
		return ptr::null_mut();
	}
	let raw_size = HDR + FRONT + 2 * align.max(16) + size + BACK;
	let raw = System.alloc(Layout::from_size_align_unchecked(raw_size, 16));
	if raw.is_null() {
		return raw;
	}
	let mut p = (raw as usize + HDR + FRONT + align - 1) & !(align - 1);
	if p & align == 0 && align >= 8 {
		p += align;
	}
	let hdr = (p - FRONT - HDR) as *mut Hdr;
	let hdr = ((hdr as usize) & !7) as *mut Hdr;
	hdr.write(Hdr {
		magic: MAGIC,
		size,
		align,
		raw,
		raw_size,
	});
	ptr::write_bytes((p - FRONT + 8) as *mut u8, FRONT_BYTE, FRONT - 8);
	ptr::write_bytes(p as *mut u8, FRESH_BYTE, size.min(1 << 12));
	ptr::write_bytes((p + size) as *mut u8, BACK_BYTE, BACK.min(raw as usize + raw_size - p - size));
	LIVE.fetch_add(1, Relaxed);
	LIVE_BYTES.fetch_add(size as isize, Relaxed);
	p as *mut u8
}

unsafe fn hdr_of(p: usize) -> *mut Hdr {
	((p - FRONT - HDR) & !7) as *mut Hdr
}

unsafe fn check_general(what: &str, p: usize, size: usize, align: usize) -> Option<*mut Hdr> {
	let hdr = hdr_of(p);
	let h = &*hdr;
	if h.magic != MAGIC {
		violation(format_args!(
			"{} of memory which is not allocated ({}, size {}, align {})",
			what,
			if h.magic == FREED { "double free" } else { "bad address" },
			size,
			align
		));
		return None;
	}
	check_layout(what, h.size, h.align, size, align);
	if !all_are(p - FRONT + 8, FRONT - 8, FRONT_BYTE) {
		violation(format_args!("bytes before block of size {} overwritten", h.size));
	}
	if !all_are(p + h.size, BACK.min(h.raw as usize + h.raw_size - p - h.size), BACK_BYTE) {
		violation(format_args!("bytes after block of size {} overwritten", h.size));
	}
	Some(hdr)
}

unsafe fn general_dealloc(p: usize, size: usize, align: usize) {
	if let Some(hdr) = check_general("release", p, size, align) {
		let h = hdr.read();
		(*hdr).magic = FREED;
		ptr::write_bytes(p as *mut u8, FREED_BYTE, h.size);
		LIVE.fetch_sub(1, Relaxed);
		LIVE_BYTES.fetch_sub(h.size as isize, Relaxed);
		System.dealloc(h.raw, Layout::from_size_align_unchecked(h.raw_size, 16));
	}
}

unsafe impl GlobalAlloc for GuardAlloc {
	unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
		let (size, align) = (layout.size(), layout.align());
		if size == 0 {
			violation(format_args!("allocation of zero bytes"));
		}
		let t = TRACK.try_with(|t| t.get()).unwrap_or(0);
		if t != 0 && t == align && refuse() {
			return ptr::null_mut();
		}
		if t != 0 && (t == align || size > SLOT_MAX) {
			let p = arena_alloc(size, align);
			if !p.is_null() {
				LIVE.fetch_add(1, Relaxed);
				LIVE_BYTES.fetch_add(size as isize, Relaxed);
				return p;
			}
		}
		general_alloc(size, align)
	}

	unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
		let p = self.alloc(layout);
		if p.is_null() || huge_of(p as usize).is_some() {
			// Blocks of many GiB are new from the system, where memory is zero
			return p;
		}
		let n = layout.size();
		let (a, b) = ((p as usize + PAGE - 1) & !(PAGE - 1), (p as usize + n) & !(PAGE - 1));
		if n > 1 << 20 && slot_of(p as usize).is_some() {
			ptr::write_bytes(p, 0, a - p as usize);
			// MADV_DONTNEED
			madvise(a as *mut u8, b - a, 4);
			ptr::write_bytes(b as *mut u8, 0, p as usize + n - b);
		} else {
			ptr::write_bytes(p, 0, n);
		}
		p
	}

	unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
		let (size, align) = (layout.size(), layout.align());
		let a = p as usize;
		if let Some(i) = slot_of(a) {
			arena_dealloc(p, size, align, i);
			LIVE.fetch_sub(1, Relaxed);
			LIVE_BYTES.fetch_sub(size as isize, Relaxed);
		} else if let Some(i) = huge_of(a) {
			huge_dealloc(i, size, align);
			LIVE.fetch_sub(1, Relaxed);
			LIVE_BYTES.fetch_sub(size as isize, Relaxed);
		} else {
			general_dealloc(a, size, align);
		}
	}

	unsafe fn realloc(&self, p: *mut u8, layout: Layout, new: usize) -> *mut u8 {
		let (size, align) = (layout.size(), layout.align());
		if new == 0 {
			violation(format_args!("resize to zero bytes"));
		}
		let a = p as usize;
		if TRACK.try_with(|t| t.get()).unwrap_or(0) == align && refuse() {
			return ptr::null_mut();
		}
		if let Some(i) = slot_of(a) {
			let q = arena_realloc(p, size, align, new, i);
			if !q.is_null() {
				LIVE_BYTES.fetch_add(new as isize - size as isize, Relaxed);
			}
			q
		} else if let Some(i) = huge_of(a) {
			let q = huge_realloc(i, size, align, new);
			if !q.is_null() {
				LIVE_BYTES.fetch_add(new as isize - size as isize, Relaxed);
			}
			q
		} else {
			let real = match check_general("resize", a, size, align) {
				Some(h) => ((*h).size, (*h).align),
				None => return ptr::null_mut(),
			};
			let q = general_alloc(new, real.1);
			if q.is_null() {
				return q;
			}
			ptr::copy_nonoverlapping(p, q, real.0.min(new));
			general_dealloc(a, real.0, real.1);
			q
		}
	}
}

/// Whether address space for buffers of many GiB can be had
pub fn can_huge() -> bool {
	use std::sync::atomic::AtomicU8;
	if HEAVY.load(Relaxed) {
		return false;
	}
	static C: AtomicU8 = AtomicU8::new(0);
	match C.load(Relaxed) {
		1 => true,
		2 => false,
		_ => unsafe {
			let n = 3 * HUGE_MAX;
			let m = map(n);
			let ok = m != FAILED;
			if ok {
				munmap(m, n);
			}
			let ok = ok && !heavy();
			C.store(if ok { 1 } else { 2 }, Relaxed);
			ok
		},
	}
}

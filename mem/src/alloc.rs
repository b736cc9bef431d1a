//! Stands in for the checking allocator of the other harness: here the
//! interpreter or sanitizer watches memory.

use std::{
	fs::File,
	io::{Seek, SeekFrom, Write},
	sync::Mutex,
};

static STATUS: Mutex<Option<(File, u64, u64)>> = Mutex::new(None);

pub fn track(_align: usize) -> usize {
	0
}

/// Which case is being run goes to a file, as it may be the last
pub fn case_begin() {
	let mut g = STATUS.lock().unwrap();
	if let Some((f, next, step)) = &mut *g {
		f.seek(SeekFrom::Start(0)).unwrap();
		f.write_all(&next.to_le_bytes()).unwrap();
		*next += *step;
	}
}

pub fn case_end() {}

pub fn map_status(path: &str) -> *mut u64 {
	let a: Vec<String> = std::env::args().collect();
	*STATUS.lock().unwrap() = Some((File::create(path).unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap()));
	Box::leak(Box::new(0))
}

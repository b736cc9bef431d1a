//! What generated programs (C12, C13, C15) need besides generated code.

use std::{
	any::type_name,
	cell::{Cell, RefCell},
	marker::PhantomData,
};

use ser_raw::{Serialize, Serializer};

use crate::{
	engine::{hash_bytes, Src},
	model::{Fuel, Model, Walk},
};

/// Uses type and lifetime parameters
pub struct Mark<T: ?Sized>(pub PhantomData<fn() -> *const T>);

impl<T: ?Sized, S: Serializer> Serialize<S> for Mark<T> {
	fn serialize_data(&self, _s: &mut S) {}
}

impl<T: ?Sized + 'static> Model for Mark<T> {
	fn walk(&self, _w: &mut Walk) {}
	fn gen(_s: &mut Src, _f: &mut Fuel) -> Self {
		Mark(PhantomData)
	}
	fn show(&self, o: &mut String) {
		o.push('#');
	}
}

/// Bounds for `#[ser_bound]` which every serializer meets
pub trait AnySer {}
impl<S: Serializer> AnySer for S {}
pub trait AnySerOf<T> {}
impl<T, S: Serializer> AnySerOf<T> for S {}

// ---- log of who serialized what -------------------------------------------

type Log = Vec<(&'static str, u64)>;

thread_local! {
	static LOG: RefCell<Log> = RefCell::new(Vec::new());
	static WANT: RefCell<Log> = RefCell::new(Vec::new());
	static WANTING: Cell<bool> = const { Cell::new(false) };
}

pub fn note(tag: &'static str, id: u64) {
	LOG.with(|l| l.borrow_mut().push((tag, id)));
}

pub fn take_log() -> Log {
	LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// Walks made by `f` say what log to expect
pub fn wanting<R>(f: impl FnOnce() -> R) -> (R, Log) {
	WANT.with(|l| l.borrow_mut().clear());
	WANTING.with(|w| w.set(true));
	let r = f();
	WANTING.with(|w| w.set(false));
	(r, WANT.with(|l| std::mem::take(&mut *l.borrow_mut())))
}

fn want(tag: &'static str, id: impl FnOnce() -> u64) {
	if WANTING.with(|w| w.get()) {
		let id = id();
		WANT.with(|l| l.borrow_mut().push((tag, id)));
	}
}

pub fn id<T: Model>(v: &T) -> u64 {
	let mut o = String::new();
	v.show(&mut o);
	hash_bytes(o.as_bytes(), 0xcbf29ce484222325)
}

// ---- proxies --------------------------------------------------------------

/// How proxies serialize a type. Differs from the type's own implementation,
/// where it has one.
pub trait Via: Model {
	fn via<S: Serializer>(&self, s: &mut S);
	fn via_walk(&self, w: &mut Walk) {
		self.walk(w);
	}
}

/// Has its own implementation
pub struct Tok {
	pub id: u32,
	pub a: Vec<u16>,
	pub b: Box<u8>,
}

impl<S: Serializer> Serialize<S> for Tok {
	fn serialize_data(&self, s: &mut S) {
		note("own", id(self));
		self.a.serialize_data(s);
		self.b.serialize_data(s);
	}
}

impl Model for Tok {
	fn walk(&self, w: &mut Walk) {
		want("own", || id(self));
		w.leaf(&self.id);
		self.a.walk(w);
		self.b.walk(w);
	}
	fn gen(s: &mut Src, f: &mut Fuel) -> Self {
		Tok {
			id: u32::gen(s, f),
			a: Vec::gen(s, f),
			b: Box::gen(s, f),
		}
	}
	fn show(&self, o: &mut String) {
		o.push_str("Tok");
		self.id.show(o);
		self.a.show(o);
		self.b.show(o);
	}
}

impl Via for Tok {
	fn via<S: Serializer>(&self, s: &mut S) {
		self.b.serialize_data(s);
		self.a.serialize_data(s);
	}
	fn via_walk(&self, w: &mut Walk) {
		w.leaf(&self.id);
		self.b.walk(w);
		self.a.walk(w);
	}
}

/// Has no implementation
pub struct Foreign {
	pub x: Box<u64>,
	pub s: String,
	pub id: u16,
}

impl Model for Foreign {
	fn walk(&self, w: &mut Walk) {
		w.leaf(&self.id);
		self.x.walk(w);
		self.s.walk(w);
	}
	fn gen(s: &mut Src, f: &mut Fuel) -> Self {
		Foreign {
			x: Box::gen(s, f),
			s: String::gen(s, f),
			id: u16::gen(s, f),
		}
	}
	fn show(&self, o: &mut String) {
		o.push_str("Foreign");
		self.id.show(o);
		self.x.show(o);
		self.s.show(o);
	}
}

impl Via for Foreign {
	fn via<S: Serializer>(&self, s: &mut S) {
		self.x.serialize_data(s);
		self.s.serialize_data(s);
	}
}

/// Has no implementation and owns nothing
pub struct Plain(pub u32);

impl Model for Plain {
	fn walk(&self, w: &mut Walk) {
		w.leaf(&self.0);
	}
	fn gen(s: &mut Src, f: &mut Fuel) -> Self {
		Plain(u32::gen(s, f))
	}
	fn show(&self, o: &mut String) {
		o.push_str("Plain");
		self.0.show(o);
	}
}

impl Via for Plain {
	fn via<S: Serializer>(&self, _s: &mut S) {}
}

/// Via own implementation
macro_rules! via_own {
	($($t:ty),*) => { $(
		impl Via for $t {
			fn via<S: Serializer>(&self, s: &mut S) {
				Serialize::<S>::serialize_data(self, s);
			}
		}
	)* };
}
via_own!(u8, u64, char, String, Vec<u8>, Vec<String>, Box<u32>, Vec<Tok>, Box<Tok>, Box<String>);

impl<T: Via> Via for Option<T> {
	fn via<S: Serializer>(&self, s: &mut S) {
		if let Some(v) = self {
			v.via(s);
		}
	}
	fn via_walk(&self, w: &mut Walk) {
		w.disc(self);
		if let Some(v) = self {
			v.via_walk(w);
		}
	}
}
impl<T: Via, const N: usize> Via for [T; N] {
	fn via<S: Serializer>(&self, s: &mut S) {
		for v in self {
			v.via(s);
		}
	}
	fn via_walk(&self, w: &mut Walk) {
		for v in self {
			v.via_walk(w);
		}
	}
}
impl<A: Via, B: Via> Via for (A, B) {
	fn via<S: Serializer>(&self, s: &mut S) {
		self.0.via(s);
		self.1.via(s);
	}
	fn via_walk(&self, w: &mut Walk) {
		self.0.via_walk(w);
		self.1.via_walk(w);
	}
}

/// Make a type a proxy for everything there are proxies for
#[macro_export]
macro_rules! proxy {
	([$($g:tt)*] $t:ty) => {
		impl<$($g)* Zf: $crate::gen::Via, Zs: ::ser_raw::Serializer> ::ser_raw::SerializeWith<Zf, Zs> for $t {
			fn serialize_data_with(v: &Zf, s: &mut Zs) {
				$crate::gen::note(::std::any::type_name::<$t>(), $crate::gen::id(v));
				$crate::gen::Via::via(v, s);
			}
		}
	};
}

pub struct LibProxy;
proxy!([] LibProxy);
pub struct Generic<T: ?Sized>(PhantomData<T>);
proxy!([T: ?Sized,] Generic<T>);
pub struct Counted<const N: usize>;
proxy!([const N: usize,] Counted<N>);
pub trait HasProxy {
	type Proxy;
}
impl HasProxy for u8 {
	type Proxy = Generic<i8>;
}
impl HasProxy for Tok {
	type Proxy = LibProxy;
}

/// Walk of a field tagged with proxy `P`
pub fn tagged<P: ?Sized, T: Via>(v: &T, w: &mut Walk) {
	want(type_name::<P>(), || id(v));
	v.via_walk(w);
}

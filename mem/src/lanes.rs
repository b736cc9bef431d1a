//! Sessions which go on in one thread after another, several at once (C28)

use super::*;

/// Run steps from one to before another
fn part<S: Serializer>(ser: &mut S, steps: &[Step], from: usize, to: usize, at: &mut Placed)
where Node: Serialize<S> {
	at.extend(run(ser, &steps[from..to]).into_iter().map(|(i, pos)| (from + i, pos)));
}

/// A session under way
trait Lane: Send {
	fn hop(&mut self, steps: &[Step], from: usize, to: usize);
	/// Session's end; storage is what's looked at from then on
	fn end(self: Box<Self>) -> Box<dyn Output>;
}

/// Storage after a session. Borrowed ones stay so.
trait Output: Send + Sync {
	/// Look at all of it, without changing anything
	fn look(&self, steps: &[Step], at: &Placed) -> Result<usize, String>;
	fn finish(&mut self, steps: &[Step], at: &Placed) -> Result<Done, String>;
}

struct Out<B, S> {
	st: B,
	kind: Kind,
	_s: std::marker::PhantomData<S>,
}

impl<B, S> Output for Out<B, S>
where
	S: Storage + ContiguousStorage + RandomAccessStorage + Send + Sync,
	B: std::borrow::BorrowMut<S> + Send + Sync,
{
	fn look(&self, steps: &[Step], at: &Placed) -> Result<usize, String> {
		let st: &S = self.st.borrow();
		check(steps, at, st.as_ptr(), st.pos(), self.kind)
	}

	fn finish(&mut self, steps: &[Step], at: &Placed) -> Result<Done, String> {
		finish(self.st.borrow_mut(), steps, at, self.kind)
	}
}

struct On<S: Serializer> {
	ser: S,
	at: std::sync::Arc<std::sync::Mutex<Placed>>,
	kind: Kind,
}

impl<S> Lane for On<S>
where
	S: Serializer + Send,
	S::Storage: ContiguousStorage + RandomAccessStorage + Send + Sync + 'static,
	S::BorrowedStorage: Send + Sync + 'static,
	Node: Serialize<S>,
{
	fn hop(&mut self, steps: &[Step], from: usize, to: usize) {
		part(&mut self.ser, steps, from, to, &mut self.at.lock().unwrap());
	}

	fn end(self: Box<Self>) -> Box<dyn Output> {
		Box::new(Out {
			st: self.ser.finalize(),
			kind: self.kind,
			_s: std::marker::PhantomData::<S::Storage>,
		})
	}
}

type At = std::sync::Arc<std::sync::Mutex<Placed>>;

fn lane(s: &mut Src, at: At, names: &mut Vec<&'static str>) -> Box<dyn Lane> {
	fn on<S>(ser: S, at: At, kind: Kind) -> Box<dyn Lane>
	where
		S: Serializer + Send + 'static,
		S::Storage: ContiguousStorage + RandomAccessStorage + Send + Sync + 'static,
		S::BorrowedStorage: Send + Sync + 'static,
		Node: Serialize<S>,
	{
		Box::new(On { ser, at, kind })
	}
	let cap = 16 * s.range(0, 40);
	let k = s.below(8);
	names.push(["complete", "complete, sized", "offset", "pure", "boxed complete", "derived complete", "derived tracking", "offset, used"][k as usize]);
	match k {
		0 => on(CompleteSerializer::<16, 16, 8, MAX, _>::new(), at, Kind::Complete),
		1 => on(CompleteSerializer::<64, 16, 4, MAX, _>::with_capacity(cap), at, Kind::Complete),
		2 => on(PtrOffsetSerializer::<16, 16, 1, MAX, _>::new(), at, Kind::Offset),
		3 => on(PureCopySerializer::<16, 16, 16, MAX, _>::with_capacity(cap), at, Kind::Pure),
		4 => {
			let st = Box::new(AlignedVec::<16, 16, 8, MAX>::with_capacity(cap.max(16)));
			on(CompleteSerializer::from_storage(st), at, Kind::Complete)
		}
		5 => on(
			Own {
				storage: AlignedVec::new(),
				x: 7u8,
				mapping: PosMapping::dummy(),
				ptrs: Ptrs::new(),
			},
			at,
			Kind::Complete,
		),
		6 => on(
			Track {
				storage: AlignedVec::new(),
				mapping: PosMapping::dummy(),
			},
			at,
			Kind::Pure,
		),
		_ => {
			let mut st = AlignedVec::<32, 32, 8, MAX>::new();
			for i in 0..s.range(1, 20) {
				st.push(&(i as u64));
			}
			on(PtrOffsetSerializer::from_storage(st), at, Kind::Offset)
		}
	}
}

type Task<'a> = Box<dyn FnOnce() + Send + 'a>;
type Answer<R> = std::sync::mpsc::Receiver<R>;

/// Threads which do what they are told
struct Pool<'a>(Vec<std::sync::mpsc::Sender<Task<'a>>>);

impl<'a> Pool<'a> {
	fn new<'scope>(sc: &'scope std::thread::Scope<'scope, 'a>, n: usize) -> Self
	where 'a: 'scope {
		Pool(
			(0..n)
				.map(|_| {
					let (tx, rx) = std::sync::mpsc::channel::<Task<'a>>();
					sc.spawn(move || {
						while let Ok(f) = rx.recv() {
							f();
						}
					});
					tx
				})
				.collect(),
		)
	}

	fn ask<R: Send + 'a>(&self, who: usize, f: impl FnOnce() -> R + Send + 'a) -> Answer<R> {
		let (tx, rx) = std::sync::mpsc::channel();
		let task: Task<'a> = Box::new(move || {
			if let Ok(r) = catching(f) {
				let _ = tx.send(r);
			}
		});
		self.0[who % self.0.len()].send(task).unwrap();
		rx
	}
}

fn get<R>(a: Answer<R>) -> Result<R, String> {
	a.recv().map_err(|_| "panicked on a thread".to_string())
}

pub fn case(s: &mut Src, ctx: &mut Ctx) -> PropResult {
	let mut steps = gen_steps(s);
	steps.push(Step::Value(Node::gen(s, &mut Fuel(12))));
	let n = s.range(1, 3);
	let mut names = vec![];
	let mut ats = vec![];
	let mut lanes: Vec<Box<dyn Lane>> = vec![];
	// Where each session goes on in another thread, and which
	let mut cuts: Vec<Vec<usize>> = vec![];
	let mut who: Vec<Vec<usize>> = vec![];
	let threads = s.range(1, 3);
	for _ in 0..n {
		let at = At::default();
		ats.push(at.clone());
		lanes.push(lane(s, at, &mut names));
		let mut c: Vec<usize> = (0..s.range(0, 3)).map(|_| s.usize_below(steps.len() + 1)).collect();
		c.sort();
		c.insert(0, 0);
		c.push(steps.len());
		// (one more than there are is this one)
		who.push((0..c.len() + 2).map(|_| s.usize_below(threads + 1)).collect());
		cuts.push(c);
	}
	ctx.label(&format!("{} at once", n));
	for x in &names {
		ctx.label(x);
	}
	ctx.sample(|| format!("{} sessions: {:?} cut at {:?}, on threads {:?}: {}", n, names, cuts, who, show(&steps)));
	let steps = &steps;
	let ats = &ats;
	let rounds = cuts.iter().map(|c| c.len() - 1).max().unwrap();
	let (mut leaves, mut len) = (0, 0);
	std::thread::scope(|sc| {
		let pool = Pool::new(sc, threads);
		for round in 0..rounds {
			let mut next: Vec<Result<Box<dyn Lane>, Answer<Box<dyn Lane>>>> = vec![];
			let mut mine = vec![];
			for (i, mut x) in lanes.drain(..).enumerate() {
				if round + 1 >= cuts[i].len() {
					next.push(Ok(x));
					continue;
				}
				let (from, to) = (cuts[i][round], cuts[i][round + 1]);
				if who[i][round] == threads {
					mine.push((i, from, to));
					next.push(Ok(x));
				} else {
					next.push(Err(pool.ask(who[i][round], move || {
						x.hop(steps, from, to);
						x
					})));
				}
			}
			// This thread's part, while others do theirs
			for (i, from, to) in mine {
				if let Ok(x) = &mut next[i] {
					x.hop(steps, from, to);
				}
			}
			for x in next {
				lanes.push(match x {
					Ok(x) => x,
					Err(a) => get(a)?,
				});
			}
		}
		for (i, l) in lanes.into_iter().enumerate() {
			let w = &who[i][cuts[i].len()..];
			// Ends in one thread, is read in several, changed and dropped in another
			let out = std::sync::Arc::new(get(pool.ask(w[0], move || l.end()))?);
			let reads: Vec<_> = (0..threads)
				.map(|t| {
					let out = out.clone();
					pool.ask(t, move || {
						let r = out.look(steps, &ats[i].lock().unwrap().clone());
						drop(out);
						r
					})
				})
				.collect();
			let at = ats[i].lock().unwrap().clone();
			out.look(steps, &at)?;
			for r in reads {
				get(r)??;
			}
			let mut out = std::sync::Arc::try_unwrap(out).map_err(|_| "in use".to_string())?;
			let d = get(pool.ask(w[1], move || {
				let d = out.finish(steps, &at);
				drop(out);
				d
			}))??;
			leaves += d.leaves;
			len += d.len;
		}
		Ok::<(), String>(())
	})?;
	ctx.nontrivial = leaves > 0 && len > 0 && (n > 1 || rounds > 1) && steps.iter().any(|x| matches!(x, Step::Value(v) if v.owns()));
	Ok(())
}

//! K02: several threads on clones of one shared subscription or one shared subscriber.
use super::thread::orders;
use crate::engine::{Fail, Res, Run, Scenario};
use rx_core::prelude::*;
use std::mc;
use std::real::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Do {
	Next,
	Error,
	Complete,
	Unsub,
	Ask,
	Add,
	/// Drops this thread's clone.
	Drop,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Sig {
	N(i32),
	E(i32),
	C,
	U,
}
use Sig::*;
#[derive(Default)]
struct Seen {
	log: Vec<Sig>,
	late: Option<Sig>,
	tears: Vec<u32>,
}
type Shared = Arc<Mutex<Seen>>;
struct Dest {
	seen: Shared,
	td: SubscriptionData,
	/// Stays open after a terminal signal.
	open: bool,
	done: bool,
}
impl Dest {
	fn log(&mut self, s: Sig) -> bool {
		let mut g = self.seen.lock().unwrap();
		if self.td.is_closed() || self.done {
			g.late = Some(s);
			return false;
		}
		g.log.push(s);
		self.done = !matches!(s, N(_));
		true
	}
}
impl ObserverInput for Dest {
	type In = i32;
	type InError = i32;
}
impl WithPrimaryCategory for Dest {
	type PrimaryCategory = PrimaryCategorySubscriber;
}
impl ObserverUpgradesToSelf for Dest {}
impl RxObserver for Dest {
	fn next(&mut self, v: i32) {
		self.log(N(v));
	}
	fn error(&mut self, v: i32) {
		if self.log(E(v)) && !self.open {
			self.unsubscribe();
		}
	}
	fn complete(&mut self) {
		if self.log(C) && !self.open {
			self.unsubscribe();
		}
	}
}
impl SubscriptionLike for Dest {
	fn is_closed(&self) -> bool {
		self.td.is_closed()
	}
	fn unsubscribe(&mut self) {
		if !self.td.is_closed() {
			self.seen.lock().unwrap().log.push(U);
			self.td.unsubscribe();
		}
	}
}
impl TeardownCollection for Dest {
	fn add_teardown(&mut self, t: Teardown) {
		self.td.add_teardown(t)
	}
}
impl Drop for Dest {
	fn drop(&mut self) {
		self.unsubscribe();
	}
}
#[derive(Clone)]
enum Sut {
	Subn(SharedSubscription),
	Subr(SharedSubscriber<Dest>),
}
impl Sut {
	fn new(cfg: &Cfg, seen: &Shared) -> Sut {
		if cfg.subscriber {
			Sut::Subr(SharedSubscriber::new(Dest { seen: seen.clone(), td: SubscriptionData::default(), open: cfg.open, done: false }))
		} else {
			Sut::Subn(SharedSubscription::default())
		}
	}
	fn act(&mut self, d: Do, v: i32, seen: &Shared) -> bool {
		let td = || {
			let seen = seen.clone();
			let i = {
				let mut g = seen.lock().unwrap();
				g.tears.push(0);
				g.tears.len() - 1
			};
			Teardown::new(move || seen.lock().unwrap().tears[i] += 1)
		};
		match (self, d) {
			(Sut::Subn(s), Do::Unsub) => s.unsubscribe(),
			(Sut::Subn(s), Do::Ask) => return s.is_closed(),
			(Sut::Subn(s), Do::Add) => s.add_teardown(td()),
			(Sut::Subr(s), Do::Unsub) => s.unsubscribe(),
			(Sut::Subr(s), Do::Ask) => return s.is_closed(),
			(Sut::Subr(s), Do::Add) => s.add_teardown(td()),
			(Sut::Subr(s), Do::Next) => s.next(v),
			(Sut::Subr(s), Do::Error) => s.error(v),
			(Sut::Subr(s), Do::Complete) => s.complete(),
			_ => {}
		}
		false
	}
}
struct Cfg {
	subscriber: bool,
	open: bool,
	threads: usize,
	menu: Vec<Do>,
}
fn val(t: usize, j: usize) -> i32 {
	(t as i32 + 1) * 10 + j as i32
}
fn play(run: &Run, cfg: &Cfg) -> Res {
	let fail = |m: String| Err(Fail { props: vec!["K02"], msg: m, known: None });
	let n = cfg.threads;
	let mut scripts: Vec<Vec<Do>> = vec![];
	for t in 0..n {
		let len = run.depth() / n + (t < run.depth() % n) as usize;
		let mut s: Vec<Do> = vec![];
		for _ in 0..len {
			let en: Vec<Do> = if s.contains(&Do::Drop) { vec![] } else { cfg.menu.clone() };
			if !en.is_empty() {
				s.push(en[mc::choose(en.len())]);
			}
		}
		scripts.push(s);
	}
	run.trace(|| format!("{scripts:?}"));
	let seen = Shared::default();
	let mut sut = Sut::new(cfg, &seen);
	sut.act(Do::Add, 0, &seen);
	let mut tasks = vec![];
	for t in 0..n {
		let (script, mut s, seen) = (scripts[t].clone(), Some(sut.clone()), seen.clone());
		tasks.push(mc::spawn(move || {
			let mut answers = vec![];
			for (j, d) in script.iter().enumerate() {
				if *d == Do::Drop {
					s = None;
				} else {
					let a = s.as_mut().unwrap().act(*d, val(t, j), &seen);
					if *d == Do::Ask {
						answers.push(a);
					}
				}
			}
			(s, answers)
		}));
	}
	let (mut kept, mut answers) = (vec![], vec![]);
	for t in tasks {
		match t.join() {
			Some((s, a)) => {
				kept.push(s);
				answers.push(a);
			}
			None => return fail("a call panicked".into()),
		}
	}
	run.step();
	let (log, tears) = {
		let g = seen.lock().unwrap();
		if let Some(l) = g.late {
			return fail(format!("the destination got {l:?} after its end"));
		}
		(g.log.clone(), g.tears.clone())
	};
	run.trace(|| format!("{log:?} {answers:?} {tears:?}"));
	run.state(&(format!("{scripts:?}{log:?}{answers:?}{tears:?}")));
	let mut ended = false;
	let mut want = None;
	let explained = orders(&mut scripts.iter().map(|s| s.len()).collect(), &mut vec![], &mut |o| {
		let (mut l, mut closed, mut done) = (vec![], false, false);
		let mut said: Vec<Vec<bool>> = vec![vec![]; n];
		let mut pos = vec![0; n];
		for t in o {
			let d = scripts[*t][pos[*t]];
			let v = val(*t, pos[*t]);
			pos[*t] += 1;
			match d {
				Do::Ask => said[*t].push(closed || done),
				Do::Add | Do::Drop => {}
				Do::Unsub => {
					if !closed {
						l.push(U);
					}
					closed = true;
				}
				_ if closed || done => {}
				Do::Next => l.push(N(v)),
				d => {
					l.push(if d == Do::Error { E(v) } else { C });
					done = true;
					if !cfg.open {
						l.push(U);
						closed = true;
					}
				}
			}
		}
		ended = closed;
		let same = said == answers && (!cfg.subscriber || l == log) && tears.iter().all(|t| *t == closed as u32);
		if want.is_none() {
			want = Some((l, said, closed));
		}
		same
	});
	if !explained {
		return fail(format!("no sequential order explains that the destination saw {log:?}, the answers were {answers:?} and the teardowns ran {tears:?} times (such as {want:?})"));
	}
	drop(kept);
	drop(sut);
	let g = seen.lock().unwrap();
	if g.tears.iter().any(|t| *t != 1) {
		return fail(format!("the teardowns ran {:?} times when everything was dropped", g.tears));
	}
	Ok(())
}
pub fn scenarios(th: bool) -> Vec<Scenario> {
	use Do::*;
	let mut v = vec![];
	let mut add = |name: &str, subscriber: bool, open: bool, menu: Vec<Do>, threads: usize, depth: usize, bound: u32| {
		let cfg = Cfg { subscriber, open, threads, menu };
		v.push(Scenario::new(name.to_string(), &["K02"], depth, move |run| play(run, &cfg)).threads(bound + th as u32).split(4));
	};
	let subn = vec![Unsub, Ask, Add, Drop];
	let subr = vec![Next, Error, Complete, Unsub, Ask, Add, Drop];
	add("2 threads, 4 calls on a shared subscription", false, false, subn.clone(), 2, 4, 3);
	add("3 threads, 3 calls on a shared subscription", false, false, subn.clone(), 3, 3, 2);
	add("3 threads, 5 calls on a shared subscription", false, false, subn.clone(), 3, 5, 1);
	add("2 threads, 3 calls on a shared subscriber", true, false, subr.clone(), 2, 3, 3);
	add("2 threads, 3 calls on a shared subscriber that stays open", true, true, subr.clone(), 2, 3, 2);
	add("2 threads, 4 calls on a shared subscriber", true, false, subr.clone(), 2, 4, 2);
	add("3 threads, 3 calls on a shared subscriber", true, false, subr.clone(), 3, 3, 2);
	v
}

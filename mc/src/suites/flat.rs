//! Flattening, catch, retry and multi-source pipe operators (O03, O04, O05).
use super::rig::*;
use crate::engine::Scenario;
use rx_core::prelude::*;
use std::collections::VecDeque;
use std::real::sync::Arc;

#[derive(Clone, Copy, PartialEq)]
pub enum Flat {
	Merge(usize),
	Switch,
	Exhaust,
}
/// Source 0 carries indices; value `v` stands for the inner source `v`.
pub struct FlatM {
	kind: Flat,
	q: VecDeque<usize>,
	active: usize,
	cur: Option<(usize, usize)>,
	outer_done: bool,
	emap: fn(i32) -> i32,
}
impl FlatM {
	pub fn new(kind: Flat, emap: fn(i32) -> i32) -> FlatM {
		FlatM {
			kind,
			q: VecDeque::new(),
			active: 0,
			cur: None,
			outer_done: false,
			emap,
		}
	}
	fn go(&mut self, o: &mut O, s: usize) {
		self.active += 1;
		let (k, evs) = o.subscribe(s);
		let s = s.min(o.count.len() - 1);
		self.cur = Some((s, k));
		for e in evs {
			deliver(self, o, s, k, e);
		}
	}
}
impl Model for FlatM {
	/// The handle given out is the one of the outer source: unsubscribing either is the same.
	fn trailing(&mut self, src: usize, k: usize, o: &mut O) {
		if src == 0 && k == 0 {
			self.cancel(o);
		}
	}
	fn sig(&mut self, src: usize, k: usize, s: Sig, o: &mut O) {
		if src == 0 {
			match s {
				N(v) => {
					let i = v[0] as usize;
					match self.kind {
						Flat::Merge(l) => {
							if self.active < l {
								self.go(o, i)
							} else {
								self.q.push_back(i)
							}
						}
						Flat::Switch => {
							if let Some((s, k)) = self.cur.take() {
								o.release(s, k);
								self.active = 0;
							}
							self.go(o, i)
						}
						Flat::Exhaust => {
							if self.active == 0 {
								self.go(o, i)
							}
						}
					}
				}
				E(v) => o.error(vec![(self.emap)(v[0])]),
				C => {
					self.outer_done = true;
					if self.active == 0 && self.q.is_empty() {
						o.complete();
					}
				}
				U => o.close(),
			}
		} else {
			let end = match s {
				N(v) => return o.next(v),
				E(v) => return o.error(v),
				s => s,
			};
			self.active -= 1;
			if self.cur == Some((src, k)) {
				self.cur = None;
			}
			if let Some(i) = self.q.pop_front() {
				self.go(o, i);
			}
			if self.active == 0 && self.q.is_empty() && self.outer_done {
				if end == C { o.complete() } else { o.close() }
			}
		}
	}
}

pub fn flat_events(srcs: usize) -> Vec<Ev> {
	let mut v = vec![];
	for i in 1..srcs {
		v.push(Ev::S(0, n(i as i32)));
	}
	v.extend([Ev::S(0, C), Ev::S(0, e(7)), Ev::S(0, U)]);
	for i in 1..srcs {
		let b = 10 * i as i32;
		v.push(Ev::S(i, n(b)));
		v.push(Ev::S(i, C));
		v.push(Ev::S(i, U));
		if i == 1 {
			v.push(Ev::S(i, e(b + 9)));
		}
	}
	v.extend([Ev::Unsub, Ev::Drop]);
	v
}

pub struct CatchM {
	caught: bool,
	pub map: fn(i32) -> usize,
}
impl Model for CatchM {
	/// The handle given out is the one of the outer source: unsubscribing either is the same.
	fn trailing(&mut self, src: usize, k: usize, o: &mut O) {
		if src == 0 && k == 0 {
			self.cancel(o);
		}
	}
	fn sig(&mut self, src: usize, _k: usize, s: Sig, o: &mut O) {
		match s {
			E(v) if src == 0 && !self.caught => {
				self.caught = true;
				let to = (self.map)(v[0]);
				sub(self, o, to);
			}
			s => o.emit(s),
		}
	}
}
pub struct RetryM {
	left: usize,
}
/// An error after the subscription with no retry left makes one more attempt, whose synchronous
/// values are delivered, before the error is.
pub struct RetryX {
	max: usize,
	used: usize,
}
impl Model for RetryX {
	fn start(&mut self, o: &mut O) {
		loop {
			let (k, evs) = o.subscribe(0);
			match self.attempt(o, k, evs) {
				Some(_) if self.used < self.max => self.used += 1,
				Some(v) => return o.error(v),
				None => return,
			}
		}
	}
	fn sig(&mut self, _src: usize, _k: usize, s: Sig, o: &mut O) {
		match s {
			E(v) => {
				let mut err = v;
				while self.used <= self.max {
					self.used += 1;
					let (k, evs) = o.subscribe(0);
					match self.attempt(o, k, evs) {
						Some(v) => err = v,
						None => break,
					}
				}
				if self.used > self.max {
					o.error(err);
				}
			}
			s => o.emit(s),
		}
	}
}
impl RetryX {
	fn attempt(&mut self, o: &mut O, k: usize, evs: Vec<Sig>) -> Option<V> {
		for e in evs {
			if o.closed {
				return None;
			}
			match e {
				E(v) => {
					o.release(0, k);
					return Some(v);
				}
				s => o.emit(s),
			}
		}
		None
	}
}
impl Model for RetryM {
	fn sig(&mut self, _src: usize, _k: usize, s: Sig, o: &mut O) {
		match s {
			E(_) if self.left > 0 => {
				self.left -= 1;
				sub(self, o, 0);
			}
			s => o.emit(s),
		}
	}
}
#[derive(Default)]
struct WlfM {
	latest: Option<V>,
	inner_over: bool,
}
impl Model for WlfM {
	fn start(&mut self, o: &mut O) {
		sub(self, o, 1);
		if o.closed {
			o.subscribe_optional(0);
		} else {
			sub(self, o, 0);
		}
	}
	fn sig(&mut self, src: usize, _k: usize, s: Sig, o: &mut O) {
		match (src, s) {
			(0, N(v)) => {
				if let Some(l) = &self.latest {
					o.next([v, l.clone()].concat());
				}
			}
			(1, N(v)) => self.latest = Some(v),
			(1, C) => {
				self.inner_over = true;
				if self.latest.is_none() {
					o.complete();
				}
			}
			(1, U) => self.inner_over = true,
			(_, s) => o.emit(s),
		}
	}
}

pub fn cases() -> Vec<CaseB> {
	let mut v = vec![];
	let mut flat = |name: &str, own: &[&'static str], kind: Flat, emap: fn(i32) -> i32, build: Build| {
		for (srcs, dq, dt) in [(2usize, 5usize, 8usize), (3, 5, 6)] {
			let mut cfg = CaseCfg::new(srcs, flat_events(srcs));
			cfg.own = own.to_vec();
			cfg.sync = (if srcs == 2 { 3 } else { 2 }, if srcs == 2 { vec![1] } else { vec![1, 2] });
			if srcs == 3 {
				cfg.limits = vec![None, Some(2)];
			}
			v.push(CaseB {
				name: format!("{name}/{}", srcs - 1),
				cfg,
				dq,
				dt,
				build: build.clone(),
				mk: Arc::new(move || Box::new(FlatM::new(kind, emap))),
				alts: vec![],
			});
		}
	};
	macro_rules! b { ($w:ident => $e:expr) => { Arc::new(move |$w: &W| -> Sub { Box::new($e.subscribe($w.dst())) }) as Build }; }
	macro_rules! all { ($w:ident, $o:ident => $e:expr) => { b!($w => { let w2 = $w.clone(); let $o = $w.src(0).map(move |x| w2.src(x as usize)); $e }) }; }
	for l in [1usize, 2, 3] {
		flat(&format!("merge_all({l})"), &["O04"], Flat::Merge(l), |x| x * 10, all!(w, o => o.merge_all(l, |x| x * 10)));
	}
	flat("merge_map(2)", &["O04"], Flat::Merge(2), |x| x * 10, b!(w => { let w2 = w.clone(); w.src(0).merge_map(move |x| w2.src(x as usize), 2, |x| x * 10) }));
	flat("concat_all", &["O04"], Flat::Merge(1), |x| x * 10, all!(w, o => o.concat_all(|x| x * 10)));
	flat("concat_map", &["O04"], Flat::Merge(1), |x| x * 10, b!(w => { let w2 = w.clone(); w.src(0).concat_map(move |x| w2.src(x as usize), |x| x * 10) }));
	flat("switch_all", &["O05"], Flat::Switch, |x| x * 10, all!(w, o => o.switch_all(|x| x * 10)));
	flat("switch_map", &["O05"], Flat::Switch, |x| x * 10, b!(w => { let w2 = w.clone(); w.src(0).switch_map(move |x| w2.src(x as usize), |x| x * 10) }));
	flat("exhaust_all", &["O05"], Flat::Exhaust, |x| x * 10, all!(w, o => o.exhaust_all(|x| x * 10)));
	flat("exhaust_map", &["O05"], Flat::Exhaust, |x| x * 10, b!(w => { let w2 = w.clone(); w.src(0).exhaust_map(move |x| w2.src(x as usize), |x| x * 10) }));
	let mut cfg = CaseCfg::new(3, vec![
		Ev::S(0, n(1)), Ev::S(0, C), Ev::S(0, e(1)), Ev::S(0, e(2)), Ev::S(0, U),
		Ev::S(1, n(11)), Ev::S(1, C), Ev::S(1, e(19)), Ev::S(1, U),
		Ev::S(2, n(21)), Ev::S(2, C), Ev::Unsub, Ev::Drop,
	]);
	cfg.own = vec!["O03"];
	v.push(CaseB {
		name: "catch".into(),
		cfg,
		dq: 6,
		dt: 8,
		build: b!(w => { let w2 = w.clone(); w.src(0).catch(move |x| w2.src(if x == 7 { 1 } else { x as usize })) }),
		mk: Arc::new(|| Box::new(CatchM { caught: false, map: |x| if x == 7 { 1 } else { x as usize } })),
		alts: vec![],
	});
	for left in [0usize, 1, 2] {
		let mut cfg = CaseCfg::new(1, vec![
			Ev::S(0, n(1)), Ev::S(0, C), Ev::S(0, e(8)), Ev::S(0, e(9)), Ev::S(0, U), Ev::Unsub, Ev::Drop,
		]);
		cfg.own = vec!["O03"];
		cfg.shared_handle = true;
		cfg.sync = (4, vec![1]);
		v.push(CaseB {
			name: format!("retry({left})"),
			
			cfg,
			dq: 6,
			dt: 8,
			build: b!(w => w.src(0).retry(left)),
			mk: Arc::new(move || Box::new(RetryM { left })),
			alts: vec![("retry-resubscribes-once-too-often", Arc::new(move || Box::new(RetryX { max: left, used: 0 })))],
		});
	}
	let mut cfg = CaseCfg::new(2, vec![
		Ev::S(0, n(1)), Ev::S(0, n(2)), Ev::S(0, C), Ev::S(0, e(7)), Ev::S(0, U),
		Ev::S(1, n(11)), Ev::S(1, n(12)), Ev::S(1, C), Ev::S(1, e(17)), Ev::S(1, U),
		Ev::Unsub, Ev::Drop,
	]);
	cfg.own = vec!["O06"];
	v.push(CaseB {
		name: "with_latest_from".into(),
		cfg,
		dq: 6,
		dt: 8,
		build: b!(w => w.src(0).with_latest_from(w.src(1))),
		mk: Arc::new(|| Box::new(WlfM::default())),
		alts: vec![],
	});
	v
}
pub fn scenarios(th: bool) -> Vec<Scenario> {
	cases().into_iter().map(|c| c.scenario(th)).collect()
}

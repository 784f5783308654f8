//! Combination observables (M01, M02, M03).
use super::flat::{Flat, FlatM};
use super::rig::*;
use crate::engine::Scenario;
use rx_core::prelude::*;
use std::collections::VecDeque;
use std::real::sync::Arc;

impl<T: ToV> ToV for Change<T> {
	fn v(&self) -> V {
		match self {
			Change::JustUpdated(v) => [vec![-1], v.v()].concat(),
			Change::Latest(v) => [vec![-2], v.v()].concat(),
			Change::None => vec![-3],
		}
	}
}

/// Two inputs, each subscribed once, in order.
fn start2<M: Model + ?Sized>(m: &mut M, o: &mut O) {
	sub(m, o, 0);
	if o.closed {
		o.subscribe_optional(1);
	} else {
		sub(m, o, 1);
	}
}
#[derive(Default)]
struct Inputs {
	v: [Option<V>; 2],
	end: [Option<Sig>; 2],
}
impl Inputs {
	fn both_completed(&self) -> bool {
		self.end.iter().all(|e| *e == Some(C))
	}
	fn both_over(&self) -> bool {
		self.end.iter().all(|e| e.is_some())
	}
	fn over_unprimed(&self, i: usize) -> bool {
		self.end[i].is_some() && self.v[i].is_none()
	}
}
/// Emits on every input value once all inputs have one; ends when that became impossible: by
/// completing when both inputs completed, or one completed without a value and the other had one.
#[derive(Default)]
struct LatestM(Inputs);
impl Model for LatestM {
	fn start(&mut self, o: &mut O) {
		start2(self, o)
	}
	fn sig(&mut self, i: usize, _k: usize, s: Sig, o: &mut O) {
		let t = &mut self.0;
		match s {
			N(v) => {
				t.v[i] = Some(v);
				if let [Some(a), Some(b)] = &t.v {
					o.next([a.clone(), b.clone()].concat());
				}
			}
			E(v) => o.error(v),
			s => {
				t.end[i] = Some(s.clone());
				if t.both_completed() || (s == C && t.v[i].is_none() && t.v[1 - i].is_some()) {
					o.complete()
				} else if t.both_over() || t.over_unprimed(i) {
					o.close()
				}
			}
		}
	}
}
#[derive(Default)]
struct ChangesM(Inputs);
impl Model for ChangesM {
	fn start(&mut self, o: &mut O) {
		start2(self, o)
	}
	fn sig(&mut self, i: usize, _k: usize, s: Sig, o: &mut O) {
		let t = &mut self.0;
		match s {
			N(v) => {
				t.v[i] = Some(v);
				let mut out = vec![];
				for j in 0..2 {
					match &t.v[j] {
						None => out.push(-3),
						Some(v) => {
							out.push(if i == j { -1 } else { -2 });
							out.extend(v);
						}
					}
				}
				o.next(out);
			}
			E(v) => o.error(v),
			s => {
				t.end[i] = Some(s);
				if t.both_completed() {
					o.complete()
				} else if t.both_over() {
					o.close()
				}
			}
		}
	}
}
/// The pair of last values once both inputs completed.
#[derive(Default)]
struct JoinM(Inputs);
impl Model for JoinM {
	fn start(&mut self, o: &mut O) {
		start2(self, o)
	}
	fn sig(&mut self, i: usize, _k: usize, s: Sig, o: &mut O) {
		let t = &mut self.0;
		match s {
			N(v) => t.v[i] = Some(v),
			E(v) => o.error(v),
			s => {
				t.end[i] = Some(s);
				if t.both_completed() {
					if let [Some(a), Some(b)] = &t.v {
						o.next([a.clone(), b.clone()].concat());
					}
					o.complete()
				} else if t.both_over() {
					o.close()
				}
			}
		}
	}
}
/// Pairs by position; ends as soon as an ended input has nothing queued.
struct ZipM {
	q: [VecDeque<V>; 2],
	end: [Option<Sig>; 2],
	max: usize,
	drop_oldest: bool,
}
impl Model for ZipM {
	fn start(&mut self, o: &mut O) {
		start2(self, o)
	}
	fn sig(&mut self, i: usize, _k: usize, s: Sig, o: &mut O) {
		match s {
			N(v) => {
				if self.q[i].len() >= self.max {
					if !self.drop_oldest {
						return;
					}
					self.q[i].pop_front();
				}
				self.q[i].push_back(v);
				if self.q.iter().all(|q| !q.is_empty()) {
					let a = self.q[0].pop_front().unwrap();
					let b = self.q[1].pop_front().unwrap();
					o.next([a, b].concat());
				}
			}
			E(v) => return o.error(v),
			s => self.end[i] = Some(s),
		}
		for done in [C, U] {
			if (0..2).any(|j| self.q[j].is_empty() && self.end[j] == Some(done.clone())) {
				return o.emit(done);
			}
		}
		if self.end == [Some(C), Some(C)] {
			o.complete()
		} else if self.end.iter().all(|e| e.is_some()) {
			o.close()
		}
	}
}
/// Sources 1..=n are handed in order to a concurrent flattening, which then knows them all.
struct ManyM(FlatM, usize);
impl Model for ManyM {
	fn start(&mut self, o: &mut O) {
		for i in 1..=self.1 {
			if o.closed {
				return;
			}
			self.0.sig(0, 0, n(i as i32), o);
		}
		self.0.sig(0, 0, C, o);
	}
	fn sig(&mut self, s: usize, k: usize, sg: Sig, o: &mut O) {
		self.0.sig(s, k, sg, o)
	}
}

fn ev2() -> Vec<Ev> {
	let mut v = vec![];
	for i in 0..2 {
		let b = i as i32 * 10;
		v.extend([Ev::S(i, n(b + 1)), Ev::S(i, n(b + 2)), Ev::S(i, C), Ev::S(i, e(b + 9)), Ev::S(i, U)]);
	}
	v.extend([Ev::Unsub, Ev::Drop]);
	v
}
pub fn cases() -> Vec<CaseB> {
	let mut v = vec![];
	macro_rules! b { ($w:ident => $e:expr) => { Arc::new(move |$w: &W| -> Sub { Box::new($e.subscribe($w.dst())) }) as Build }; }
	let mut two = |name: &str, own: &'static str, build: Build, mk: MkModel| {
		let mut cfg = CaseCfg::new(2, ev2());
		cfg.own = vec![own];
		cfg.shared_handle = true;
		v.push(CaseB { name: name.into(), cfg, dq: if name.starts_with("zip(") { 5 } else { 6 }, dt: 8, build, mk, alts: vec![] });
	};
	two("combine_latest", "M01", b!(w => combine_latest(w.src(0), w.src(1))), Arc::new(|| Box::new(LatestM::default())));
	two("combine_changes", "M01", b!(w => combine_changes(w.src(0), w.src(1))), Arc::new(|| Box::new(ChangesM::default())));
	two("join", "M02", b!(w => join(w.src(0), w.src(1))), Arc::new(|| Box::new(JoinM::default())));
	let zip_m = |max: usize, drop_oldest: bool| -> MkModel {
		Arc::new(move || {
			Box::new(ZipM { q: Default::default(), end: [None, None], max, drop_oldest })
		})
	};
	two("zip", "M02", b!(w => zip(w.src(0), w.src(1))), zip_m(100, true));
	for max in [1usize, 2] {
		for drop_oldest in [true, false] {
			two(
				&format!("zip(max {max}, drop oldest {drop_oldest})"),
				"M02",
				b!(w => {
					let opts = QueueOverflowOptions { max_queue_length: max, overflow_behavior: if drop_oldest { QueueOverflowBehavior::DropOldest } else { QueueOverflowBehavior::IgnoreNext } };
					ZipObservable::new(w.src(0), w.src(1)).with_options(opts)
				}),
				zip_m(max, drop_oldest),
			);
		}
	}
	let evn = |k: usize| {
		let mut v = vec![];
		for i in 1..=k {
			let b = i as i32 * 10;
			v.extend([Ev::S(i, n(b)), Ev::S(i, C), Ev::S(i, U)]);
			if i < 3 {
				v.push(Ev::S(i, e(b + 9)));
			}
		}
		v.extend([Ev::Unsub, Ev::Drop]);
		v
	};
	let mut many = |name: String, k: usize, limit: usize, build: Build| {
		let mut cfg = CaseCfg::new(k + 1, evn(k));
		cfg.own = vec!["M03"];
		cfg.shared_handle = true;
		v.push(CaseB { name, cfg, dq: if k == 3 && limit >= 3 { 5 } else { 6 }, dt: 8, build, mk: Arc::new(move || Box::new(ManyM(FlatM::new(Flat::Merge(limit), |x| x), k))), alts: vec![] });
	};
	for limit in [0usize, 1, 2, 3, usize::MAX] {
		let l = limit.max(1);
		many(format!("merge2({limit})"), 2, l, b!(w => merge((w.src(1), w.src(2)), limit)));
		many(format!("merge3({limit})"), 3, l, b!(w => merge((w.src(1), w.src(2), w.src(3)), limit)));
	}
	many("concat2".into(), 2, 1, b!(w => concat((w.src(1), w.src(2)))));
	many("concat3".into(), 3, 1, b!(w => concat((w.src(1), w.src(2), w.src(3)))));
	many("merge[array]".into(), 2, 2, b!(w => merge([w.src(1), w.src(2)], 2)));
	many("concat[array]".into(), 2, 1, b!(w => concat([w.src(1), w.src(2)])));
	v
}
pub fn scenarios(th: bool) -> Vec<Scenario> {
	cases().into_iter().map(|c| c.scenario(th)).collect()
}

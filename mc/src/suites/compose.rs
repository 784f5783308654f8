//! C04: chains of operators against the composition of their reference models. Every operator of
//! the other suites is a link; the chain's middle is erased at the harness' own boundary, so that
//! any chain of any length can be enumerated at run time.
use super::rig::*;
use crate::engine::{Fail, Run, Scenario};
use std::mc;
use rx_core::prelude::*;

use std::real::sync::{Arc, Mutex};

#[derive(Clone)]
struct Op {
	name: String,
	build: Build,
	mk: MkModel,
	alts: Vec<(&'static str, MkModel)>,
	srcs: usize,
	timed: bool,
	/// The handle is the operator's own, not the one of its source.
	own_handle: bool,
	/// It reports to be closed as soon as it ended, whatever goes on after it, and from then on
	/// no longer hands an unsubscription on.
	dead_end: bool,
	/// Its subscription consists of those to its sources.
	composite: bool,
}

fn ops(th: bool) -> Vec<Op> {
	let mut v = vec![];
	let skip = |name: &str| {
		["direct", "merge_all(3)/1", "concat_all/2", "merge_all(2)/1", "retry(2)"].contains(&name)
			|| !th && ["merge_map", "concat_map", "switch_map", "exhaust_map", "zip(max", "merge_all(1)/2", "switch_all/1", "exhaust_all/1", "delay(0)", "debounce_time(0)", "subscribe_on_with_delay", "retry(0)"].iter().any(|n| name.starts_with(n))
	};
	let mut all = vec![];
	all.extend(super::ops::cases());
	all.extend(super::flat::cases());
	all.extend(super::comb::cases());
	all.extend(super::time::cases());
	for c in all {
		if skip(&c.name) || !c.cfg.events.iter().any(|e| matches!(e, Ev::S(0, N(_)))) {
			continue;
		}
		let timed = c.cfg.events.iter().any(|e| matches!(e, Ev::Tick(_)));
		v.push(Op {
			composite: ["retry", "combine_", "zip", "join"].iter().any(|n| c.name.starts_with(n)),
			dead_end: ["take", "element_at", "merge_", "concat_", "switch_", "exhaust_", "catch", "retry", "combine_", "zip", "join", "with_latest_from", "delay", "debounce", "observe_on", "subscribe_on", "throttle", "fallback"].iter().any(|n| c.name.starts_with(n)),
			name: c.name,
			build: c.build,
			mk: c.mk,
			alts: c.alts,
			srcs: c.cfg.srcs,
			timed,
			own_handle: c.cfg.shared_handle,
		});
	}
	v
}

fn connect(w: W, ops: Arc<Vec<Op>>, j: usize, down: Option<ErasedSubscriber<i32, i32>>) -> Sub {
	let base = 1 + ops[..j].iter().map(|o| o.srcs - 1).sum::<usize>();
	let (w2, ops2) = (w.clone(), ops.clone());
	let up: Up = Arc::new(move |d| -> Sub {
		if j == 0 {
			Box::new(w2.src(0).subscribe(d))
		} else {
			connect(w2.clone(), ops2.clone(), j - 1, Some(d))
		}
	});
	let mut ws = w;
	ws.stage = Some(Arc::new(StageW { up, down: down.map(|d| Mutex::new(Some(d))), base, srcs: ops[j].srcs }));
	(ops[j].build)(&ws)
}

struct Chain {
	c: Arc<ChainS>,
	seen: usize,
	cancelled: bool,
}
struct ChainS {
	ops: Arc<Vec<Op>>,
	mks: Vec<MkModel>,
	st: Mutex<Vec<Option<Link>>>,
	tally: Vec<Arc<Mutex<Vec<usize>>>>,
	/// The tallies before the latest subscription, which may have to be made again.
	undo: Mutex<Vec<Vec<Vec<usize>>>>,
	sync: Mutex<Vec<Vec<Vec<Sig>>>>,
	/// The recorded deviation: an operator that ended takes no unsubscription anymore.
	dead_ends: bool,
}
impl ChainS {
	fn base(&self, j: usize) -> usize {
		1 + self.ops[..j].iter().map(|o| o.srcs - 1).sum::<usize>()
	}
	fn find(&self, src: usize) -> (usize, usize) {
		if src == 0 {
			return (0, 0);
		}
		let mut b = 1;
		for (j, o) in self.ops.iter().enumerate() {
			if src < b + o.srcs - 1 {
				return (j, src - b + 1);
			}
			b += o.srcs - 1;
		}
		unreachable!()
	}
	fn at(&self, j: usize) -> Option<Link> {
		self.st.lock().unwrap()[j].clone()
	}
	fn seen_sync(&self, j: usize, o: &mut O) {
		let b = self.base(j);
		let sync = self.sync.lock().unwrap();
		for i in 0..self.ops[j].srcs {
			if i > 0 || j == 0 {
				o.sync[i] = sync.get(if i == 0 { 0 } else { b + i - 1 }).cloned().unwrap_or_default();
			}
		}
	}
	fn make(self: &Arc<Self>, j: usize, record: bool, limit: Option<usize>, now: u64, in_tick: bool) -> Link {
		let mut o = O::new(self.ops[j].srcs, limit);
		o.swallows = self.dead_ends && self.ops[j].dead_end;
		o.record = record;
		(o.now, o.in_tick) = (now, in_tick);
		// The sources remember how often they were subscribed to before.
		o.count = self.tally[j].lock().unwrap().clone();
		o.born = o.count.clone();
		o.tally = Some(self.tally[j].clone());
		self.seen_sync(j, &mut o);
		if j > 0 {
			let me = self.clone();
			o.upstream = Some(Arc::new(move |k, now, in_tick, limit| me.subscribe(j - 1, k, now, in_tick, limit)));
		}
		let l = Arc::new(Mutex::new(Stage { m: (self.mks[j])(), o }));
		self.st.lock().unwrap()[j] = Some(l.clone());
		{
			let g = &mut *l.lock().unwrap();
			g.m.start(&mut g.o);
			g.m.settle(&mut g.o);
		}
		l
	}
	/// Operator `j + 1` subscribes to operator `j`.
	fn subscribe(self: &Arc<Self>, j: usize, k: usize, now: u64, in_tick: bool, limit: Option<usize>) -> Vec<Sig> {
		let down = self.at(j + 1).unwrap();
		{
			let mut undo = self.undo.lock().unwrap();
			if limit.is_some() {
				for (t, u) in self.tally.iter().zip(undo[j].iter()) {
					*t.lock().unwrap() = u.clone();
				}
			} else {
				undo[j] = self.tally.iter().take(j + 1).map(|t| t.lock().unwrap().clone()).collect();
			}
		}
		let l = self.make(j, true, limit, now, in_tick);
		let o = &mut l.lock().unwrap().o;
		o.sink = Some((down, k));
		(o.limit, o.record) = (None, false);
		let mut log = std::mem::take(&mut o.log);
		for s in log.iter_mut() {
			match s {
				N(v) | E(v) => *v = vec![conv(v)],
				_ => {}
			}
		}
		log
	}
}
impl Chain {
	/// What ended takes everything before it along.
	fn link(&mut self) {
		for j in (1..self.c.ops.len()).rev() {
			let (Some(s), Some(d)) = (self.c.at(j - 1), self.c.at(j)) else { continue };
			let k = s.lock().unwrap().o.sink.as_ref().map(|s| s.1);
			let open = {
				let g = d.lock().unwrap();
				!g.o.closed && k.is_some_and(|k| g.o.is_active(0, k))
			};
			if !open {
				s.lock().unwrap().o.shut();
			}
		}
	}
	fn end(&mut self, top: &mut O) {
		self.link();
		let n = self.c.ops.len();
		if let Some(last) = self.c.at(n - 1) {
			let l = &last.lock().unwrap().o;
			for s in &l.log[self.seen..] {
				top.log.push(s.clone());
			}
			self.seen = l.log.len();
			top.closed = l.closed;
		}
		let h = self.c.ops.iter().rposition(|o| o.own_handle).unwrap_or(0);
		top.handle_ended = self.cancelled || self.c.at(h).is_some_and(|s| s.lock().unwrap().o.closed);
		// What is subscribed to without need subscribes to everything before it.
		let mut extra = 0;
		for j in (0..n).rev() {
			let b = self.c.base(j);
			let Some(s) = self.c.at(j) else {
				for i in 0..self.c.ops[j].srcs {
					if i > 0 || j == 0 {
						top.optional[if i == 0 { 0 } else { b + i - 1 }] = extra;
					}
				}
				continue;
			};
			let o = &s.lock().unwrap().o;
			for i in 0..self.c.ops[j].srcs {
				let g = if i == 0 { 0 } else { b + i - 1 };
				if i == 0 && j > 0 {
					continue;
				}
				top.active[g] = if top.closed { Default::default() } else { o.active[i].clone() };
				top.count[g] = o.count[i];
				top.early[g] = self.cancelled || o.closed || o.count[i] > 1;
				top.optional[g] = o.optional[i] + extra;
			}
			extra += o.optional[0];
			top.lingering |= o.lingering;
		}
	}
	fn begin(&mut self, top: &O) {
		*self.c.sync.lock().unwrap() = top.sync.clone();
		for j in 0..self.c.ops.len() {
			if let Some(s) = self.c.at(j) {
				self.c.seen_sync(j, &mut s.lock().unwrap().o);
			}
		}
	}
	fn each(&mut self, top: &mut O, mut f: impl FnMut(&mut dyn Model, &mut O)) {
		self.begin(top);
		for j in 0..self.c.ops.len() {
			let Some(s) = self.c.at(j) else { continue };
			let g = &mut *s.lock().unwrap();
			g.o.now = top.now;
			g.o.in_tick = top.in_tick;
			f(&mut *g.m, &mut g.o);
		}
		self.end(top);
	}
}
impl Chain {
	/// Unsubscribes from operator `j`.
	fn cancel_stage(&mut self, j: usize) {
		let Some(s) = self.c.at(j) else { return };
		if j > 0 && self.c.ops[j].composite {
			// Its subscription is that to what it subscribed to.
			self.cancel_stage(j - 1);
			let g = &mut *s.lock().unwrap();
			for i in 1..self.c.ops[j].srcs {
				for k in g.o.active[i].iter().copied().collect::<Vec<_>>() {
					deliver(&mut *g.m, &mut g.o, i, k, U);
				}
			}
		} else {
			let g = &mut *s.lock().unwrap();
			g.m.cancel(&mut g.o);
		}
	}
}
impl Model for Chain {
	fn start(&mut self, top: &mut O) {
		*self.c.sync.lock().unwrap() = top.sync.clone();
		self.c.make(self.c.ops.len() - 1, false, top.limit, top.now, top.in_tick);
		self.end(top);
	}
	fn keeps(&self, _s: &Sig) -> bool {
		true
	}
	fn sig(&mut self, src: usize, k: usize, sig: Sig, top: &mut O) {
		self.begin(top);
		let (j, i) = self.c.find(src);
		if let Some(s) = self.c.at(j) {
			let g = &mut *s.lock().unwrap();
			deliver(&mut *g.m, &mut g.o, i, k, sig);
		}
		self.end(top);
	}
	fn trailing(&mut self, src: usize, k: usize, top: &mut O) {
		self.sig(src, k, U, top);
	}
	fn settle(&mut self, top: &mut O) {
		self.each(top, |m, o| m.settle(o));
	}
	fn tick(&mut self, top: &mut O) {
		self.each(top, |m, o| m.tick(o));
	}
	fn rest_of_tick(&mut self, top: &mut O) {
		self.each(top, |m, o| m.rest_of_tick(o));
	}
	fn cancel(&mut self, top: &mut O) {
		self.cancelled = true;
		// What already ended passes it on.
		let h = self.c.ops.iter().rposition(|o| o.own_handle).unwrap_or(0);
		for j in h..self.c.ops.len() {
			let Some(s) = self.c.at(j) else { continue };
			let (closed, swallows) = {
				let o = &s.lock().unwrap().o;
				(o.closed, o.swallows)
			};
			if !closed {
				self.cancel_stage(j);
				break;
			} else if swallows {
				break;
			}
		}
		self.end(top);
	}
}

/// The candidate models of a chain: every operator as intended, or with its known deviations.
fn models(ops: &Arc<Vec<Op>>) -> Alts {
	let mut v: Vec<(Vec<MkModel>, Option<&'static str>)> = vec![(vec![], None)];
	for o in ops.iter() {
		let mut w = vec![];
		for (l, known) in v {
			let mut l2 = l.clone();
			l2.push(o.mk.clone());
			w.push((l2, known));
			for (k, m) in &o.alts {
				let mut l2 = l.clone();
				l2.push(m.clone());
				w.push((l2, known.or(Some(*k))));
			}
		}
		v = w;
	}
	let n = ops.len();
	let mut alts: Alts = vec![];
	for dead_ends in [false, true] {
		if dead_ends && !ops[..n - 1].iter().any(|o| o.dead_end) {
			continue;
		}
		for (mks, known) in v.clone() {
			let ops = ops.clone();
			let mk: MkModel = Arc::new(move || {
				Box::new(Chain {
					c: Arc::new(ChainS {
						ops: ops.clone(),
						mks: mks.clone(),
						st: Mutex::new(vec![None; n]),
						tally: ops.iter().map(|o| Arc::new(Mutex::new(vec![0; o.srcs]))).collect(),
						undo: Mutex::new(vec![vec![]; n]),
						sync: Default::default(),
						dead_ends,
					}),
					cancelled: false, seen: 0,
				})
			});
			alts.push((mk, if dead_ends { Some("unsubscribe-after-early-end") } else { known }));
		}
	}
	alts
}

fn chain(run: &Run, list: Vec<Op>, th: bool) -> Result<(), Fail> {
	run.trace(|| format!("source | {}", list.iter().map(|o| o.name.clone()).collect::<Vec<_>>().join(" | ")));
	let srcs = 1 + list.iter().map(|o| o.srcs - 1).sum::<usize>();
	let mut events = vec![Ev::S(0, n(1)), Ev::S(0, n(2)), Ev::S(0, C), Ev::S(0, e(7)), Ev::S(0, U)];
	for i in 1..srcs {
		let b = i as i32 * 10;
		events.extend([Ev::S(i, n(b + 1)), Ev::S(i, C)]);
		if th || srcs < 4 {
			events.extend([Ev::S(i, e(b + 9)), Ev::S(i, U)]);
		}
	}
	if list.iter().any(|o| o.timed) {
		events.extend([Ev::Tick(4), Ev::Tick(10)]);
	}
	events.push(Ev::Unsub);
	let mut cfg = CaseCfg::new(srcs, events);
	cfg.own = vec!["C04"];
	cfg.closed_slack = true;
	cfg.shared_handle = list.iter().any(|o| o.own_handle);
	if list.iter().enumerate().any(|(j, o)| j > 0 && o.name.starts_with("retry") && list[..j].iter().any(|p| p.srcs > 1)) {
		// What ended while it was subscribing may still subscribe to its further sources.
		cfg.sync.0 = 0;
	}
	let ops = Arc::new(list);
	let ops2 = ops.clone();
	let build: Build = Arc::new(move |w: &W| connect(w.clone(), ops2.clone(), ops2.len() - 1, None));
	drive(run, Arc::new(cfg), &build, &models(&ops))
}

/// Two timed operators in a row race for the same tick, which the models leave open.
fn fits(l: &[Op]) -> bool {
	l.iter().filter(|o| o.timed).count() <= 1
		// A repeated subscription would be made within the tick that ended the one before.
		&& !(l[0].name.starts_with("subscribe_on") && l.iter().any(|o| o.name.starts_with("retry(1")))
}

pub fn scenarios(th: bool) -> Vec<Scenario> {
	let all = ops(th);
	if std::env::var_os("MC_CHAINS").is_some() {
		// Development: every pair on its own.
		let mut v = vec![];
		for a in all.iter() {
			for b in all.iter() {
				let l = vec![a.clone(), b.clone()];
				if fits(&l) {
					v.push(Scenario::new(format!("chain {} | {}", a.name, b.name), &["C04"], 4, move |run| chain(run, l.clone(), th)));
				}
			}
		}
		return v;
	}
	let a2 = all.clone();
	let mut v = vec![
		Scenario::new("chains of two operators", &["C04"], if th { 4 } else { 3 }, move |run| {
			let (a, b) = (mc::choose(a2.len()), mc::choose(a2.len()));
			let l = vec![a2[a].clone(), a2[b].clone()];
			if fits(&l) { chain(run, l, th) } else { Ok(()) }
		})
		.split(3),
	];
	v
}
impl Drop for Chain {
	fn drop(&mut self) {
		self.c.st.lock().unwrap().clear();
	}
}

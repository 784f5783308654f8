//! Time based operators and observables (T03, T04, T05).
use super::rig::*;
use crate::engine::{Fail, Res, Run, Scenario};
use std::mc;
use rx_core::prelude::*;
use std::collections::VecDeque;
use std::real::sync::Arc;
use std::real::time::Duration;

fn ms(d: u64) -> Duration {
	Duration::from_millis(d)
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
	/// Every value after a delay; `None`: by the next pass of the scheduler.
	Delay(Option<u64>),
	Debounce(u64),
}
/// Values wait for their time; an end of the upstream waits for them, an error does not.
struct Pending {
	kind: Kind,
	q: VecDeque<(u64, V)>,
	end: Option<Sig>,
}
impl Pending {
	fn flush(&mut self, o: &mut O) {
		while let Some((due, _)) = self.q.front() {
			if *due > o.now || o.closed {
				break;
			}
			let (_, v) = self.q.pop_front().unwrap();
			o.next(v);
		}
		self.settle_end(o);
	}
	fn settle_end(&mut self, o: &mut O) {
		if self.q.is_empty() && !o.closed {
			if let Some(s) = self.end.clone() {
				o.emit(s);
			}
		}
	}
	fn end(&mut self, s: Sig, o: &mut O) {
		if self.end.is_none() {
			self.end = Some(s);
		}
		self.settle_end(o);
	}
}
impl Model for Pending {
	fn keeps(&self, s: &Sig) -> bool {
		*s == U
	}
	fn sig(&mut self, _s: usize, _k: usize, s: Sig, o: &mut O) {
		if self.end.is_some() {
			return;
		}
		match s {
			N(v) => match self.kind {
				Kind::Delay(d) => self.q.push_back((d.map(|d| o.now + d).unwrap_or(0), v)),
				Kind::Debounce(d) => {
					// A value whose quiet period is over is due, even if this tick has yet to emit it.
					self.q.retain(|x| x.0 <= o.now && o.in_tick);
					self.q.push_back((o.now + d, v));
				}
			},
			E(_) => {
				self.q.clear();
				o.emit(s);
			}
			s => self.end(s, o),
		}
	}
	fn tick(&mut self, o: &mut O) {
		self.flush(o);
	}
	fn rest_of_tick(&mut self, o: &mut O) {
		self.flush(o);
	}
	fn cancel(&mut self, o: &mut O) {
		self.end(U, o);
	}
}

#[derive(Clone, Copy, PartialEq)]
enum Phase {
	Idle,
	/// Until this time.
	Window(u64),
	/// After a trailing value, until the next tick.
	Cooldown,
}
struct Throttle {
	d: u64,
	lead: bool,
	trail: bool,
	phase: Phase,
	last: Option<V>,
	end: Option<Sig>,
	/// The recorded deviation: windows opened while idle are measured from the last tick that the
	/// operator spent throttling.
	stale: bool,
	seen: u64,
	opened: bool,
}
impl Throttle {
	fn end(&mut self, s: Sig, o: &mut O) {
		if self.end.is_none() {
			self.end = Some(s);
		}
		self.settle_end(o);
	}
	fn settle_end(&mut self, o: &mut O) {
		if self.last.is_none() {
			if let Some(s) = self.end.clone() {
				o.emit(s);
			}
		}
	}
	fn work(&mut self, o: &mut O) {
		if o.closed || self.phase == Phase::Idle {
			return;
		}
		self.seen = o.now;
		self.opened = false;
		match self.phase {
			Phase::Window(t) if o.now < t => {}
			_ => match self.last.take() {
				Some(v) => {
					self.phase = Phase::Cooldown;
					o.next(v);
					self.settle_end(o);
				}
				None => self.phase = Phase::Idle,
			},
		}
	}
}
impl Model for Throttle {
	fn keeps(&self, s: &Sig) -> bool {
		*s == U
	}
	fn sig(&mut self, _s: usize, _k: usize, s: Sig, o: &mut O) {
		if self.end.is_some() {
			return;
		}
		match s {
			N(v) => match self.phase {
				Phase::Idle => {
					let from = if self.stale { self.seen } else { o.now };
					self.phase = Phase::Window(from + self.d);
					self.opened = true;
					if self.lead {
						o.next(v);
					} else {
						self.last = Some(v);
					}
				}
				Phase::Window(_) => {
					if self.trail {
						self.last = Some(v);
					}
				}
				Phase::Cooldown => {
					self.phase = Phase::Window(self.seen + self.d);
					self.last = Some(v);
				}
			},
			E(_) => {
				self.last = None;
				o.emit(s);
			}
			s => self.end(s, o),
		}
	}
	fn tick(&mut self, o: &mut O) {
		self.work(o);
	}
	fn rest_of_tick(&mut self, o: &mut O) {
		if self.opened {
			self.work(o);
		}
	}
	fn cancel(&mut self, o: &mut O) {
		self.end(U, o);
	}
}

/// Every tick emits the newest value of the source since the last tick, or the replacement.
#[derive(Default)]
struct Silent {
	last: Option<V>,
	i: i32,
}
impl Model for Silent {
	fn sig(&mut self, _s: usize, _k: usize, s: Sig, o: &mut O) {
		match s {
			N(v) => self.last = Some(v),
			s => o.emit(s),
		}
	}
	fn tick(&mut self, o: &mut O) {
		let v = self.last.take().unwrap_or(vec![100 + self.i]);
		self.i += 1;
		o.next(v);
	}
}

/// The source is subscribed when the delay is over.
struct Later {
	due: u64,
	done: bool,
}
impl Model for Later {
	fn start(&mut self, o: &mut O) {
		self.due += o.now;
	}
	fn sig(&mut self, _s: usize, _k: usize, s: Sig, o: &mut O) {
		o.emit(s);
	}
	fn tick(&mut self, o: &mut O) {
		if !o.closed && !self.done && o.now >= self.due {
			self.done = true;
			sub(self, o, 0);
		}
	}
}

struct TimerM(u64);
impl Model for TimerM {
	fn start(&mut self, _o: &mut O) {}
	fn sig(&mut self, _s: usize, _k: usize, _sg: Sig, _o: &mut O) {}
	fn tick(&mut self, o: &mut O) {
		if o.now >= self.0 {
			o.next(vec![]);
			o.complete();
		}
	}
}
struct IntervalM {
	d: u64,
	max: u64,
	first: bool,
	count: i32,
	until: u64,
}
impl IntervalM {
	fn emit(&mut self, o: &mut O) {
		o.next(vec![self.count]);
		self.count += 1;
	}
}
impl Model for IntervalM {
	fn start(&mut self, o: &mut O) {
		if self.first {
			self.emit(o);
		}
	}
	fn sig(&mut self, _s: usize, _k: usize, _sg: Sig, _o: &mut O) {}
	fn tick(&mut self, o: &mut O) {
		let (due, max) = if self.d == 0 { (self.max.max(1), self.max.max(1)) } else { ((o.now - self.until) / self.d, self.max.max(1)) };
		self.until += due * self.d;
		for _ in 0..due.min(max) {
			self.emit(o);
		}
	}
}
struct OnTickM {
	items: VecDeque<i32>,
	first: bool,
	nth: u64,
	ticks: u64,
}
impl OnTickM {
	fn emit(&mut self, o: &mut O) {
		if let Some(i) = self.items.pop_front() {
			o.next(vec![i]);
		}
		if self.items.is_empty() {
			o.complete();
		}
	}
}
impl Model for OnTickM {
	fn start(&mut self, o: &mut O) {
		if self.items.is_empty() {
			o.complete();
		} else if self.nth == 0 {
			while !self.items.is_empty() && !o.closed {
				self.emit(o);
			}
		} else if self.first {
			self.emit(o);
		}
	}
	fn sig(&mut self, _s: usize, _k: usize, _sg: Sig, _o: &mut O) {}
	fn tick(&mut self, o: &mut O) {
		if self.nth == 0 || o.closed {
			return;
		}
		self.ticks += 1;
		if self.ticks % self.nth == 0 {
			self.emit(o);
		}
	}
}

/// Several subscriptions to one timed observable: every one of them has its own clock.
fn independent(run: &Run) -> Res {
	let kind = mc::choose(4);
	let mut c = CaseCfg::new(1, vec![]);
	c.limits = vec![];
	let cfg = Arc::new(c);
	let w0 = W::new(cfg.clone());
	let s = w0.sched.clone();
	let mut subscribe: Box<dyn FnMut(&W) -> Sub> = match kind {
		0 => {
			let mut o = timer(ms(10), s);
			Box::new(move |w| Box::new(o.subscribe(w.dst())))
		}
		1 => {
			let mut o = interval(IntervalObservableOptions { duration: ms(10), max_emissions_per_tick: 2, start_on_subscribe: true }, s);
			Box::new(move |w| Box::new(o.subscribe(w.dst())))
		}
		2 => {
			let mut o = [1, 2, 3].into_observable_on_every_nth_tick(OnTickObservableOptions { start_on_subscribe: false, emit_at_every_nth_tick: 2 }, s);
			Box::new(move |w| Box::new(o.subscribe(w.dst())))
		}
		_ => {
			let mut o = just(4).delay(ms(10), s);
			Box::new(move |w| Box::new(o.subscribe(w.dst())))
		}
	};
	let mk = |now: u64| -> Box<dyn Model> {
		match kind {
			0 => Box::new(TimerM(now + 10)),
			1 => Box::new(IntervalM { d: 10, max: 2, first: true, count: 0, until: now }),
			2 => Box::new(OnTickM { items: vec![1, 2, 3].into(), first: false, nth: 2, ticks: 0 }),
			_ => Box::new(JustLater(now + 10)),
		}
	};
	let mut subs: Vec<(W, Option<Sub>, Box<dyn Model>, O, bool)> = vec![];
	let mut now = 0;
	for _ in 0..run.depth() {
		let live: Vec<usize> = (0..subs.len()).filter(|i| subs[*i].1.is_some()).collect();
		let c = mc::choose(3 + live.len() + (subs.len() < 3) as usize);
		run.step();
		let what = if c < 3 {
			let d = [4, 6, 10][c];
			w0.tick(d);
			now += d;
			for s in subs.iter_mut() {
				s.3.now = now;
				if !s.3.closed {
					s.2.tick(&mut s.3);
				}
			}
			format!("tick {d}")
		} else if c < 3 + live.len() {
			let i = live[c - 3];
			let s = &mut subs[i];
			s.1 = None;
			if kind == 3 {
				// A delayed value survives, as documented.
				run.interesting();
			} else {
				s.3.close();
			}
			format!("drop {i}")
		} else {
			let w = W::new(cfg.clone());
			let sub = subscribe(&w);
			let mut o = O::new(1, None);
			o.now = now;
			let mut m = mk(now);
			m.start(&mut o);
			subs.push((w, Some(sub), m, o, false));
			run.interesting();
			"subscribe".to_string()
		};
		run.trace(|| format!("{what} -> {:?}", subs.iter().map(|s| sig_s(&s.0.s.lock().unwrap().log)).collect::<Vec<_>>()));
		for (i, s) in subs.iter().enumerate() {
			let l = s.0.s.lock().unwrap().log.clone();
			run.state(&(kind, i, &l, now));
			if l != s.3.log {
				return Err(Fail { props: vec!["T05"], msg: format!("{what}: subscription {i} observed [{}] expected [{}]", sig_s(&l), sig_s(&s.3.log)), known: None });
			}
		}
	}
	Ok(())
}
struct JustLater(u64);
impl Model for JustLater {
	fn start(&mut self, _o: &mut O) {}
	fn sig(&mut self, _s: usize, _k: usize, _sg: Sig, _o: &mut O) {}
	fn tick(&mut self, o: &mut O) {
		if o.now >= self.0 {
			o.next(vec![4]);
			o.complete();
		}
	}
}

pub fn cases() -> Vec<CaseB> {
	let mut v = vec![];
	macro_rules! b { ($w:ident => $e:expr) => { Arc::new(move |$w: &W| -> Sub { Box::new($e.subscribe($w.dst())) }) as Build }; }
	let evs = |ticks: &[u64]| {
		let mut l = vec![Ev::S(0, n(1)), Ev::S(0, n(2)), Ev::S(0, C), Ev::S(0, e(7)), Ev::S(0, U), Ev::Unsub, Ev::Drop];
		l.extend(ticks.iter().map(|t| Ev::Tick(*t)));
		l
	};
	let mut case = |name: &str, own: &'static str, events: Vec<Ev>, sync: usize, dq: usize, dt: usize, build: Build, mk: MkModel, alts: Vec<(&'static str, MkModel)>| {
		let mut cfg = CaseCfg::new(1, events);
		cfg.own = vec![own];
		cfg.sync.0 = sync;
		cfg.limits = vec![None, Some(1), Some(2)];
		cfg.closed_slack = true;
		v.push(CaseB { name: name.into(), cfg, dq, dt, build, mk, alts });
	};
	let ins = |mut l: Vec<Ev>, d: &[u64]| {
		for d in d {
			l.push(Ev::TickS(*d, n(3)));
			l.push(Ev::TickS(*d, C));
			l.push(Ev::TickP(*d, n(4)));
			l.push(Ev::TickP(*d, C));
			l.push(Ev::TickP(*d, e(8)));
		}
		l
	};
	for d in [10u64, 0] {
		case(&format!("delay({d})"), "T03", ins(evs(&[4, 10]), &[6]), 1, 6, 7, b!(w => w.src(0).delay(ms(d), w.sched.clone())), Arc::new(move || Box::new(Pending { kind: Kind::Delay(Some(d)), q: VecDeque::new(), end: None })), vec![]);
	}
	case("observe_on", "T03", ins(evs(&[0, 5]), &[6]), 1, 6, 7, b!(w => w.src(0).observe_on(w.sched.clone())), Arc::new(|| Box::new(Pending { kind: Kind::Delay(None), q: VecDeque::new(), end: None })), vec![]);
	case("subscribe_on", "T03", evs(&[0, 5]), 1, 6, 7, b!(w => w.src(0).subscribe_on(w.sched.clone())), Arc::new(|| Box::new(Later { due: 0, done: false })), vec![]);
	case("subscribe_on_with_delay", "T03", evs(&[4, 10]), 1, 6, 7, b!(w => w.src(0).subscribe_on_with_delay(ms(10), w.sched.clone())), Arc::new(|| Box::new(Later { due: 10, done: false })), vec![]);
	for d in [10u64, 0] {
		case(&format!("debounce_time({d})"), "T04", ins(evs(&[4, 10]), &[6]), 1, 6, 7, b!(w => w.src(0).debounce_time(ms(d), w.sched.clone())), Arc::new(move || Box::new(Pending { kind: Kind::Debounce(d), q: VecDeque::new(), end: None })), vec![]);
	}
	for (nm, out, lead, trail) in [
		("leading", ThrottleOutputBehavior::LeadingOnly, true, false),
		("trailing", ThrottleOutputBehavior::TrailingOnly, false, true),
		("both", ThrottleOutputBehavior::LeadingAndTrailing, true, true),
	] {
		let mk = move |stale| -> MkModel { Arc::new(move || Box::new(Throttle { d: 10, lead, trail, phase: Phase::Idle, last: None, end: None, stale, seen: 0, opened: false })) };
		case(
			&format!("throttle_time {nm}"),
			"T04",
			ins(evs(&[4, 25]), &[10]),
			1,
			5,
			6,
			b!(w => w.src(0).throttle_time(ThrottleTimeOptions::new(ms(10)).with_output(out), w.sched.clone())),
			mk(false),
			vec![("throttle-window-measured-from-stale-tick", mk(true))],
		);
	}
	case("fallback_when_silent", "T04", ins(evs(&[0, 5]), &[6]), 1, 6, 7, b!(w => w.src(0).fallback_when_silent(|_, _, i| 100 + i as i32, w.sched.clone())), Arc::new(|| Box::new(Silent::default())), vec![]);
	let te = |ticks: &[u64]| {
		let mut l = vec![Ev::Unsub, Ev::Drop];
		l.extend(ticks.iter().map(|t| Ev::Tick(*t)));
		l
	};
	for d in [10u64, 0] {
		case(&format!("timer({d})"), "T05", te(&[0, 4, 6, 10, 25]), 0, 6, 8, b!(w => timer(ms(d), w.sched.clone())), Arc::new(move || Box::new(TimerM(d))), vec![]);
		for max in [0usize, 1, 2] {
			for first in [false, true] {
				case(
					&format!("interval({d}, max {max}, first {first})"),
					"T05",
					te(&[0, 4, 6, 10, 25]),
					0,
					6,
					8,
					b!(w => interval(IntervalObservableOptions { duration: ms(d), max_emissions_per_tick: max, start_on_subscribe: first }, w.sched.clone())),
					Arc::new(move || Box::new(IntervalM { d, max: max as u64, first, count: 0, until: 0 })),
					vec![],
				);
			}
		}
	}
	for len in 0..4usize {
		for nth in 0..4usize {
			for first in [false, true] {
				let items: Vec<i32> = (1..=len as i32).collect();
				let it2 = items.clone();
				case(
					&format!("iterator_on_tick({len} items, every {nth}, first {first})"),
					"T05",
					te(&[0, 5]),
					0,
					7,
					10,
					Arc::new(move |w: &W| -> Sub {
						Box::new(items.clone().into_observable_on_every_nth_tick(OnTickObservableOptions { start_on_subscribe: first, emit_at_every_nth_tick: nth }, w.sched.clone()).subscribe(w.dst()))
					}),
					Arc::new(move || Box::new(OnTickM { items: it2.clone().into(), first, nth: nth as u64, ticks: 0 })),
					vec![],
				);
			}
		}
	}
	v
}
pub fn scenarios(th: bool) -> Vec<Scenario> {
	let mut v: Vec<_> = cases().into_iter().map(|c| c.scenario(th)).collect();
	v.push(Scenario::new("independent clocks", &["T05"], if th { 9 } else { 7 }, independent));
	v
}

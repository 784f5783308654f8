//! A01: the attack-decay-sustain-release operator against a reference envelope.
use crate::engine::{Fail, Res, Run, Scenario};
use bevy_math::curve::EaseFunction;
use rx_core::prelude::*;
use rx_core_operator_adsr::operator::*;
use rx_core_operator_adsr::*;
use rx_core_scheduler_ticking::*;
use std::mc;
use std::real::sync::{Arc, Mutex};
use std::time::Duration;

struct Ctx;
impl WorkContext<'_> for Ctx {}
struct CtxP;
impl WorkContextProvider for CtxP {
	type Item<'c> = Ctx;
}
type Exec = TickingSchedulerExecutor<TickingScheduler<CtxP>, CtxP>;

fn ms(d: u64) -> Duration {
	Duration::from_millis(d)
}
#[derive(Clone, Debug, PartialEq)]
enum Got {
	/// Phase, transition flags, time in the envelope, output.
	V(u8, u8, u64, f32),
	E,
	C,
	U,
}
use Got::*;
struct Dest {
	log: Arc<Mutex<Vec<Got>>>,
	td: SubscriptionData,
	limit: usize,
}
impl Dest {
	fn put(&mut self, g: Got) {
		self.log.lock().unwrap().push(g);
	}
}
impl ObserverInput for Dest {
	type In = AdsrSignal;
	type InError = i32;
}
impl WithPrimaryCategory for Dest {
	type PrimaryCategory = PrimaryCategorySubscriber;
}
impl ObserverUpgradesToSelf for Dest {}
impl RxObserver for Dest {
	fn next(&mut self, v: AdsrSignal) {
		self.put(V(v.adsr_envelope_phase as u8, v.phase_transition.bits(), v.t.as_millis() as u64, v.value));
		self.limit -= 1;
		if self.limit == 0 {
			self.unsubscribe();
		}
	}
	fn error(&mut self, _: i32) {
		self.put(E);
		self.unsubscribe();
	}
	fn complete(&mut self) {
		self.put(C);
		self.unsubscribe();
	}
}
impl SubscriptionLike for Dest {
	fn is_closed(&self) -> bool {
		self.td.is_closed()
	}
	fn unsubscribe(&mut self) {
		if !self.td.is_closed() {
			self.put(U);
			self.td.unsubscribe();
		}
	}
}
impl TeardownCollection for Dest {
	fn add_teardown(&mut self, t: Teardown) {
		self.td.add_teardown(t)
	}
}
impl Drop for Dest {
	fn drop(&mut self) {
		self.unsubscribe();
	}
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
	Press,
	Release,
	/// Press or release with other envelope settings.
	Change(bool, usize),
	Tick(u64),
	Complete,
	Error,
	Unsub,
	Drop,
}
#[derive(Clone, Copy, Debug)]
struct Env {
	a: u64,
	d: u64,
	s: f32,
	r: u64,
	ease: u8,
}
struct Cfg {
	env: Env,
	always: bool,
	reset: bool,
	limit: usize,
	ticks: Vec<u64>,
	/// Only presses, releases and ticks.
	lean: bool,
}
const CHANGES: usize = 3;
fn change(k: usize) -> AdsrEnvelopeChange {
	let c = AdsrEnvelopeChange::default();
	match k {
		0 => AdsrEnvelopeChange { attack_time: Some(ms(20)), sustain_volume: Some(0.25), ..c },
		1 => AdsrEnvelopeChange { attack_time: Some(ms(0)), decay_time: Some(ms(20)), release_time: Some(ms(5)), ..c },
		_ => AdsrEnvelopeChange { release_time: Some(ms(30)), attack_easing: Some(EaseFunction::QuadraticIn), sustain_volume: Some(2.0), ..c },
	}
}
/// What the envelope has to do, from the presses and releases as they are known at each tick.
struct M {
	env: Env,
	pressed: bool,
	was: bool,
	now: u64,
	before: u64,
	start: Option<u64>,
	/// Released at that time with that output.
	rel: Option<(u64, f32)>,
	phase: u8,
	out: f32,
	quiet: bool,
}
impl M {
	fn change(&mut self, k: usize) {
		let e = &mut self.env;
		match k {
			0 => (e.a, e.s) = (20, 0.25),
			1 => (e.a, e.d, e.r) = (0, 20, 5),
			_ => (e.r, e.ease, e.s) = (30, e.ease | 1, 1.0),
		}
	}
	fn tick(&mut self, cfg: &Cfg) -> Option<Got> {
		if self.pressed && !self.was {
			(self.start, self.rel) = (Some(self.now), None);
		} else if !self.pressed && self.was {
			// It's released in between the ticks.
			self.rel = Some((self.before, self.out));
		}
		let e = self.env;
		let (mut ph, mut out, mut t) = (0, 0.0, 0);
		if let Some(s) = self.start {
			t = self.now - s;
			let part = |x: u64, of: u64| x as f32 / of as f32;
			let (attack, release) = (|p: f32| if e.ease & 1 != 0 { p * p } else { p }, |p: f32| if e.ease & 2 != 0 { 1.0 - (1.0 - p) * (1.0 - p) } else { p });
			(ph, out) = match self.rel {
				None if t < e.a => (1, attack(part(t, e.a))),
				None if t < e.a + e.d => (2, 1.0 + (e.s - 1.0) * part(t - e.a, e.d)),
				None => (3, e.s),
				Some((at, from)) if self.now < at + e.r => (4, from - from * release(part(self.now - at, e.r))),
				_ => (0, 0.0),
			};
		}
		let tr = match (self.phase, ph) {
			(a, b) if a == b => 0,
			(_, 0) => 16,
			(a, b) if b < a => 16 | 32,
			// Everything entered on the way; only sustain may be left out.
			(a, b) => (a + 1..=b).filter(|p| *p != 3 || b == 3).map(|p| 1 << (p - 1)).sum(),
		};
		if ph == 0 {
			(self.start, self.rel) = (None, None);
			t = 0;
		}
		(self.phase, self.out) = (ph, out);
		self.was = self.pressed;
		self.before = self.now;
		if cfg.reset {
			self.pressed = false;
		}
		let tell = cfg.always || ph != 0 || !self.quiet;
		self.quiet = ph == 0;
		tell.then_some(V(ph, tr, t, out))
	}
}
fn play(run: &Run, cfg: &Cfg) -> Res {
	let fail = |m: String| Err(Fail { props: vec!["A01"], msg: m, known: None });
	let mut exec = Exec::new(TickingScheduler::default());
	let sched = exec.get_scheduler_handle();
	let log: Arc<Mutex<Vec<Got>>> = Default::default();
	let mut src = PublishSubject::<AdsrTrigger, i32>::default();
	let e = cfg.env;
	let opts = AdsrOperatorOptions {
		always_emit_none: cfg.always,
		reset_input_on_tick: cfg.reset,
		envelope: AdsrEnvelope {
			attack_time: ms(e.a),
			decay_time: ms(e.d),
			release_time: ms(e.r),
			sustain_volume: e.s,
			attack_easing: (e.ease & 1 != 0).then_some(EaseFunction::QuadraticIn),
			release_easing: (e.ease & 2 != 0).then_some(EaseFunction::QuadraticOut),
			..Default::default()
		},
	};
	let mut m = M { env: e, pressed: false, was: false, now: 0, before: 0, start: None, rel: None, phase: 0, out: 0.0, quiet: false };
	// The clock may have been running for a while.
	if mc::choose(2) == 1 {
		exec.tick(ms(7), &mut Ctx);
		(m.now, m.before) = (7, 7);
	}
	let td = SubscriptionData::default();
	let mut sub = Some(src.clone().adsr(opts, sched).subscribe(Dest { log: log.clone(), td, limit: cfg.limit }));
	let mut open = true;
	let mut left = cfg.limit;
	let mut menu: Vec<Ev> = vec![Ev::Press, Ev::Release];
	menu.extend(cfg.ticks.iter().map(|t| Ev::Tick(*t)));
	if !cfg.lean {
	menu.extend((0..CHANGES).flat_map(|k| [Ev::Change(true, k), Ev::Change(false, k)]));
	}
	let plain = menu.len();
	if !cfg.lean {
	menu.extend([Ev::Complete, Ev::Error, Ev::Unsub, Ev::Drop]);
	}
	let mut changed = false;
	let mut seen = 0;
	for step in 0..=run.depth() {
		// Over at the latest with the last step.
		let avail: Vec<Ev> = menu
			.iter()
			.enumerate()
			.filter(|(i, ev)| match ev {
				Ev::Tick(_) => true,
				Ev::Change(..) => open && !changed && step < run.depth(),
				_ if *i < plain => open && step < run.depth(),
				_ => open,
			})
			.map(|(_, e)| *e)
			.collect();
		let ev = avail[mc::choose(avail.len())];
		run.step();
		let mut want: Vec<Got> = vec![];
		match ev {
			Ev::Press | Ev::Release => {
				src.next((ev == Ev::Press).into());
				m.pressed = ev == Ev::Press;
			}
			Ev::Change(on, k) => {
				changed = true;
				src.next(AdsrTrigger { activated: on, envelope_changes: Some(change(k)) });
				m.pressed = on;
				m.change(k);
			}
			Ev::Tick(d) => {
				exec.tick(ms(d), &mut Ctx);
				m.now += d;
				if open && let Some(v) = m.tick(cfg) {
					want.push(v);
					left -= 1;
					if left == 0 {
						want.push(U);
						open = false;
					}
				}
			}
			Ev::Complete => src.complete(),
			Ev::Error => src.error(7),
			Ev::Unsub => sub.as_mut().unwrap().unsubscribe(),
			Ev::Drop => sub = None,
		}
		if matches!(ev, Ev::Complete | Ev::Error | Ev::Unsub | Ev::Drop) {
			open = false;
			match ev {
				Ev::Complete => want.push(C),
				Ev::Error => want.push(E),
				_ => {}
			}
			want.push(U);
		}
		let all = log.lock().unwrap().clone();
		let got = &all[seen..];
		seen = all.len();
		run.trace(|| format!("{ev:?} -> {got:?}"));
		run.state(&format!("{got:?}{}{}{}", m.now, m.pressed, open));
		let same = got.len() == want.len()
			&& got.iter().zip(&want).all(|(a, b)| match (a, b) {
				(V(p, tr, t, v), V(p2, tr2, t2, v2)) => (p, tr, t) == (p2, tr2, t2) && (v - v2).abs() < 1e-4,
				(a, b) => a == b,
			});
		if !same {
			return fail(format!("{ev:?} at {}: got {got:?}, expected {want:?} (phase, transitions, time, output)", m.now));
		}
		if got.len() > 1 || m.phase > 2 {
			run.interesting();
		}
		if !open && let Ev::Tick(_) = ev && !exec.is_empty() {
			return fail("it is still working in the tick after its stream ended".into());
		}
	}
	drop(sub);
	drop(src);
	exec.tick(ms(10), &mut Ctx);
	let n = log.lock().unwrap().iter().filter(|g| **g == U).count();
	if n != 1 || !exec.is_empty() {
		return fail(format!("after everything was dropped: unsubscribed {n} times, executor empty {}", exec.is_empty()));
	}
	Ok(())
}
pub fn scenarios(th: bool) -> Vec<Scenario> {
	let mut v = vec![];
	let mut add = |name: &str, env: Env, always: bool, reset: bool, limit: usize, ticks: Vec<u64>, depth: usize| {
		for lean in [false, true] {
			let cfg = Cfg { env, always, reset, limit, ticks: ticks.clone(), lean };
			let (name, depth) = if lean { (format!("{name}, pressing"), depth + 3 + (cfg.ticks.len() == 2) as usize) } else { (name.to_string(), depth) };
			v.push(Scenario::new(name, &["A01"], depth + th as usize, move |run| play(run, &cfg)).split(2));
		}
	};
	let e = Env { a: 10, d: 10, s: 0.5, r: 10, ease: 0 };
	let inf = usize::MAX;
	add("adsr", e, false, false, inf, vec![0, 5, 15], 5);
	add("adsr in long and short ticks", e, false, false, inf, vec![4, 10, 45], 5);
	add("adsr, always telling", e, true, false, inf, vec![5, 10], 5);
	add("adsr, one tick per press", e, false, true, inf, vec![5, 15], 5);
	add("adsr, one tick per press, always telling", Env { a: 0, d: 0, ..e }, true, true, inf, vec![3, 10], 5);
	add("adsr without attack", Env { a: 0, ..e }, false, false, inf, vec![5, 10], 5);
	add("adsr without decay", Env { d: 0, s: 0.8, ..e }, false, false, inf, vec![5, 10], 5);
	add("adsr without release", Env { r: 0, ..e }, false, false, inf, vec![0, 10], 5);
	add("adsr without phases", Env { a: 0, d: 0, r: 0, s: 1.0, ease: 0 }, false, false, inf, vec![0, 10], 5);
	add("adsr with easing", Env { ease: 3, r: 20, ..e }, false, false, inf, vec![4, 10], 5);
	for limit in [1, 2, 3] {
		add(&format!("adsr into a destination that takes {limit}"), e, limit == 2, false, limit, vec![5, 15], 5);
	}
	v
}

//! Destinations in the world (B06): signals sent to entities and resources, relayed between entities,
//! and the checked way of subscribing, for every sequence of signals, frames and removals.
use super::rigb::*;
use crate::engine::{Res, Run, Scenario};
use bevy_app::prelude::*;
use bevy_ecs::prelude::*;
use bevy_ecs::system::SystemState;
use bevy_time::Real;
use rx_bevy_common::*;
use rx_core::prelude::*;
use std::mc;
use std::real::sync::{Arc, Mutex};

type S = PublishSubject<i32, i32>;
type Log = Arc<Mutex<Vec<Sig>>>;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum To {
	Ent(usize),
	Res,
	/// A subscriber of the subject.
	Probe(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
	Sub(usize),
	/// Checked beforehand.
	Try(usize),
	Unsub(usize),
	Send(usize, Sig),
	/// Sent by a system between the two schedulers of the next frame.
	Between(usize),
	Despawn(usize),
	Remove(usize),
	Insert(usize),
	Frame,
}
/// One subscription: source (0 is outside, 1 and 2 are the subjects of the entities), destination, scheduler.
#[derive(Clone, Copy)]
struct Wire {
	from: usize,
	to: To,
	on: usize,
}
pub struct Cfg {
	wires: [Wire; 3],
	/// The entities that hold a subject.
	subject: [bool; 2],
	/// The entity that despawns itself on the first value.
	bomb: bool,
	ops: &'static str,
}
#[derive(Resource, Default)]
struct R(Vec<Sig>);
#[derive(Resource, Default)]
struct InFrame(Vec<i32>, S);
fn between(mut f: ResMut<InFrame>) {
	for v in std::mem::take(&mut f.0) {
		f.1.next(v);
	}
}
struct M {
	on: [bool; 3],
	log: [Vec<Sig>; 3],
	/// Of the source and the subjects of the entities.
	over: [Option<Sig>; 3],
	alive: [bool; 2],
	comp: [bool; 2],
	res: Option<Vec<Sig>>,
	seen: [Vec<Sig>; 2],
	queue: [Vec<(To, Sig)>; 2],
}
impl M {
	fn send(&mut self, cfg: &Cfg, x: usize, s: Sig) {
		if self.over[x].is_some() {
			return;
		}
		if !matches!(s, N(_)) {
			self.over[x] = Some(s);
		}
		for k in 0..3 {
			let w = cfg.wires[k];
			if self.on[k] && w.from == x {
				self.pass(cfg, k, s);
			}
		}
	}
	fn pass(&mut self, cfg: &Cfg, k: usize, s: Sig) {
		let w = cfg.wires[k];
		if let To::Probe(_) = w.to {
			self.log[k].push(s);
		} else if s != U {
			self.queue[w.on].push((w.to, s));
		}
		if !matches!(s, N(_)) {
			self.on[k] = false;
			if s != U
				&& let To::Probe(_) = w.to
			{
				self.log[k].push(U);
			}
		}
	}
	fn tick(&mut self, cfg: &Cfg, t: usize) {
		let mut due = vec![];
		for (to, s) in std::mem::take(&mut self.queue[t]) {
			match to {
				To::Res => {
					if let Some(r) = &mut self.res {
						r.push(s);
					}
				}
				To::Ent(e) if self.alive[e] => due.push((e, s)),
				_ => {}
			}
		}
		for (e, s) in due {
			if !self.alive[e] {
				continue;
			}
			self.seen[e].push(s);
			if self.comp[e] {
				self.send(cfg, e + 1, s);
			}
			if cfg.bomb && e == 0 && matches!(s, N(_)) {
				self.gone(cfg, 0);
				self.alive[0] = false;
			}
		}
	}
	/// The subject of the entity goes away.
	fn gone(&mut self, cfg: &Cfg, e: usize) {
		if self.comp[e] {
			self.comp[e] = false;
			if self.over[e + 1].is_none() {
				self.send(cfg, e + 1, U);
			}
		}
	}
}
fn read(w: &mut W, e: Entity, log: Log, bomb: bool) {
	w.w().entity_mut(e).observe(move |on: On<RxSignal<i32, i32>>, mut c: Commands| {
		let s = match on.event().signal() {
			ObserverNotification::Next(v) => N(*v),
			ObserverNotification::Error(v) => E(*v),
			ObserverNotification::Complete => C,
		};
		log.lock().unwrap().push(s);
		if bomb && matches!(s, N(_)) {
			c.entity(e).try_despawn();
		}
	});
}
fn play(run: &Run, cfg: &Cfg) -> Res {
	let mut w = W::new(|app| {
		app.init_resource::<InFrame>();
		app.init_resource::<R>();
		app.add_systems(PostUpdate, between.before(rx_executor::<PostUpdate, Real>));
	});
	let mut srcs = [S::default(), S::default(), S::default()];
	w.w().resource_mut::<InFrame>().1 = srcs[0].clone();
	let ents = [w.w().spawn_empty().id(), w.w().spawn_empty().id()];
	let logs = [Log::default(), Log::default()];
	for e in 0..2 {
		if cfg.subject[e] {
			w.w().entity_mut(ents[e]).insert(srcs[e + 1].clone().into_component());
		}
		read(&mut w, ents[e], logs[e].clone(), cfg.bomb && e == 0);
	}
	let prs = [Pr::default(), Pr::default(), Pr::default()];
	let mut subs: [Option<Subn>; 3] = [None, None, None];
	let mut m = M {
		on: [false; 3],
		log: Default::default(),
		over: [None; 3],
		alive: [true; 2],
		comp: cfg.subject,
		res: Some(vec![]),
		seen: Default::default(),
		queue: Default::default(),
	};
	let has = |c: char| cfg.ops.contains(c);
	let mut made = [false; 3];
	let n = cfg.wires.iter().take_while(|w| w.from < 3).count();
	let mut serial = 0;
	let mut later: Vec<i32> = vec![];
	for _ in 0..run.depth() {
		let mut en = vec![Op::Frame];
		for k in 0..n {
			if !made[k] {
				if has('t') && cfg.wires[k].from > 0 {
					en.push(Op::Try(k));
				} else {
					en.push(Op::Sub(k));
				}
			} else if m.on[k] && has('u') && subs[k].is_some() {
				en.push(Op::Unsub(k));
			}
		}
		if m.over[0].is_none() {
			en.push(Op::Send(0, N(0)));
			if has('b') && later.is_empty() {
				en.push(Op::Between(0));
			}
			if has('c') {
				en.extend([Op::Send(0, E(0)), Op::Send(0, C)]);
			}
		}
		if has('d') {
			(0..2).filter(|e| m.alive[*e]).for_each(|e| en.push(Op::Despawn(e)));
		}
		if has('q') {
			en.push(if m.res.is_some() { Op::Remove(2) } else { Op::Insert(2) });
		}
		if has('t') {
			(0..2).filter(|e| m.alive[*e] && cfg.subject[*e]).for_each(|e| en.push(if m.comp[e] { Op::Remove(e) } else { Op::Insert(e) }));
		}
		let op = en[mc::choose(en.len())];
		run.trace(|| format!("{op:?}"));
		run.step();
		match op {
			Op::Sub(k) => {
				made[k] = true;
				let wire = cfg.wires[k];
				let mut from = srcs[wire.from].clone();
				let h = w.h[wire.on].clone();
				subs[k] = Some(match wire.to {
					To::Ent(e) => Box::new(from.subscribe(EntityDestination::<i32, i32>::new(ents[e], h))),
					To::Res => Box::new(from.subscribe(ResourceDestination::new(
						|mut r: Mut<'_, R>, n: ObserverNotification<i32, i32>| {
							r.0.push(match n {
								ObserverNotification::Next(v) => N(v),
								ObserverNotification::Error(v) => E(v),
								ObserverNotification::Complete => C,
							})
						},
						h,
					))),
					To::Probe(p) => Box::new(from.subscribe(prs[p].probe::<i32, i32>(None))),
				});
				m.on[k] = true;
				match m.over[wire.from] {
					None => {}
					Some(s) => m.pass(cfg, k, s),
				}
			}
			Op::Try(k) => {
				made[k] = true;
				let wire = cfg.wires[k];
				let To::Probe(p) = wire.to else { unreachable!() };
				// A subject's entity that is gone fails like one that never was.
				let mut state = SystemState::<ObservableQuery<i32, i32>>::new(w.w());
				let got = state.get_mut(w.w()).try_subscribe_to(ents[wire.from - 1], prs[p].probe::<i32, i32>(None));
				state.apply(w.w());
				w.w().flush();
				m.on[k] = true;
				if m.comp[wire.from - 1] {
					let ok = got.is_ok();
					ensure!(ok, "an observable that is there was not found");
					if let Some(s) = m.over[wire.from] {
						m.pass(cfg, k, s);
					}
				} else {
					ensure!(matches!(got, Err(SubscribeError::NotAnObservable(_, e)) if e == ents[wire.from - 1]), "subscribing to what is no observable did not fail");
					m.pass(cfg, k, U);
				}
			}
			Op::Unsub(k) => {
				subs[k].as_mut().unwrap().unsubscribe();
				m.pass(cfg, k, U);
			}
			Op::Send(x, s) => {
				serial += 1;
				let s = match s {
					N(_) => N(serial),
					E(_) => E(serial),
					s => s,
				};
				match s {
					N(v) => srcs[x].next(v),
					E(v) => srcs[x].error(v),
					_ => srcs[x].complete(),
				}
				m.send(cfg, x, s);
			}
			Op::Between(_) => {
				serial += 1;
				later.push(serial);
				w.w().resource_mut::<InFrame>().0.push(serial);
			}
			Op::Despawn(e) => {
				w.w().despawn(ents[e]);
				w.w().flush();
				m.gone(cfg, e);
				m.alive[e] = false;
			}
			Op::Remove(2) => {
				let got = w.w().remove_resource::<R>().unwrap().0;
				ensure!(Some(&got) == m.res.as_ref(), "the resource was given [{}] instead of [{}]", show(&got), show(m.res.as_ref().unwrap()));
				m.res = None;
			}
			Op::Insert(2) => {
				w.w().insert_resource(R::default());
				m.res = Some(vec![]);
			}
			Op::Remove(e) => {
				w.w().entity_mut(ents[e]).remove::<SubjectComponent<S>>();
				w.w().flush();
				m.gone(cfg, e);
			}
			Op::Insert(e) => {
				srcs[e + 1] = S::default();
				m.over[e + 1] = None;
				w.w().entity_mut(ents[e]).insert(srcs[e + 1].clone().into_component());
				w.w().flush();
				m.comp[e] = true;
			}
			Op::Frame => {
				w.frame(1, 1);
				m.tick(cfg, 0);
				for v in later.drain(..) {
					m.send(cfg, 0, N(v));
				}
				m.tick(cfg, 1);
			}
		}
		for e in 0..2 {
			let got = logs[e].lock().unwrap().clone();
			ensure!(got == m.seen[e], "entity {e} was sent [{}] instead of [{}]", show(&got), show(&m.seen[e]));
		}
		if let Some(want) = &m.res {
			let got = w.w().resource::<R>().0.clone();
			ensure!(&got == want, "the resource was given [{}] instead of [{}]", show(&got), show(want));
		}
		for k in 0..n {
			if let To::Probe(p) = cfg.wires[k].to {
				same(&format!("subscriber {k}"), &prs[p], &m.log[k])?;
			}
			if let Some(s) = &subs[k] {
				ensure!(s.is_closed() != m.on[k], "subscription {k} is {}", if m.on[k] { "closed although it has not ended" } else { "still open after its end" });
			}
		}
		run.state(&(&m.log, &m.seen, m.queue[0].len(), m.queue[1].len(), format!("{:?}{:?}", m.res, op)));
	}
	if m.seen.iter().any(|s| s.len() > 1) || m.res.is_some_and(|r| r.len() > 1) || m.log.iter().any(|l| l.len() > 1) {
		run.interesting();
	}
	for _ in 0..2 {
		w.frame(1, 1);
	}
	ensure!(w.idle(), "work is left on a scheduler after every signal was delivered");
	Ok(())
}

pub fn scenarios(th: bool) -> Vec<Scenario> {
	use To::*;
	let mut v = vec![];
	let none = Wire { from: 9, to: Res, on: 0 };
	let wire = |from, to, on| Wire { from, to, on };
	let mut add = |name: &str, depth: usize, wires: [Wire; 3], subject: [bool; 2], bomb: bool, ops: &'static str| {
		let cfg = Cfg { wires, subject, bomb, ops };
		v.push(Scenario::new(name.to_string(), &["B06"], depth + th as usize, move |run| play(run, &cfg)));
	};
	add("entity destinations", 6, [wire(0, Ent(0), 0), wire(0, Ent(1), 1), none], [false, false], false, "ucdb");
	add("two subscriptions to one entity", 6, [wire(0, Ent(0), 0), wire(0, Ent(0), 1), none], [true, false], false, "ucdb");
	add("entity destinations despawning themselves", 6, [wire(0, Ent(0), 0), wire(0, Ent(0), 0), none], [true, false], true, "ucb");
	add("signals relayed by a subject's entity", 6, [wire(0, Ent(0), 0), wire(1, Probe(1), 0), none], [true, false], false, "ucd");
	add("signals relayed in one schedule", 6, [wire(0, Ent(0), 0), wire(1, Ent(1), 0), wire(2, Probe(2), 0)], [true, true], false, "cd");
	add("signals relayed to a later schedule", 6, [wire(0, Ent(0), 0), wire(1, Ent(1), 1), wire(1, Res, 1)], [true, false], false, "cdb");
	add("signals relayed to an earlier schedule", 6, [wire(0, Ent(0), 1), wire(1, Ent(1), 0), none], [true, true], false, "cdb");
	add("resource destinations", 6, [wire(0, Res, 0), wire(0, Res, 1), none], [false, false], false, "ucqb");
	add("checked subscriptions", 6, [wire(1, Probe(0), 0), wire(2, Probe(1), 0), wire(0, Ent(0), 0)], [true, false], false, "tdc");
	v
}

//! Subscriptions as entities (B01) and the ways of making them (B06): what each subscriber observes,
//! and which entities exist, for every sequence of operations on the subscribed entities, the
//! subscription entities and the source.
use super::rigb::*;
use crate::engine::{Fail, Res, Run, Scenario};
use bevy_app::prelude::*;
use bevy_ecs::prelude::*;
use bevy_time::Virtual;
use rx_bevy_common::*;
use rx_bevy_observable_proxy::observable::*;
use rx_core::prelude::*;
use std::mc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Via {
	/// commands.subscribe(entity, destination)
	Cmd,
	/// commands.entity(entity).as_observable().subscribe(destination)
	AsObs,
	/// ProxyObservable::new(entity).subscribe(destination)
	Proxy(usize),
	/// commands.with_observable(observable).subscribe(destination)
	With,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
	Sub(usize),
	/// Requested by a system in Update of the next frame.
	SubIn(usize),
	/// Through whatever the caller got: the entity or the handle.
	Unsub(usize),
	DropHandle(usize),
	DespawnSub(usize),
	RemoveSub(usize),
	Next(usize),
	Error(usize),
	Complete(usize),
	/// As an event on the entity of the subject.
	Signal(Sig),
	DespawnT(usize),
	RemoveT(usize),
	InsertT(usize),
	InsertIn(usize),
	Exit,
	Frame,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
	No,
	/// A proxy waits for its scheduler.
	Tick,
	/// Requested; so many attempts are left.
	Wait(usize),
	Live,
	Over,
}
#[derive(Clone, Debug)]
struct Sm {
	st: St,
	/// Whether the subscriber is still there to be told anything.
	open: bool,
	ent: bool,
	/// The entity goes away when the schedule of this number runs.
	leaves: Option<usize>,
	limit: Option<usize>,
	log: Vec<Sig>,
	via: Via,
	target: usize,
}
#[derive(Clone, Copy, PartialEq, Eq)]
enum Subj {
	Open,
	Done(Sig),
	Gone,
}
#[derive(Clone)]
struct M {
	subs: Vec<Sm>,
	src: [Subj; 2],
	alive: [bool; 2],
	comp: [bool; 2],
}
impl Sm {
	fn end(&mut self, s: Option<Sig>) {
		if self.open {
			self.log.extend(s);
			self.log.push(U);
			self.open = false;
		}
		if self.st == St::Live {
			self.st = St::Over;
			// Told by its own teardown.
			self.leaves = Some(self.leaves.unwrap_or(2).min(2));
		}
	}
	fn gone(&mut self) {
		self.ent = false;
		self.leaves = None;
	}
}
impl M {
	fn push(&mut self, x: usize, s: Sig) {
		if self.src[x] != Subj::Open {
			return;
		}
		for m in self.subs.iter_mut().filter(|m| m.st == St::Live && m.target == x && m.open) {
			match s {
				N(v) => {
					m.log.push(N(v));
					if let Some(l) = m.limit.as_mut() {
						*l -= 1;
						if *l == 0 {
							m.end(None);
						}
					}
				}
				s => m.end(Some(s)),
			}
		}
		if !matches!(s, N(_)) {
			self.src[x] = Subj::Done(s);
		}
	}
	fn unsubscribe_subject(&mut self, x: usize) {
		if self.src[x] == Subj::Open {
			self.src[x] = Subj::Gone;
			self.subs.iter_mut().filter(|m| m.target == x && m.st == St::Live).for_each(|m| m.end(None));
		}
	}
	fn attach(&mut self, k: usize) {
		let src = self.src[self.subs[k].target];
		let m = &mut self.subs[k];
		m.st = St::Live;
		match src {
			_ if !m.open => m.end(None),
			Subj::Open => return,
			Subj::Done(s) => m.end(Some(s)),
			Subj::Gone => m.end(None),
		}
		if m.via != Via::With {
			m.gone();
		}
	}
	/// The command that subscribes is applied.
	fn attempt(&mut self, k: usize, left: usize) {
		let t = self.subs[k].target;
		let m = &mut self.subs[k];
		if !m.ent {
			m.st = St::Over;
			m.end(None);
		} else if self.comp[t] {
			self.attach(k);
		} else if left > 0 {
			m.st = St::Wait(left - 1);
		} else {
			m.st = St::Over;
			m.end(None);
		}
	}
	fn retries(&mut self) {
		for k in 0..self.subs.len() {
			if let St::Wait(left) = self.subs[k].st {
				self.attempt(k, left);
			}
		}
	}
	fn tick(&mut self, s: usize) {
		for k in 0..self.subs.len() {
			if self.subs[k].leaves == Some(s) {
				self.subs[k].gone();
			}
			if self.subs[k].st == St::Tick && self.subs[k].via == Via::Proxy(s) {
				self.subs[k].ent = true;
				self.attempt(k, SUBSCRIBE_COMMAND_MAX_RETRIES);
			}
		}
	}
	fn sub(&mut self, k: usize) {
		let m = &mut self.subs[k];
		m.open = true;
		match m.via {
			Via::Proxy(_) => m.st = St::Tick,
			Via::With => {
				m.ent = true;
				self.attach(k);
			}
			_ => {
				m.ent = true;
				self.attempt(k, SUBSCRIBE_COMMAND_MAX_RETRIES);
			}
		}
	}
}
#[derive(Resource, Default)]
struct InFrame(Vec<Box<dyn FnOnce(&mut World) + Send + Sync>>);
fn in_frame(world: &mut World) {
	for f in std::mem::take(&mut world.resource_mut::<InFrame>().0) {
		f(world);
	}
	world.flush();
}
type S = PublishSubject<i32, i32>;
enum Handle {
	None,
	Ent(Entity),
	Sub(Subn, Option<Entity>),
}
pub struct Cfg {
	vias: [Via; 2],
	targets: [usize; 2],
	limits: [Option<usize>; 2],
	present: bool,
	ops: &'static str,
}

fn same_value(v: i32) -> i32 {
	v
}
fn mapped(s: &S) -> ObservableComponent<impl Observable<Out = i32, OutError = i32> + Send + Sync + use<>> {
	s.clone().map(same_value).into_component()
}
fn insert_target(w: &mut World, x: usize, e: Entity, src: &[S; 2]) {
	if x == 0 {
		w.entity_mut(e).insert(src[0].clone().into_component());
	} else {
		w.entity_mut(e).insert(mapped(&src[1]));
	}
	w.flush();
}

fn play(run: &Run, cfg: &Cfg) -> Res {
	let mut w = W::new(|app| {
		app.init_resource::<InFrame>();
		app.add_systems(Update, in_frame.before(rx_executor::<Update, Virtual>));
	});
	w.baseline();
	let mut src: [S; 2] = [S::default(), S::default()];
	let ents = [w.w().spawn_empty().id(), w.w().spawn_empty().id()];
	let mut m = M {
		subs: (0..2)
			.map(|k| Sm { st: St::No, open: false, ent: false, leaves: None, limit: cfg.limits[k], log: vec![], via: cfg.vias[k], target: cfg.targets[k] })
			.collect(),
		src: [Subj::Open; 2],
		alive: [true; 2],
		comp: [cfg.present; 2],
	};
	if cfg.present {
		(0..2).for_each(|x| insert_target(w.w(), x, ents[x], &src));
	}
	let prs = [Pr::default(), Pr::default()];
	let mut handles = [Handle::None, Handle::None];
	let late: std::real::sync::Arc<std::real::sync::Mutex<Vec<(usize, Entity)>>> = Default::default();
	let mut inside: Vec<Op> = vec![];
	let mut serial = 0;
	let has = |c: char| cfg.ops.contains(c);
	let mut exited = false;
	for _ in 0..run.depth() {
		if exited {
			break;
		}
		let mut en = vec![Op::Frame];
		for k in 0..2 {
			if m.subs[k].st == St::No && !inside.contains(&Op::SubIn(k)) {
				// Commands of an entity that is gone cannot be had.
				if cfg.vias[k] == Via::AsObs && !m.alive[cfg.targets[k]] {
					continue;
				}
				if k == 0 || m.subs[0].st != St::No || cfg.vias[0] == Via::AsObs {
					en.push(Op::Sub(k));
					if has('i') && cfg.vias[k] == Via::Cmd {
						en.push(Op::SubIn(k));
					}
				}
				continue;
			}
			if m.subs[k].st == St::No {
				continue;
			}
			match &handles[k] {
				Handle::None => {}
				Handle::Ent(e) => {
					en.push(Op::Unsub(k));
					if has('r') && w.w().get::<SubscriptionComponent>(*e).is_some() {
						en.push(Op::RemoveSub(k));
					}
				}
				Handle::Sub(_, e) => {
					en.push(Op::Unsub(k));
					if k == 0 {
						en.push(Op::DropHandle(k));
					}
					if has('r')
						&& let Some(e) = e
						&& w.w().get_entity(*e).is_ok()
					{
						en.push(Op::DespawnSub(k));
					}
				}
			}
		}
		for x in 0..2 {
			if !cfg.targets.contains(&x) {
				continue;
			}
			en.push(Op::Next(x));
			if has('c') && m.src[x] == Subj::Open {
				en.push(Op::Complete(x));
				en.push(Op::Error(x));
			}
			if has('s') && x == 0 && m.alive[x] {
				en.extend([Op::Signal(N(0)), Op::Signal(C)]);
			}
			if has('d') && m.alive[x] {
				en.push(Op::DespawnT(x));
				if m.comp[x] {
					en.push(Op::RemoveT(x));
				}
			}
			if !m.comp[x] && m.alive[x] && has('p') && !inside.contains(&Op::InsertIn(x)) {
				en.push(Op::InsertT(x));
				if has('i') {
					en.push(Op::InsertIn(x));
				}
			}
		}
		if has('x') && !m.subs.iter().any(|s| matches!(s.st, St::Tick | St::Wait(_))) && m.subs.iter().any(|s| s.st == St::Live) && inside.is_empty() {
			en.push(Op::Exit);
		}
		let op = en[mc::choose(en.len())];
		run.trace(|| format!("{op:?}"));
		run.step();
		match op {
			Op::Sub(k) => {
				let p = prs[k].probe::<i32, i32>(cfg.limits[k]);
				let (e, x) = (ents[cfg.targets[k]], cfg.targets[k]);
				let h = w.h.clone();
				let source = src[x].clone();
				let mut c = w.w().commands();
				handles[k] = match cfg.vias[k] {
					Via::Cmd => Handle::Ent(c.subscribe(e, p)),
					Via::AsObs => {
						let s = c.entity(e).as_observable::<i32, i32>(h[0].clone()).subscribe(p);
						let id = s.entity();
						Handle::Sub(Box::new(s), Some(id))
					}
					Via::Proxy(s) => Handle::Sub(Box::new(ProxyObservable::<i32, i32>::new(e, h[s].clone()).subscribe(p)), None),
					Via::With => {
						let s = c.with_observable(source, h[0].clone()).subscribe(p);
						let id = s.entity();
						Handle::Sub(Box::new(s), Some(id))
					}
				};
				w.w().flush();
				m.sub(k);
				if cfg.vias[k] == Via::With && m.subs[k].st == St::Over {
					m.subs[k].leaves = Some(0);
				}
			}
			Op::SubIn(k) => {
				let (p, e) = (prs[k].probe::<i32, i32>(cfg.limits[k]), ents[cfg.targets[k]]);
				let late = late.clone();
				w.w().resource_mut::<InFrame>().0.push(Box::new(move |w| {
					let id = w.commands().subscribe(e, p);
					late.lock().unwrap().push((k, id));
				}));
				inside.push(op);
			}
			Op::InsertIn(x) => {
				let (e, src) = (ents[x], src.clone());
				w.w().resource_mut::<InFrame>().0.push(Box::new(move |w| {
					w.flush();
					if w.get_entity(e).is_ok() {
						insert_target(w, x, e, &src);
					}
				}));
				inside.push(op);
			}
			Op::Unsub(k) => {
				let s = &mut m.subs[k];
				match &mut handles[k] {
					Handle::None => {}
					Handle::Ent(e) => {
						let e = *e;
						w.w().commands().unsubscribe(e);
						w.w().flush();
						s.gone();
						// A request is withdrawn no later than its next attempt.
						s.end(None);
					}
					Handle::Sub(h, _) => {
						h.unsubscribe();
						match s.st {
							St::Tick => {
								s.st = St::Over;
								s.end(None);
							}
							St::Wait(_) => {
								s.end(None);
								s.leaves = Some(match s.via {
									Via::Proxy(n) => n,
									_ => 0,
								});
							}
							_ => {
								s.end(None);
								if s.ent {
									s.leaves = Some(match s.via {
										Via::Proxy(n) => n,
										_ => 0,
									});
								}
							}
						}
					}
				}
			}
			Op::DropHandle(k) => {
				handles[k] = Handle::None;
				// Only a proxy's handle owns anything.
				let s = &mut m.subs[k];
				if let Via::Proxy(n) = s.via {
					match s.st {
						St::Tick => {
							s.st = St::Over;
							s.end(None);
						}
						_ => {
							s.end(None);
							if s.ent {
								s.leaves = Some(n);
							}
						}
					}
				}
			}
			Op::DespawnSub(k) => {
				if let Handle::Sub(_, Some(e)) = &handles[k] {
					let e = *e;
					w.w().despawn(e);
				}
				let s = &mut m.subs[k];
				s.end(None);
				s.gone();
			}
			Op::RemoveSub(k) => {
				if let Handle::Ent(e) = &handles[k] {
					let e = *e;
					w.w().entity_mut(e).remove::<SubscriptionComponent>();
				}
				m.subs[k].end(None);
			}
			Op::Next(x) => {
				serial += 1;
				src[x].next(serial);
				m.push(x, N(serial));
			}
			Op::Error(x) => {
				serial += 1;
				src[x].error(serial);
				m.push(x, E(serial));
			}
			Op::Complete(x) => {
				src[x].complete();
				m.push(x, C);
			}
			Op::Signal(s) => {
				serial += 1;
				let (e, comp) = (ents[0], m.comp[0]);
				if s == C {
					w.w().trigger(RxSignal::<i32, i32>::new_complete(e));
				} else {
					w.w().trigger(RxSignal::<i32, i32>::new_next(serial, e));
				}
				if comp {
					m.push(0, if s == C { C } else { N(serial) });
				}
			}
			Op::DespawnT(x) | Op::RemoveT(x) => {
				let e = ents[x];
				if let Op::DespawnT(_) = op {
					w.w().despawn(e);
					m.alive[x] = false;
				} else if x == 0 {
					w.w().entity_mut(e).remove::<SubjectComponent<S>>();
				} else {
					remove_mapped(w.w(), e, &src[1]);
				}
				w.w().flush();
				if m.comp[x] && x == 0 {
					m.unsubscribe_subject(0);
				}
				m.comp[x] = false;
			}
			Op::InsertT(x) => {
				insert_target(w.w(), x, ents[x], &src);
				m.comp[x] = true;
			}
			Op::Exit | Op::Frame => {
				if op == Op::Exit {
					w.w().write_message(AppExit::Success);
					exited = true;
				}
				w.frame(1, 1);
				m.retries();
				for o in std::mem::take(&mut inside) {
					match o {
						Op::SubIn(k) => m.sub(k),
						Op::InsertIn(x) if m.alive[x] => m.comp[x] = true,
						_ => {}
					}
				}
				for (k, e) in std::mem::take(&mut *late.lock().unwrap()) {
					handles[k] = Handle::Ent(e);
				}
				m.tick(0);
				m.tick(1);
				m.retries();
				for s in m.subs.iter_mut() {
					if let St::Wait(_) = s.st {
						s.ent = false;
					}
				}
				m.tick(2);
				for k in 0..2 {
					if m.subs[k].st == St::Over && m.subs[k].via == Via::Cmd {
						m.subs[k].gone();
					}
				}
				if exited {
					m.subs.iter_mut().for_each(|s| s.end(None));
				}
			}
		}
		check(run, &mut w, &m, &prs, &handles, &op)?;
		run.state(&(prs[0].log(), prs[1].log(), format!("{op:?}"), w.count()));
	}
	if prs.iter().any(|p| p.log().len() > 1) {
		run.interesting();
	}
	// Everything ends, then nothing is left.
	for x in 0..2 {
		if m.alive[x] {
			w.w().despawn(ents[x]);
		}
	}
	src[0].unsubscribe();
	src[1].unsubscribe();
	for h in &mut handles {
		if let Handle::Sub(s, _) = h {
			s.unsubscribe();
		}
	}
	for _ in 0..4 {
		w.frame(1, 1);
	}
	for k in 0..2 {
		let g = prs[k].0.lock().unwrap();
		if m.subs[k].st != St::No {
			ensure!(g.log.last() == Some(&U) && g.teardowns == 1, "subscriber {k} observed [{}] and {} teardowns although everything ended", show(&g.log), g.teardowns);
		}
	}
	ensure!(w.leftover() == 0, "{} entities are left after everything ended", w.leftover());
	ensure!(w.idle(), "work is left on a scheduler after everything ended");
	Ok(())
}

fn remove_mapped(w: &mut World, e: Entity, s: &S) {
	fn go<O: 'static + Observable + Send + Sync>(w: &mut World, e: Entity, _: impl FnOnce() -> ObservableComponent<O>) {
		w.entity_mut(e).remove::<ObservableComponent<O>>();
	}
	let s = s.clone();
	go(w, e, move || mapped(&s))
}
fn check(run: &Run, w: &mut W, m: &M, prs: &[Pr; 2], handles: &[Handle; 2], op: &Op) -> Res {
	for k in 0..2 {
		let s = &m.subs[k];
		let log = prs[k].log();
		// The subscriber of a request that was withdrawn hears of it with the next attempt.
		if matches!(s.st, St::Wait(_)) && s.log.last() == Some(&U) && log.is_empty() {
			continue;
		}
		same(&format!("subscriber {k}"), &prs[k], &s.log)?;
		let e = match &handles[k] {
			Handle::Ent(e) | Handle::Sub(_, Some(e)) => Some(*e),
			_ => None,
		};
		// Which of them are despawned before the app stops is up to the order within its last schedule.
		if let Some(e) = e
			&& *op != Op::Exit
			&& w.w().get_entity(e).is_ok() != s.ent
		{
			fail!("the entity of subscription {k} {}", if s.ent { "is gone" } else { "is still there" });
		}
	}
	Ok(())
}

pub fn scenarios(th: bool) -> Vec<Scenario> {
	use Via::*;
	let mut v = vec![];
	let mut add = |name: &str, props: &[&'static str], depth: usize, vias: [Via; 2], targets: [usize; 2], limits: [Option<usize>; 2], present: bool, ops: &'static str| {
		let cfg = Cfg { vias, targets, limits, present, ops };
		v.push(Scenario::new(name.to_string(), props, depth + th as usize, move |run| play(run, &cfg)));
	};
	let free = [None, None];
	add("entity subscriptions to a subject", &["B01"], 5, [Cmd, Cmd], [0, 0], free, true, "rcdx");
	add("entity subscriptions to a subject and an observable", &["B01"], 5, [Cmd, Cmd], [0, 1], [Some(1), None], true, "rcdx");
	add("entity subscriptions to an observable", &["B01"], 5, [Cmd, Cmd], [1, 1], [None, Some(2)], true, "rcd");
	add("entity subscriptions held by handles", &["B01"], 5, [AsObs, With], [0, 0], [None, Some(1)], true, "rcdx");
	add("subscriptions requested early", &["B06"], 6, [Cmd, Cmd], [0, 1], free, false, "pi");
	add("subscriptions by handle requested early", &["B06"], 6, [AsObs, Cmd], [1, 0], free, false, "pd");
	add("signals sent to a subject's entity", &["B06"], 5, [Cmd, AsObs], [0, 0], [None, Some(1)], true, "sd");
	add("proxied subjects", &["B06"], 5, [Proxy(0), Proxy(0)], [0, 0], [None, Some(1)], true, "cd");
	add("proxied observables on two schedulers", &["B06"], 5, [Proxy(1), Proxy(0)], [1, 0], free, true, "cd");
	add("proxies made early", &["B06"], 6, [Proxy(0), Proxy(1)], [0, 1], free, false, "pi");
	v
}

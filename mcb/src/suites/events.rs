//! Event observables (B02): which events reach a subscriber, and what is left behind.
use super::rigb::*;
use crate::engine::{Fail, Res, Run, Scenario};
use bevy_app::prelude::*;
use bevy_ecs::prelude::*;
use rx_bevy_common::*;
use rx_bevy_observable_event::observable::*;
use rx_core::prelude::*;
use std::mc;

#[derive(EntityEvent, Clone, Debug)]
struct Ev {
	entity: Entity,
	v: i32,
}
impl Lab for Ev {
	fn lab(&self) -> i32 {
		self.v
	}
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
	Sub(usize),
	Unsub(usize),
	Drop(usize),
	Trigger(usize),
	/// Two events at once, from a command queue.
	Queue(usize),
	Despawn(usize),
	Frame,
}
#[derive(Clone, Default)]
struct Sm {
	on: bool,
	/// The observer entity was made.
	linked: bool,
	limit: Option<usize>,
	log: Vec<Sig>,
}
impl Sm {
	fn next(&mut self, v: i32) {
		if self.on && self.linked {
			self.log.push(N(v));
			if let Some(l) = self.limit.as_mut() {
				*l -= 1;
				if *l == 0 {
					self.end();
				}
			}
		}
	}
	fn end(&mut self) {
		if self.on {
			self.on = false;
			self.log.push(U);
		}
	}
	fn complete(&mut self) {
		if self.on {
			self.log.push(C);
			self.end();
		}
	}
}

fn play(run: &Run, sched: usize, limits: [Option<usize>; 2], targets: [usize; 2]) -> Res {
	let mut w = W::new(|_| {});
	w.baseline();
	let ent = [w.w().spawn_empty().id(), w.w().spawn_empty().id()];
	let mut alive = [true; 2];
	let prs = [Pr::default(), Pr::default()];
	let mut subs: Vec<Option<Subn>> = vec![None, None];
	let mut used = [false; 2];
	let mut model: Vec<Sm> = limits.iter().map(|l| Sm { limit: *l, ..Default::default() }).collect();
	let mut serial = 0;
	// One observable is used for all subscriptions to an entity.
	let mut obs: Vec<EventObservable<Ev>> = ent.iter().map(|e| EventObservable::new(*e, w.h[sched].clone())).collect();
	for _ in 0..run.depth() {
		let mut en = vec![Op::Frame];
		for k in 0..2 {
			if !used[k] && (k == 0 || used[0]) {
				en.push(Op::Sub(k));
			} else if subs[k].is_some() {
				en.push(Op::Unsub(k));
				if k == 0 {
					en.push(Op::Drop(k));
				}
			}
		}
		for x in 0..2 {
			if alive[x] && (x == 0 || targets.contains(&1) || run.depth() < 6) {
				en.push(Op::Trigger(x));
				if x == 0 {
					en.push(Op::Queue(x));
				}
				en.push(Op::Despawn(x));
			}
		}
		let op = en[mc::choose(en.len())];
		run.trace(|| format!("{op:?}"));
		run.step();
		match op {
			Op::Sub(k) => {
				used[k] = true;
				subs[k] = Some(Box::new(obs[targets[k]].subscribe(prs[k].probe::<Ev, Never>(limits[k]))));
				model[k].on = true;
			}
			Op::Unsub(k) => {
				subs[k].as_mut().unwrap().unsubscribe();
				model[k].end();
			}
			Op::Drop(k) => {
				subs[k] = None;
				model[k].end();
			}
			Op::Trigger(x) => {
				serial += 1;
				w.w().trigger(Ev { entity: ent[x], v: serial });
				(0..2).filter(|k| targets[*k] == x).for_each(|k| model[k].next(serial));
			}
			Op::Queue(x) => {
				for _ in 0..2 {
					serial += 1;
					w.w().commands().trigger(Ev { entity: ent[x], v: serial });
					(0..2).filter(|k| targets[*k] == x).for_each(|k| model[k].next(serial));
				}
				w.w().flush();
			}
			Op::Despawn(x) => {
				w.w().despawn(ent[x]);
				alive[x] = false;
				for k in 0..2 {
					if targets[k] == x && model[k].linked {
						model[k].complete();
					}
				}
			}
			Op::Frame => {
				w.frame(1, 1);
				for k in 0..2 {
					if model[k].on && !model[k].linked {
						model[k].linked = true;
						if !alive[targets[k]] {
							model[k].complete();
						}
					}
				}
			}
		}
		for k in 0..2 {
			same(&format!("subscriber {k}"), &prs[k], &model[k].log)?;
			if let Some(s) = &subs[k] {
				ensure!(s.is_closed() != model[k].on, "subscription {k} says closed: {}", s.is_closed());
			}
		}
		run.state(&(prs[0].log(), prs[1].log(), format!("{op:?}")));
	}
	if prs.iter().any(|p| p.log().len() > 1) {
		run.interesting();
	}
	drop(subs);
	w.frame(1, 1);
	w.frame(1, 1);
	let left = w.leftover() - alive.iter().filter(|a| **a).count() as i64;
	ensure!(left == 0, "{left} entities are left after every subscription ended");
	ensure!(w.idle(), "work is left on a scheduler after every subscription ended");
	Ok(())
}

pub fn scenarios(th: bool) -> Vec<Scenario> {
	let mut v = vec![];
	let mut add = |name: &str, sched: usize, limits: [Option<usize>; 2], targets: [usize; 2]| {
		v.push(Scenario::new(name.to_string(), &["B02"], 6 + th as usize, move |run| play(run, sched, limits, targets)));
	};
	add("events of one entity", 0, [None, None], [0, 0]);
	add("events of two entities", 1, [None, None], [0, 1]);
	add("events, subscribers ending themselves", 0, [Some(1), Some(2)], [0, 0]);
	v
}

//! Bevy schedulers (B05): work of several schedules in one app.
use super::rigb::*;
use super::sched::{Did, Kind, Op, Ref};
use crate::engine::{Fail, Res, Run, Scenario};
use bevy_ecs::prelude::*;
use rx_bevy_common::*;
use rx_core::prelude::*;
use rx_core_scheduler_ticking::Tick;
use std::mc;
use std::real::sync::{Arc, Mutex};
use std::time::Duration;

fn two(run: &Run) -> Res {
	let mut w = W::new(|_| {});
	let kinds = [Kind::Imm, Kind::Delay(2), Kind::Rep(1, false, 9), Kind::Rep(2, true, 1), Kind::Cont];
	let mut refs: Vec<Ref> = (0..3).map(|_| Ref::default()).collect();
	let ids: Vec<WorkCancellationId> = w.h.iter().map(|h| h.lock().generate_cancellation_id()).collect();
	let log: Arc<Mutex<Vec<(usize, Did)>>> = Default::default();
	let wrong: Arc<Mutex<Option<String>>> = Default::default();
	let mut made = [0; 3];
	let mut frames = 0;
	for _ in 0..run.depth() {
		let mut en: Vec<(usize, Option<Op>, (u64, u64))> = vec![];
		for f in [(0, 0), (1, 2), (2, 1), (0, 5)] {
			en.push((0, None, f));
		}
		for s in 0..3 {
			if made.iter().sum::<usize>() < 3 {
				for k in kinds {
					en.push((s, Some(Op::New(k, 0)), (0, 0)));
				}
			}
			if made[s] > 0 {
				en.push((s, Some(Op::Cancel(0)), (0, 0)));
			}
		}
		let (s, op, (dv, dr)) = en[mc::choose(en.len())];
		run.step();
		match op {
			Some(op @ Op::New(k, _)) => {
				let id = made[s];
				made[s] += 1;
				let (log, wrong) = (log.clone(), wrong.clone());
				let mut f = move |t: Tick, c: &mut RxBevyContextItem<'_>| {
					log.lock().unwrap().push((s, Did { work: id, now: t.now().as_millis() as u64, op: None, done: false }));
					let p = c.deferred_world.resource::<Phase>().0 as usize;
					if p != s + 1 {
						*wrong.lock().unwrap() = Some(format!("work of scheduler {s} ran in part {p} of the frame"));
					}
				};
				let ms = Duration::from_millis;
				let mut l = w.h[s].lock();
				match k {
					Kind::Imm => l.schedule_immediate_work(f, ids[s]),
					Kind::Delay(d) => l.schedule_delayed_work(f, ms(d), ids[s]),
					Kind::Rep(i, imm, max) => l.schedule_repeated_work(
						move |t, c: &mut RxBevyContextItem<'_>| {
							f(t, c);
							WorkResult::Pending
						},
						ms(i),
						imm,
						max,
						ids[s],
					),
					_ => l.schedule_continuous_work(
						move |t, c: &mut RxBevyContextItem<'_>| {
							f(t, c);
							WorkResult::Pending
						},
						ids[s],
					),
				}
				refs[s].apply(op);
			}
			Some(op) => {
				w.h[s].lock().cancel(ids[s]);
				refs[s].apply(op);
			}
			None => {
				frames += 1;
				w.frame(dv, dr);
				let real = log.lock().unwrap().clone();
				for s in 0..3 {
					let mine: Vec<Did> = real.iter().filter(|d| d.0 == s).map(|d| d.1).collect();
					refs[s].tick(if s == 1 { dr } else { dv }, frames, &mine);
				}
			}
		}
		let real = log.lock().unwrap().clone();
		run.trace(|| format!("scheduler {s} {op:?} frame {dv} {dr} -> {real:?}"));
		for s in 0..3 {
			let f = |l: &[Did]| l.iter().map(|d| format!("#{}@{}", d.work, d.now)).collect::<Vec<_>>().join(" ");
			let mine: Vec<Did> = real.iter().filter(|d| d.0 == s).map(|d| d.1).collect();
			ensure!(mine == refs[s].log, "scheduler {s} ran [{}] instead of [{}]", f(&mine), f(&refs[s].log));
		}
		if let Some(m) = wrong.lock().unwrap().take() {
			fail!("{m}");
		}
		ensure!(w.idle() == refs.iter().all(|r| r.is_empty()), "is_empty() of the executors is {}", w.idle());
		run.state(&format!("{op:?}{s} {real:?}"));
	}
	if log.lock().unwrap().len() > 2 {
		run.interesting();
	}
	Ok(())
}

pub fn scenarios(th: bool) -> Vec<Scenario> {
	let mut v = super::sched::scenarios_of(2 + th as usize, "bevy executor, ", "B05", "B05");
	v.push(Scenario::new("three schedulers", &["B05"], 4 + th as usize, two));
	v
}

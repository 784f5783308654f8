//! Message, keyboard and resource observables (B03, B04): what is read in each frame.
use super::rigb::*;
use crate::engine::{Fail, Res, Run, Scenario};
use bevy_app::prelude::*;
use bevy_ecs::prelude::*;
use bevy_input::{ButtonInput, keyboard::KeyCode};
use rx_bevy_common::*;
use rx_bevy_observable_keyboard::observable::*;
use rx_bevy_observable_message::observable::*;
use rx_bevy_observable_resource::observable::*;
use rx_core::prelude::*;
use std::mc;

#[derive(Message, Clone, Debug)]
struct Msg(i32);
impl Lab for Msg {
	fn lab(&self) -> i32 {
		self.0
	}
}
impl Lab for KeyCode {
	fn lab(&self) -> i32 {
		match self {
			KeyCode::KeyA => 1,
			KeyCode::KeyB => 2,
			_ => 0,
		}
	}
}
#[derive(Resource)]
struct R(i32);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
	Sub(usize),
	Unsub(usize),
	Drop(usize),
	Write(usize),
	/// Written by a system in the middle of the next frame.
	WriteIn,
	Press(i32),
	Release(i32),
	Insert,
	Mutate,
	MutateIn,
	Remove,
	Frame,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Src {
	Msg,
	Key(u8),
	Res(bool, bool),
}
/// One subscriber as the model sees it.
#[derive(Clone, Default)]
struct Sm {
	on: bool,
	cursor: usize,
	existed: bool,
	limit: Option<usize>,
	log: Vec<Sig>,
}
impl Sm {
	fn next(&mut self, v: i32) {
		if !self.on {
			return;
		}
		self.log.push(N(v));
		if let Some(l) = self.limit.as_mut() {
			*l -= 1;
			if *l == 0 {
				self.on = false;
				self.log.push(U);
			}
		}
	}
	fn end(&mut self) {
		if self.on {
			self.on = false;
			self.log.push(U);
		}
	}
}
#[derive(Resource, Default)]
struct InFrame {
	write: Vec<i32>,
	mutate: Option<i32>,
}
/// Part of the frame in which the scheduler `s` runs, and the part in which the system writes.
fn write_in(mut q: ResMut<InFrame>, mut m: MessageWriter<Msg>) {
	for v in q.write.drain(..) {
		m.write(Msg(v));
	}
}
fn mutate_in(mut q: ResMut<InFrame>, r: Option<ResMut<R>>) {
	if let Some(v) = q.mutate.take()
		&& let Some(mut r) = r
	{
		r.0 = v;
	}
}

fn play(run: &Run, src: Src, sched: usize, limits: [Option<usize>; 2], in_post: bool) -> Res {
	let mut w = W::new(|app| {
		app.add_message::<Msg>();
		app.init_resource::<ButtonInput<KeyCode>>();
		app.init_resource::<InFrame>();
		if in_post {
			app.add_systems(PostUpdate, (write_in, mutate_in).after(rx_executor::<PostUpdate, bevy_time::Real>));
		} else {
			app.add_systems(PreUpdate, (write_in, mutate_in));
		}
	});
	w.baseline();
	let mut subs: Vec<Option<Subn>> = vec![None, None];
	let prs = [Pr::default(), Pr::default()];
	let mut model: Vec<Sm> = limits.iter().map(|l| Sm { limit: *l, ..Default::default() }).collect();
	let mut used = [false; 2];
	let mut msgs: Vec<i32> = vec![];
	// Messages before this index are gone: they are kept until the second frame after their own.
	let (mut kept, mut kept_next) = (0, 0);
	let mut serial = 0;
	let (mut down, mut just_down, mut just_up) = ([false; 3], [false; 3], [false; 3]);
	let (mut res, mut changed): (Option<i32>, bool) = (None, false);
	let (mut wr, mut mu): (Vec<i32>, Option<i32>) = (vec![], None);
	let mut seen = [0; 2];
	for _ in 0..run.depth() {
		let mut en = vec![Op::Frame];
		for k in 0..2 {
			if !used[k] && (k == 0 || used[0]) {
				en.push(Op::Sub(k));
			} else if subs[k].is_some() {
				en.push(Op::Unsub(k));
				if k == 0 {
					en.push(Op::Drop(k));
				}
			}
		}
		match src {
			Src::Msg => en.extend([Op::Write(1), Op::Write(2), Op::WriteIn]),
			Src::Key(_) => {
				for k in 1..3 {
					en.push(if down[k as usize] { Op::Release(k) } else { Op::Press(k) });
				}
			}
			Src::Res(..) => {
				en.push(Op::Insert);
				if res.is_some() {
					en.extend([Op::Mutate, Op::MutateIn, Op::Remove]);
				}
			}
		}
		let op = en[mc::choose(en.len())];
		run.trace(|| format!("{op:?}"));
		run.step();
		match op {
			Op::Sub(k) => {
				used[k] = true;
				let h = w.h[sched].clone();
				let p = prs[k].clone();
				subs[k] = Some(match src {
					Src::Msg => Box::new(MessageObservable::<Msg>::new(h).subscribe(p.probe::<Msg, Never>(limits[k]))),
					Src::Key(m) => {
						let emit = match m {
							0 => KeyboardObservableEmit::JustPressed,
							1 => KeyboardObservableEmit::WhilePressed,
							_ => KeyboardObservableEmit::JustReleased,
						};
						Box::new(KeyboardObservable::new(KeyboardObservableOptions { emit }, h).subscribe(p.probe::<KeyCode, Never>(limits[k])))
					}
					Src::Res(a, c) => Box::new(
						ResourceObservable::new(|r: &R| r.0, ResourceObservableOptions { trigger_on_is_added: a, trigger_on_is_changed: c }, h)
							.subscribe(p.probe::<i32, Never>(limits[k])),
					),
				});
				model[k].on = true;
			}
			Op::Unsub(k) => {
				subs[k].as_mut().unwrap().unsubscribe();
				model[k].end();
			}
			Op::Drop(k) => {
				subs[k] = None;
				model[k].end();
			}
			Op::Write(n) => {
				for _ in 0..n {
					serial += 1;
					msgs.push(serial);
					w.w().write_message(Msg(serial));
				}
			}
			Op::WriteIn => {
				serial += 1;
				wr.push(serial);
				w.w().resource_mut::<InFrame>().write.push(serial);
			}
			Op::Press(k) | Op::Release(k) => {
				let code = if k == 1 { KeyCode::KeyA } else { KeyCode::KeyB };
				let mut b = w.w().resource_mut::<ButtonInput<KeyCode>>();
				down[k as usize] = matches!(op, Op::Press(_));
				if down[k as usize] {
					b.press(code);
					just_down[k as usize] = true;
				} else {
					b.release(code);
					just_up[k as usize] = true;
				}
			}
			Op::Insert => {
				serial += 1;
				w.w().insert_resource(R(serial));
				(res, changed) = (Some(serial), true);
			}
			Op::Mutate => {
				serial += 1;
				w.w().resource_mut::<R>().0 = serial;
				(res, changed) = (Some(serial), true);
			}
			Op::MutateIn => {
				serial += 1;
				w.w().resource_mut::<InFrame>().mutate = Some(serial);
				mu = Some(serial);
			}
			Op::Remove => {
				w.w().remove_resource::<R>();
				res = None;
			}
			Op::Frame => {
				w.frame(1, 1);
				// Messages: those written before the previous frame's start are dropped.
				(kept, kept_next) = (kept_next, msgs.len());
				let early = !in_post;
				let mut step_in = |msgs: &mut Vec<i32>, res: &mut Option<i32>, changed: &mut bool| {
					msgs.append(&mut wr);
					if let Some(v) = mu.take()
						&& res.is_some()
					{
						(*res, *changed) = (Some(v), true);
					}
				};
				if early {
					step_in(&mut msgs, &mut res, &mut changed);
				}
				for m in model.iter_mut().filter(|m| m.on) {
					match src {
						Src::Msg => {
							for i in kept.max(m.cursor)..msgs.len() {
								m.next(msgs[i]);
							}
							m.cursor = msgs.len();
						}
						Src::Key(mode) => {
							let set = match mode {
								0 => just_down,
								1 => down,
								_ => just_up,
							};
							for k in 1..3 {
								if set[k as usize] {
									m.next(k);
								}
							}
						}
						Src::Res(on_added, on_changed) => {
							let added = res.is_some() && !m.existed;
							m.existed = res.is_some();
							if let Some(v) = res
								&& ((added && on_added) || (!added && changed && on_changed))
							{
								m.next(v);
							}
						}
					}
				}
				changed = false;
				if !early {
					step_in(&mut msgs, &mut res, &mut changed);
				}
				w.w().resource_mut::<ButtonInput<KeyCode>>().clear();
				(just_down, just_up) = ([false; 3], [false; 3]);
			}
		}
		for k in 0..2 {
			if matches!(src, Src::Key(_)) {
				// The keys of one frame come in no particular order.
				let (mut a, mut b) = (prs[k].log(), model[k].log.clone());
				if limits[k].is_some() {
					for l in [&mut a, &mut b] {
						l.iter_mut().for_each(|s| if let N(v) = s { *v = 0 });
					}
				}
				let from = seen[k].min(a.len()).min(b.len());
				seen[k] = b.len();
				a[from..].sort();
				b[from..].sort();
				if a.len() != b.len() || a[from..] != b[from..] {
					fail!("subscriber {k} observed [{}] instead of [{}]", show(&prs[k].log()), show(&model[k].log));
				}
				if let Some(l) = prs[k].0.lock().unwrap().late.first() {
					fail!("subscriber {k} was sent {l} after its end");
				}
			} else {
				same(&format!("subscriber {k}"), &prs[k], &model[k].log)?;
			}
		}
		run.state(&(prs[0].log(), prs[1].log(), format!("{op:?}")));
	}
	if prs.iter().any(|p| p.log().len() > 1) {
		run.interesting();
	}
	drop(subs);
	w.frame(1, 1);
	w.frame(1, 1);
	ensure!(w.idle(), "work is left on a scheduler after every subscription ended");
	ensure!(w.leftover() == 0, "{} entities are left after every subscription ended", w.leftover());
	Ok(())
}

pub fn scenarios(th: bool) -> Vec<Scenario> {
	let mut v = vec![];
	let mut add = |name: &str, prop: &'static str, src: Src, sched: usize, limits: [Option<usize>; 2], in_post: bool, depth: usize| {
		v.push(Scenario::new(name.to_string(), &[prop], depth + th as usize, move |run| play(run, src, sched, limits, in_post)));
	};
	let free = [None, None];
	let d = 6;
	add("messages", "B03", Src::Msg, 0, free, false, d);
	add("messages read in PostUpdate, written after it", "B03", Src::Msg, 1, free, true, d);
	add("messages, subscribers ending themselves", "B03", Src::Msg, 0, [Some(2), Some(1)], false, d);
	for (m, n) in [(0, "just pressed"), (1, "while pressed"), (2, "just released")] {
		add(&format!("keys {n}"), "B03", Src::Key(m), 0, free, false, d);
		add(&format!("keys {n}, subscribers ending themselves"), "B03", Src::Key(m), 1, [Some(2), Some(1)], false, d);
	}
	for (a, c) in [(true, true), (true, false), (false, true), (false, false)] {
		add(&format!("resource, on added {a}, on changed {c}"), "B04", Src::Res(a, c), 0, free, false, d);
		add(&format!("resource read in PostUpdate, written after it, on added {a}, on changed {c}"), "B04", Src::Res(a, c), 1, [None, Some(2)], true, d);
	}
	v
}

//! The ticking executor against a reference executor (T01, T02).
use super::rig::{Ctx, Exec, Sched, SchedTy, tick_exec};
use crate::engine::{Fail, Res, Run, Scenario};
use rx_core::prelude::*;
use rx_core_scheduler_ticking::*;
use std::mc;
use std::real::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
	Imm,
	Delay(u64),
	Rep(u64, bool, usize),
	Cont,
	Inv,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
	New(Kind, usize),
	Cancel(usize),
	Invoke(usize),
	/// New work under an invocation id that is free again.
	ReInv(usize),
	CancelInv(usize),
	Tick(u64),
}
/// What a piece of work decided to do when it ran.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Did {
	pub work: usize,
	pub now: u64,
	pub op: Option<Op>,
	pub done: bool,
}
#[derive(Default)]
struct St {
	log: Vec<Did>,
	/// For every piece of work, how often it ran.
	runs: Vec<usize>,
	budget: usize,
	groups: Vec<Option<WorkCancellationId>>,
	invs: Vec<WorkInvokeId>,
	nested: Vec<Op>,
}
type S = Arc<Mutex<St>>;

fn apply(sched: &Sched, st: &S, op: Op) {
	match op {
		Op::New(..) | Op::ReInv(_) => {
			let (kind, g) = match op {
				Op::New(kind, g) => (kind, g),
				_ => (Kind::Inv, 0),
			};
			let id = {
				let mut s = st.lock().unwrap();
				s.runs.push(0);
				s.runs.len() - 1
			};
			let mut sc = sched.lock();
			let cid = {
				let mut s = st.lock().unwrap();
				*s.groups[g].get_or_insert_with(|| sc.generate_cancellation_id())
			};
			let (st2, sched2) = (st.clone(), sched.clone());
			let run = move |tick: Tick, can_finish: bool| -> WorkResult {
				let (op, done) = {
					let mut s = st2.lock().unwrap();
					let nested = if s.budget > 0 { s.nested.len() } else { 0 };
					let fin = s.budget > 0 && can_finish;
					drop(s);
					let n = 1 + nested + fin as usize;
					let c = if n > 1 { mc::choose(n) } else { 0 };
					s = st2.lock().unwrap();
					let op = if c >= 1 && c <= nested { Some(s.nested[c - 1]) } else { None };
					let done = c > nested;
					if c > 0 {
						s.budget -= 1;
					}
					s.runs[id] += 1;
					s.log.push(Did { work: id, now: tick.now().as_millis() as u64, op, done });
					(op, done)
				};
				if let Some(op) = op {
					apply(&sched2, &st2, op);
				}
				if done { WorkResult::Done } else { WorkResult::Pending }
			};
			let ms = Duration::from_millis;
			match kind {
				Kind::Imm => sc.schedule_immediate_work(move |t, _c: &mut Ctx| { run(t, false); }, cid),
				Kind::Delay(d) => sc.schedule_delayed_work(move |t, _c: &mut Ctx| { run(t, false); }, ms(d), cid),
				Kind::Rep(i, imm, max) => sc.schedule_repeated_work(move |t, _c: &mut Ctx| run(t, true), ms(i), imm, max, cid),
				Kind::Cont => sc.schedule_continuous_work(move |t, _c: &mut Ctx| run(t, true), cid),
				Kind::Inv => {
					let iid = match op {
						Op::ReInv(i) => st.lock().unwrap().invs[i],
						_ => {
							let iid = sc.generate_invoke_id();
							st.lock().unwrap().invs.push(iid);
							iid
						}
					};
					let w = <SchedTy as Scheduler>::InvokedWorkFactory::new(move |t: Tick, _c: &mut Ctx| run(t, true));
					sc.schedule_invoked_work(w, iid)
				}
			}
		}
		Op::Cancel(g) => {
			let id = st.lock().unwrap().groups[g];
			if let Some(id) = id {
				sched.lock().cancel(id);
			}
		}
		Op::Invoke(i) => {
			let id = st.lock().unwrap().invs.get(i).cloned();
			if let Some(id) = id {
				sched.lock().invoke(id);
			}
		}
		Op::CancelInv(i) => {
			let id = st.lock().unwrap().invs.get(i).cloned();
			if let Some(id) = id {
				sched.lock().cancel_invoked(id);
			}
		}
		Op::Tick(_) => unreachable!(),
	}
}

/// The reference: what an executor has to do.
#[derive(Default)]
pub struct Ref {
	now: u64,
	works: usize,
	queue: Vec<(Op, usize)>,
	active: Vec<RWork>,
	/// Invocation ids and the work they stand for.
	invocable: Vec<(usize, usize)>,
	/// Whether an invocation id is taken.
	inv_ids: Vec<bool>,
	invoked: Vec<usize>,
	inv_of: Vec<Option<usize>>,
	pub log: Vec<Did>,
	seen: Vec<usize>,
	groups_used: [bool; 2],
}
pub struct RWork {
	id: usize,
	pub kind: Kind,
	group: usize,
	since: u64,
	ran_in: Option<usize>,
	fresh: bool,
	fired: u64,
}
impl Ref {
	pub fn apply(&mut self, op: Op) {
		let id = match op {
			Op::New(kind, g) => {
				self.groups_used[g] = true;
				self.works += 1;
				self.seen.push(0);
				if kind == Kind::Inv {
					self.inv_ids.push(true);
					self.inv_of.push(Some(self.inv_ids.len() - 1));
				} else {
					self.inv_of.push(None);
				}
				self.works - 1
			}
			Op::ReInv(i) => {
				self.works += 1;
				self.seen.push(0);
				self.inv_ids[i] = true;
				self.inv_of.push(Some(i));
				self.works - 1
			}
			Op::Cancel(g) if !self.groups_used[g] => return,
			Op::Invoke(i) | Op::CancelInv(i) => match self.inv_ids.get(i) {
				Some(_) => {
					if let Op::CancelInv(_) = op {
						self.inv_ids[i] = false;
					}
					i
				}
				None => return,
			},
			_ => 0,
		};
		// The moment of scheduling counts, not the moment the executor looks.
		self.queue.push((op, id));
		if let Op::New(..) | Op::ReInv(_) = op {
			let l = self.queue.len() - 1;
			self.queue[l].1 = id | (self.now as usize) << 32;
		}
	}
	/// The decision the real work took in this run; none if it did not run that often.
	fn run(&mut self, id: usize, real: &[Did]) -> bool {
		let k = self.seen[id];
		self.seen[id] += 1;
		let Some(d) = real.iter().filter(|d| d.work == id).nth(k) else {
			self.log.push(Did { work: id, now: self.now, op: None, done: false });
			return false;
		};
		self.log.push(Did { now: self.now, ..*d });
		if let Some(op) = d.op {
			self.apply(op);
		}
		d.done
	}
	pub fn tick(&mut self, dt: u64, tick_no: usize, real: &[Did]) {
		self.now += dt;
		loop {
			let mut progress = !self.queue.is_empty();
			for (op, id) in std::mem::take(&mut self.queue) {
				match op {
					Op::New(Kind::Inv, _) | Op::ReInv(_) => {
						let id = id & 0xffff_ffff;
						self.invocable.push((self.inv_of[id].unwrap(), id))
					}
					Op::New(kind, group) => self.active.push(RWork {
						id: id & 0xffff_ffff,
						kind,
						group,
						since: (id >> 32) as u64,
						ran_in: None,
						fresh: true,
						fired: 0,
					}),
					Op::Cancel(g) => self.active.retain(|w| w.group != g),
					Op::Invoke(_) => self.invoked.push(id),
					Op::CancelInv(_) => {
						self.invocable.retain(|x| x.0 != id);
						self.invoked.retain(|x| *x != id);
					}
					Op::Tick(_) => {}
				}
			}
			let mut active = std::mem::take(&mut self.active);
			active.retain_mut(|w| {
				if w.ran_in == Some(tick_no) {
					return true;
				}
				w.ran_in = Some(tick_no);
				progress = true;
				let mut times = match w.kind {
					Kind::Imm => 1,
					Kind::Cont => 1,
					Kind::Delay(d) => (self.now >= w.since + d) as usize,
					Kind::Rep(0, _, max) => max.max(1),
					Kind::Rep(i, imm, max) => {
						let due = (self.now - w.since) / i - w.fired;
						w.fired += due;
						(due as usize + (imm && w.fresh) as usize).min(max.max(1))
					}
					Kind::Inv => unreachable!(),
				};
				w.fresh = false;
				let once = matches!(w.kind, Kind::Imm | Kind::Delay(_));
				let ends = once && times > 0;
				while times > 0 {
					times -= 1;
					if self.run(w.id, real) {
						return false;
					}
				}
				!ends
			});
			self.active = active;
			for id in std::mem::take(&mut self.invoked) {
				if let Some((_, work)) = self.invocable.iter().find(|x| x.0 == id).cloned()
					&& self.run(work, real)
				{
					self.invocable.retain(|x| x.1 != work);
					if !self.queue.iter().any(|q| q.0 == Op::ReInv(id)) {
						self.inv_ids[id] = false;
					}
				}
			}
			if !progress {
				break;
			}
		}
	}
	pub fn is_empty(&self) -> bool {
		self.active.is_empty() && self.invocable.is_empty()
	}
}

fn play(run: &Run, prop: &'static str, ops: &[Op], nested: &[Op], max_works: usize) -> Res {
	let mut exec = Exec::new(SchedTy::default());
	let sched = exec.get_scheduler_handle();
	let st: S = Arc::new(Mutex::new(St {
		budget: 2,
		groups: vec![None, None],
		nested: nested.to_vec(),
		..Default::default()
	}));
	let mut model = Ref::default();
	let mut ticks = 0;
	let fail = |m: String| Fail { props: vec![prop], msg: m, known: None };
	let compare = |model: &Ref, exec: &Exec, what: &dyn std::fmt::Debug| -> Res {
		let real = st.lock().unwrap().log.clone();
		if real != model.log {
			let f = |l: &[Did]| l.iter().map(|d| format!("#{}@{}", d.work, d.now)).collect::<Vec<_>>().join(" ");
			return Err(fail(format!("{what:?}: ran [{}] expected [{}]", f(&real), f(&model.log))));
		}
		if exec.is_empty() != model.is_empty() {
			return Err(fail(format!("{what:?}: is_empty() is {}, expected {}", exec.is_empty(), model.is_empty())));
		}
		Ok(())
	};
	let mut tick = |exec: &mut Exec, model: &mut Ref, d: u64| {
		ticks += 1;
		tick_exec(exec, d);
		let real = st.lock().unwrap().log.clone();
		model.tick(d, ticks, &real);
	};
	for _ in 0..run.depth() {
		let en: Vec<Op> = ops
			.iter()
			.filter(|o| match o {
				Op::New(..) => model.works < max_works,
				Op::Cancel(g) => model.groups_used[*g],
				Op::Invoke(i) | Op::CancelInv(i) => *i < model.inv_ids.len(),
				Op::ReInv(i) => model.works < max_works && model.inv_ids.get(*i) == Some(&false),
				Op::Tick(_) => true,
			})
			.cloned()
			.collect();
		let op = en[mc::choose(en.len())];
		run.step();
		match op {
			Op::Tick(d) => tick(&mut exec, &mut model, d),
			op => {
				apply(&sched, &st, op);
				model.apply(op);
			}
		}
		run.trace(|| format!("{op:?} -> {:?}", st.lock().unwrap().log));
		compare(&model, &exec, &op)?;
		run.state(&(model.now, model.log.len(), model.works, model.active.iter().map(|w| (w.kind, w.since, w.fired)).collect::<Vec<_>>(), &model.queue));
	}
	for d in [1, 2, 2] {
		tick(&mut exec, &mut model, d);
		compare(&model, &exec, &format!("closing tick {d}"))?;
	}
	// Cancelling everything leaves nothing.
	st.lock().unwrap().budget = 0;
	for op in [Op::Cancel(0), Op::Cancel(1), Op::CancelInv(0), Op::CancelInv(1), Op::CancelInv(2), Op::CancelInv(3)] {
		apply(&sched, &st, op);
		model.apply(op);
	}
	tick(&mut exec, &mut model, 3);
	compare(&model, &exec, &"everything cancelled")?;
	if !exec.is_empty() && model.inv_ids.len() <= 4 {
		return Err(fail("the executor still holds work after everything was cancelled".into()));
	}
	Ok(())
}

pub fn scenarios(th: bool) -> Vec<Scenario> {
	scenarios_of(if th { 1 } else { 0 }, "", "T01", "T02")
}
/// Bounds `size`: 0 quick, 1 thorough, 2 and 3 the same with a slower executor.
pub fn scenarios_of(size: usize, prefix: &'static str, t01: &'static str, t02: &'static str) -> Vec<Scenario> {
	use Kind::*;
	let (th, less) = (size % 2 == 1, size / 2);
	let mut v = vec![];
	let ticks = [Op::Tick(0), Op::Tick(1), Op::Tick(2), Op::Tick(5)];
	let mk = |name: &str, prop: &'static str, dq: usize, dt: usize, works: usize, ops: Vec<Op>, nested: Vec<Op>| {
		let mut all = ops;
		all.extend(ticks);
		// The decisions taken inside of work are explored without an app around the executor.
		let nested = if less > 0 { vec![] } else { nested };
		Scenario::new(format!("{prefix}{name}"), &[prop], if th { dt - less } else if dq > 4 { dq - less } else { dq }, move |run| play(run, prop, &all, &nested, works))
	};
	let once = vec![Op::New(Imm, 0), Op::New(Delay(0), 0), Op::New(Delay(1), 0), Op::New(Delay(2), 0), Op::New(Delay(3), 0)];
	v.push(mk("once work", t01, 6, 8, 3, once.clone(), vec![Op::New(Imm, 0), Op::New(Delay(0), 0), Op::New(Delay(1), 0)]));
	let mut rep = vec![Op::New(Cont, 0)];
	for i in [1, 2, 3] {
		for imm in [false, true] {
			for max in [1, 2, 9] {
				rep.push(Op::New(Rep(i, imm, max), 0));
			}
		}
	}
	v.push(mk("repeated work", t01, 4, 6, 2, rep.clone(), vec![Op::New(Imm, 0)]));
	v.push(mk("zero interval", t01, 5, 7, 2, vec![Op::New(Rep(0, false, 1), 0), Op::New(Rep(0, true, 2), 0), Op::New(Rep(0, true, 0), 0), Op::New(Imm, 0)], vec![]));
	v.push(mk(
		"mixed work",
		t01,
		4,
		6,
		3,
		vec![Op::New(Imm, 0), Op::New(Delay(2), 0), Op::New(Rep(2, false, 1), 0), Op::New(Rep(1, true, 2), 0), Op::New(Cont, 0), Op::New(Inv, 0), Op::Invoke(0), Op::Invoke(1)],
		vec![Op::New(Delay(1), 0), Op::New(Rep(1, true, 1), 0), Op::New(Cont, 0), Op::Invoke(0)],
	));
	let cancels = vec![Op::Cancel(0), Op::Cancel(1)];
	let mut c1 = vec![Op::New(Imm, 0), Op::New(Delay(1), 0), Op::New(Delay(2), 1), Op::New(Rep(1, false, 2), 0), Op::New(Rep(2, true, 1), 1), Op::New(Cont, 1)];
	c1.extend(cancels.clone());
	v.push(mk("cancelled work", t02, 4, 6, 3, c1, [cancels.clone(), vec![Op::New(Imm, 0), Op::New(Cont, 1)]].concat()));
	v.push(mk(
		"cancelled invocable work",
		t02,
		5,
		7,
		3,
		vec![Op::New(Inv, 0), Op::New(Cont, 1), Op::Invoke(0), Op::Invoke(1), Op::CancelInv(0), Op::CancelInv(1), Op::ReInv(0), Op::Cancel(1)],
		vec![Op::Invoke(0), Op::Invoke(1), Op::CancelInv(0), Op::CancelInv(1), Op::Cancel(1)],
	));
	v
}

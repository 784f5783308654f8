//! K03: an executor ticks on one thread while others schedule, cancel, invoke, subscribe, push and unsubscribe.
use super::rig::{Ctx, CtxP, Exec, Sched, SchedTy, Sub, tick_exec};
use crate::engine::{Fail, Res, Run, Scenario};
use rx_core::prelude::*;
use rx_core_scheduler_ticking::*;
use std::mc;
use std::real::sync::{Arc, Mutex};
use std::time::Duration;

fn ms(d: u64) -> Duration {
	Duration::from_millis(d)
}
fn bad(m: String) -> Res {
	Err(Fail { props: vec!["K03"], msg: m, known: None })
}
/// What happened, in order.
#[derive(Clone, Debug, PartialEq)]
enum At {
	TickStart(u64),
	TickEnd(u64),
	/// Client, index of the call.
	Begin(usize, usize),
	End(usize, usize),
	/// Work, the time it was told.
	Ran((usize, usize), u64),
	Got(Sig),
}
use At::*;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Sig {
	V(i32),
	E,
	C,
	U,
}
use Sig::*;
#[derive(Default)]
struct Line {
	l: Vec<At>,
	torn: u32,
}
type TL = Arc<Mutex<Line>>;
fn put(t: &TL, a: At) {
	t.lock().unwrap().l.push(a);
}
struct Tick_ {
	now: u64,
	start: usize,
	end: usize,
}
fn ticks(l: &[At]) -> Vec<Tick_> {
	let mut v: Vec<Tick_> = vec![];
	for (i, a) in l.iter().enumerate() {
		match a {
			TickStart(now) => v.push(Tick_ { now: *now, start: i, end: usize::MAX }),
			TickEnd(_) => v.last_mut().unwrap().end = i,
			_ => {}
		}
	}
	v
}
/// The positions at which a call began and returned.
fn span(l: &[At], c: (usize, usize)) -> (usize, usize) {
	let f = |x: At| l.iter().position(|a| *a == x).unwrap();
	(f(Begin(c.0, c.1)), f(End(c.0, c.1)))
}
/// The times the scheduler may have believed it to be during a call.
fn clock(t: &[Tick_], (s, e): (usize, usize)) -> (u64, u64) {
	(
		t.iter().filter(|t| t.end < s).map(|t| t.now).max().unwrap_or(0),
		t.iter().filter(|t| t.start < e).map(|t| t.now).max().unwrap_or(0),
	)
}
struct Run_ {
	exec: Exec,
	tl: TL,
	now: u64,
}
impl Run_ {
	fn tick(&mut self, d: u64) {
		self.now += d;
		put(&self.tl, TickStart(self.now));
		tick_exec(&mut self.exec, d);
		put(&self.tl, TickEnd(self.now));
	}
}

// ---------------------------------------------------------------- bare work
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Do {
	Imm,
	Delay,
	Cont,
	/// Of the work this client scheduled last.
	Cancel,
	AddInv,
	Invoke,
	CancelInv,
}
struct WCfg {
	clients: Vec<Vec<Do>>,
	ticks: usize,
	dt: u64,
	/// Work under way before the threads start.
	before: Option<Do>,
}
fn schedule(sched: &Sched, tl: &TL, d: Do, id: (usize, usize), inv: WorkInvokeId, cid: WorkCancellationId) {
	let tl = tl.clone();
	let run = move |t: Tick| put(&tl, Ran(id, t.now().as_millis() as u64));
	let mut sc = sched.lock();
	match d {
		Do::Imm => sc.schedule_immediate_work(move |t, _c: &mut Ctx| run(t), cid),
		Do::Delay => sc.schedule_delayed_work(move |t, _c: &mut Ctx| run(t), ms(10), cid),
		Do::Cont => sc.schedule_continuous_work(
			move |t, _c: &mut Ctx| {
				run(t);
				WorkResult::Pending
			},
			cid,
		),
		Do::AddInv => sc.schedule_invoked_work(
			<SchedTy as Scheduler>::InvokedWorkFactory::new(move |t: Tick, _c: &mut Ctx| {
				run(t);
				WorkResult::Pending
			}),
			inv,
		),
		Do::Cancel => sc.cancel(cid),
		Do::Invoke => sc.invoke(inv),
		Do::CancelInv => sc.cancel_invoked(inv),
	}
}
fn work(run: &Run, cfg: &WCfg) -> Res {
	let n = cfg.clients.len();
	let mut scripts: Vec<Vec<Do>> = vec![];
	for t in 0..n {
		let len = run.depth() / n + (t < run.depth() % n) as usize;
		scripts.push((0..len).map(|_| cfg.clients[t][mc::choose(cfg.clients[t].len())]).collect());
	}
	run.trace(|| format!("{scripts:?}"));
	let mut ex = Run_ { exec: Exec::new(TickingScheduler::default()), tl: TL::default(), now: 0 };
	let sched = ex.exec.get_scheduler_handle();
	let tl = ex.tl.clone();
	let inv = sched.lock().generate_invoke_id();
	let mut all: Vec<((usize, usize), Do)> = vec![];
	if let Some(d) = cfg.before {
		let cid = sched.lock().generate_cancellation_id();
		put(&tl, Begin(n, 0));
		schedule(&sched, &tl, d, (n, 0), inv, cid);
		put(&tl, End(n, 0));
		all.push(((n, 0), d));
		ex.tick(0);
	}
	let mut tasks = vec![];
	for t in 0..n {
		let (script, sched, tl) = (scripts[t].clone(), sched.clone(), tl.clone());
		for (j, d) in script.iter().enumerate() {
			all.push(((t, j), *d));
		}
		tasks.push(mc::spawn(move || {
			let mut ids = vec![sched.lock().generate_cancellation_id()];
			for (j, d) in script.iter().enumerate() {
				if !matches!(d, Do::Cancel | Do::Invoke | Do::CancelInv) {
					ids.push(sched.lock().generate_cancellation_id());
				}
				put(&tl, Begin(t, j));
				schedule(&sched, &tl, *d, (t, j), inv, *ids.last().unwrap());
				put(&tl, End(t, j));
			}
			ids
		}));
	}
	let (k, dt) = (cfg.ticks, cfg.dt);
	let et = mc::spawn(move || {
		for _ in 0..k {
			ex.tick(dt);
		}
		ex
	});
	let mut ids = vec![];
	for t in tasks {
		match t.join() {
			Some(i) => ids.extend(i),
			None => return bad("a call panicked".into()),
		}
	}
	let Some(mut ex) = et.join() else { return bad("a tick panicked".into()) };
	run.step();
	for _ in 0..2 {
		ex.tick(10);
	}
	let l = tl.lock().unwrap().l.clone();
	run.trace(|| format!("{l:?}"));
	run.state(&format!("{scripts:?}{l:?}"));
	let tk = ticks(&l);
	// Which call, if any, cancels a given one.
	let canceller = |(t, j): (usize, usize)| -> Option<(usize, usize)> {
		scripts.get(t)?.iter().enumerate().skip(j + 1).take_while(|(_, d)| !matches!(d, Do::Imm | Do::Delay | Do::Cont | Do::AddInv)).find(|(_, d)| **d == Do::Cancel).map(|(i, _)| (t, i))
	};
	for (id, d) in &all {
		let (s, e) = span(&l, *id);
		let runs: Vec<(usize, u64)> = l.iter().enumerate().filter_map(|(i, a)| if let Ran(w, now) = a { (w == id).then_some((i, *now)) } else { None }).collect();
		for (i, now) in &runs {
			let Some(t) = tk.iter().find(|t| t.start < *i && *i < t.end) else { return bad(format!("{d:?} {id:?} ran outside of a tick")) };
			if t.now != *now {
				return bad(format!("{d:?} {id:?} was told that it is {now} in the tick to {}", t.now));
			}
		}
		let per_tick = |t: &Tick_| runs.iter().filter(|(i, _)| t.start < *i && *i < t.end).count();
		if runs.iter().any(|(i, _)| *i < s) {
			return bad(format!("{d:?} {id:?} ran before it was scheduled"));
		}
		let (cs, ce) = canceller(*id).map(|c| span(&l, c)).unwrap_or((usize::MAX, usize::MAX));
		if matches!(d, Do::Imm | Do::Delay | Do::Cont)
			&& let Some(t) = tk.iter().find(|t| t.start > ce && per_tick(t) > 0)
		{
			return bad(format!("{d:?} {id:?} ran in the tick to {} that began after it was cancelled", t.now));
		}
		match d {
			Do::Imm | Do::Delay => {
				let (lo, hi) = clock(&tk, (s, e));
				let (lo, hi) = if *d == Do::Delay { (lo + 10, hi + 10) } else { (0, 0) };
				if runs.len() > 1 {
					return bad(format!("{d:?} {id:?} ran {} times", runs.len()));
				}
				if let Some((_, now)) = runs.first()
					&& *now < lo
				{
					return bad(format!("{d:?} {id:?} ran at {now}, before {lo}"));
				}
				// The tick by which it has to have run.
				if let Some(t) = tk.iter().find(|t| t.start > e && t.now >= hi)
					&& t.end < cs
					&& !runs.iter().any(|(i, _)| *i < t.end)
				{
					return bad(format!("{d:?} {id:?} was due in the tick to {} but didn't run", t.now));
				}
			}
			Do::Cont => {
				for t in &tk {
					let r = per_tick(t);
					if r > 1 || (r == 0 && t.start > e && t.end < cs) {
						return bad(format!("{d:?} {id:?} ran {r} times in the tick to {}", t.now));
					}
				}
			}
			_ => {}
		}
	}
	// Invoked work of one client, all under one id.
	let runs: Vec<usize> = l.iter().enumerate().filter_map(|(i, a)| if let Ran(w, _) = a { all.iter().any(|(x, d)| x == w && *d == Do::AddInv).then_some(i) } else { None }).collect();
	let spans = |d: Do| -> Vec<(usize, usize)> { all.iter().filter(|(_, x)| *x == d).map(|(id, _)| span(&l, *id)).collect() };
	let (adds, cancels, invokes) = (spans(Do::AddInv), spans(Do::CancelInv), spans(Do::Invoke));
	let may = invokes.iter().filter(|(s, e)| adds.iter().any(|a| a.0 < *e || tk.iter().any(|t| t.start < *s && a.0 < t.end) || a.0 < tk.iter().find(|t| t.start > *e).map_or(0, |t| t.end))).count();
	if runs.len() > may {
		return bad(format!("invoked work ran {} times for {may} invocations", runs.len()));
	}
	for t in &tk {
		// Added for good and invoked before this tick began, and not cancelled before it ended.
		let must = invokes
			.iter()
			.filter(|(is, ie)| *ie < t.start && adds.iter().any(|a| a.1 < *is && !cancels.iter().any(|c| c.1 > a.0 && c.0 < t.end)))
			.count();
		let done = runs.iter().filter(|i| **i < t.end).count();
		if done < must {
			return bad(format!("invoked work ran {done} times by the end of the tick to {}, expected at least {must}", t.now));
		}
		let dead = cancels.iter().any(|c| c.1 < t.start && !adds.iter().any(|a| a.1 > c.0));
		if dead && runs.iter().any(|i| t.start < *i && *i < t.end) {
			return bad(format!("invoked work ran in the tick to {} that began after it was cancelled", t.now));
		}
	}
	for i in ids {
		sched.lock().cancel(i);
	}
	sched.lock().cancel_invoked(inv);
	if cfg.before.is_some() {
		return Ok(());
	}
	ex.tick(10);
	if !ex.exec.is_empty() {
		return bad("the executor isn't empty after everything was cancelled".into());
	}
	Ok(())
}

// ---------------------------------------------------------------- streams
struct Dest {
	tl: TL,
	td: SubscriptionData,
	done: bool,
	/// Called back once, from the first value.
	react: Option<Box<dyn FnOnce() + Send + Sync>>,
}
impl Dest {
	fn new(tl: &TL) -> Dest {
		let mut td = SubscriptionData::default();
		let t = tl.clone();
		td.add_teardown(Teardown::new(move || t.lock().unwrap().torn += 1));
		Dest { tl: tl.clone(), td, done: false, react: None }
	}
	fn log(&mut self, s: Sig) {
		// A signal after the end is kept in the log and fails there.
		put(&self.tl, Got(s));
		self.done |= !matches!(s, V(_));
	}
}
impl ObserverInput for Dest {
	type In = i32;
	type InError = i32;
}
impl WithPrimaryCategory for Dest {
	type PrimaryCategory = PrimaryCategorySubscriber;
}
impl ObserverUpgradesToSelf for Dest {}
impl RxObserver for Dest {
	fn next(&mut self, v: i32) {
		self.log(V(v));
		if let Some(f) = self.react.take() {
			f();
		}
	}
	fn error(&mut self, _: i32) {
		self.log(E);
		self.unsubscribe();
	}
	fn complete(&mut self) {
		self.log(C);
		self.unsubscribe();
	}
}
impl SubscriptionLike for Dest {
	fn is_closed(&self) -> bool {
		self.td.is_closed()
	}
	fn unsubscribe(&mut self) {
		if !self.td.is_closed() {
			self.log(U);
			self.td.unsubscribe();
		}
	}
}
impl TeardownCollection for Dest {
	fn add_teardown(&mut self, t: Teardown) {
		self.td.add_teardown(t)
	}
}
impl Drop for Dest {
	fn drop(&mut self) {
		self.unsubscribe();
	}
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Call {
	Next,
	Error,
	Complete,
	Unsub,
	Drop,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
	Delay,
	ObserveOn,
	Debounce,
	Throttle,
	Silent,
	SubscribeOn,
	Interval,
	Timer,
	OnTick,
}
struct SCfg {
	op: Op,
	/// Subscribed by the first client instead of before the threads start.
	inside: bool,
	clients: Vec<Vec<Call>>,
	ticks: usize,
}
fn subscribe(op: Op, src: &mut PublishSubject<i32, i32>, s: Sched, d: Dest) -> Sub {
	match op {
		Op::Delay => Box::new(src.clone().delay(ms(10), s).subscribe(d)),
		Op::ObserveOn => Box::new(src.clone().observe_on(s).subscribe(d)),
		Op::Debounce => Box::new(src.clone().debounce_time(ms(10), s).subscribe(d)),
		Op::Throttle => Box::new(src.clone().throttle_time(ThrottleTimeOptions::new(ms(10)).with_output(ThrottleOutputBehavior::LeadingAndTrailing), s).subscribe(d)),
		Op::Silent => Box::new(src.clone().fallback_when_silent(|_, _, i| 100 + i as i32, s).subscribe(d)),
		Op::SubscribeOn => Box::new(src.clone().subscribe_on_with_delay(ms(10), s).subscribe(d)),
		Op::Interval => Box::new(interval(IntervalObservableOptions { duration: ms(10), max_emissions_per_tick: 1, start_on_subscribe: false }, s).map(|v| v as i32).map_error(|_| 0).subscribe(d)),
		Op::Timer => Box::new(timer(ms(10), s).map(|_| 0).map_error(|_| 0).subscribe(d)),
		Op::OnTick => Box::new(vec![0, 1].into_observable_on_every_nth_tick(OnTickObservableOptions { start_on_subscribe: false, emit_at_every_nth_tick: 1 }, s).map_error(|_| 0).subscribe(d)),
	}
}
/// A signal that is due: not before a position and time, and, if it's certain, before a position.
#[derive(Debug)]
struct Due {
	sig: Sig,
	after: usize,
	from: u64,
	by: usize,
	must: bool,
}
/// Whether what arrived is an in-order selection of what was due with everything certain in it.
fn fits(got: &[(usize, u64, Sig)], due: &[Due]) -> bool {
	match (got.first(), due.first()) {
		(None, None) => true,
		(Some(_), None) => false,
		(g, Some(d)) => {
			(!d.must && fits(got, &due[1..]))
				|| g.is_some_and(|g| g.2 == d.sig && g.0 > d.after && g.1 >= d.from && (!d.must || g.0 <= d.by) && fits(&got[1..], &due[1..]))
		}
	}
}
fn stream(run: &Run, cfg: &SCfg) -> Res {
	let n = cfg.clients.len();
	let mut scripts: Vec<Vec<Call>> = vec![];
	for t in 0..n {
		let len = run.depth() / n + (t < run.depth() % n) as usize;
		let mut s: Vec<Call> = vec![];
		for _ in 0..len {
			let menu: Vec<Call> = cfg.clients[t].iter().filter(|c| !(s.contains(&Call::Drop) && matches!(c, Call::Drop | Call::Unsub))).cloned().collect();
			s.push(menu[mc::choose(menu.len())]);
		}
		scripts.push(s);
	}
	run.trace(|| format!("{scripts:?}"));
	let mut ex = Run_ { exec: Exec::new(TickingScheduler::default()), tl: TL::default(), now: 0 };
	let sched = ex.exec.get_scheduler_handle();
	let tl = ex.tl.clone();
	let mut src = PublishSubject::<i32, i32>::default();
	// Who unsubscribes holds the subscription.
	let owner = (0..n).find(|t| cfg.clients[*t].iter().any(|c| matches!(c, Call::Unsub | Call::Drop))).unwrap();
	let mut sub = None;
	let began = (n, 0);
	if !cfg.inside {
		put(&tl, Begin(n, 0));
		sub = Some(subscribe(cfg.op, &mut src, sched.clone(), Dest::new(&tl)));
		put(&tl, End(n, 0));
		ex.tick(0);
	}
	let mut tasks = vec![];
	for t in 0..n {
		let (script, sched, tl, mut src) = (scripts[t].clone(), sched.clone(), tl.clone(), src.clone());
		let mut sub = if t == owner { sub.take() } else { None };
		let (inside, op) = (cfg.inside && t == owner, cfg.op);
		tasks.push(mc::spawn(move || {
			if inside {
				put(&tl, Begin(n, 0));
				sub = Some(subscribe(op, &mut src, sched, Dest::new(&tl)));
				put(&tl, End(n, 0));
			}
			for (j, d) in script.iter().enumerate() {
				put(&tl, Begin(t, j));
				match d {
					Call::Next => src.next(val(t, j)),
					Call::Error => src.error(7),
					Call::Complete => src.complete(),
					Call::Unsub => sub.as_mut().unwrap().unsubscribe(),
					Call::Drop => sub = None,
				}
				put(&tl, End(t, j));
			}
			sub
		}));
	}
	let k = cfg.ticks;
	let et = mc::spawn(move || {
		for _ in 0..k {
			ex.tick(10);
		}
		ex
	});
	for t in tasks {
		match t.join() {
			Some(s) => sub = sub.or(s),
			None => return bad("a call panicked".into()),
		}
	}
	let Some(mut ex) = et.join() else { return bad("a tick panicked".into()) };
	run.step();
	for _ in 0..3 {
		ex.tick(10);
	}
	let l = tl.lock().unwrap().l.clone();
	run.trace(|| format!("{l:?}"));
	run.state(&format!("{scripts:?}{l:?}"));
	let res = judge(cfg, &scripts, &l, began);
	let mut closed = l.contains(&Got(U));
	if res.is_ok() {
		if closed && !ex.exec.is_empty() {
			return bad("the executor isn't empty although the stream ended".into());
		}
		drop(sub);
		drop(src);
		for _ in 0..3 {
			ex.tick(10);
		}
		closed = tl.lock().unwrap().l.contains(&Got(U));
		if !closed || tl.lock().unwrap().torn != 1 || !ex.exec.is_empty() {
			return bad(format!("after everything was dropped: destination unsubscribed {closed}, its teardown ran {} times, executor empty {}", tl.lock().unwrap().torn, ex.exec.is_empty()));
		}
	}
	res
}
/// On one thread: a callback acts on the stream that is calling it.
fn react(run: &Run, op: Op) -> Res {
	let r01 = |r: Res| r.map_err(|f| Fail { props: vec!["R01"], ..f });
	let fed = is_fed(op);
	let mut ex = Run_ { exec: Exec::new(TickingScheduler::default()), tl: TL::default(), now: 0 };
	let sched = ex.exec.get_scheduler_handle();
	let tl = ex.tl.clone();
	let mut src = PublishSubject::<i32, i32>::default();
	let menu: &[Call] = if fed { &[Call::Unsub, Call::Drop, Call::Next, Call::Complete, Call::Error] } else { &[Call::Unsub, Call::Drop] };
	let what = menu[mc::choose(menu.len())];
	let slot: Arc<Mutex<Option<Sub>>> = Default::default();
	let fired = Arc::new(Mutex::new(false));
	let mut dest = Dest::new(&tl);
	{
		let (slot, fired, mut src, tl) = (slot.clone(), fired.clone(), src.clone(), tl.clone());
		dest.react = Some(Box::new(move || {
			*fired.lock().unwrap() = true;
			put(&tl, Begin(1, 0));
			match what {
				Call::Next => src.next(val(1, 0)),
				Call::Error => src.error(7),
				Call::Complete => src.complete(),
				_ => {
					let s = slot.lock().unwrap().take();
					if let Some(mut s) = s
						&& what == Call::Unsub
					{
						s.unsubscribe();
						*slot.lock().unwrap() = Some(s);
					}
				}
			}
			put(&tl, End(1, 0));
		}));
	}
	put(&tl, Begin(2, 0));
	let sub = subscribe(op, &mut src, sched.clone(), dest);
	*slot.lock().unwrap() = Some(sub);
	put(&tl, End(2, 0));
	let mut script = vec![];
	for _ in 0..run.depth() {
		let menu: &[Option<Call>] = if fed { &[None, Some(Call::Next), Some(Call::Complete), Some(Call::Error)] } else { &[None] };
		let c = menu[mc::choose(menu.len())];
		run.step();
		match c {
			None => ex.tick(10),
			Some(c) => {
				let j = script.len();
				script.push(c);
				put(&tl, Begin(0, j));
				match c {
					Call::Next => src.next(val(0, j)),
					Call::Complete => src.complete(),
					_ => src.error(7),
				}
				put(&tl, End(0, j));
			}
		}
	}
	for _ in 0..3 {
		ex.tick(10);
	}
	let mut scripts = vec![script];
	if *fired.lock().unwrap() {
		scripts.push(vec![what]);
		run.interesting();
	}
	let l = tl.lock().unwrap().l.clone();
	run.trace(|| format!("{what:?} {scripts:?} {l:?}"));
	run.state(&format!("{l:?}"));
	let cfg = SCfg { op, inside: true, clients: vec![], ticks: 0 };
	r01(judge(&cfg, &scripts, &l, (2, 0)))?;
	if l.contains(&Got(U)) && !ex.exec.is_empty() {
		return r01(bad("the executor isn't empty although the stream ended".into()));
	}
	let s = slot.lock().unwrap().take();
	drop(s);
	drop(src);
	for _ in 0..3 {
		ex.tick(10);
	}
	let t = tl.lock().unwrap();
	if !t.l.contains(&Got(U)) || t.torn != 1 || !ex.exec.is_empty() {
		return r01(bad(format!("after everything was dropped: teardown ran {} times, executor empty {}", t.torn, ex.exec.is_empty())));
	}
	Ok(())
}
fn is_fed(op: Op) -> bool {
	matches!(op, Op::Delay | Op::ObserveOn | Op::Debounce | Op::Throttle | Op::Silent | Op::SubscribeOn)
}
fn val(t: usize, j: usize) -> i32 {
	(t as i32 + 1) * 10 + j as i32
}
fn judge(cfg: &SCfg, scripts: &[Vec<Call>], l: &[At], began: (usize, usize)) -> Res {
	let tk = ticks(l);
	let mut now = 0;
	let mut got: Vec<(usize, u64, Sig)> = vec![];
	for (i, a) in l.iter().enumerate() {
		match a {
			TickStart(n) => now = *n,
			Got(s) => got.push((i, now, *s)),
			_ => {}
		}
	}
	// What is sent while another thread is busy with the destination is left to that thread: the end of whatever overlaps.
	let ext = |mut by: usize| {
		let mut all: Vec<(usize, usize)> = tk.iter().map(|t| (t.start, t.end)).collect();
		all.push(span(l, began));
		all.extend(scripts.iter().enumerate().flat_map(|(t, s)| (0..s.len()).map(move |j| (t, j))).map(|c| span(l, c)));
		while by != usize::MAX
			&& let Some(x) = all.iter().find(|x| x.0 < by && by < x.1)
		{
			by = x.1;
		}
		by
	};
	let first_tick = |e: usize, from: u64| tk.iter().find(|t| t.start > e && t.now >= from);
	let inf = usize::MAX;
	let sb = span(l, began);
	// The calls by their spans; a client's own calls after its first ending call are ineffective.
	let mut nexts: Vec<((usize, usize), i32)> = vec![];
	let mut ends: Vec<((usize, usize), Call)> = vec![];
	for (t, s) in scripts.iter().enumerate() {
		for (j, c) in s.iter().enumerate() {
			match c {
				Call::Next => nexts.push((span(l, (t, j)), val(t, j))),
				c => ends.push((span(l, (t, j)), *c)),
			}
		}
	}
	nexts.sort();
	let is_unsub = |c: Call| matches!(c, Call::Unsub | Call::Drop);
	// What may have ended the stream first: began before any other one returned.
	let first_end = ends.iter().map(|e| e.0.1).min().unwrap_or(inf);
	let firsts: Vec<_> = ends.iter().filter(|e| e.0.0 < first_end).cloned().collect();
	let (end_s, end_e) = (firsts.iter().map(|e| e.0.0).min().unwrap_or(inf), firsts.iter().map(|e| ext(e.0.1)).max().unwrap_or(inf));
	let can = |f: &dyn Fn(Call) -> bool| firsts.iter().any(|e| f(e.1));
	let sure = |f: &dyn Fn(Call) -> bool| !firsts.is_empty() && firsts.iter().all(|e| f(e.1));
	let mut due: Vec<Due> = vec![];
	let fed = is_fed(cfg.op);
	// Pending values survive completion and unsubscription but not an error.
	let mut last_by = 0;
	let done_by = |e: usize| ext(first_tick(e, 0).map_or(inf, |t| t.end));
	match cfg.op {
		Op::Delay | Op::ObserveOn | Op::Debounce => {
			let d = if cfg.op == Op::ObserveOn { 0 } else { 10 };
			let acc: Vec<_> = nexts.iter().filter(|x| x.0.0 < first_end && x.0.1 > sb.0).collect();
			for (i, (sp, v)) in acc.iter().enumerate() {
				let (lo, hi) = clock(&tk, *sp);
				let t = first_tick(sp.1, hi + d);
				let mut must = sp.1 < end_s;
				let mut may = true;
				let mut by = ext(t.map_or(inf, |t| t.end));
				if can(&|c| c == Call::Error) && !(by < end_s) {
					must = false;
				}
				if cfg.op == Op::Debounce
					&& let Some((nx, _)) = acc.get(i + 1)
				{
					if !(by < nx.0) {
						must = false;
					}
					may = !(nx.1 < end_s) || tk.iter().any(|t| t.end > sp.0 && t.start < nx.1 && t.now >= lo + d);
				}
				if d == 0 {
					by = done_by(sp.1);
				}
				if must {
					last_by = last_by.max(by);
				}
				if may {
					due.push(Due { sig: V(*v), after: sp.0, from: if d == 0 { 0 } else { lo + d }, by, must });
				}
			}
		}
		Op::Throttle => {
			for (sp, v) in nexts.iter().filter(|x| x.0.0 < first_end) {
				due.push(Due { sig: V(*v), after: sp.0, from: 0, by: inf, must: false });
			}
			let len = due.len();
			if let Some(d) = due.first_mut() {
				let sp = nexts[0].0;
				d.must = sp.1 < end_s;
				d.by = ext(sp.1);
			}
			if len > 0 && sure(&|c| c == Call::Complete) || firsts.is_empty() && len > 0 {
				let sp = nexts[len - 1].0;
				let d = due.last_mut().unwrap();
				d.must = sp.1 < end_s;
			}
			last_by = inf;
		}
		Op::Silent => {
			// One per tick; which one is decided by whether a value came in between.
			let here = |t: &Tick_| got.iter().filter(|g| t.start < g.0 && g.0 < t.end && matches!(g.2, V(_))).count();
			let open: Vec<&Tick_> = tk.iter().filter(|t| t.end > sb.0 && t.start < end_e).collect();
			let vals: Vec<&(usize, u64, Sig)> = got.iter().filter(|g| matches!(g.2, V(_))).collect();
			let sure: Vec<&Tick_> = open.iter().filter(|t| t.start > sb.1 && t.end < end_s).cloned().collect();
			if vals.len() > open.len() || vals.len() < sure.len() {
				return bad(format!("{} values in {} ticks, {} of them while the stream was certainly open", vals.len(), open.len(), sure.len()));
			}
			let plain = open.iter().all(|t| here(t) <= 1) && vals.iter().all(|g| open.iter().any(|t| t.start < g.0 && g.0 < t.end));
			for (k, g) in vals.iter().enumerate() {
				let V(v) = g.2 else { unreachable!() };
				let t = tk.iter().rev().find(|t| t.start < g.0).unwrap();
				let prev = tk.iter().filter(|p| p.end < t.start).map(|p| p.end).max().unwrap_or(0);
				let ok = if v >= 100 {
					v == 100 + k as i32 && !(plain && nexts.iter().any(|x| x.0.0 > prev && x.0.1 < t.start && x.0.0 > sb.1 && x.0.1 < end_s))
				} else {
					nexts.iter().any(|x| x.1 == v && x.0.0 < g.0)
				};
				if !ok {
					return bad(format!("the value {v} in the tick to {} is unexpected", t.now));
				}
				due.push(Due { sig: g.2, after: open[k].start, from: 0, by: inf, must: true });
			}
		}
		Op::SubscribeOn => {
			let (lo, hi) = clock(&tk, sb);
			let sub_by = ext(first_tick(sb.1, hi + 10).map_or(inf, |t| t.end));
			for (sp, v) in nexts.iter().filter(|x| x.0.0 < first_end) {
				// Subscribed for certain before it was pushed.
				let must = sub_by < sp.0 && sp.1 < end_s;
				due.push(Due { sig: V(*v), after: sp.0, from: lo + 10, by: ext(sp.1), must });
			}
			last_by = sub_by;
		}
		Op::Interval | Op::Timer | Op::OnTick => {
			let (lo, hi) = clock(&tk, sb);
			let count = match cfg.op {
				Op::Interval => 8,
				Op::Timer => 1,
				_ => 2,
			};
			let mut last = (0, inf);
			for k in 0..count {
				let (from, to) = if cfg.op == Op::OnTick { (0, 0) } else { (lo + 10 * (k + 1), hi + 10 * (k + 1)) };
				let by = if cfg.op == Op::OnTick { tk.iter().filter(|t| t.start > sb.1).nth(k as usize).map_or(inf, |t| t.end) } else { first_tick(sb.1, to).map_or(inf, |t| t.end) };
				let by = ext(by);
				// No tick that began after the unsubscription returned delivers.
				let open = tk.iter().any(|t| t.end > sb.0 && t.now >= from && t.start < end_e);
				if !open {
					break;
				}
				let must = by != inf && by < end_s;
				due.push(Due { sig: V(k as i32), after: sb.0, from, by, must });
				last = (from, by);
			}
			if cfg.op != Op::Interval && due.len() == count as usize {
				let must = last.1 != inf && last.1 < end_s;
				due.push(Due { sig: C, after: sb.0, from: last.0, by: last.1, must });
			}
		}
	}
	if fed {
		let term = |c: Call| match c {
			Call::Error => Some(E),
			Call::Complete => Some(C),
			_ => None,
		};
		for t in [Call::Error, Call::Complete] {
			if can(&|c| c == t) {
				let only = sure(&|c| c == t) && (cfg.op != Op::SubscribeOn || last_by < end_s);
				due.push(Due { sig: term(t).unwrap(), after: end_s, from: 0, by: inf, must: only });
			}
		}
	}
	let ended = !firsts.is_empty();
	{
		// What is unsubscribed while subscribing may never have been connected.
		due.push(Due { sig: U, after: 0, from: 0, by: inf, must: ended && (fed && (cfg.op != Op::SubscribeOn || can(&|c| is_unsub(c)) || last_by < end_s) || can(&|c| is_unsub(c))) });
	}
	let us = got.iter().filter(|g| g.2 == U).count();
	let cut = got.iter().position(|g| g.2 == U).map_or(got.len(), |i| i + 1);
	let done = got.iter().position(|g| !matches!(g.2, V(_)));
	if us > 1 || cut != got.len() || done.is_some_and(|d| got[d].2 != U && got.get(d + 1).is_none_or(|g| g.2 != U) || got.len() > d + 2) {
		return bad(format!("signals after the end: {:?}", got.iter().map(|g| g.2).collect::<Vec<_>>()));
	}
	// With two ways to end, only one of the terminal signals arrives.
	let alt: Vec<Vec<usize>> = {
		let terms: Vec<usize> = due.iter().enumerate().filter(|(_, d)| matches!(d.sig, E | C)).map(|(i, _)| i).collect();
		if terms.len() > 1 { terms.iter().map(|k| terms.iter().filter(|x| *x != k).cloned().collect()).collect() } else { vec![vec![]] }
	};
	let ok = alt.iter().any(|skip| {
		let d: Vec<Due> = due.iter().enumerate().filter(|(i, _)| !skip.contains(i)).map(|(_, d)| Due { ..*d }).collect();
		fits(&got, &d)
	});
	if !ok {
		return bad(format!("{:?}: got (position, time, signal) {got:?}, due {due:?}", cfg.op));
	}
	// A subscription that was unsubscribed before a tick began delivers nothing in it,
	// apart from what these operators hold back on purpose.
	if !matches!(cfg.op, Op::Delay | Op::ObserveOn | Op::Debounce | Op::Throttle)
		&& let Some(e) = ends.iter().filter(|e| is_unsub(e.1)).map(|e| ext(e.0.1)).min()
		&& let Some(t) = tk.iter().find(|t| t.start > e && got.iter().any(|g| t.start < g.0 && g.0 < t.end && g.2 != U))
	{
		return bad(format!("a signal in the tick to {} that began after the subscription was unsubscribed", t.now));
	}
	Ok(())
}
pub fn scenarios(th: bool) -> Vec<Scenario> {
	let mut v = vec![];
	{
		use Do::*;
		let mut add = |name: &str, clients: Vec<Vec<Do>>, ticks: usize, dt: u64, before: Option<Do>, depth: usize, bound: u32| {
			let cfg = WCfg { clients, ticks, dt, before };
			v.push(Scenario::new(name.to_string(), &["K03"], depth, move |run| work(run, &cfg)).threads(bound + th as u32).split(4));
		};
		let all = vec![Imm, Delay, Cont, Cancel];
		let inv = vec![AddInv, Invoke, CancelInv];
		add("1 client scheduling 3 times during 2 ticks", vec![all.clone()], 2, 10, None, 3, 3);
		add("2 clients scheduling 3 times during 2 ticks", vec![all.clone(), all.clone()], 2, 10, Some(Cont), 3, 2);
		add("1 client with invoked work during 2 ticks", vec![inv.clone()], 2, 10, None, 4, 3);
		add("2 clients with invoked work during 2 ticks", vec![inv.clone(), vec![Invoke, Imm]], 2, 10, Some(AddInv), 3, 2);
	}
	use Call::*;
	use Op::*;
	for op in [Op::Delay, ObserveOn, Debounce, Throttle, Silent, SubscribeOn, Interval, Timer, OnTick] {
		let fed = is_fed(op);
		v.push(Scenario::new(format!("{op:?} acted on from its callback"), &["R01"], if fed { 6 + th as usize } else { 5 }, move |run| react(run, op)).split(2));
		let mut add = |name: String, inside: bool, clients: Vec<Vec<Call>>, ticks: usize, depth: usize, bound: u32| {
			let cfg = SCfg { op, inside, clients, ticks };
			v.push(Scenario::new(name, &["K03"], depth, move |run| stream(run, &cfg)).threads(bound + th as u32).split(4));
		};
		if fed {
			add(format!("{op:?} fed by 1 client"), false, vec![vec![Next, Error, Complete, Unsub, Call::Drop]], 2, 4, 2);
			add(format!("{op:?} fed by 1 client, unsubscribed by another one"), false, vec![vec![Next, Error, Complete], vec![Unsub, Call::Drop]], 2, 3, 2);
			add(format!("{op:?} subscribed while ticking"), true, vec![vec![Next, Error, Complete, Unsub]], 2, 3, 2);
		} else {
			add(format!("{op:?} unsubscribed while ticking"), false, vec![vec![Unsub, Call::Drop]], 3, 1, 3);
			add(format!("{op:?} subscribed while ticking"), true, vec![vec![Unsub, Call::Drop]], 2, 1, 3);
		}
	}
	v
}

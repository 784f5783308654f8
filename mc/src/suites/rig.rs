//! Probe sources, probe destination, and the lock-step driver comparing the real pipeline with its
//! reference model after every event.
use crate::engine::{Fail, Res, Run, Scenario};
use rx_core::prelude::*;
use rx_core_scheduler_ticking::*;
use std::collections::{BTreeSet, VecDeque};
use std::fmt::Debug;
use std::mc;
use std::real::sync::{Arc, Mutex};
use std::time::Duration;

pub type V = Vec<i32>;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Sig {
	N(V),
	E(V),
	C,
	U,
}
pub use Sig::*;
pub fn n(v: i32) -> Sig {
	N(vec![v])
}
pub fn e(v: i32) -> Sig {
	E(vec![v])
}

/// Values as integer sequences, so that every output type has one representation.
pub trait ToV: Signal {
	fn v(&self) -> V;
}
impl ToV for i32 {
	fn v(&self) -> V {
		vec![*self]
	}
}
impl ToV for usize {
	fn v(&self) -> V {
		vec![*self as i32]
	}
}
impl ToV for i64 {
	fn v(&self) -> V {
		vec![*self as i32]
	}
}
impl ToV for bool {
	fn v(&self) -> V {
		vec![*self as i32]
	}
}
impl ToV for () {
	fn v(&self) -> V {
		vec![]
	}
}
impl ToV for Never {
	fn v(&self) -> V {
		unreachable!()
	}
}
impl<T: ToV> ToV for Vec<T> {
	fn v(&self) -> V {
		self.iter().flat_map(|x| x.v()).collect()
	}
}
impl<T: ToV, const K: usize> ToV for [T; K] {
	fn v(&self) -> V {
		self.iter().flat_map(|x| x.v()).collect()
	}
}
impl<A: ToV, B: ToV> ToV for (A, B) {
	fn v(&self) -> V {
		let mut a = self.0.v();
		a.extend(self.1.v());
		a
	}
}
impl<A: ToV> ToV for Option<A> {
	fn v(&self) -> V {
		match self {
			Some(a) => a.v(),
			None => vec![-99],
		}
	}
}
impl<A: ToV, B: ToV> ToV for Result<A, B> {
	fn v(&self) -> V {
		match self {
			Ok(a) => [vec![-1], a.v()].concat(),
			Err(a) => [vec![-2], a.v()].concat(),
		}
	}
}
impl<A: ToV, B: ToV> ToV for ObserverNotification<A, B> {
	fn v(&self) -> V {
		match self {
			ObserverNotification::Next(a) => [vec![-1], a.v()].concat(),
			ObserverNotification::Error(a) => [vec![-2], a.v()].concat(),
			ObserverNotification::Complete => vec![-3],
		}
	}
}

pub struct Ctx;
impl WorkContext<'_> for Ctx {}
pub struct CtxP;
impl WorkContextProvider for CtxP {
	type Item<'c> = Ctx;
}
pub type Exec = TickingSchedulerExecutor<TickingScheduler<CtxP>, CtxP>;
pub type Sched = SchedulerHandle<TickingScheduler<CtxP>>;
pub type SchedTy = TickingScheduler<CtxP>;
pub fn tick_exec(e: &mut Exec, ms: u64) {
	e.tick(Duration::from_millis(ms), &mut Ctx);
}

#[derive(Default)]
pub struct InstS {
	pub sub: Option<Handle>,
	pub released: u32,
	pub sync: Vec<Sig>,
	pub ended: bool,
}
#[derive(Default)]
pub struct WS {
	pub log: Vec<Sig>,
	pub late: Vec<String>,
	pub srcs: Vec<Vec<InstS>>,
	pub sync_budget: usize,
	pub sync_only_src: Option<usize>,
	pub dst_teardown: u32,
	pub user_teardown: u32,
	pub calls: Vec<(u8, V)>,
	pub last_of: Vec<Option<usize>>,
	pub sync_vals: Vec<i32>,
	pub released_order: Vec<(usize, usize)>,
	pub ended_by_signal: bool,
	/// Sources unsubscribe their subscriber right after its terminal signal, as subjects do.
	pub trail: bool,
	/// What the driver's own oldest work pushes at its next run; `Some(None)`: it ends.
	pub inbox: Option<Option<(usize, Sig)>>,
}
#[derive(Clone)]
pub struct W {
	pub s: Arc<Mutex<WS>>,
	pub exec: Arc<Mutex<Exec>>,
	pub sched: Sched,
	pub cfg: Arc<CaseCfg>,
	/// This world is the one of an operator inside a chain.
	pub stage: Option<Arc<StageW>>,
}
pub type Up = Arc<dyn Fn(ErasedSubscriber<i32, i32>) -> Sub + Send + Sync>;
/// The place of an operator in a chain: what it subscribes to and what it emits to, and which of
/// the driver's sources are its secondary ones.
pub struct StageW {
	pub up: Up,
	pub down: Option<Mutex<Option<ErasedSubscriber<i32, i32>>>>,
	pub base: usize,
	pub srcs: usize,
}
/// What passes between the operators of a chain.
pub fn conv(v: &V) -> i32 {
	if v.len() == 1 && v[0] > 0 { v[0] } else { (100 + v.iter().sum::<i32>()).max(1) }
}
impl W {
	pub fn new(cfg: Arc<CaseCfg>) -> W {
		let exec = Exec::new(TickingScheduler::default());
		let sched = exec.get_scheduler_handle();
		let w = W {
			s: Arc::new(Mutex::new(WS::default())),
			exec: Arc::new(Mutex::new(exec)),
			sched,
			cfg,
			stage: None,
		};
		w.s.lock().unwrap().srcs = (0..w.cfg.srcs).map(|_| Vec::new()).collect();
		w
	}
	pub fn src(&self, i: usize) -> Src {
		if let Some(st) = &self.stage {
			let i = i.min(st.srcs - 1);
			return Src { w: self.clone(), i: if i == 0 { usize::MAX } else { st.base + i - 1 } };
		}
		Src {
			w: self.clone(),
			i: i.min(self.cfg.srcs - 1),
		}
	}
	/// A callback of the user ran.
	pub fn call(&self, kind: u8, v: V) {
		self.s.lock().unwrap().calls.push((kind, v));
	}
	fn inst(&self, i: usize, k: usize) -> Option<Handle> {
		self.s.lock().unwrap().srcs[i][k].sub.clone()
	}
	pub fn push(&self, i: usize, k: usize, s: &Sig) {
		let Some(d) = self.inst(i, k) else { return };
		if !matches!(s, N(_)) {
			self.s.lock().unwrap().srcs[i][k].ended = true;
		}
		d.push(s.clone());
	}
	pub fn tick(&self, ms: u64) {
		self.exec
			.lock()
			.unwrap()
			.tick(Duration::from_millis(ms), &mut Ctx);
	}
	pub fn sched_empty(&self) -> bool {
		self.exec.lock().unwrap().is_empty()
	}
	pub fn dst<T: ToV, E: ToV>(&self) -> Dst<T, E> {
		self.dst_with(None)
	}
	pub fn dst_with<T: ToV, E: ToV>(&self, limit: Option<usize>) -> Dst<T, E> {
		let mut td = SubscriptionData::default();
		let w = self.clone();
		let fwd = self.stage.as_ref().and_then(|s| s.down.as_ref()).map(|d| d.lock().unwrap().take().unwrap());
		if fwd.is_none() {
			td.add_teardown(Teardown::new(move || w.s.lock().unwrap().dst_teardown += 1));
		}
		Dst {
			w: self.clone(),
			fwd,
			td,
			limit: limit.or(self.cfg.limit.lock().unwrap().clone()),
			_p: std::marker::PhantomData,
		}
	}
}

/// A source under the control of the driver.
#[derive(Clone)]
pub struct Src {
	pub w: W,
	pub i: usize,
}
impl ObservableOutput for Src {
	type Out = i32;
	type OutError = i32;
}
impl WithPrimaryCategory for Src {
	type PrimaryCategory = PrimaryCategoryObservable;
}
/// The producer's end of a subscription. Signals arriving while one is being delivered (a source
/// is used from inside its own delivery) are delivered right after it, as subjects do.
#[derive(Clone)]
pub struct Handle(Arc<Mutex<HandleS>>);
pub struct HandleS {
	d: Option<ErasedSubscriber<i32, i32>>,
	q: VecDeque<Sig>,
	td: Vec<Teardown>,
	asked: bool,
	trail: bool,
}
impl Handle {
	fn new(d: ErasedSubscriber<i32, i32>, trail: bool) -> Handle {
		Handle(Arc::new(Mutex::new(HandleS {
			d: Some(d),
			q: VecDeque::new(),
			td: vec![],
			asked: false,
			trail,
		})))
	}
	pub fn push(&self, s: Sig) {
		let mut g = self.0.lock().unwrap();
		if s == U {
			g.asked = true;
		}
		g.q.push_back(s);
		let trail = g.trail;
		let Some(mut d) = g.d.take() else { return };
		loop {
			let Some(s) = g.q.pop_front() else { break };
			drop(g);
			let trailing = trail && matches!(s, C | E(_));
			if !d.is_closed() {
				match s {
					N(v) => d.next(v[0]),
					E(v) => d.error(v[0]),
					C => d.complete(),
					U => d.unsubscribe(),
				}
				if trailing {
					d.unsubscribe();
				}
			}
			g = self.0.lock().unwrap();
			let tds: Vec<_> = g.td.drain(..).collect();
			if !tds.is_empty() {
				drop(g);
				for t in tds {
					d.add_teardown(t);
				}
				g = self.0.lock().unwrap();
			}
		}
		g.d = Some(d);
	}
	pub fn is_closed(&self) -> bool {
		let g = self.0.lock().unwrap();
		match &g.d {
			Some(d) => d.is_closed(),
			None => g.asked,
		}
	}
	fn add_teardown(&self, t: Teardown) {
		let mut g = self.0.lock().unwrap();
		let Some(mut d) = g.d.take() else {
			g.td.push(t);
			return;
		};
		drop(g);
		d.add_teardown(t);
		self.0.lock().unwrap().d = Some(d);
	}
	fn take(&self) -> Option<ErasedSubscriber<i32, i32>> {
		self.0.lock().unwrap().d.take()
	}
}
pub enum SrcSub {
	Src(Handle),
	/// The subscription of the rest of a chain.
	Up(Sub),
}
impl SubscriptionLike for SrcSub {
	fn is_closed(&self) -> bool {
		match self {
			SrcSub::Src(d) => d.is_closed(),
			SrcSub::Up(s) => s.is_closed(),
		}
	}
	fn unsubscribe(&mut self) {
		match self {
			SrcSub::Src(d) => d.push(U),
			SrcSub::Up(s) => s.unsubscribe(),
		}
	}
}
impl TeardownCollection for SrcSub {
	fn add_teardown(&mut self, t: Teardown) {
		match self {
			SrcSub::Src(d) => d.add_teardown(t),
			SrcSub::Up(s) => s.add_teardown(t),
		}
	}
}
impl Drop for SrcSub {
	fn drop(&mut self) {
		if let SrcSub::Src(d) = self {
			d.push(U)
		}
	}
}
impl Observable for Src {
	type Subscription<D>
		= SrcSub
	where
		D: 'static + Subscriber<In = i32, InError = i32>;
	fn subscribe<D>(&mut self, d: D) -> SrcSub
	where
		D: 'static + UpgradeableObserver<In = i32, InError = i32> + Send + Sync,
	{
		if self.i == usize::MAX {
			let up = self.w.stage.as_ref().unwrap().up.clone();
			return SrcSub::Up(up(ErasedSubscriber::new(d.upgrade())));
		}
		let shared = Handle::new(ErasedSubscriber::new(d.upgrade()), self.w.s.lock().unwrap().trail);
		let (i, w) = (self.i, self.w.clone());
		let k = {
			let mut s = w.s.lock().unwrap();
			let k = s.srcs[i].len();
			s.srcs[i].push(InstS {
				sub: Some(shared.clone()),
				..Default::default()
			});
			k
		};
		let w2 = w.clone();
		shared.add_teardown(Teardown::new(move || {
			let mut s = w2.s.lock().unwrap();
			s.srcs[i][k].released += 1;
			s.released_order.push((i, k));
		}));
		// A producer may emit during the subscription, as long as the subscriber is open.
		loop {
			let ev = {
				let s = w.s.lock().unwrap();
				if s.sync_budget == 0 || s.sync_only_src.is_some_and(|o| o != i) {
					None
				} else {
					let vals = s.sync_vals.clone();
					drop(s);
					let c = mc::choose(vals.len() + 3);
					if c == 0 {
						None
					} else if c <= vals.len() {
						Some(n(vals[c - 1]))
					} else if c == vals.len() + 1 {
						Some(C)
					} else {
						Some(e(7))
					}
				}
			};
			let Some(ev) = ev else { break };
			if shared.is_closed() {
				break;
			}
			{
				let mut s = w.s.lock().unwrap();
				s.sync_budget -= 1;
				s.srcs[i][k].sync.push(ev.clone());
				if s.trail && matches!(ev, C | E(_)) {
					s.srcs[i][k].sync.push(U);
				}
			}
			w.push(i, k, &ev);
			if !matches!(ev, N(_)) {
				break;
			}
		}
		SrcSub::Src(shared)
	}
}

pub struct Dst<T, E> {
	w: W,
	/// The next operator of the chain.
	fwd: Option<ErasedSubscriber<i32, i32>>,
	td: SubscriptionData,
	limit: Option<usize>,
	_p: std::marker::PhantomData<fn(T, E)>,
}
impl<T: ToV, E: ToV> ObserverInput for Dst<T, E> {
	type In = T;
	type InError = E;
}
impl<T, E> WithPrimaryCategory for Dst<T, E> {
	type PrimaryCategory = PrimaryCategorySubscriber;
}
impl<T, E> ObserverUpgradesToSelf for Dst<T, E> {}
impl<T, E> Dst<T, E> {
	fn log(&self, s: Sig) -> bool {
		let closed = self.td.is_closed();
		let mut g = self.w.s.lock().unwrap();
		if closed {
			// A subscriber that closed by itself is not told so by its upstream.
			if g.ended_by_signal {
				g.late.push(format!("{s:?}"));
			}
			false
		} else {
			g.ended_by_signal |= !matches!(s, N(_));
			g.log.push(s);
			true
		}
	}
}
impl<T: ToV, E: ToV> RxObserver for Dst<T, E> {
	fn next(&mut self, v: T) {
		if let Some(f) = self.fwd.as_mut() {
			return f.next(conv(&v.v()));
		}
		if self.log(N(v.v())) {
			if let Some(l) = self.limit.as_mut() {
				*l -= 1;
				if *l == 0 {
					self.unsubscribe();
				}
			}
		}
	}
	fn error(&mut self, v: E) {
		if let Some(f) = self.fwd.as_mut() {
			return f.error(conv(&v.v()));
		}
		if self.log(E(v.v())) {
			self.unsubscribe();
		}
	}
	fn complete(&mut self) {
		if let Some(f) = self.fwd.as_mut() {
			return f.complete();
		}
		if self.log(C) {
			self.unsubscribe();
		}
	}
}
impl<T, E> SubscriptionLike for Dst<T, E> {
	fn is_closed(&self) -> bool {
		match &self.fwd {
			Some(f) => f.is_closed(),
			None => self.td.is_closed(),
		}
	}
	fn unsubscribe(&mut self) {
		if let Some(f) = self.fwd.as_mut() {
			return f.unsubscribe();
		}
		if !self.td.is_closed() {
			self.w.s.lock().unwrap().log.push(U);
			self.td.unsubscribe();
		}
	}
}
impl<T, E> TeardownCollection for Dst<T, E> {
	fn add_teardown(&mut self, t: Teardown) {
		match self.fwd.as_mut() {
			Some(f) => f.add_teardown(t),
			None => self.td.add_teardown(t),
		}
	}
}
impl<T, E> Drop for Dst<T, E> {
	fn drop(&mut self) {
		self.unsubscribe_on_drop();
	}
}
impl<T, E> Dst<T, E> {
	fn unsubscribe_on_drop(&mut self) {
		if self.fwd.is_none() && !self.td.is_closed() {
			self.w.s.lock().unwrap().log.push(U);
			self.td.unsubscribe();
		}
	}
}

pub type Sub = Box<dyn SubscriptionWithTeardown + Send + Sync>;

// ---------------------------------------------------------------------------------------------
// Reference models

/// What a model may do: emit downstream, subscribe to and release sources.
pub struct O {
	pub log: Vec<Sig>,
	pub closed: bool,
	pub limit: Option<usize>,
	pub active: Vec<BTreeSet<usize>>,
	pub count: Vec<usize>,
	pub sync: Vec<Vec<Vec<Sig>>>,
	pub now: u64,
	pub calls: Vec<(u8, V)>,
	/// Work the subscription may still legitimately hold in the scheduler although it closed.
	pub lingering: bool,
	pub in_tick: bool,
	/// Subscriptions to sources that may or may not be attempted on a closed stream.
	pub optional: Vec<usize>,
	/// Subscriptions before these belong to an earlier instance of the operator.
	pub born: Vec<usize>,
	/// In a chain: the next operator, which sees this one as instance `.1` of its source 0.
	pub sink: Option<(Link, usize)>,
	/// In a chain: source 0 is the operator before. Subscribes to it (instance, time, in a tick,
	/// values wanted) and returns what it emits meanwhile.
	pub upstream: Option<Upstream>,
	/// In a chain: how often the sources were subscribed to, over all instances of the operator.
	pub tally: Option<Arc<Mutex<Vec<usize>>>>,
	/// In a chain: the operator next to this source ended before the chain did; what the source
	/// holds may go then or with the whole chain.
	pub early: Vec<bool>,
	/// In a chain: the operator whose subscription was handed out ended before the chain did; the
	/// teardowns added to that subscription may run then or with the whole chain.
	pub handle_ended: bool,
	/// In a chain: once it ended, the operator no longer hands an unsubscription on.
	pub swallows: bool,
	/// In a chain: what happens during the subscription is handed over at its end.
	pub record: bool,
}
pub struct Stage {
	pub m: Box<dyn Model>,
	pub o: O,
}
pub type Upstream = Arc<dyn Fn(usize, u64, bool, Option<usize>) -> Vec<Sig>>;
pub type Link = Arc<Mutex<Stage>>;
impl O {
	/// Hand a signal to the next operator.
	fn pass(&mut self, s: Sig) {
		let (l, k) = self.sink.clone().unwrap();
		let over = !matches!(s, N(_));
		let open = {
			let g = &mut *l.lock().unwrap();
			deliver(&mut *g.m, &mut g.o, 0, k, s);
			g.m.settle(&mut g.o);
			!g.o.closed && g.o.is_active(0, k)
		};
		if !open {
			self.shut();
		} else if over {
			// The next operator holds on to what is before it.
			self.closed = true;
		}
	}
	pub fn shut(&mut self) {
		self.closed = true;
		for a in self.active.iter_mut() {
			a.clear();
		}
	}
	pub fn new(srcs: usize, limit: Option<usize>) -> O {
		O {
			log: vec![],
			closed: false,
			limit,
			active: vec![BTreeSet::new(); srcs],
			count: vec![0; srcs],
			sync: vec![vec![]; srcs],
			now: 0,
			calls: vec![],
			lingering: false,
			in_tick: false,
			optional: vec![0; srcs],
			born: vec![0; srcs],
			sink: None,
			upstream: None,
			tally: None,
			record: false,
			swallows: false,
			handle_ended: false,
			early: vec![false; srcs],
		}
	}
	pub fn next(&mut self, v: V) {
		if self.closed {
			return;
		}
		if self.sink.is_some() {
			return self.pass(n(conv(&v)));
		}
		self.log.push(N(v));
		if let Some(l) = self.limit.as_mut() {
			*l -= 1;
			if *l == 0 {
				self.close();
			}
		}
	}
	pub fn error(&mut self, v: V) {
		if !self.closed {
			if self.sink.is_some() {
				return self.pass(e(conv(&v)));
			}
			self.log.push(E(v));
			self.ended();
		}
	}
	pub fn complete(&mut self) {
		if !self.closed {
			if self.sink.is_some() {
				return self.pass(C);
			}
			self.log.push(C);
			self.ended();
		}
	}
	pub fn close(&mut self) {
		if !self.closed {
			if self.sink.is_some() {
				return self.pass(U);
			}
			self.log.push(U);
			self.closed = true;
			for a in self.active.iter_mut() {
				a.clear();
			}
		}
	}
	fn ended(&mut self) {
		if self.record { self.shut() } else { self.close() }
	}
	pub fn emit(&mut self, s: Sig) {
		match s {
			N(v) => self.next(v),
			E(v) => self.error(v),
			C => self.complete(),
			U => self.close(),
		}
	}
	/// Subscribe to a source; returns the instance and what it emitted during the subscription.
	pub fn subscribe(&mut self, src: usize) -> (usize, Vec<Sig>) {
		let src = src.min(self.count.len() - 1);
		let k = self.count[src];
		self.count[src] += 1;
		self.active[src].insert(k);
		if let Some(t) = &self.tally {
			t.lock().unwrap()[src] += 1;
		}
		if src == 0
			&& let Some(u) = self.upstream.clone()
		{
			return (k, u(k, self.now, self.in_tick, None));
		}
		let ev = self.sync[src].get(k).cloned().unwrap_or_default();
		(k, ev)
	}
	pub fn subscribe_optional(&mut self, src: usize) {
		self.optional[src] += 1;
	}
	pub fn release(&mut self, src: usize, k: usize) {
		self.active[src].remove(&k);
	}
	pub fn is_active(&self, src: usize, k: usize) -> bool {
		self.active[src].contains(&k)
	}
	pub fn call(&mut self, kind: u8, v: V) {
		self.calls.push((kind, v));
	}
}
pub trait Model {
	/// The subscription is made.
	fn start(&mut self, o: &mut O) {
		sub(self, o, 0);
	}
	/// Instance `k` of source `src` signals. Terminal signals already released the instance.
	fn sig(&mut self, src: usize, k: usize, s: Sig, o: &mut O);
	fn tick(&mut self, _o: &mut O) {}
	/// The rest of the tick, after something else happened during it.
	fn rest_of_tick(&mut self, _o: &mut O) {}
	/// Does the source stay subscribed after this terminal signal (the stream goes on)?
	fn keeps(&self, _s: &Sig) -> bool {
		false
	}
	/// After every event.
	fn settle(&mut self, _o: &mut O) {}
	/// A source unsubscribes its subscriber after it completed or failed: nothing is left to
	/// cancel, unless the subscriber stands for more than that source.
	fn trailing(&mut self, _src: usize, _k: usize, _o: &mut O) {}
	/// The downstream unsubscribes.
	fn cancel(&mut self, o: &mut O) {
		o.close();
	}
}
/// Subscribe to `src` and process what it emits during the subscription.
pub fn sub<M: Model + ?Sized>(m: &mut M, o: &mut O, src: usize) -> usize {
	let (k, evs) = o.subscribe(src);
	let src = src.min(o.count.len() - 1);
	let mut values = 0;
	for s in evs {
		let value = matches!(s, N(_));
		values += value as usize;
		deliver(m, o, src, k, s);
		if value
			&& src == 0 && (o.closed || !o.is_active(0, k))
			&& let Some(u) = o.upstream.clone()
		{
			// The operator before notices at this value that nobody listens any more.
			u(k, o.now, o.in_tick, Some(values));
			break;
		}
	}
	k
}
pub fn deliver<M: Model + ?Sized>(m: &mut M, o: &mut O, src: usize, k: usize, s: Sig) {
	if o.born.get(src).is_some_and(|b| k < *b) {
		return;
	}
	if !o.closed && s == U && !o.is_active(src, k) {
		m.trailing(src, k, o);
	}
	if o.closed && o.record && s == U && src == 0 && !o.swallows {
		o.log.push(U);
	}
	if o.closed
		&& s == U && src == 0 && !o.swallows
		&& let Some((l, k)) = o.sink.clone()
	{
		// In a chain, what already ended passes it on.
		let g = &mut *l.lock().unwrap();
		deliver(&mut *g.m, &mut g.o, 0, k, U);
		g.m.settle(&mut g.o);
	}
	if o.closed || !o.is_active(src, k) {
		return;
	}
	if !matches!(s, N(_)) && !m.keeps(&s) {
		o.release(src, k);
	}
	m.sig(src, k, s, o);
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
	S(usize, Sig),
	Unsub,
	Drop,
	Tick(u64),
	/// A tick during which a work scheduled for it makes the source signal.
	TickS(u64, Sig),
	/// A tick whose first work, older than any of the operator's, makes the source signal.
	TickP(u64, Sig),
}

pub struct CaseCfg {
	pub srcs: usize,
	pub events: Vec<Ev>,
	/// Values a source may emit during the subscription, and how many of them.
	pub sync: (usize, Vec<i32>),
	pub sync_only_src: Option<usize>,
	/// Downstream closes by itself after so many values.
	pub limits: Vec<Option<usize>>,
	pub limit: Mutex<Option<usize>>,
	/// Does the model describe the scheduler and is everything to be gone after the end?
	pub own: Vec<&'static str>,
	/// Compare user callback invocations.
	pub calls: bool,
	/// Signals may outlive an unsubscription as documented (deferred end).
	pub check_sched: bool,
	/// An ended source may make the subscription report itself closed before the stream ends.
	pub closed_slack: bool,
	/// The subscription is a shared handle: dropping it releases nothing (by design).
	pub shared_handle: bool,
}
impl CaseCfg {
	pub fn new(srcs: usize, events: Vec<Ev>) -> CaseCfg {
		CaseCfg {
			srcs,
			events,
			sync: (2, vec![1, 2]),
			sync_only_src: None,
			limits: vec![None, Some(1), Some(2)],
			limit: Mutex::new(None),
			own: vec![],
			calls: false,
			check_sched: true,
			closed_slack: false,
			shared_handle: false,
		}
	}
}

fn mism(props: &[&'static str], own: &[&'static str], msg: String) -> Fail {
	let mut p: Vec<&'static str> = own.to_vec();
	p.extend(props);
	Fail {
		props: p,
		msg,
		known: None,
	}
}

pub fn sig_s(l: &[Sig]) -> String {
	l.iter()
		.map(|s| match s {
			N(v) => format!("{}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("/")),
			E(v) => format!("E{}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("/")),
			C => "C".into(),
			U => "U".into(),
		})
		.collect::<Vec<_>>()
		.join(" ")
}

struct Cmp<'a> {
	w: &'a W,
	cfg: &'a CaseCfg,
}
impl Cmp<'_> {
	fn compare(&self, sub: &Option<Sub>, o: &O, at: &str) -> Res {
		let s = self.w.s.lock().unwrap();
		let own = &self.cfg.own;
		if s.log != o.log {
			let mut props = vec![];
			// The grammar itself, or the moment of the end.
			let term = |l: &[Sig]| l.iter().filter(|x| !matches!(x, N(_))).cloned().collect::<Vec<_>>();
			if term(&s.log) != term(&o.log) {
				props.push("C01");
			}
			return Err(mism(
				&props,
				own,
				format!("{at}: observed [{}] expected [{}]", sig_s(&s.log), sig_s(&o.log)),
			));
		}
		if !s.late.is_empty() {
			return Err(mism(
				&["C01"],
				own,
				format!("{at}: delivered after the end: {:?} (log [{}])", s.late, sig_s(&s.log)),
			));
		}
		if s.dst_teardown != o.closed as u32 {
			return Err(mism(
				&["C02"],
				own,
				format!("{at}: destination teardown ran {} times, closed {}", s.dst_teardown, o.closed),
			));
		}
		if s.user_teardown != o.closed as u32 && s.user_teardown != 1000 && !(s.user_teardown == 1 && o.handle_ended) {
			return Err(mism(
				&["C02"],
				own,
				format!("{at}: teardown of the subscription ran {} times, closed {}", s.user_teardown, o.closed),
			));
		}
		for (i, insts) in s.srcs.iter().enumerate() {
			if insts.len() < o.count[i] || insts.len() > o.count[i] + o.optional[i] {
				return Err(mism(
					&["C03"],
					own,
					format!("{at}: source {i} subscribed {} times, expected {}", insts.len(), o.count[i]),
				));
			}
			for (k, inst) in insts.iter().enumerate() {
				let want = !o.active[i].contains(&k) as u32;
				// What the subscription of a source that ended holds may go with the whole stream.
				let may_wait = !o.closed && (inst.ended && inst.released == 0 || o.early[i] && inst.released <= 1);
				if inst.released != want && !may_wait {
					return Err(mism(
						&["C03", "C02"],
						own,
						format!("{at}: source {i} subscription {k} released {} times, expected {want}", inst.released),
					));
				}
			}
		}
		if self.cfg.calls && s.calls != o.calls {
			return Err(mism(&[], own, format!("{at}: callbacks {:?} expected {:?}", s.calls, o.calls)));
		}
		drop(s);
		if let Some(sub) = sub {
			let c = sub.is_closed();
			if c != o.closed && !(self.cfg.closed_slack && c) {
				return Err(mism(
					&["C01"],
					own,
					format!("{at}: is_closed() is {c}, expected {} (log [{}])", o.closed, sig_s(&o.log)),
				));
			}
		}
		Ok(())
	}
}

pub type Build = Arc<dyn Fn(&W) -> Sub + Send + Sync>;
pub type MkModel = Arc<dyn Fn() -> Box<dyn Model> + Send + Sync>;

/// One possible meaning: the specification itself (`known` is none) or the exact description of a
/// recorded deviation from it.
struct Cand {
	m: Box<dyn Model>,
	o: O,
	known: Option<&'static str>,
	fail: Option<Fail>,
}
pub type Alts = Vec<(MkModel, Option<&'static str>)>;

pub fn drive(run: &Run, cfg: Arc<CaseCfg>, build: &Build, alts: &Alts) -> Res {
	let trail = mc::choose(2) == 1;
	if trail {
		run.trace(|| "sources unsubscribe after their terminal signal".into());
	}
	let lim = if cfg.limits.len() > 1 { mc::choose(cfg.limits.len()) } else { 0 };
	let limit = cfg.limits.get(lim).cloned().flatten();
	let cfg = Arc::new(CaseCfg {
		limit: Mutex::new(limit),
		limits: vec![],
		events: cfg.events.clone(),
		sync: cfg.sync.clone(),
		own: cfg.own.clone(),
		..*cfg
	});
	let w = W::new(cfg.clone());
	{
		let mut s = w.s.lock().unwrap();
		s.sync_budget = cfg.sync.0;
		s.sync_vals = cfg.sync.1.clone();
		s.sync_only_src = cfg.sync_only_src;
		s.trail = trail;
	}
	let cands = alts
		.iter()
		.map(|(mk, known)| Cand {
			m: mk(),
			o: O::new(cfg.srcs, limit),
			known: *known,
			fail: None,
		})
		.collect();
	let mut d = Drive {
		run,
		cfg: &cfg,
		w: &w,
		cands,
	};
	let r = d.go(build, limit);
	// Break the reference cycles of the probes.
	let insts: Vec<_> = w.s.lock().unwrap().srcs.iter_mut().flat_map(|v| v.iter_mut().filter_map(|i| i.sub.take()).collect::<Vec<_>>()).collect();
	for i in &insts {
		drop(i.take());
	}
	drop(insts);
	r
}

struct Drive<'a> {
	run: &'a Run,
	cfg: &'a CaseCfg,
	w: &'a W,
	cands: Vec<Cand>,
}
impl Drive<'_> {
	/// The models take the step the implementation just took.
	fn step(&mut self, mut f: impl FnMut(&mut dyn Model, &mut O)) {
		let sync: Vec<Vec<Vec<Sig>>> = self.w.s.lock().unwrap().srcs.iter().map(|v| v.iter().map(|i| i.sync.clone()).collect()).collect();
		for c in self.cands.iter_mut().filter(|c| c.fail.is_none()) {
			c.o.sync = sync.clone();
			f(&mut *c.m, &mut c.o);
			c.m.settle(&mut c.o);
		}
	}
	fn o(&self) -> &O {
		&self.cands.iter().find(|c| c.fail.is_none()).unwrap().o
	}
	fn judge(&mut self, mut f: impl FnMut(&O) -> Res) -> Res {
		for c in self.cands.iter_mut().filter(|c| c.fail.is_none()) {
			if let Err(e) = f(&c.o) {
				c.fail = Some(e);
			}
		}
		if self.cands.iter().any(|c| c.fail.is_none()) {
			return Ok(());
		}
		let mut fail = self.cands.iter_mut().find(|c| c.known.is_none()).unwrap().fail.take().unwrap();
		for c in &self.cands {
			if let (Some(k), Some(f)) = (c.known, &c.fail) {
				fail.msg += &format!(" (nor is it {k}: {})", f.msg);
			}
		}
		Err(fail)
	}
	fn compare(&mut self, sub: &Option<Sub>, at: &str) -> Res {
		let (w, cfg) = (self.w, self.cfg);
		self.judge(|o| Cmp { w, cfg }.compare(sub, o, at))?;
		let s = self.w.s.lock().unwrap();
		self.run.state(&(&s.log, &self.o().active, self.o().now, &s.calls.len()));
		Ok(())
	}
	fn sched(&mut self, ev: &Ev) -> Res {
		let (w, cfg) = (self.w, self.cfg);
		if cfg.check_sched && self.o().closed && !self.o().lingering {
			let r = check_sched(w, cfg, ev);
			self.judge(|_| r.clone())?;
		}
		Ok(())
	}
	fn go(&mut self, build: &Build, limit: Option<usize>) -> Res {
		let (run, cfg, w) = (self.run, self.cfg, self.w);
		if cfg.events.iter().any(|e| matches!(e, Ev::TickP(..))) {
			let w2 = w.clone();
			let mut sc = w.sched.lock();
			let id = sc.generate_cancellation_id();
			sc.schedule_continuous_work(
				move |_, _| {
					let m = w2.s.lock().unwrap().inbox.take();
					match m {
						Some(Some((k, s))) => w2.push(0, k, &s),
						Some(None) => return WorkResult::Done,
						None => {}
					}
					WorkResult::Pending
				},
				id,
			);
			drop(sc);
			w.tick(0);
		}
		let mut sub = build(w);
		{
			let w2 = w.clone();
			sub.add_teardown(Teardown::new(move || w2.s.lock().unwrap().user_teardown += 1));
		}
		let mut sub = Some(sub);
		self.step(|m, o| m.start(o));
		run.trace(|| {
			let s = w.s.lock().unwrap();
			let sync: Vec<Vec<String>> = s.srcs.iter().map(|v| v.iter().map(|i| sig_s(&i.sync)).collect()).collect();
			format!("downstream limit {limit:?}; subscribe, sources emit meanwhile {sync:?} -> [{}]", sig_s(&s.log))
		});
		run.step();
		if limit.is_some() {
			run.interesting();
		}
		self.compare(&sub, "after subscribe")?;
		let depth = run.depth().saturating_sub(if w.s.lock().unwrap().trail { cfg.srcs.min(2) } else { 0 });
		for step in 0..depth {
			// Events that can have an effect now; nothing left to do ends the history.
			let o = self.o();
			let mut en: Vec<(Ev, usize)> = vec![];
			for ev in &cfg.events {
				match ev {
					Ev::S(i, sg) => {
						for k in o.active[*i].iter() {
							let inst = &w.s.lock().unwrap().srcs[*i][*k];
							if (*sg == U || !inst.ended) && !(o.early[*i] && inst.released > 0) {
								en.push((ev.clone(), *k));
							}
						}
					}
					Ev::Unsub | Ev::Drop => {
						if !o.closed && sub.is_some() {
							en.push((ev.clone(), 0))
						}
					}
					Ev::Tick(_) => en.push((ev.clone(), 0)),
					Ev::TickS(_, sg) | Ev::TickP(_, sg) => {
						for k in o.active[0].iter() {
							if *sg == U || !w.s.lock().unwrap().srcs[0][*k].ended {
								en.push((ev.clone(), *k));
							}
						}
					}
				}
			}
			if en.is_empty() || (o.closed && en.iter().all(|x| matches!(x.0, Ev::Tick(_))) && (!cfg.check_sched || step > depth / 2 + 1)) {
				break;
			}
			let c = if en.len() > 1 { mc::choose(en.len()) } else { 0 };
			let (ev, k) = en[c].clone();
			run.step();
			let trailing = w.s.lock().unwrap().trail;
			match &ev {
				Ev::S(i, s) => {
					w.push(*i, k, s);
					let trailing = trailing && matches!(s, C | E(_));
					self.step(|m, o| {
						deliver(m, o, *i, k, s.clone());
						if trailing {
							deliver(m, o, *i, k, U);
						}
					});
				}
				Ev::Unsub => {
					sub.as_mut().unwrap().unsubscribe();
					self.step(|m, o| m.cancel(o));
					run.interesting();
				}
				Ev::Drop => {
					sub = None;
					self.step(|m, o| {
						if !cfg.shared_handle {
							m.cancel(o)
						}
					});
					run.interesting();
				}
				Ev::Tick(d) => {
					w.tick(*d);
					self.step(|m, o| {
						o.now += d;
						m.tick(o)
					});
				}
				Ev::TickP(d, sg) => {
					w.s.lock().unwrap().inbox = Some(Some((k, sg.clone())));
					w.tick(*d);
					self.step(|m, o| {
						o.now += d;
						o.in_tick = true;
						deliver(m, o, 0, k, sg.clone());
						if trailing && matches!(sg, C | E(_)) {
							deliver(m, o, 0, k, U);
						}
						o.in_tick = false;
						m.settle(o);
						m.tick(o)
					});
				}
				Ev::TickS(d, sg) => {
					let (w2, s2) = (w.clone(), sg.clone());
					{
						let mut sc = w.sched.lock();
						let id = sc.generate_cancellation_id();
						sc.schedule_immediate_work(move |_, _| w2.push(0, k, &s2), id);
					}
					w.tick(*d);
					self.step(|m, o| {
						o.now += d;
						m.tick(o);
						deliver(m, o, 0, k, sg.clone());
						if trailing && matches!(sg, C | E(_)) {
							deliver(m, o, 0, k, U);
						}
						m.settle(o);
						m.rest_of_tick(o)
					});
				}
			}
			run.trace(|| format!("{ev:?}#{k} -> [{}]", sig_s(&w.s.lock().unwrap().log)));
			self.compare(&sub, &format!("step {} {ev:?}", step + 1))?;
			self.sched(&ev)?;
		}
		// A producer of a closed stream may still try to emit: nothing may arrive.
		let ended: Vec<(usize, usize)> = {
			let s = w.s.lock().unwrap();
			s.srcs.iter().enumerate().flat_map(|(i, v)| v.iter().enumerate().filter(|(_, x)| x.released > 0).map(move |(k, _)| (i, k)).collect::<Vec<_>>()).collect()
		};
		for (i, k) in ended {
			w.push(i, k, &n(9));
			w.push(i, k, &C);
		}
		self.compare(&sub, "late signals of released sources")?;
		// Teardowns added after the end run at once.
		if self.o().closed
			&& let Some(s) = sub.as_mut()
		{
			let hit = Arc::new(Mutex::new(0));
			let h2 = hit.clone();
			s.add_teardown(Teardown::new(move || *h2.lock().unwrap() += 1));
			let h = *hit.lock().unwrap();
			self.judge(|o| {
				if o.closed && h != 1 {
					return Err(mism(&["C02"], &cfg.own, format!("a teardown added after the end ran {h} times")));
				}
				Ok(())
			})?;
		}
		let was = sub.is_some();
		if let Some(sub) = sub.as_mut()
			&& cfg.shared_handle
		{
			sub.unsubscribe();
		}
		drop(sub);
		if was && !self.o().closed {
			self.step(|m, o| m.cancel(o));
			run.trace(|| format!("drop -> [{}]", sig_s(&w.s.lock().unwrap().log)));
			self.compare(&None, "after the final drop")?;
		}
		self.sched(&Ev::Drop)?;
		if self.cands.iter().all(|c| c.fail.is_some() || c.known.is_some()) {
			let fail = self.cands.iter().find(|c| c.known.is_none()).unwrap().fail.clone().unwrap();
			let known = self.cands.iter().find(|c| c.fail.is_none()).unwrap().known;
			return Err(Fail {
				props: cfg.own.clone(),
				msg: fail.msg,
				known: known.map(|k| k.to_string()),
			});
		}
		Ok(())
	}
}
fn check_sched(w: &W, cfg: &CaseCfg, ev: &Ev) -> Res {
	// Cancellations are applied by the executor when it next looks at its queue.
	let before = w.s.lock().unwrap().log.len();
	if cfg.events.iter().any(|e| matches!(e, Ev::TickP(..))) {
		w.s.lock().unwrap().inbox = Some(None);
	}
	w.tick(0);
	let after = w.s.lock().unwrap().log.len();
	if before != after {
		return Err(mism(&["C03", "C01"], &cfg.own, format!("{ev:?}: a tick after the end delivered something")));
	}
	if !w.sched_empty() {
		return Err(mism(&["C03"], &cfg.own, format!("{ev:?}: the scheduler still holds work after the end")));
	}
	Ok(())
}

pub struct CaseB {
	pub name: String,
	pub cfg: CaseCfg,
	pub dq: usize,
	pub dt: usize,
	pub build: Build,
	pub mk: MkModel,
	/// Exact descriptions of recorded deviations.
	pub alts: Vec<(&'static str, MkModel)>,
}
impl CaseB {
	pub fn scenario(self, thorough: bool) -> Scenario {
		let mut props = self.cfg.own.clone();
		for p in ["C01", "C02", "C03"] {
			if !props.contains(&p) {
				props.push(p)
			}
		}
		let cfg = Arc::new(self.cfg);
		let b = self.build;
		let mut alts: Alts = vec![(self.mk, None)];
		alts.extend(self.alts.into_iter().map(|(k, m)| (m, Some(k))));
		Scenario::new(self.name, &props, if thorough { self.dt } else { self.dq }, move |run| {
			drive(run, cfg.clone(), &b, &alts)
		})
	}
}

/// A model of an operator with one source: a function from signals to signals.
pub struct F1<F>(pub F);
impl<F: FnMut(Sig) -> Vec<Sig>> Model for F1<F> {
	fn sig(&mut self, _s: usize, _k: usize, s: Sig, o: &mut O) {
		for x in (self.0)(s) {
			o.emit(x);
		}
	}
}

pub fn ev1() -> Vec<Ev> {
	vec![
		Ev::S(0, n(1)),
		Ev::S(0, n(2)),
		Ev::S(0, n(3)),
		Ev::S(0, C),
		Ev::S(0, e(7)),
		Ev::S(0, U),
		Ev::Unsub,
		Ev::Drop,
	]
}
pub fn mkf<F>(f: impl Fn() -> F + Send + Sync + 'static) -> MkModel
where
	F: FnMut(Sig) -> Vec<Sig> + 'static,
{
	Arc::new(move || Box::new(F1(f())))
}
pub fn dbg<T: Debug>(t: T) -> String {
	format!("{t:?}")
}

//! Subjects: what every subscriber of a subject observes, for every sequence of operations, and for
//! every operation performed from inside a callback.
use super::rig::{ToV, V, sig_s};
use super::rig::Sig::{self, *};
use crate::engine::{Fail, Res, Run, Scenario};
use rx_core::prelude::*;
use std::collections::VecDeque;
use std::mc;
use std::real::sync::{Arc, Mutex};

pub type Sub = Box<dyn SubscriptionWithTeardown + Send + Sync>;
pub type React = Arc<dyn Fn(&Sig) + Send + Sync>;

#[derive(Default)]
pub struct PrS {
	pub log: Vec<Sig>,
	pub late: Vec<String>,
	pub teardowns: u32,
}
#[derive(Clone, Default)]
pub struct Pr(pub Arc<Mutex<PrS>>);
impl Pr {
	pub fn log(&self) -> Vec<Sig> {
		self.0.lock().unwrap().log.clone()
	}
}
#[derive(Clone, Default)]
pub struct Spec {
	pub pr: Pr,
	/// Does not close itself on completion or error.
	pub open: bool,
	pub limit: Option<usize>,
	pub closed: bool,
	pub react: Option<React>,
}
/// A subscriber recording everything it is told.
pub struct Probe<T, E> {
	s: Spec,
	td: SubscriptionData,
	done: bool,
	_p: std::marker::PhantomData<fn(T, E)>,
}
impl<T: ToV, E: ToV> Probe<T, E> {
	pub fn new(s: Spec) -> Self {
		let mut td = SubscriptionData::default();
		if s.closed {
			td.unsubscribe();
		}
		Probe { s, td, done: false, _p: Default::default() }
	}
	fn log(&mut self, s: Sig) -> bool {
		{
			let mut g = self.s.pr.0.lock().unwrap();
			if self.td.is_closed() || self.done {
				if self.done {
					g.late.push(format!("{s:?}"));
				}
				return false;
			}
			g.log.push(s.clone());
		}
		self.done |= !matches!(s, N(_));
		if let Some(r) = self.s.react.clone() {
			r(&s);
		}
		true
	}
}
impl<T: ToV, E: ToV> ObserverInput for Probe<T, E> {
	type In = T;
	type InError = E;
}
impl<T, E> WithPrimaryCategory for Probe<T, E> {
	type PrimaryCategory = PrimaryCategorySubscriber;
}
impl<T, E> ObserverUpgradesToSelf for Probe<T, E> {}
impl<T: ToV, E: ToV> RxObserver for Probe<T, E> {
	fn next(&mut self, v: T) {
		if self.log(N(v.v()))
			&& let Some(l) = self.s.limit.as_mut()
		{
			*l -= 1;
			if *l == 0 {
				self.unsubscribe();
			}
		}
	}
	fn error(&mut self, v: E) {
		if self.log(Sig::E(v.v())) && !self.s.open {
			self.unsubscribe();
		}
	}
	fn complete(&mut self) {
		if self.log(C) && !self.s.open {
			self.unsubscribe();
		}
	}
}
impl<T, E> SubscriptionLike for Probe<T, E> {
	fn is_closed(&self) -> bool {
		self.td.is_closed()
	}
	fn unsubscribe(&mut self) {
		if !self.td.is_closed() {
			self.s.pr.0.lock().unwrap().log.push(U);
			self.td.unsubscribe();
			if let Some(r) = self.s.react.clone() {
				r(&U);
			}
		}
	}
}
impl<T, E> TeardownCollection for Probe<T, E> {
	fn add_teardown(&mut self, t: Teardown) {
		self.td.add_teardown(t)
	}
}
impl<T, E> Drop for Probe<T, E> {
	fn drop(&mut self) {
		self.unsubscribe();
	}
}

/// One interface over the subject kinds.
pub trait Subj: Send + Sync {
	fn next(&mut self, v: i32);
	fn error(&mut self, v: i32);
	fn complete(&mut self);
	fn unsub(&mut self);
	fn is_closed(&self) -> bool;
	fn sub(&mut self, view: u8, s: Spec) -> Sub;
	fn stored(&self) -> Option<V>;
	fn dup(&self) -> Box<dyn Subj>;
}
macro_rules! subj {
	([$($g:tt)*] $t:ty, |$me:ident| $stored:expr) => {
		impl<$($g)*> Subj for $t {
			fn next(&mut self, v: i32) { RxObserver::next(self, v) }
			fn error(&mut self, v: i32) { RxObserver::error(self, v) }
			fn complete(&mut self) { RxObserver::complete(self) }
			fn unsub(&mut self) { SubscriptionLike::unsubscribe(self) }
			fn is_closed(&self) -> bool { SubscriptionLike::is_closed(self) }
			fn sub(&mut self, _view: u8, s: Spec) -> Sub { Box::new(self.subscribe(Probe::<i32, i32>::new(s))) }
			fn stored(&self) -> Option<V> { let $me = self; $stored }
			fn dup(&self) -> Box<dyn Subj> { Box::new(self.clone()) }
		}
	};
}
subj!([] PublishSubject<i32, i32>, |_s| None);
subj!([] BehaviorSubject<i32, i32>, |s| Some(vec![s.value()]));
subj!([const CAP: usize] ReplaySubject<CAP, i32, i32>, |s| Some(s.values()));
impl<R: 'static + Fn(i32, i32) -> i32 + Clone + Send + Sync> Subj for AsyncSubject<i32, i32, R> {
	fn next(&mut self, v: i32) {
		RxObserver::next(self, v)
	}
	fn error(&mut self, v: i32) {
		RxObserver::error(self, v)
	}
	fn complete(&mut self) {
		RxObserver::complete(self)
	}
	fn unsub(&mut self) {
		SubscriptionLike::unsubscribe(self)
	}
	fn is_closed(&self) -> bool {
		SubscriptionLike::is_closed(self)
	}
	fn sub(&mut self, _view: u8, s: Spec) -> Sub {
		Box::new(self.subscribe(Probe::<i32, i32>::new(s)))
	}
	fn stored(&self) -> Option<V> {
		Some(self.value().into_iter().collect())
	}
	fn dup(&self) -> Box<dyn Subj> {
		Box::new(self.clone())
	}
}
impl Subj for ProvenanceSubject<i32, i32, i32> {
	fn next(&mut self, v: i32) {
		RxObserver::next(self, (v, v % 2))
	}
	fn error(&mut self, v: i32) {
		RxObserver::error(self, v)
	}
	fn complete(&mut self) {
		RxObserver::complete(self)
	}
	fn unsub(&mut self) {
		SubscriptionLike::unsubscribe(self)
	}
	fn is_closed(&self) -> bool {
		SubscriptionLike::is_closed(self)
	}
	fn sub(&mut self, view: u8, s: Spec) -> Sub {
		match view {
			0 => Box::new(self.subscribe(Probe::<(i32, i32), i32>::new(s))),
			1 => Box::new(self.all().subscribe(Probe::<i32, i32>::new(s))),
			2 => Box::new(self.replay_then_by_provenance(1).subscribe(Probe::<i32, i32>::new(s))),
			_ => Box::new(self.only_by_provenance(1).subscribe(Probe::<i32, i32>::new(s))),
		}
	}
	fn stored(&self) -> Option<V> {
		Some(vec![self.value().0, self.value().1])
	}
	fn dup(&self) -> Box<dyn Subj> {
		Box::new(self.clone())
	}
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
	Publish,
	Behavior,
	Replay(usize),
	Async(bool),
	Prov,
}
pub fn make(k: K) -> Box<dyn Subj> {
	match k {
		K::Publish => Box::new(PublishSubject::<i32, i32>::default()),
		K::Behavior => Box::new(BehaviorSubject::<i32, i32>::new(0)),
		K::Replay(1) => Box::new(ReplaySubject::<1, i32, i32>::default()),
		K::Replay(2) => Box::new(ReplaySubject::<2, i32, i32>::default()),
		K::Replay(_) => Box::new(ReplaySubject::<3, i32, i32>::default()),
		K::Async(false) => Box::new(AsyncSubject::<i32, i32>::default()),
		K::Async(true) => Box::new(AsyncSubject::<i32, i32, fn(i32, i32) -> i32>::new(|a, b| a * 10 + b)),
		K::Prov => Box::new(ProvenanceSubject::<i32, i32, i32>::new(0, 0)),
	}
}

// ---------------------------------------------------------------------------------------------
// Reference model

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Act {
	Next(i32),
	Error(i32),
	Complete,
	Unsub,
	/// Subscribe a plain subscriber through a view.
	Sub(SubKind),
	/// Unsubscribe the subscriber with this index.
	UnsubI(usize),
	DropI(usize),
	/// Ask the subscription with this index whether it is closed.
	AskI(usize),
	/// Ask the subject whether it is closed, and for its stored values.
	Ask,
	/// Attach a teardown to the subscription with this index.
	TearI(usize),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct SubKind {
	pub view: u8,
	pub open: bool,
	pub limit: Option<usize>,
	pub closed: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Trig {
	Next,
	Terminal,
	Unsub,
}
pub fn trig(s: &Sig) -> Trig {
	match s {
		N(_) => Trig::Next,
		U => Trig::Unsub,
		_ => Trig::Terminal,
	}
}
#[derive(Clone)]
struct Ms {
	log: Vec<Sig>,
	kind: SubKind,
	limit: Option<usize>,
	seen: usize,
	closed: bool,
	done: bool,
	in_list: bool,
	handle: bool,
	tears: u32,
}
#[derive(Clone)]
enum Q {
	N(V),
	E(i32),
	C,
	U,
	Rm(usize),
	Add(usize),
}
#[derive(Clone)]
pub struct M {
	k: K,
	completed: bool,
	errored: Option<i32>,
	unsub: bool,
	torn: bool,
	stored: V,
	acc: Option<i32>,
	subs: Vec<Ms>,
	q: VecDeque<Q>,
	busy: bool,
	/// subscriber, trigger, actions; fires once.
	react: Option<(usize, Trig, Vec<Act>)>,
	/// New subscribers are given the past before they are added.
	late_add: bool,
	pub asked: Vec<bool>,
}
impl M {
	pub fn closed_of(&self, i: usize) -> bool {
		self.subs[i].closed
	}
	pub fn log_of(&self, i: usize) -> Vec<Sig> {
		self.subs[i].log.clone()
	}
	/// Whether it is closed, completed, failed.
	pub fn flags(&self) -> (bool, bool, bool) {
		(self.is_closed(), self.completed, self.errored.is_some())
	}
	pub fn subs_len(&self) -> usize {
		self.subs.len()
	}
	pub fn new(k: K, react: Option<(usize, Trig, Vec<Act>)>, late_add: bool) -> M {
		M {
			k,
			completed: false,
			errored: None,
			unsub: false,
			torn: false,
			stored: if k == K::Prov { vec![0, 0] } else if k == K::Behavior { vec![0] } else { vec![] },
			acc: None,
			subs: vec![],
			q: VecDeque::new(),
			busy: false,
			react,
			late_add,
			asked: vec![],
		}
	}
	pub fn is_closed(&self) -> bool {
		self.completed || self.errored.is_some() || self.unsub
	}
	fn stored(&self) -> Option<V> {
		match self.k {
			K::Publish => None,
			K::Async(_) => Some(self.acc.into_iter().collect()),
			_ => Some(self.stored.clone()),
		}
	}
	fn tell(&mut self, i: usize, s: Sig) {
		let m = &mut self.subs[i];
		if m.closed || m.done {
			return;
		}
		let mut s = s;
		if let N(v) = &s
			&& self.k == K::Prov
		{
			let first = m.seen == 0;
			m.seen += 1;
			let pass = match m.kind.view {
				0 | 1 => true,
				2 => first || v[1] == 1,
				_ => v[1] == 1,
			};
			if !pass {
				return;
			}
			if m.kind.view != 0 {
				s = N(vec![v[0]]);
			}
		}
		m.log.push(s.clone());
		if s != U {
			m.done |= !matches!(s, N(_));
			self.fire(i, trig(&s));
		}
		let m = &mut self.subs[i];
		if matches!(s, N(_))
			&& let Some(l) = m.limit.as_mut()
		{
			*l -= 1;
			if *l == 0 {
				self.close(i);
			}
		} else if !matches!(s, N(_)) && !m.kind.open {
			self.close(i);
		}
	}
	fn close(&mut self, i: usize) {
		let m = &mut self.subs[i];
		if !m.closed {
			m.closed = true;
			m.log.push(U);
			self.fire(i, Trig::Unsub);
		}
	}
	fn fire(&mut self, i: usize, t: Trig) {
		if matches!(&self.react, Some((j, u, _)) if *j == i && *u == t) {
			let (_, _, acts) = self.react.take().unwrap();
			for a in acts {
				self.act(&a);
			}
		}
	}
	fn push(&mut self, q: Q) {
		self.q.push_back(q);
		self.drain();
	}
	fn drain(&mut self) {
		if self.busy {
			return;
		}
		self.busy = true;
		while let Some(q) = self.q.pop_front() {
			let all: Vec<usize> = (0..self.subs.len()).filter(|i| self.subs[*i].in_list).collect();
			match q {
				Q::N(v) => all.into_iter().for_each(|i| self.tell(i, N(v.clone()))),
				Q::E(v) => all.into_iter().for_each(|i| self.tell(i, Sig::E(vec![v]))),
				Q::C => all.into_iter().for_each(|i| self.tell(i, C)),
				Q::U => {
					self.torn = true;
					for i in all {
						self.subs[i].in_list = false;
						self.close(i);
					}
				}
				Q::Rm(i) => {
					self.subs[i].in_list = false;
					self.close(i);
				}
				Q::Add(i) => {
					if self.torn {
						self.close(i);
					} else {
						self.subs[i].in_list = true;
					}
				}
			}
		}
		self.busy = false;
	}
	pub fn act(&mut self, a: &Act) {
		match a {
			Act::Next(v) => {
				if self.is_closed() {
					return;
				}
				let val = if self.k == K::Prov { vec![*v, v % 2] } else { vec![*v] };
				match self.k {
					K::Publish => {}
					K::Behavior | K::Prov => self.stored = val.clone(),
					K::Replay(n) => {
						self.stored.push(*v);
						if self.stored.len() > n {
							self.stored.remove(0);
						}
					}
					K::Async(red) => {
						self.acc = Some(match self.acc {
							Some(x) if red => x * 10 + v,
							_ => *v,
						});
						return;
					}
				}
				self.push(Q::N(val));
			}
			Act::Error(v) => {
				if !self.is_closed() {
					self.errored = Some(*v);
					self.push(Q::E(*v));
				}
			}
			Act::Complete => {
				if !self.is_closed() {
					self.completed = true;
					if let (K::Async(_), Some(v)) = (self.k, self.acc) {
						self.q.push_back(Q::N(vec![v]));
					}
					self.push(Q::C);
				}
			}
			Act::Unsub => {
				if !self.unsub {
					self.unsub = true;
					self.push(Q::U);
				}
			}
			Act::Sub(k) => {
				let i = self.subs.len();
				self.subs.push(Ms {
					log: vec![],
					kind: k.clone(),
					limit: k.limit,
					seen: 0,
					closed: k.closed,
					done: false,
					in_list: false,
					handle: false,
					tears: 0,
				});
				let past: Vec<V> = match self.k {
					_ if self.errored.is_some() => vec![],
					K::Publish => vec![],
					K::Behavior | K::Prov => vec![self.stored.clone()],
					K::Replay(_) => self.stored.iter().map(|v| vec![*v]).collect(),
					K::Async(_) => {
						if self.completed {
							self.acc.into_iter().map(|v| vec![v]).collect()
						} else {
							vec![]
						}
					}
				};
				let was = self.busy;
				let adding = !self.late_add && !self.is_closed();
				if !self.late_add {
					self.busy = true;
				}
				if adding {
					self.q.push_back(Q::Add(i));
				}
				for v in past {
					self.tell(i, N(v));
				}
				if !adding {
					if let Some(v) = self.errored {
						self.tell(i, Sig::E(vec![v]));
					} else if self.completed {
						self.tell(i, C);
					}
					if self.is_closed() {
						self.close(i);
					} else {
						self.q.push_back(Q::Add(i));
					}
				}
				self.busy = was;
				self.drain();
				self.subs[i].handle = true;
			}
			Act::UnsubI(i) | Act::DropI(i) => {
				if let Some(m) = self.subs.get_mut(*i)
					&& m.handle
				{
					m.handle = false;
					if !m.closed {
						self.push(Q::Rm(*i));
					}
				}
			}
			Act::AskI(_) => {}
			Act::Ask => self.asked.push(self.is_closed()),
			Act::TearI(i) => {
				if let Some(m) = self.subs.get_mut(*i)
					&& m.handle
				{
					m.tears += 1;
				}
			}
		}
	}
}

// ---------------------------------------------------------------------------------------------
// Lock-step driver

struct Env {
	subj: Mutex<Option<Box<dyn Subj>>>,
	handles: Mutex<Vec<Option<Sub>>>,
	probes: Mutex<Vec<(Spec, u8)>>,
	asked: Mutex<Vec<bool>>,
	react: Mutex<Option<(usize, Trig, Vec<Act>)>>,
	run: Run,
}
impl Env {
	fn subj(&self) -> Option<Box<dyn Subj>> {
		self.subj.lock().unwrap().as_ref().map(|s| s.dup())
	}
	fn take(&self, i: usize) -> Option<Sub> {
		self.handles.lock().unwrap().get_mut(i).and_then(|h| h.take())
	}
	fn put(&self, i: usize, s: Sub) {
		self.handles.lock().unwrap()[i] = Some(s);
	}
	fn act(self: &Arc<Self>, a: &Act) {
		let need = matches!(a, Act::Next(_) | Act::Error(_) | Act::Complete | Act::Unsub | Act::Ask | Act::Sub(_));
		let mut s = match if need { self.subj() } else { None } {
			Some(s) => s,
			None if need => return,
			None => make(K::Publish),
		};
		match a {
			Act::Next(v) => s.next(*v),
			Act::Error(v) => s.error(*v),
			Act::Complete => s.complete(),
			Act::Unsub => s.unsub(),
			Act::Ask => {
				let _ = s.stored();
				self.asked.lock().unwrap().push(s.is_closed());
			}
			Act::Sub(k) => {
				let i = {
					let mut p = self.probes.lock().unwrap();
					let me = Arc::downgrade(self);
					let i = p.len();
					let react: React = Arc::new(move |s: &Sig| {
						let Some(me) = me.upgrade() else { return };
						let hit = {
							let mut r = me.react.lock().unwrap();
							if matches!(&*r, Some((j, t, _)) if *j == i && *t == trig(s)) { r.take() } else { None }
						};
						if let Some((_, _, acts)) = hit {
							for a in acts {
								let own = matches!(a, Act::AskI(j) | Act::TearI(j) if j == i);
								if own {
									me.run.known_hang(Some("subscription-queried-from-its-own-callback"));
								}
								me.act(&a);
								if own {
									me.run.known_hang(None);
								}
							}
						}
					});
					p.push((Spec { pr: Pr::default(), open: k.open, limit: k.limit, closed: k.closed, react: Some(react) }, k.view));
					self.handles.lock().unwrap().push(None);
					i
				};
				let spec = self.probes.lock().unwrap()[i].0.clone();
				let h = s.sub(k.view, spec);
				self.put(i, h);
			}
			Act::UnsubI(i) => {
				if let Some(mut h) = self.take(*i) {
					h.unsubscribe();
					drop(h);
				}
			}
			Act::DropI(i) => {
				drop(self.take(*i));
			}
			Act::AskI(i) => {
				if let Some(h) = self.take(*i) {
					// The answer may depend on the order in which peers are told.
					let _ = h.is_closed();
					self.put(*i, h);
				}
			}
			Act::TearI(i) => {
				if let Some(mut h) = self.take(*i) {
					let pr = self.probes.lock().unwrap()[*i].0.pr.clone();
					h.add_teardown(Teardown::new(move || pr.0.lock().unwrap().teardowns += 1));
					self.put(*i, h);
				}
			}
		}
	}
}

/// A subscriber that does not close itself may be unsubscribed or left open after a terminal signal.
fn norm(l: &[Sig], open: bool) -> Vec<Sig> {
	let mut l = l.to_vec();
	if open && l.len() > 1 && l.last() == Some(&U) && !matches!(l[l.len() - 2], N(_)) {
		l.pop();
	}
	l
}
fn differs(env: &Arc<Env>, m: &M, closed: bool, stored: &Option<V>, open: &[Option<bool>]) -> Option<(Vec<&'static str>, String)> {
	for (i, ((spec, _), ms)) in env.probes.lock().unwrap().iter().zip(&m.subs).enumerate() {
		let g = spec.pr.0.lock().unwrap();
		if norm(&g.log, ms.kind.open) != norm(&ms.log, ms.kind.open) {
			let fam = if matches!(m.k, K::Publish) { vec!["S01"] } else if m.k == K::Prov { vec!["S01", "S02", "S03"] } else { vec!["S01", "S02"] };
			return Some((fam, format!("subscriber {i} observed [{}] expected [{}]", sig_s(&g.log), sig_s(&ms.log))));
		}
		if !g.late.is_empty() {
			return Some((vec!["S01", "C01"], format!("subscriber {i} was told {:?} after its stream had ended", g.late)));
		}
		let opened = ms.kind.open && ms.done;
		if !opened && g.teardowns != if ms.closed { ms.tears } else { 0 } {
			return Some((vec!["C02", "S01"], format!("subscriber {i}: {} teardowns ran, {} attached, closed: {}", g.teardowns, ms.tears, ms.closed)));
		}
		if !opened && open[i].is_some_and(|c| c != ms.closed) {
			return Some((vec!["C01", "S01"], format!("subscription {i} reports closed = {:?}, expected {}", open[i], ms.closed)));
		}
	}
	if closed != m.is_closed() {
		return Some((vec!["S01"], format!("the subject reports closed = {closed}, expected {}", m.is_closed())));
	}
	if *stored != m.stored() {
		return Some((vec!["S02"], format!("the subject holds {stored:?}, expected {:?}", m.stored())));
	}
	if *env.asked.lock().unwrap() != m.asked {
		return Some((vec!["S01"], format!("queries from the callback answered {:?}, expected {:?}", env.asked.lock().unwrap(), m.asked)));
	}
	None
}

pub struct SubjCase {
	pub k: K,
	pub menu: Vec<Act>,
	pub subs: Vec<SubKind>,
	pub max_subs: usize,
	pub handles: bool,
	/// Actions of the reaction of subscriber 0, up to this many; empty menu: none.
	pub react_menu: Vec<Act>,
	pub react_len: usize,
	pub initial: Vec<Act>,
	pub props: Vec<&'static str>,
}

fn drive(run: &Run, c: &SubjCase) -> Res {
	let react = if c.react_menu.is_empty() {
		None
	} else {
		let t = [Trig::Next, Trig::Terminal, Trig::Unsub][mc::choose(3)];
		let mut acts = vec![];
		while acts.len() < c.react_len {
			let i = mc::choose(c.react_menu.len() + (!acts.is_empty()) as usize);
			if i == c.react_menu.len() {
				break;
			}
			acts.push(c.react_menu[i].clone());
		}
		run.trace(|| format!("subscriber 0 reacts to its first {t:?} with {acts:?}"));
		Some((0, t, acts))
	};
	let env = Arc::new(Env {
		subj: Mutex::new(Some(make(c.k))),
		handles: Mutex::default(),
		probes: Mutex::default(),
		asked: Mutex::default(),
		react: Mutex::new(react.clone()),
		run: run.clone(),
	});
	let mut models: Vec<(Option<&'static str>, M)> = vec![(None, M::new(c.k, react.clone(), false))];
	if react.is_some() && c.k != K::Publish {
		models.push((Some("subject-replays-before-adding"), M::new(c.k, react, true)));
	}
	let mut first: Option<Fail> = None;
	let total = c.initial.len() + run.depth();
	for d in 0..=total {
		let act = if d < c.initial.len() {
			c.initial[d].clone()
		} else if d < total {
			let mut menu = c.menu.clone();
			let n = models[0].1.subs.len();
			if n < c.max_subs {
				menu.extend(c.subs.iter().map(|k| Act::Sub(k.clone())));
			}
			if c.handles {
				for i in 0..n {
					if models[0].1.subs[i].handle {
						menu.push(Act::UnsubI(i));
						menu.push(Act::DropI(i));
						if models[0].1.subs[i].tears == 0 {
							menu.push(Act::TearI(i));
						}
					}
				}
			}
			let i = mc::choose(menu.len() + 1);
			if i == menu.len() {
				break;
			}
			menu[i].clone()
		} else {
			break;
		};
		run.step();
		env.act(&act);
		models.iter_mut().for_each(|m| m.1.act(&act));
		// Observed through the handle that exists anyway: cloning and dropping one is an operation.
		let (closed, stored) = {
			let s = env.subj.lock().unwrap();
			let s = s.as_ref().unwrap();
			(s.is_closed(), s.stored())
		};
		let open: Vec<Option<bool>> = env.handles.lock().unwrap().iter().map(|h| h.as_ref().map(|h| h.is_closed())).collect();
		run.trace(|| format!("{act:?} -> {:?}", env.probes.lock().unwrap().iter().map(|p| sig_s(&p.0.pr.log())).collect::<Vec<_>>()));
		for p in env.probes.lock().unwrap().iter() {
			run.state(&p.0.pr.log());
		}
		run.state(&(closed, &stored, &open));
		check(run, c, &env, &mut models, &mut first, closed, &stored, &open, &format!("{act:?}"))?;
	}
	// The end: handles and subject go away, in either order.
	let by_subject = mc::choose(2) == 0;
	if by_subject {
		let s = env.subj.lock().unwrap().take();
		drop(s);
	}
	let mut i = 0;
	while i < env.handles.lock().unwrap().len() {
		drop(env.take(i));
		i += 1;
	}
	let rest = env.subj.lock().unwrap().take();
	drop(rest);
	for p in env.probes.lock().unwrap().iter().enumerate() {
		let (i, p) = p;
		let l = p.0.pr.log();
		if !p.0.closed && l.iter().filter(|s| **s == U).count() != 1 && first.is_none() {
			return Err(Fail { props: vec!["S01", "C01", "C03"], msg: format!("after everything was dropped, subscriber {i} has observed [{}]", sig_s(&l)), known: None });
		}
	}
	match first {
		Some(mut f) if models[0].0.is_some() => {
			f.known = models[0].0.map(|s| s.to_string());
			f.props = vec!["R01"];
			Err(f)
		}
		_ => Ok(()),
	}
}
#[allow(clippy::too_many_arguments)]
fn check(_run: &Run, c: &SubjCase, env: &Arc<Env>, models: &mut Vec<(Option<&'static str>, M)>, first: &mut Option<Fail>, closed: bool, stored: &Option<V>, open: &[Option<bool>], what: &str) -> Res {
	let mut bad = None;
	models.retain(|(_, m)| match differs(env, m, closed, stored, open) {
		None => true,
		Some(d) => {
			bad.get_or_insert(d);
			false
		}
	});
	if let Some((props, msg)) = bad {
		let mut props = props;
		if !c.react_menu.is_empty() {
			props = vec!["R01"];
		}
		let f = Fail { props, msg: format!("after {what}: {msg}"), known: None };
		if models.is_empty() {
			return Err(first.take().unwrap_or(f));
		}
		if models[0].0.is_some() && first.is_none() {
			*first = Some(f);
		}
	}
	Ok(())
}

pub fn scenarios(th: bool) -> Vec<Scenario> {
	let mut v = vec![];
	let base = vec![Act::Next(1), Act::Next(2), Act::Complete, Act::Error(7), Act::Unsub];
	let plain = SubKind::default();
	let kinds: Vec<(&str, K)> = vec![
		("publish", K::Publish),
		("behavior", K::Behavior),
		("replay 1", K::Replay(1)),
		("replay 2", K::Replay(2)),
		("async", K::Async(false)),
		("async reducing", K::Async(true)),
		("provenance", K::Prov),
	];
	for (name, k) in &kinds {
		let subs = match k {
			K::Prov => (0..4u8).map(|view| SubKind { view, ..plain.clone() }).chain([SubKind { view: 2, limit: Some(1), ..plain.clone() }]).collect(),
			_ => vec![plain.clone(), SubKind { limit: Some(1), ..plain.clone() }, SubKind { open: true, ..plain.clone() }, SubKind { closed: true, ..plain.clone() }],
		};
		let props: Vec<&'static str> = match k {
			K::Publish => vec!["S01", "C01", "C02", "C03"],
			K::Prov => vec!["S01", "S02", "S03", "C01", "C02", "C03"],
			_ => vec!["S01", "S02", "C01", "C02", "C03"],
		};
		let c = SubjCase { k: *k, menu: base.clone(), subs, max_subs: 3, handles: true, react_menu: vec![], react_len: 0, initial: vec![], props: props.clone() };
		v.push(Scenario::new(format!("subject {name}"), &props, if th { 7 } else { 5 }, move |run| drive(run, &c)).seeds(&[0, 1]));
	}
	for (name, k) in &kinds {
		let k = *k;
		let props = vec!["R01"];
		let react_menu = vec![
			Act::Next(5),
			Act::Next(6),
			Act::Complete,
			Act::Error(9),
			Act::Unsub,
			Act::Sub(plain.clone()),
			Act::UnsubI(0),
			Act::UnsubI(1),
			Act::Ask,
			Act::AskI(1),
			Act::TearI(1),
		];
		let c = SubjCase {
			k,
			menu: base.clone(),
			subs: vec![plain.clone()],
			max_subs: 2,
			handles: true,
			react_menu,
			react_len: 2,
			initial: vec![],
			props: props.clone(),
		};
		let depth = 3 + (th || matches!(k, K::Publish | K::Behavior | K::Async(true))) as usize;
		v.push(Scenario::new(format!("re-entrant {name}"), &props, depth, move |run| drive(run, &c)).seeds(&[0, 1]));
	}
	for act in [Act::AskI(0), Act::TearI(0)] {
		let c = SubjCase {
			k: K::Publish,
			menu: vec![],
			subs: vec![],
			max_subs: 0,
			handles: false,
			react_menu: vec![act.clone()],
			react_len: 1,
			initial: vec![Act::Sub(plain.clone()), Act::Next(1), Act::Complete],
			props: vec!["R01"],
		};
		v.push(Scenario::new(format!("own subscription from its callback: {act:?}"), &["R01"], 0, move |run| drive(run, &c)));
	}
	v
}

//! Connectable and shared observables against a model of connection, connector and reference count.
use super::rig::Sig::{self, *};
use super::rig::{CaseCfg, Src, W, n, sig_s};
use super::subj::{Act, K, M, Pr, Probe, React, Spec, Sub, SubKind, Trig, trig};
use crate::engine::{Fail, Res, Run, Scenario};
use rx_core::prelude::*;
use rx_core_operator_share::observable::ShareObservable;
use std::mc;
use std::real::sync::{Arc, Mutex};

type Prov<P> = ProvideWithDefault<P>;
type Shared<T> = Arc<Mutex<T>>;
type Opt = [bool; 4];
fn options<P: 'static + SubjectLike + Default + Send + Sync>(o: Opt) -> ConnectableOptions<Prov<P>> {
	ConnectableOptions {
		connector_provider: Prov::<P>::default(),
		disconnect_when_ref_count_zero: o[0],
		reset_connector_on_disconnect: o[1],
		reset_connector_on_complete: o[2],
		reset_connector_on_error: o[3],
	}
}
trait ConnHandle: Send {
	fn unsub(&mut self);
	fn is_closed(&self) -> bool;
}
impl<S: SubscriptionWithTeardown + Send + Sync> ConnHandle for ConnectionHandle<S> {
	fn unsub(&mut self) {
		SubscriptionLike::unsubscribe(self)
	}
	fn is_closed(&self) -> bool {
		SubscriptionLike::is_closed(self)
	}
}
trait Conn: Send + Sync {
	fn sub(&mut self, s: Spec) -> Sub;
	fn connect(&mut self) -> Box<dyn ConnHandle>;
	fn disconnect(&mut self) -> bool;
	fn is_connected(&self) -> bool;
	fn reset(&mut self) -> bool;
	fn dup(&self) -> Box<dyn Conn>;
}
macro_rules! conn {
	($p:ty) => {
		impl Conn for ConnectableObservable<Src, Prov<$p>> {
			fn sub(&mut self, s: Spec) -> Sub { Box::new(self.subscribe(Probe::<i32, i32>::new(s))) }
			fn connect(&mut self) -> Box<dyn ConnHandle> { Box::new(Connectable::connect(self)) }
			fn disconnect(&mut self) -> bool { Connectable::disconnect(self) }
			fn is_connected(&self) -> bool { Connectable::is_connected(self) }
			fn reset(&mut self) -> bool { Connectable::reset(self); true }
			fn dup(&self) -> Box<dyn Conn> { Box::new(self.clone()) }
		}
		impl Conn for ShareObservable<Src, Prov<$p>> {
			fn sub(&mut self, s: Spec) -> Sub { Box::new(self.subscribe(Probe::<i32, i32>::new(s))) }
			fn connect(&mut self) -> Box<dyn ConnHandle> { Box::new(self.connect()) }
			fn disconnect(&mut self) -> bool { self.disconnect() }
			fn is_connected(&self) -> bool { self.is_connected() }
			fn reset(&mut self) -> bool { false }
			fn dup(&self) -> Box<dyn Conn> { Box::new(self.clone()) }
		}
	};
}
conn!(PublishSubject<i32, i32>);
conn!(BehaviorSubject<i32, i32>);
conn!(ReplaySubject<1, i32, i32>);
conn!(AsyncSubject<i32, i32>);

fn build(k: K, share: bool, o: Opt, src: Src) -> Box<dyn Conn> {
	macro_rules! b {
		($p:ty) => {
			if share { Box::new(src.share(options::<$p>(o))) } else { Box::new(ConnectableObservable::new(src, options::<$p>(o))) }
		};
	}
	match k {
		K::Publish => b!(PublishSubject<i32, i32>),
		K::Behavior => b!(BehaviorSubject<i32, i32>),
		K::Replay(_) => b!(ReplaySubject<1, i32, i32>),
		_ => b!(AsyncSubject<i32, i32>),
	}
}

struct Model {
	k: K,
	share: bool,
	o: Opt,
	gens: Vec<M>,
	cur: Option<usize>,
	/// (generation, index within it, counted)
	subs: Vec<(usize, usize, bool)>,
	/// The connection: source instance and generation it feeds.
	conn: Option<(usize, usize)>,
	/// Every source instance: the generation it feeds, and whether it is live.
	insts: Vec<(usize, bool)>,
	ending: bool,
}
impl Model {
	fn connector(&mut self) -> usize {
		if self.cur.is_none() {
			self.gens.push(M::new(self.k, None, false));
			self.cur = Some(self.gens.len() - 1);
		}
		self.cur.unwrap()
	}
	fn count(&mut self) {
		let mut zero = false;
		for s in self.subs.iter_mut() {
			if s.2 && self.gens[s.0].closed_of(s.1) {
				s.2 = false;
				zero = true;
			}
		}
		if zero && self.subs.iter().all(|s| !s.2) && self.o[0] && !self.ending {
			self.drop_conn();
		}
	}
	fn drop_conn(&mut self) -> bool {
		match self.conn.take() {
			Some((i, _)) if self.insts[i].1 => {
				self.end(i);
				true
			}
			_ => false,
		}
	}
	/// An instance ended by unsubscription.
	fn end(&mut self, i: usize) {
		self.insts[i].1 = false;
		if self.o[1] {
			self.cur = None;
		}
	}
	fn connect(&mut self, sync: &[Sig]) {
		if let Some((i, _)) = self.conn
			&& self.insts[i].1
		{
			return;
		}
		let g = self.connector();
		let i = self.insts.len();
		self.insts.push((g, !self.gens[g].is_closed()));
		self.conn = Some((i, g));
		for s in sync {
			self.source(i, s);
		}
	}
	fn source(&mut self, i: usize, s: &Sig) {
		let (g, live) = self.insts[i];
		if !live {
			return;
		}
		match s {
			N(v) => self.gens[g].act(&Act::Next(v[0])),
			U => self.end(i),
			_ => {
				self.insts[i].1 = false;
				if (*s == C && self.o[2]) || (*s != C && self.o[3]) {
					self.cur = None;
				}
				self.ending = true;
				match s {
					E(v) => self.gens[g].act(&Act::Error(v[0])),
					_ => self.gens[g].act(&Act::Complete),
				}
			}
		}
		self.count();
		self.ending = false;
	}
	fn sub(&mut self, k: &SubKind) {
		let g = self.connector();
		let j = self.gens[g].subs_len();
		self.gens[g].act(&Act::Sub(k.clone()));
		let open = !self.gens[g].closed_of(j);
		self.subs.push((g, j, open));
	}
}

#[derive(Clone, Debug)]
enum Op {
	Sub(SubKind),
	Unsub(usize),
	Drop(usize),
	Connect,
	Disconnect,
	Reset,
	HandleUnsub,
	Src(Sig),
}

fn drive(run: &Run, k: K, share: bool, o: Opt, sync: usize) -> Res {
	let mut cfg = CaseCfg::new(1, vec![]);
	cfg.sync = (sync, vec![4]);
	let w = W::new(Arc::new(cfg));
	{
		let mut s = w.s.lock().unwrap();
		s.sync_budget = sync;
		s.sync_vals = vec![4];
	}
	let mut real = build(k, share, o, w.src(0));
	let mut m = Model { k, share, o, gens: vec![], cur: None, subs: vec![], conn: None, insts: vec![], ending: false };
	let mut probes: Vec<Pr> = vec![];
	let mut subs: Vec<Option<Sub>> = vec![];
	let mut handle: Option<(Box<dyn ConnHandle>, usize)> = None;
	for step in 0..run.depth() {
		let mut menu = vec![];
		if subs.len() < 3 {
			menu.push(Op::Sub(SubKind::default()));
			menu.push(Op::Sub(SubKind { limit: Some(1), ..Default::default() }));
		}
		for i in 0..subs.len() {
			if subs[i].is_some() {
				menu.push(Op::Unsub(i));
				menu.push(Op::Drop(i));
			}
		}
		menu.extend([Op::Connect, Op::Disconnect]);
		if !share {
			menu.push(Op::Reset);
		}
		if handle.is_some() {
			menu.push(Op::HandleUnsub);
		}
		let live = m.insts.iter().position(|i| i.1);
		if live.is_some() {
			menu.extend([Op::Src(n(1)), Op::Src(n(2)), Op::Src(C), Op::Src(Sig::E(vec![7])), Op::Src(U)]);
		}
		let c = mc::choose(menu.len() + 1);
		if c == menu.len() {
			break;
		}
		let op = menu[c].clone();
		run.step();
		// Every other operation goes through a clone.
		let mut other = real.dup();
		let before = w.s.lock().unwrap().srcs[0].len();
		let mut answer = None;
		{
			let r = if step % 2 == 1 { &mut other } else { &mut real };
			match &op {
				Op::Sub(k) => {
					let pr = Pr::default();
					probes.push(pr.clone());
					let s = r.sub(Spec { pr, limit: k.limit, ..Default::default() });
					subs.push(Some(s));
				}
				Op::Unsub(i) => {
					let mut s = subs[*i].take().unwrap();
					s.unsubscribe();
				}
				Op::Drop(i) => drop(subs[*i].take()),
				Op::Connect => {
					let h = r.connect();
					handle = Some((h, 0));
				}
				Op::Disconnect => answer = Some(r.disconnect()),
				Op::Reset => {
					r.reset();
				}
				Op::HandleUnsub => handle.as_mut().unwrap().0.unsub(),
				Op::Src(s) => w.push(0, live.unwrap(), s),
			}
		}
		drop(other);
		let sync: Vec<Sig> = {
			let s = w.s.lock().unwrap();
			s.srcs[0].get(before).map(|i| i.sync.clone()).unwrap_or_default()
		};
		let mut expect = None;
		match &op {
			Op::Sub(k) => {
				m.sub(k);
				if m.share && m.subs.last().unwrap().2 {
					m.connect(&sync);
				}
			}
			Op::Unsub(i) | Op::Drop(i) => {
				let (g, j, _) = m.subs[*i];
				m.gens[g].act(&Act::UnsubI(j));
				m.count();
			}
			Op::Connect => {
				m.connect(&sync);
				if let Some(h) = handle.as_mut() {
					h.1 = m.conn.unwrap_or((usize::MAX, 0)).0;
				}
			}
			Op::Disconnect => expect = Some(m.drop_conn()),
			Op::Reset => {
				m.drop_conn();
				m.cur = None;
			}
			Op::HandleUnsub => {
				let i = handle.as_ref().unwrap().1;
				if i < m.insts.len() && m.insts[i].1 {
					m.end(i);
				}
			}
			Op::Src(s) => m.source(live.unwrap(), s),
		}
		let connected = m.conn.is_some_and(|c| m.insts[c.0].1);
		let logs: Vec<Vec<Sig>> = probes.iter().map(|p| p.log()).collect();
		run.trace(|| format!("{op:?} (synchronously [{}]) -> {:?}, connected {}", sig_s(&sync), logs.iter().map(|l| sig_s(l)).collect::<Vec<_>>(), real.is_connected()));
		run.state(&(&logs, connected));
		let bad = |p: &[&'static str], msg: String| Err(Fail { props: p.to_vec(), msg: format!("after {op:?}: {msg}"), known: None });
		for (i, l) in logs.iter().enumerate() {
			let (g, j, _) = m.subs[i];
			let want = m.gens[g].log_of(j);
			if *l != want {
				return bad(&["S04"], format!("subscriber {i} observed [{}] expected [{}]", sig_s(l), sig_s(&want)));
			}
			if subs[i].as_ref().is_some_and(|s| (**s).is_closed() != m.gens[g].closed_of(j)) {
				return bad(&["S04", "C01"], format!("subscription {i} reports the wrong closedness"));
			}
		}
		let insts: Vec<(bool, u32)> = w.s.lock().unwrap().srcs[0].iter().map(|i| (i.sub.as_ref().is_some_and(|h| !h.is_closed()), i.released)).collect();
		let alive: Vec<usize> = (0..insts.len()).filter(|i| insts[*i].1 == 0).collect();
		let want: Vec<usize> = (0..m.insts.len()).filter(|i| m.insts[*i].1).collect();
		if alive != want {
			return bad(&["S04", "C03"], format!("live source subscriptions {alive:?}, expected {want:?}"));
		}
		if let Some(i) = insts.iter().find(|i| i.1 > 1) {
			return bad(&["S04", "C02"], format!("a source subscription was released {} times", i.1));
		}
		if real.is_connected() != connected || real.dup().is_connected() != connected {
			return bad(&["S04"], format!("is_connected answers {}, expected {connected}", real.is_connected()));
		}
		if answer != expect {
			return bad(&["S04"], format!("disconnect answered {answer:?}, expected {expect:?}"));
		}
		if let Some(h) = &handle
			&& h.1 < m.insts.len()
			&& h.0.is_closed() == m.insts[h.1].1
		{
			return bad(&["S04"], format!("the connection handle reports closed = {}", h.0.is_closed()));
		}
	}
	drop(subs);
	drop(handle);
	drop(real);
	for (i, p) in probes.iter().enumerate() {
		let l = p.log();
		if l.iter().filter(|s| **s == U).count() != 1 {
			return Err(Fail { props: vec!["S04", "C01"], msg: format!("after everything was dropped, subscriber {i} has observed [{}]", sig_s(&l)), known: None });
		}
	}
	if let Some(i) = w.s.lock().unwrap().srcs[0].iter().find(|i| i.released != 1) {
		return Err(Fail { props: vec!["S04", "C03"], msg: format!("after everything was dropped, a source subscription was released {} times", i.released), known: None });
	}
	Ok(())
}

/// The observable used from inside its own subscribers' callbacks.
fn reenter(run: &Run, k: K, share: bool) -> Res {
	let mut o = [false; 4];
	for b in o.iter_mut() {
		*b = mc::choose(2) == 1;
	}
	let trigger = [Trig::Next, Trig::Terminal, Trig::Unsub][mc::choose(3)];
	let acts = ["subscribe", "connect", "disconnect", "is_connected", "reset", "unsubscribe self", "unsubscribe other"];
	let act = acts[mc::choose(acts.len())];
	run.trace(|| format!("disconnect at zero {}, reset on disconnect {}, on complete {}, on error {}; subscriber 0 reacts to {trigger:?} with {act}", o[0], o[1], o[2], o[3]));
	let cfg = CaseCfg::new(1, vec![]);
	let w = W::new(Arc::new(cfg));
	{
		let mut s = w.s.lock().unwrap();
		s.sync_budget = 1;
		s.sync_vals = vec![4];
	}
	let real: Shared<Option<Box<dyn Conn>>> = Arc::new(Mutex::new(Some(build(k, share, o, w.src(0)))));
	let probes: Shared<Vec<Pr>> = Arc::default();
	let subs: Shared<Vec<Option<Sub>>> = Arc::default();
	let dup = {
		let real = real.clone();
		move || real.lock().unwrap().as_ref().map(|r| r.dup())
	};
	let subscribe = {
		let (probes, subs, dup) = (probes.clone(), subs.clone(), dup.clone());
		move |react: Option<React>| {
			let Some(mut r) = dup() else { return };
			let pr = Pr::default();
			probes.lock().unwrap().push(pr.clone());
			let i = subs.lock().unwrap().len();
			subs.lock().unwrap().push(None);
			let s = r.sub(Spec { pr, react, ..Default::default() });
			subs.lock().unwrap()[i] = Some(s);
		}
	};
	let fired = Arc::new(Mutex::new(false));
	let react: React = {
		let (fired, dup, subscribe, subs) = (fired.clone(), dup.clone(), subscribe.clone(), subs.clone());
		Arc::new(move |s: &Sig| {
			if trig(s) != trigger || std::mem::replace(&mut *fired.lock().unwrap(), true) {
				return;
			}
			match act {
				"subscribe" => subscribe(None),
				"unsubscribe self" | "unsubscribe other" => {
					let i = (act == "unsubscribe other") as usize;
					let h = subs.lock().unwrap().get_mut(i).and_then(|h| h.take());
					drop(h);
				}
				_ => {
					if let Some(mut r) = dup() {
						match act {
							"connect" => drop(r.connect()),
							"disconnect" => drop(r.disconnect()),
							"is_connected" => drop(r.is_connected()),
							_ => drop(r.reset()),
						}
					}
				}
			}
		})
	};
	let mut react = Some(react);
	let mut next = 0;
	for _ in 0..run.depth() {
		let live = w.s.lock().unwrap().srcs[0].iter().position(|i| i.released == 0);
		let mut menu: Vec<&str> = vec!["connect", "disconnect"];
		if probes.lock().unwrap().len() < 2 {
			menu.push("subscribe");
		}
		if subs.lock().unwrap().iter().any(|s| s.is_some()) {
			menu.push("unsubscribe");
		}
		if live.is_some() {
			menu.extend(["next", "complete", "error", "end"]);
		}
		let op = menu[mc::choose(menu.len())];
		run.step();
		if act == "connect" && (op == "connect" || (share && op == "subscribe")) {
			run.known_hang(Some("connect-while-connecting"));
		}
		match op {
			"subscribe" => subscribe(react.take()),
			"unsubscribe" => {
				let h = subs.lock().unwrap().iter_mut().find(|h| h.is_some()).and_then(|h| h.take());
				drop(h);
			}
			"connect" | "disconnect" => {
				let mut r = dup().unwrap();
				if op == "connect" { drop(r.connect()) } else { drop(r.disconnect()) }
			}
			_ => {
				next += 1;
				let s = match op {
					"next" => n(10 + next),
					"complete" => C,
					"error" => Sig::E(vec![7]),
					_ => U,
				};
				w.push(0, live.unwrap(), &s);
			}
		}
		run.known_hang(None);
		run.trace(|| format!("{op} -> {:?}", probes.lock().unwrap().iter().map(|p| sig_s(&p.log())).collect::<Vec<_>>()));
		for p in probes.lock().unwrap().iter() {
			run.state(&p.log());
		}
		let s = w.s.lock().unwrap();
		let live = s.srcs[0].iter().filter(|i| i.released == 0).count();
		if live > 1 {
			return Err(Fail { props: vec!["R01", "S04"], msg: format!("after {op}: {live} live source subscriptions"), known: None });
		}
	}
	let all: Vec<_> = subs.lock().unwrap().drain(..).collect();
	drop(all);
	let r = real.lock().unwrap().take();
	drop(r);
	let late: Vec<_> = subs.lock().unwrap().drain(..).collect();
	drop(late);
	for (i, p) in probes.lock().unwrap().iter().enumerate() {
		let l = p.log();
		let mut seen = vec![];
		let dup = l.iter().any(|s| matches!(s, N(v) if v[0] > 10) && { let d = seen.contains(&s); seen.push(s); d });
		if l.iter().filter(|s| **s == U).count() != 1 || dup || !p.0.lock().unwrap().late.is_empty() {
			return Err(Fail { props: vec!["R01", "S04"], msg: format!("subscriber {i} observed [{}]", sig_s(&l)), known: None });
		}
	}
	if let Some(i) = w.s.lock().unwrap().srcs[0].iter().find(|i| i.released != 1) {
		return Err(Fail { props: vec!["R01", "S04"], msg: format!("after everything was dropped, a source subscription was released {} times", i.released), known: None });
	}
	Ok(())
}

pub fn scenarios(th: bool) -> Vec<Scenario> {
	let mut v = vec![];
	for (name, k) in [("publish", K::Publish), ("behavior", K::Behavior), ("replay", K::Replay(1)), ("async", K::Async(false))] {
		for share in [false, true] {
			for sync in [0usize, 1] {
				let depth = match (th, sync) {
					(false, 0) => 4,
					(false, _) => 3,
					(true, 0) => 6,
					(true, _) => 5,
				} + (k == K::Publish) as usize;
				v.push(
					Scenario::new(
						format!("{} {name}{}", if share { "share" } else { "connectable" }, if sync > 0 { " sync" } else { "" }),
						&["S04", "C01", "C02", "C03"],
						depth,
						move |run| {
							let mut o = [false; 4];
							for b in o.iter_mut() {
								*b = mc::choose(2) == 1;
							}
							run.trace(|| format!("disconnect at zero {}, reset on disconnect {}, on complete {}, on error {}", o[0], o[1], o[2], o[3]));
							drive(run, k, share, o, sync)
						},
					)
					.split(5),
				);
			}
		}
	}
	for (name, k) in [("publish", K::Publish), ("replay", K::Replay(1))] {
		for share in [false, true] {
			v.push(
				Scenario::new(format!("re-entrant {} {name}", if share { "share" } else { "connectable" }), &["R01"], if th { 5 } else { 4 }, move |run| reenter(run, k, share))
					.split(6),
			);
		}
	}
	v
}

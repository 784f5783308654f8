//! K01: several threads on one subject. Every schedule within the preemption bound is run; what the
//! subscribers saw has to be what some sequential order of the calls gives.
use super::rig::sig_s;
use super::rig::Sig;
use super::subj::{Act, K, M, Pr, Spec, Sub, SubKind, make};
use crate::engine::{Fail, Res, Run, Scenario};
use std::mc;
use std::real::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Do {
	Next,
	Error,
	Complete,
	Unsub,
	Sub,
	/// Unsubscribe the subscriber that was there before, by the thread owning its handle.
	UnsubPre,
	/// Unsubscribe the subscriber this thread added first.
	UnsubOwn,
}

/// All interleavings of the scripts, as sequences of thread numbers.
pub fn orders(left: &mut Vec<usize>, cur: &mut Vec<usize>, f: &mut impl FnMut(&[usize]) -> bool) -> bool {
	if left.iter().all(|l| *l == 0) {
		return f(cur);
	}
	for t in 0..left.len() {
		if left[t] > 0 {
			left[t] -= 1;
			cur.push(t);
			let stop = orders(left, cur, f);
			cur.pop();
			left[t] += 1;
			if stop {
				return true;
			}
		}
	}
	false
}
/// The steps of which a call consists when what is kept for later subscribers is read and written apart
/// from the subscribers being told (listed as a known finding): check, keep or read, tell or add.
struct Parts {
	k: K,
	m: M,
	kept: Vec<i32>,
	base: usize,
	/// Of the call a thread is in: the step, whether it goes on, what was read, its kept last value.
	at: Vec<(usize, bool, Vec<i32>)>,
	pos: Vec<usize>,
	own: Vec<Option<usize>>,
	/// What the subscriber a thread added was told before it was added.
	past: Vec<Vec<i32>>,
}
impl Parts {
	fn steps(k: K, d: Do) -> usize {
		match (k, d) {
			(K::Async(_), Do::Next | Do::Complete) => 2,
			(_, Do::Next | Do::Sub) => 3,
			_ => 1,
		}
	}
	/// One step of the thread.
	fn step(&mut self, t: usize, d: Do, kind: &SubKind) {
		let (i, on, got) = self.at[t].clone();
		let (closed, completed, errored) = self.m.flags();
		let v = val(t, self.pos[t]);
		let mut on = on;
		let mut got = got;
		let last = Parts::steps(self.k, d) - 1;
		match (self.k, d, i) {
			(_, Do::Next, 0) => on = !closed,
			(K::Async(red), Do::Next, 1) => {
				if on {
					self.kept = vec![match self.kept.first() {
						Some(x) if red => x * 10 + v,
						_ => v,
					}];
				}
			}
			(k, Do::Next, 1) => {
				if on {
					self.kept.push(v);
					let n = if let K::Replay(n) = k { n } else { 1 };
					if self.kept.len() > n {
						self.kept.remove(0);
					}
				}
			}
			(_, Do::Next, _) => {
				if on {
					self.m.act(&Act::Next(v));
				}
			}
			(K::Async(_), Do::Complete, 0) => got = self.kept.clone(),
			(K::Async(_), Do::Complete, _) => {
				for v in &got {
					self.m.act(&Act::Next(*v));
				}
				self.m.act(&Act::Complete);
			}
			(K::Async(_), Do::Sub, 0) => on = completed,
			(_, Do::Sub, 0) => on = !errored,
			(_, Do::Sub, 1) => {
				if on {
					got = self.kept.clone();
				}
			}
			(_, Do::Sub, _) => {
				self.past[t] = got.clone();
				self.own[t] = Some(self.m.subs_len());
				self.m.act(&Act::Sub(kind.clone()));
			}
			(_, Do::Error, _) => self.m.act(&Act::Error(v)),
			(_, Do::Complete, _) => self.m.act(&Act::Complete),
			(_, Do::Unsub, _) => self.m.act(&Act::Unsub),
			(_, Do::UnsubPre, _) => self.m.act(&Act::UnsubI(t)),
			(_, Do::UnsubOwn, _) => self.m.act(&Act::UnsubI(self.own[t].unwrap())),
		}
		self.at[t] = if i == last {
			self.pos[t] += 1;
			(0, true, vec![])
		} else {
			(i + 1, on, got)
		};
	}
}
fn val(t: usize, j: usize) -> i32 {
	(t as i32 + 1) * 10 + j as i32
}

struct Cfg {
	kind: K,
	menu: Vec<Do>,
	threads: usize,
	pre: usize,
	open: bool,
}

fn play(run: &Run, cfg: &Cfg) -> Res {
	let fail = |m: String| Fail { props: vec!["K01"], msg: m, known: None };
	let n = cfg.threads;
	let mut scripts: Vec<Vec<Do>> = vec![];
	for t in 0..n {
		let len = run.depth() / n + (t < run.depth() % n) as usize;
		let mut s: Vec<Do> = vec![];
		for _ in 0..len {
			let en: Vec<Do> = cfg
				.menu
				.iter()
				.cloned()
				.filter(|d| match d {
					Do::UnsubPre => t < cfg.pre && !s.contains(d),
					Do::UnsubOwn => s.contains(&Do::Sub) && !s.contains(d),
					Do::Sub => !s.contains(d),
					_ => true,
				})
				.collect();
			s.push(en[mc::choose(en.len())]);
		}
		scripts.push(s);
	}
	run.trace(|| format!("{:?}: {} subscribers; {scripts:?}", cfg.kind, cfg.pre));
	let mut subject = make(cfg.kind);
	let spec = |pr: &Pr| Spec { pr: pr.clone(), open: cfg.open, ..Default::default() };
	let mut probes: Vec<Pr> = vec![];
	let mut handles: Vec<Option<Sub>> = vec![];
	for _ in 0..cfg.pre {
		let pr = Pr::default();
		handles.push(Some(subject.sub(0, spec(&pr))));
		probes.push(pr);
	}
	let late: Vec<Pr> = (0..n).map(|_| Pr::default()).collect();
	let order: Arc<Mutex<Vec<String>>> = Default::default();
	let mut tasks = vec![];
	for t in 0..n {
		let script = scripts[t].clone();
		let mut s = subject.dup();
		let mut pre = if t < cfg.pre { handles[t].take() } else { None };
		let sp = spec(&late[t]);
		let order = order.clone();
		let tracing = run.tracing();
		tasks.push(mc::spawn(move || {
			let mut own: Option<Sub> = None;
			for (j, d) in script.iter().enumerate() {
				if tracing {
					order.lock().unwrap().push(format!("thread {t} starts {d:?}"));
				}
				match d {
					Do::Next => s.next(val(t, j)),
					Do::Error => s.error(val(t, j)),
					Do::Complete => s.complete(),
					Do::Unsub => s.unsub(),
					Do::Sub => own = Some(s.sub(0, sp.clone())),
					Do::UnsubPre => pre.as_mut().unwrap().unsubscribe(),
					Do::UnsubOwn => own.as_mut().unwrap().unsubscribe(),
				}
				if tracing {
					order.lock().unwrap().push(format!("thread {t} ended {d:?}"));
				}
			}
			(s, pre, own)
		}));
	}
	let mut kept = vec![];
	for t in tasks {
		match t.join() {
			Some(k) => kept.push(k),
			None => return Err(fail("a call panicked".into())),
		}
	}
	run.step();
	let show = |l: &[Sig]| sig_s(l);
	let logs: Vec<Vec<Sig>> = probes.iter().chain(late.iter()).map(|p| p.log()).collect();
	for l in order.lock().unwrap().iter() {
		run.trace(|| l.clone());
	}
	run.trace(|| logs.iter().map(|l| format!("[{}]", show(l))).collect::<Vec<_>>().join(" "));
	run.state(&(format!("{scripts:?}"), &logs));
	for p in probes.iter().chain(late.iter()) {
		if let Some(l) = p.0.lock().unwrap().late.first() {
			return Err(fail(format!("a subscriber got {l} after its terminal signal")));
		}
	}
	// After a terminal signal only the moment of the unsubscription may differ.
	let norm = |l: &[Sig]| -> Vec<Sig> {
		let mut l = l.to_vec();
		if cfg.open && l.len() > 1 && l.last() == Some(&Sig::U) && matches!(l[l.len() - 2], Sig::C | Sig::E(_)) {
			l.pop();
		}
		l
	};
	let mut expected: Vec<String> = vec![];
	let explained = orders(&mut scripts.iter().map(|s| s.len()).collect(), &mut vec![], &mut |o| {
		let mut m = M::new(cfg.kind, None, false);
		let kind = SubKind { open: cfg.open, ..Default::default() };
		for _ in 0..cfg.pre {
			m.act(&Act::Sub(kind.clone()));
		}
		let mut pos = vec![0; n];
		let mut own: Vec<Option<usize>> = vec![None; n];
		for t in o {
			let (j, t) = (pos[*t], *t);
			pos[t] += 1;
			let a = match scripts[t][j] {
				Do::Next => Act::Next(val(t, j)),
				Do::Error => Act::Error(val(t, j)),
				Do::Complete => Act::Complete,
				Do::Unsub => Act::Unsub,
				Do::Sub => {
					own[t] = Some(m.subs_len());
					Act::Sub(kind.clone())
				}
				Do::UnsubPre => Act::UnsubI(t),
				Do::UnsubOwn => Act::UnsubI(own[t].unwrap()),
			};
			m.act(&a);
		}
		let want: Vec<Vec<Sig>> = (0..cfg.pre)
			.map(Some)
			.chain(own.iter().cloned())
			.map(|i| i.map(|i| m.log_of(i)).unwrap_or_default())
			.collect();
		let same = want.iter().zip(&logs).all(|(a, b)| norm(a) == norm(b));
		if !same && expected.len() < 3 {
			expected.push(want.iter().map(|l| format!("[{}]", show(l))).collect::<Vec<_>>().join(" "));
		}
		same
	});
	let by_parts = |finds: &mut bool| {
		if cfg.kind == K::Publish {
			return;
		}
		let mut left: Vec<usize> = scripts.iter().map(|s| s.iter().map(|d| Parts::steps(cfg.kind, *d)).sum()).collect();
		*finds = orders(&mut left, &mut vec![], &mut |o| {
			let mut m = M::new(K::Publish, None, false);
			let kind = SubKind { open: cfg.open, ..Default::default() };
			for _ in 0..cfg.pre {
				m.act(&Act::Sub(kind.clone()));
			}
			let kept = if cfg.kind == K::Behavior { vec![0] } else { vec![] };
			let mut p = Parts { k: cfg.kind, m, kept, base: cfg.pre, at: vec![(0, true, vec![]); n], pos: vec![0; n], own: vec![None; n], past: vec![vec![]; n] };
			for t in o {
				let d = scripts[*t][p.pos[*t]];
				p.step(*t, d, &kind);
			}
			(0..p.base).all(|i| {
				let mut want: Vec<Sig> = if cfg.kind == K::Behavior { vec![Sig::N(vec![0])] } else { vec![] };
				want.extend(p.m.log_of(i));
				norm(&want) == norm(&logs[i])
			}) && (0..n).all(|t| {
				let mut want: Vec<Sig> = p.past[t].iter().map(|v| Sig::N(vec![*v])).collect();
				want.extend(p.own[t].map(|i| p.m.log_of(i)).unwrap_or_default());
				norm(&want) == norm(&logs[p.base + t])
			})
		});
	};
	let mut known = false;
	if !explained {
		by_parts(&mut known);
	}
	if known {
		return Err(Fail { props: vec!["K01"], msg: "a subscriber was told of a value twice, or not at all, by a subject that keeps values".into(), known: Some("kept-values-apart-from-subscribers".into()) });
	}
	if !explained {
		return Err(fail(format!(
			"no sequential order of the calls explains what the subscribers saw: {} (such as {})",
			logs.iter().map(|l| format!("[{}]", show(l))).collect::<Vec<_>>().join(" "),
			expected.join(" or ")
		)));
	}
	drop(kept);
	drop(handles);
	drop(subject);
	Ok(())
}

pub fn scenarios(th: bool) -> Vec<Scenario> {
	use Do::*;
	let mut v = vec![];
	let menu = vec![Next, Error, Complete, Unsub, Sub, UnsubPre, UnsubOwn];
	for (kind, name) in [(K::Publish, "publish subject"), (K::Behavior, "behavior subject"), (K::Replay(2), "replay subject"), (K::Async(true), "async subject")] {
		for (open, threads, depth, bound) in [(false, 2, 3, 2), (true, 2, 3, 2), (false, 3, 3, 1), (false, 2, 4, 1)] {
			let cfg = Cfg { kind, menu: menu.clone(), threads, pre: 2.min(threads), open };
			let name = format!("{threads} threads, {depth} calls on a {name}{}", if open { ", open subscribers" } else { "" });
			v.push(Scenario::new(name, &["K01"], depth, move |run| play(run, &cfg)).threads(bound + (th && kind == K::Publish) as u32).split(4));
		}
	}
	v
}

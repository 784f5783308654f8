//! Creation observables (M04).
use super::rig::*;
use crate::engine::{Fail, Run, Scenario};
use rx_core::prelude::*;
use std::mc;
use std::real::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::real::sync::{Arc, Mutex};

/// An iterator that counts how often it is asked.
#[derive(Clone)]
struct Pulls {
	left: Vec<i32>,
	pulls: Arc<AtomicUsize>,
}
impl Iterator for Pulls {
	type Item = i32;
	fn next(&mut self) -> Option<i32> {
		self.pulls.fetch_add(1, SeqCst);
		if self.left.is_empty() { None } else { Some(self.left.remove(0)) }
	}
}
fn fail(m: String) -> Fail {
	Fail { props: vec!["M04"], msg: m, known: None }
}
fn probe(limit: Option<usize>) -> W {
	let mut c = CaseCfg::new(1, vec![]);
	c.limits = vec![];
	c.limit = Mutex::new(limit);
	W::new(Arc::new(c))
}
/// What a subscriber closing after `limit` values sees of a content.
fn cut(content: &[Sig], limit: Option<usize>) -> Vec<Sig> {
	let mut out = vec![];
	for s in content {
		out.push(s.clone());
		match s {
			N(_) if Some(out.len()) == limit => {
				out.push(U);
				return out;
			}
			E(_) | C => out.push(U),
			_ => {}
		}
	}
	out
}
type SubFn<'a> = Box<dyn FnMut(&W) -> Sub + 'a>;

fn static_kinds(run: &Run) -> Result<(), Fail> {
	let kind = mc::choose(9);
	let content: Vec<i32> = {
		let len = if kind == 1 || kind == 8 { mc::choose(run.depth() + 1) } else { 1 };
		(0..len).map(|i| if i == 0 { 1 + mc::choose(2) as i32 } else { i as i32 + 4 }).collect()
	};
	let pulls = Arc::new(AtomicUsize::new(0));
	let made = Arc::new(AtomicUsize::new(0));
	let nexts = |c: &[i32]| c.iter().map(|v| n(*v)).collect::<Vec<_>>();
	let (expect, name): (Vec<Sig>, &str) = match kind {
		0 => ([nexts(&content), vec![C]].concat(), "just"),
		1 => ([nexts(&content), vec![C]].concat(), "iterator"),
		2 => (vec![C], "empty"),
		3 => (vec![e(content[0])], "throw"),
		4 => (vec![], "never"),
		5 => (vec![U], "closed"),
		6 => ([nexts(&content), vec![C]].concat(), "deferred(just)"),
		7 => (vec![e(content[0])], "deferred(throw)"),
		_ => ([nexts(&content), vec![C]].concat(), "deferred(iterator)"),
	};
	let c = content.clone();
	let (p, mk) = (pulls.clone(), made.clone());
	let it = Pulls { left: c.clone(), pulls: p };
	// Every subscriber sees the same, whether it comes through a clone or not.
	macro_rules! same {
		($e:expr) => {{
			let mut o = $e;
			Box::new(move |w: &W| -> Sub { if mc::choose(2) == 0 { Box::new(o.subscribe(w.dst())) } else { Box::new(o.clone().subscribe(w.dst())) } }) as SubFn
		}};
	}
	macro_rules! once {
		($e:expr) => {{
			let mut o = $e;
			Box::new(move |w: &W| -> Sub { Box::new(o.subscribe(w.dst())) }) as SubFn
		}};
	}
	let mut subscribe: SubFn = match kind {
		0 => same!(just(c[0])),
		1 => same!(it.into_observable()),
		2 => same!(empty()),
		3 => same!(throw(c[0])),
		4 => same!(never()),
		5 => same!(closed()),
		6 => once!(deferred_observable(move || { mk.fetch_add(1, SeqCst); just(c[0]) })),
		7 => once!(deferred_observable(move || { mk.fetch_add(1, SeqCst); throw(c[0]) })),
		_ => once!(deferred_observable(move || { mk.fetch_add(1, SeqCst); it.clone().into_observable() })),
	};
	for round in 0..2 {
		let limit = [None, Some(1), Some(2), Some(3)][mc::choose(4)];
		let w = probe(limit);
		let before = pulls.load(SeqCst);
		if kind >= 6 && made.load(SeqCst) != round {
			return Err(fail(format!("{name}: the creator ran {} times before subscription {}", made.load(SeqCst), round + 1)));
		}
		let mut sub = subscribe(&w);
		run.step();
		let want = cut(&expect, limit);
		let got = w.s.lock().unwrap().log.clone();
		run.trace(|| format!("{name} {content:?} limit {limit:?} -> {got:?}"));
		run.state(&(kind, &content, limit, &got, round));
		if got != want {
			return Err(fail(format!("{name}: observed {got:?} expected {want:?}")));
		}
		let n_vals = want.iter().filter(|s| matches!(s, N(_))).count();
		let pulled = pulls.load(SeqCst) - before;
		let want_pulls = match kind {
			1 | 8 if limit.is_some_and(|l| l <= content.len()) => n_vals,
			1 | 8 => n_vals + 1,
			_ => 0,
		};
		if pulled != want_pulls {
			return Err(fail(format!("{name} {content:?} limit {limit:?}: the iterator was asked {pulled} times, expected {want_pulls}")));
		}
		let open = kind == 4;
		if sub.is_closed() == open {
			return Err(fail(format!("{name}: is_closed() is {}", !open)));
		}
		let hits = Arc::new(AtomicUsize::new(0));
		let h = hits.clone();
		sub.add_teardown(Teardown::new(move || { h.fetch_add(1, SeqCst); }));
		if hits.load(SeqCst) != !open as usize {
			return Err(fail(format!("{name}: a teardown added after subscribing ran {} times", hits.load(SeqCst))));
		}
		if mc::choose(2) == 0 { sub.unsubscribe() } else { drop(sub) }
		let end = w.s.lock().unwrap().log.clone();
		let want_end = if open { vec![U] } else { want };
		if end != want_end || hits.load(SeqCst) != 1 {
			return Err(fail(format!("{name}: after unsubscribing {end:?} expected {want_end:?}, teardown ran {} times", hits.load(SeqCst))));
		}
	}
	Ok(())
}

/// A producer function: what it emits is recorded like a source emitting during the subscription.
fn producer(w: W, polite: bool) -> Sub {
	let w2 = w.clone();
	let sub = Box::new(
		create_observable::<i32, i32, _>(move |d| {
			w2.s.lock().unwrap().srcs[0].push(InstS::default());
			let w3 = w2.clone();
			d.add_teardown(Teardown::new(move || w3.s.lock().unwrap().srcs[0][0].released += 1));
			for _ in 0..4 {
				if polite && d.is_closed() {
					break;
				}
				let c = mc::choose(5);
				let sig = match c {
					0 => break,
					1 => n(1),
					2 => n(2),
					3 => C,
					_ => e(7),
				};
				{
					let mut s = w2.s.lock().unwrap();
					s.srcs[0][0].sync.push(sig.clone());
				}
				match sig {
					N(v) => d.next(v[0]),
					C => d.complete(),
					E(v) => d.error(v[0]),
					U => {}
				}
			}
		})
		.subscribe(w.dst()),
	);
	if !polite {
		// A producer that does not look is told nothing; its subscriber has to ignore it.
		w.s.lock().unwrap().late.clear();
	}
	sub
}
struct Fwd;
impl Model for Fwd {
	fn sig(&mut self, _s: usize, _k: usize, s: Sig, o: &mut O) {
		o.emit(s)
	}
}
pub fn cases() -> Vec<CaseB> {
	let mut v = vec![];
	for polite in [true, false] {
		let mut cfg = CaseCfg::new(1, vec![Ev::Unsub, Ev::Drop]);
		cfg.own = vec!["M04"];
		cfg.shared_handle = true;
		v.push(CaseB {
			name: format!("create(checks {polite})"),
			cfg,
			dq: 2,
			dt: 2,
			build: Arc::new(move |w: &W| producer(w.clone(), polite)),
			mk: Arc::new(|| Box::new(Fwd)),
			alts: vec![],
		});
	}
	let mut cfg = CaseCfg::new(1, ev1());
	cfg.own = vec!["M04"];
	v.push(CaseB {
		name: "deferred(source)".into(),
		cfg,
		dq: 5,
		dt: 7,
		build: Arc::new(|w: &W| -> Sub {
			let w2 = w.clone();
			Box::new(deferred_observable(move || w2.src(0)).subscribe(w.dst()))
		}),
		mk: Arc::new(|| Box::new(Fwd)),
		alts: vec![],
	});
	v
}
pub fn scenarios(th: bool) -> Vec<Scenario> {
	let mut v: Vec<_> = cases().into_iter().map(|c| c.scenario(th)).collect();
	v.push(Scenario::new("creation".to_string(), &["M04"], if th { 6 } else { 4 }, static_kinds));
	v
}

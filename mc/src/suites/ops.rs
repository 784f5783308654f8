//! One-source operators against sequence functions (O01, O02, O03, O06).
use super::rig::*;
use crate::engine::Scenario;
use rx_core::prelude::*;
use rx_core_operator_first::FirstOperatorError;
use std::real::sync::Arc;

fn case(name: &str, own: &[&'static str], dq: usize, dt: usize, build: impl Fn(&W) -> Sub + Send + Sync + 'static, mk: MkModel) -> CaseB {
	let mut cfg = CaseCfg::new(1, ev1());
	cfg.own = own.to_vec();
	CaseB {
		name: name.into(),
		cfg,
		dq,
		dt,
		build: Arc::new(build),
		mk,
		alts: vec![],
	}
}
/// A value `v` replaces the input value, everything else passes.
fn vals<F: FnMut(i32) -> Vec<Sig> + 'static>(f: impl Fn() -> F + Send + Sync + 'static) -> MkModel {
	mkf(move || {
		let mut f = f();
		move |s| match s {
			N(v) => f(v[0]),
			s => vec![s],
		}
	})
}
macro_rules! b {
	($w:ident => $e:expr) => {
		move |$w: &W| -> Sub { Box::new($e.subscribe($w.dst())) }
	};
}

#[derive(Clone)]
struct TapObs(W);
impl ObserverInput for TapObs {
	type In = i32;
	type InError = i32;
}
impl RxObserver for TapObs {
	fn next(&mut self, v: i32) {
		self.0.call(1, vec![v])
	}
	fn error(&mut self, v: i32) {
		self.0.call(2, vec![v])
	}
	fn complete(&mut self) {
		self.0.call(3, vec![])
	}
}

/// Counts callbacks per relevant input signal.
struct Calls<F>(F);
impl<F: FnMut(Sig, &mut O)> Model for Calls<F> {
	fn sig(&mut self, _s: usize, _k: usize, s: Sig, o: &mut O) {
		(self.0)(s, o)
	}
}
fn mkc<F>(f: impl Fn() -> F + Send + Sync + 'static) -> MkModel
where
	F: FnMut(Sig, &mut O) + 'static,
{
	Arc::new(move || Box::new(Calls(f())))
}
struct IntoResultM;
impl Model for IntoResultM {
	fn keeps(&self, s: &Sig) -> bool {
		matches!(s, E(_))
	}
	fn sig(&mut self, _s: usize, _k: usize, s: Sig, o: &mut O) {
		match s {
			N(v) => o.next([vec![-1], v].concat()),
			E(v) => o.next([vec![-2], v].concat()),
			s => o.emit(s),
		}
	}
}
/// Runs at the start, then maps signals.
struct Started<A, F>(A, F);
impl<A: FnMut(&mut O), F: FnMut(Sig) -> Vec<Sig>> Model for Started<A, F> {
	fn start(&mut self, o: &mut O) {
		(self.0)(o);
		if o.closed {
			o.subscribe_optional(0);
		} else {
			sub(self, o, 0);
		}
	}
	fn sig(&mut self, _s: usize, _k: usize, s: Sig, o: &mut O) {
		for x in (self.1)(s) {
			o.emit(x);
		}
	}
}

pub fn cases() -> Vec<CaseB> {
	let mut v: Vec<CaseB> = vec![];
	let pass = || vals(|| |x| vec![n(x)]);
	// ------------------------------------------------------------------ O01
	v.push(case("direct", &["O01"], 4, 6, b!(w => w.src(0)), pass()));
	v.push(case("identity", &["O01"], 4, 6, b!(w => compose_operator::<i32, i32>().operate(w.src(0))), pass()));
	v.push(case("map", &["O01"], 4, 6, b!(w => w.src(0).map(|x| x * 10)), vals(|| |x| vec![n(x * 10)])));
	v.push(case("map_into", &["O01"], 4, 6, b!(w => w.src(0).map_into::<i64, i32>()), pass()));
	v.push(case(
		"filter",
		&["O01"],
		5,
		7,
		b!(w => { let w2 = w.clone(); w.src(0).filter(move |&x, i| { w2.call(1, vec![x, i as i32]); (x as usize + i) % 2 == 1 }) }),
		mkc(|| {
			let mut i = 0;
			move |s, o: &mut O| match s {
				N(x) => {
					o.call(1, vec![x[0], i]);
					if (x[0] + i) % 2 == 1 {
						o.next(x)
					}
					i += 1;
				}
				s => o.emit(s),
			}
		}),
	));
	v.push(case(
		"filter_map",
		&["O01"],
		5,
		7,
		b!(w => w.src(0).filter_map(|x| if x == 2 { None } else { Some(x * 10) })),
		vals(|| |x| if x == 2 { vec![] } else { vec![n(x * 10)] }),
	));
	v.push(case(
		"scan",
		&["O01"],
		5,
		7,
		b!(w => w.src(0).scan(|acc: &i32, x| (acc * 10 + x) % 1009, 5)),
		vals(|| {
			let mut a = 5;
			move |x| {
				a = (a * 10 + x) % 1009;
				vec![n(a)]
			}
		}),
	));
	v.push(case(
		"enumerate",
		&["O01"],
		5,
		7,
		b!(w => w.src(0).enumerate()),
		vals(|| {
			let mut i = -1;
			move |x| {
				i += 1;
				vec![N(vec![x, i])]
			}
		}),
	));
	v.push(case(
		"pairwise",
		&["O01"],
		5,
		7,
		b!(w => w.src(0).pairwise()),
		vals(|| {
			let mut p = None;
			move |x| p.replace(x).map(|p| N(vec![p, x])).into_iter().collect()
		}),
	));
	for size in [1usize, 2, 3] {
		v.push(case(
			&format!("buffer_count({size})"),
			&["O01"],
			5,
			7,
			b!(w => w.src(0).buffer_count(size)),
			mkf(move || {
				let mut b: V = vec![];
				move |s| match s {
					N(x) => {
						b.extend(x);
						if b.len() == size { vec![N(std::mem::take(&mut b))] } else { vec![] }
					}
					C if !b.is_empty() => vec![N(std::mem::take(&mut b)), C],
					s => vec![s],
				}
			}),
		));
	}
	v.push(case(
		"tap",
		&["O01"],
		5,
		7,
		b!(w => w.src(0).tap(TapObs(w.clone()))),
		mkc(|| {
			|s, o: &mut O| {
				match &s {
					N(x) => o.call(1, x.clone()),
					E(x) => o.call(2, x.clone()),
					C => o.call(3, vec![]),
					U => {}
				}
				o.emit(s);
			}
		}),
	));
	v.push(case(
		"tap_next",
		&["O01"],
		5,
		7,
		b!(w => { let w2 = w.clone(); w.src(0).tap_next(move |x| w2.call(1, vec![*x])) }),
		mkc(|| {
			|s, o: &mut O| {
				if let N(x) = &s {
					o.call(1, x.clone())
				}
				o.emit(s);
			}
		}),
	));
	v.push(case(
		"on_next",
		&["O01"],
		5,
		7,
		b!(w => { let w2 = w.clone(); w.src(0).on_next(move |x, d| {
			w2.call(1, vec![*x]);
			match *x { 1 => true, 2 => { d.next(20); true } _ => { d.next(30); false } }
		}) }),
		mkc(|| {
			|s, o: &mut O| match s {
				N(x) => {
					o.call(1, x.clone());
					match x[0] {
						1 => o.next(x),
						2 => {
							o.next(vec![20]);
							o.next(x)
						}
						_ => o.next(vec![30]),
					}
				}
				s => o.emit(s),
			}
		}),
	));
	v.push(case(
		"on_subscribe",
		&["O06"],
		4,
		6,
		b!(w => { let w2 = w.clone(); w.src(0).on_subscribe(move |d| { w2.call(1, vec![]); d.next(40); }) }),
		Arc::new(|| {
			Box::new(Started(
				|o: &mut O| {
					o.call(1, vec![]);
					o.next(vec![40]);
				},
				|s| vec![s],
			))
		}),
	));
	v.push(case(
		"start_with",
		&["O06"],
		5,
		6,
		b!(w => w.src(0).start_with(50)),
		Arc::new(|| Box::new(Started(|o: &mut O| o.next(vec![50]), |s| vec![s]))),
	));
	v.push(case(
		"end_with",
		&["O06"],
		5,
		6,
		b!(w => w.src(0).end_with(60)),
		mkf(|| |s| if s == C { vec![n(60), C] } else { vec![s] }),
	));
	v.push(case(
		"finalize",
		&["O06", "C02"],
		5,
		6,
		b!(w => { let w2 = w.clone(); w.src(0).finalize(move || w2.call(5, vec![])) }),
		{
			struct Fin;
			impl Model for Fin {
				fn sig(&mut self, _s: usize, _k: usize, s: Sig, o: &mut O) {
					o.emit(s);
				}
				fn settle(&mut self, o: &mut O) {
					if o.closed && o.calls.is_empty() {
						o.call(5, vec![]);
					}
				}
			}
			Arc::new(|| Box::new(Fin))
		},
	));
	v.push(case(
		"lift_option",
		&["O01"],
		5,
		6,
		b!(w => w.src(0).map(|x| if x == 2 { None } else { Some(x) }).lift_option()),
		vals(|| |x| if x == 2 { vec![] } else { vec![n(x)] }),
	));
	// ------------------------------------------------------------------ O02
	for k in [0usize, 1, 2, 3] {
		v.push(case(
			&format!("take({k})"),
			&["O02"],
			5,
			6,
			b!(w => w.src(0).take(k)),
			if k == 0 {
				// Completes without ever needing its source.
				struct T0;
				impl Model for T0 {
					fn start(&mut self, o: &mut O) {
						o.complete();
						o.subscribe_optional(0);
					}
					fn sig(&mut self, _s: usize, _k: usize, _x: Sig, _o: &mut O) {}
				}
				Arc::new(|| Box::new(T0))
			} else {
				vals(move || {
					let mut left = k;
					move |x| {
						left -= 1;
						if left == 0 { vec![n(x), C] } else { vec![n(x)] }
					}
				})
			},
		));
	}
	for k in [0usize, 1, 2] {
		v.push(case(
			&format!("skip({k})"),
			&["O02"],
			5,
			6,
			b!(w => w.src(0).skip(k)),
			vals(move || {
				let mut left = k;
				move |x| {
					if left > 0 {
						left -= 1;
						vec![]
					} else {
						vec![n(x)]
					}
				}
			}),
		));
		v.push(case(
			&format!("element_at({k})"),
			&["O02"],
			5,
			6,
			b!(w => w.src(0).element_at(k).map_error(el_err)),
			mkf(move || {
				let mut i = 0usize;
				move |s| match s {
					N(x) => {
						i += 1;
						if i == k + 1 { vec![N(x), C] } else { vec![] }
					}
					C => vec![E(vec![-5, k as i32, i as i32])],
					s => vec![s],
				}
			}),
		));
		v.push(case(
			&format!("element_at_or_else({k})"),
			&["O02"],
			5,
			6,
			b!(w => w.src(0).element_at_or_else(k, || 77).map_error(el_err)),
			mkf(move || {
				let mut i = 0usize;
				move |s| match s {
					N(x) => {
						i += 1;
						if i == k + 1 { vec![N(x), C] } else { vec![] }
					}
					C => vec![n(77), C],
					s => vec![s],
				}
			}),
		));
	}
	v.push(case(
		"first",
		&["O02"],
		4,
		6,
		b!(w => w.src(0).first().map_error(|e| match e {
			FirstOperatorError::NoNextObservedBeforeComplete => vec![-1],
			FirstOperatorError::Upstream(e) => vec![e],
		})),
		mkf(|| |s| match s {
			N(x) => vec![N(x), C],
			C => vec![e(-1)],
			s => vec![s],
		}),
	));
	v.push(case(
		"find",
		&["O02"],
		5,
		6,
		b!(w => w.src(0).find(|x| *x == 2).map_error(|e| match e {
			FindOperatorError::NoNextObservedBeforeComplete => vec![-1],
			FindOperatorError::NoMatchObserved => vec![-2],
			FindOperatorError::Upstream(e) => vec![e],
		})),
		mkf(|| {
			let mut any = false;
			move |s| match s {
				N(x) => {
					any = true;
					if x[0] == 2 { vec![N(x), C] } else { vec![] }
				}
				C => vec![e(if any { -2 } else { -1 })],
				s => vec![s],
			}
		}),
	));
	v.push(case(
		"find_index",
		&["O02"],
		5,
		6,
		b!(w => w.src(0).find_index(|x| *x == 2).map_error(|e| match e {
			FindIndexOperatorError::NoNextObservedBeforeComplete => vec![-1],
			FindIndexOperatorError::NoMatchObserved => vec![-2],
			FindIndexOperatorError::Upstream(e) => vec![e],
		})),
		mkf(|| {
			let mut i = 0;
			move |s| match s {
				N(x) => {
					i += 1;
					if x[0] == 2 { vec![n(i - 1), C] } else { vec![] }
				}
				C => vec![e(if i > 0 { -2 } else { -1 })],
				s => vec![s],
			}
		}),
	));
	v.push(case(
		"count",
		&["O02"],
		5,
		6,
		b!(w => w.src(0).count()),
		mkf(|| {
			let mut i = 0;
			move |s| match s {
				N(_) => {
					i += 1;
					vec![]
				}
				C => vec![n(i), C],
				s => vec![s],
			}
		}),
	));
	v.push(case(
		"is_empty",
		&["O02"],
		4,
		6,
		b!(w => w.src(0).is_empty()),
		mkf(|| |s| match s {
			N(_) => vec![n(0), C],
			C => vec![n(1), C],
			s => vec![s],
		}),
	));
	v.push(case(
		"reduce",
		&["O02"],
		5,
		6,
		b!(w => w.src(0).reduce(|a: &i32, x| (a * 10 + x) % 1009, 5)),
		mkf(|| {
			let mut a = 5;
			move |s| match s {
				N(x) => {
					a = (a * 10 + x[0]) % 1009;
					vec![]
				}
				C => vec![n(a), C],
				s => vec![s],
			}
		}),
	));
	// ------------------------------------------------------------------ O03
	v.push(case("map_error", &["O03"], 4, 6, b!(w => w.src(0).map_error(|x| x * 10)), mkf(|| |s| match s {
		E(x) => vec![e(x[0] * 10)],
		s => vec![s],
	})));
	v.push(case("into_result", &["O03"], 4, 6, b!(w => w.src(0).into_result()), Arc::new(|| Box::new(IntoResultM))));
	v.push(case(
		"materialize",
		&["O03"],
		4,
		6,
		b!(w => w.src(0).materialize()),
		mkf(|| |s| match s {
			N(x) => vec![N([vec![-1], x].concat())],
			E(x) => vec![N([vec![-2], x].concat()), C],
			C => vec![N(vec![-3]), C],
			U => vec![U],
		}),
	));
	v.push(case(
		"materialize-dematerialize",
		&["O03"],
		5,
		6,
		b!(w => w.src(0).materialize().dematerialize()),
		pass(),
	));
	v.push(case(
		"dematerialize",
		&["O03"],
		5,
		6,
		b!(w => w.src(0).into_result().filter_map(|r| r.ok()).map(|x| match x {
			1 => ObserverNotification::<i32, i32>::Next(1),
			2 => ObserverNotification::Error(20),
			_ => ObserverNotification::Complete,
		}).dematerialize()),
		{
			struct D;
			impl Model for D {
				fn keeps(&self, s: &Sig) -> bool {
					matches!(s, E(_))
				}
				fn sig(&mut self, _s: usize, _k: usize, s: Sig, o: &mut O) {
					match s {
						N(x) => match x[0] {
							1 => o.next(x),
							2 => o.error(vec![20]),
							_ => o.complete(),
						},
						E(_) => {}
						s => o.emit(s),
					}
				}
			}
			Arc::new(|| Box::new(D))
		},
	));
	v.push(case(
		"into_result-lift_result",
		&["O03"],
		5,
		6,
		b!(w => w.src(0).into_result().lift_result()),
		pass(),
	));
	v.push(case("error_boundary", &["O03"], 4, 6, b!(w => w.src(0).materialize().error_boundary()), mkf(|| |s| match s {
		N(x) => vec![N([vec![-1], x].concat())],
		E(x) => vec![N([vec![-2], x].concat()), C],
		C => vec![N(vec![-3]), C],
		U => vec![U],
	})));
	v
}
fn el_err(e: ElementAtOperatorError<i32>) -> V {
	match e {
		ElementAtOperatorError::IndexOutOfRange {
			requested_index,
			observed_nexts,
		} => vec![-5, requested_index as i32, observed_nexts as i32],
		ElementAtOperatorError::Upstream(e) => vec![e],
	}
}

pub fn scenarios(th: bool) -> Vec<Scenario> {
	cases()
		.into_iter()
		.map(|mut c| {
			c.cfg.calls = true;
			c.dq += 2;
			c.dt += 3;
			c.scenario(th)
		})
		.collect()
}

//! Bevy harness: an app driven frame by frame, and subscribers recording what they are told.
use crate::engine::{Fail, Res, Run, Scenario};
use bevy_app::prelude::*;
use bevy_ecs::prelude::*;
use bevy_ecs::system::SystemState;
use bevy_time::{Real, Time, Virtual};
use rx_bevy_common::*;
use rx_core::prelude::*;
use std::mc;
use std::real::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sig {
	N(i32),
	E(i32),
	C,
	U,
}
pub use Sig::*;
pub fn show(l: &[Sig]) -> String {
	l.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(" ")
}
pub trait Lab: 'static + Send + Sync {
	fn lab(&self) -> i32;
}
impl Lab for i32 {
	fn lab(&self) -> i32 {
		*self
	}
}
impl Lab for usize {
	fn lab(&self) -> i32 {
		*self as i32
	}
}
impl Lab for Never {
	fn lab(&self) -> i32 {
		0
	}
}
#[derive(Default)]
pub struct PrS {
	pub log: Vec<Sig>,
	pub late: Vec<String>,
	pub teardowns: u32,
}
#[derive(Clone, Default)]
pub struct Pr(pub Arc<Mutex<PrS>>);
impl Pr {
	pub fn log(&self) -> Vec<Sig> {
		self.0.lock().unwrap().log.clone()
	}
	pub fn probe<T, E>(&self, limit: Option<usize>) -> Probe<T, E> {
		let pr = self.clone();
		let mut td = SubscriptionData::default();
		td.add_teardown(Teardown::new(move || pr.0.lock().unwrap().teardowns += 1));
		Probe { pr: self.clone(), limit, td, done: false, _p: Default::default() }
	}
}
pub struct Probe<T, E> {
	pr: Pr,
	limit: Option<usize>,
	td: SubscriptionData,
	done: bool,
	_p: std::marker::PhantomData<fn(T, E)>,
}
impl<T: Lab, E: Lab> Probe<T, E> {
	fn log(&mut self, s: Sig) -> bool {
		let mut g = self.pr.0.lock().unwrap();
		if self.td.is_closed() || self.done {
			g.late.push(format!("{s:?}"));
			return false;
		}
		g.log.push(s);
		self.done |= !matches!(s, N(_));
		true
	}
}
impl<T: Lab, E: Lab> ObserverInput for Probe<T, E> {
	type In = T;
	type InError = E;
}
impl<T, E> WithPrimaryCategory for Probe<T, E> {
	type PrimaryCategory = PrimaryCategorySubscriber;
}
impl<T, E> ObserverUpgradesToSelf for Probe<T, E> {}
impl<T: Lab, E: Lab> RxObserver for Probe<T, E> {
	fn next(&mut self, v: T) {
		if self.log(N(v.lab()))
			&& let Some(l) = self.limit.as_mut()
		{
			*l -= 1;
			if *l == 0 {
				self.unsubscribe();
			}
		}
	}
	fn error(&mut self, v: E) {
		if self.log(E(v.lab())) {
			self.unsubscribe();
		}
	}
	fn complete(&mut self) {
		if self.log(C) {
			self.unsubscribe();
		}
	}
}
impl<T, E> SubscriptionLike for Probe<T, E> {
	fn is_closed(&self) -> bool {
		self.td.is_closed()
	}
	fn unsubscribe(&mut self) {
		if !self.td.is_closed() {
			self.pr.0.lock().unwrap().log.push(U);
			self.td.unsubscribe();
		}
	}
}
impl<T, E> TeardownCollection for Probe<T, E> {
	fn add_teardown(&mut self, t: Teardown) {
		self.td.add_teardown(t)
	}
}
impl<T, E> Drop for Probe<T, E> {
	fn drop(&mut self) {
		self.unsubscribe();
	}
}

pub type H = SchedulerHandle<RxBevyScheduler>;
/// Which part of the frame is running: 1 up to Update, 2 in PostUpdate, 3 from Last on.
#[derive(Resource, Default, Clone, Copy)]
pub struct Phase(pub u8);

pub struct W {
	pub app: App,
	/// Schedulers of Update/Virtual, PostUpdate/Real and Last/Virtual (the despawning one).
	pub h: [H; 3],
	pub now: [u64; 2],
	base: usize,
}
pub type Subn = Box<dyn SubscriptionWithTeardown + Send + Sync>;
impl W {
	pub fn new(setup: impl FnOnce(&mut App)) -> W {
		let mut app = App::new();
		app.init_resource::<Time<Virtual>>();
		app.init_resource::<Time<Real>>();
		app.init_resource::<Phase>();
		app.add_plugins((RxPlugin, RxSchedulerPlugin::<Update, Virtual>::default(), RxSchedulerPlugin::<PostUpdate, Real>::default()));
		app.add_systems(First, |mut p: ResMut<Phase>| p.0 = 1);
		app.add_systems(SpawnScene, |mut p: ResMut<Phase>| p.0 = 2);
		app.add_systems(PostUpdate, (|mut p: ResMut<Phase>| p.0 = 3).after(rx_executor::<PostUpdate, Real>));
		setup(&mut app);
		let w = app.world_mut();
		let a = SystemState::<RxSchedule<Update, Virtual>>::new(w).get_mut(w).handle();
		let b = SystemState::<RxSchedule<PostUpdate, Real>>::new(w).get_mut(w).handle();
		let c = SystemState::<RxSchedule<Last, Virtual>>::new(w).get_mut(w).handle();
		let mut w = W { app, h: [a, b, c], now: [0, 0], base: 0 };
		// The first frame also runs the startup schedules and builds all others.
		w.app.update();
		w
	}
	pub fn w(&mut self) -> &mut World {
		self.app.world_mut()
	}
	/// Remembers the number of entities that are there without any subscription.
	pub fn baseline(&mut self) {
		self.base = self.count();
	}
	pub fn count(&mut self) -> usize {
		self.w().flush();
		let w = self.app.world_mut();
		w.query::<Entity>().iter(w).count()
	}
	pub fn leftover(&mut self) -> i64 {
		self.count() as i64 - self.base as i64
	}
	pub fn frame(&mut self, virt: u64, real: u64) {
		self.now[0] += virt;
		self.now[1] += real;
		let ms = Duration::from_millis;
		self.w().resource_mut::<Time<Virtual>>().advance_by(ms(virt));
		self.w().resource_mut::<Time<Real>>().advance_by(ms(real));
		self.app.update();
	}
	pub fn idle(&self) -> bool {
		let w = self.app.world();
		w.resource::<RxBevyExecutor<Update, Virtual>>().is_empty()
			&& w.resource::<RxBevyExecutor<PostUpdate, Real>>().is_empty()
			&& w.resource::<RxBevyExecutor<Last, Virtual>>().is_empty()
	}
}
pub fn bad(m: String) -> Fail {
	Fail::new(m)
}
/// Compares what was received with what the model says, and that nothing came after the end.
pub fn same(what: &str, pr: &Pr, want: &[Sig]) -> Res {
	let g = pr.0.lock().unwrap();
	if g.log != want {
		return Err(bad(format!("{what} observed [{}] instead of [{}]", show(&g.log), show(want))));
	}
	if let Some(l) = g.late.first() {
		return Err(bad(format!("{what} was sent {l} after its end")));
	}
	let over = want.contains(&U) as u32;
	if g.teardowns != over {
		return Err(bad(format!("{what}: its teardown ran {} times, not {over}", g.teardowns)));
	}
	Ok(())
}

//! What the executor scenarios of the core harness need, on a Bevy app.
use super::rigb::*;
use rx_bevy_common::*;
use rx_core::prelude::*;
use std::mc;

pub type Sched = H;
pub type SchedTy = RxBevyScheduler;
pub type Ctx<'w> = RxBevyContextItem<'w>;
/// The executor of one schedule and clock, ticked by whole frames. The other clock runs faster.
pub struct Exec {
	w: W,
	which: usize,
}
impl Exec {
	pub fn new(_: SchedTy) -> Exec {
		Exec { w: W::new(|_| {}), which: mc::choose(2) }
	}
	pub fn get_scheduler_handle(&self) -> H {
		self.w.h[self.which].clone()
	}
	pub fn is_empty(&self) -> bool {
		self.w.idle()
	}
}
pub fn tick_exec(e: &mut Exec, ms: u64) {
	let other = ms * 3 + 1;
	if e.which == 0 { e.w.frame(ms, other) } else { e.w.frame(other, ms) }
}

use crate::engine::{Scenario, Tier};
pub mod rig;
mod ops;
mod flat;
mod sched;
mod time;
mod creat;
mod comb;
mod subj;
mod share;
mod compose;
mod thread;
mod thread2;
mod thread3;

pub fn all(t: Tier) -> Vec<Scenario> {
	let th = t == Tier::Thorough;
	let mut v = vec![];
	v.extend(ops::scenarios(th));
	v.extend(flat::scenarios(th));
	v.extend(sched::scenarios(th));
	v.extend(time::scenarios(th));
	v.extend(creat::scenarios(th));
	v.extend(comb::scenarios(th));
	v.extend(subj::scenarios(th));
	v.extend(share::scenarios(th));
	v.extend(compose::scenarios(th));
	v.extend(thread::scenarios(th));
	v.extend(thread2::scenarios(th));
	v.extend(thread3::scenarios(th));
	v
}

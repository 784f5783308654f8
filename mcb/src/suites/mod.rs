use crate::engine::{Scenario, Tier};
pub mod rigb;
pub mod rig;
mod sched;
mod scheds;
mod dest;
mod ents;
mod feed;
mod events;
mod adsr;

pub fn all(t: Tier) -> Vec<Scenario> {
	let th = t == Tier::Thorough;
	let mut v = vec![];
	v.extend(feed::scenarios(th));
	v.extend(ents::scenarios(th));
	v.extend(dest::scenarios(th));
	v.extend(scheds::scenarios(th));
	v.extend(events::scenarios(th));
	v.extend(adsr::scenarios(th));
	v
}

//! Exhaustive exploration of scenarios: every choice sequence (operations, arguments, timing and
//! scheduling decisions) within the scenario's bounds is executed on the real code.
use std::real::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::mc;
use std::real::collections::{BTreeMap, HashSet};
use std::real::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::real::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
	Quick,
	Thorough,
}

#[derive(Clone, Debug)]
pub struct Fail {
	/// Properties this failure violates. Empty: every property of the scenario.
	pub props: Vec<&'static str>,
	pub msg: String,
	/// Identifier of the known finding whose exact deviation this is.
	pub known: Option<String>,
}
impl Fail {
	pub fn new(msg: impl Into<String>) -> Fail {
		Fail {
			props: vec![],
			msg: msg.into(),
			known: None,
		}
	}
}
pub type Res = Result<(), Fail>;
#[macro_export]
macro_rules! fail { ($($t:tt)*) => { return Err($crate::engine::Fail::new(format!($($t)*))) }; }
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::engine::Fail::new(format!($($t)*))) } }; }

#[derive(Clone)]
pub struct Run(pub Arc<RunInner>);
pub struct RunInner {
	pub depth: usize,
	pub tier: Tier,
	pub tracing: bool,
	pub st: Mutex<RunState>,
}
#[derive(Default)]
pub struct RunState {
	pub hash: u64,
	pub states: Vec<u64>,
	pub trace: Vec<String>,
	pub transitions: u64,
	pub nontrivial: bool,
	/// Known finding a deadlock from here on belongs to.
	pub hang: Option<String>,
}
impl Run {
	pub fn depth(&self) -> usize {
		self.0.depth
	}
	pub fn thorough(&self) -> bool {
		self.0.tier == Tier::Thorough
	}
	/// Record that the execution reached this observable state (folded with its history).
	pub fn state(&self, s: &impl Hash) {
		let mut st = self.0.st.lock().unwrap();
		let mut h = DefaultHasher::new();
		st.hash.hash(&mut h);
		s.hash(&mut h);
		st.hash = h.finish();
		let v = st.hash;
		st.states.push(v);
	}
	pub fn step(&self) {
		self.0.st.lock().unwrap().transitions += 1;
	}
	pub fn interesting(&self) {
		self.0.st.lock().unwrap().nontrivial = true;
	}
	/// Until cleared, a deadlock is the deviation recorded under this identifier.
	pub fn known_hang(&self, id: Option<&str>) {
		self.0.st.lock().unwrap().hang = id.map(|s| s.to_string());
	}
	pub fn tracing(&self) -> bool {
		self.0.tracing
	}
	pub fn trace(&self, f: impl FnOnce() -> String) {
		if self.0.tracing {
			let s = f();
			self.0.st.lock().unwrap().trace.push(s);
		}
	}
}

pub struct Scenario {
	pub name: String,
	pub props: Vec<&'static str>,
	pub body: Arc<dyn Fn(&Run) -> Res + Send + Sync>,
	pub preemptions: u32,
	pub max_steps: u64,
	pub seeds: Vec<u64>,
	pub depth: usize,
	pub split: usize,
}
impl Scenario {
	pub fn new(
		name: impl Into<String>,
		props: &[&'static str],
		depth: usize,
		body: impl Fn(&Run) -> Res + Send + Sync + 'static,
	) -> Scenario {
		Scenario {
			name: name.into(),
			props: props.to_vec(),
			body: Arc::new(body),
			preemptions: 0,
			max_steps: 200_000,
			seeds: vec![0],
			depth,
			split: 3,
		}
	}
	pub fn threads(mut self, bound: u32) -> Self {
		self.preemptions = bound;
		self.max_steps = 20_000;
		self
	}
	pub fn seeds(mut self, s: &[u64]) -> Self {
		self.seeds = s.to_vec();
		self
	}
	pub fn split(mut self, s: usize) -> Self {
		self.split = s;
		self
	}
}

pub struct Outcome {
	pub fail: Option<Fail>,
	pub trail: Vec<(u32, u32)>,
	pub steps: u64,
	pub preemptions: u32,
	pub tainted: bool,
	pub diverged: Option<String>,
	pub st: RunState,
	pub end: &'static str,
}

pub fn execute(sc: &Scenario, tier: Tier, seed: u64, prefix: Vec<u32>, tracing: bool) -> Outcome {
	execute_at(sc, tier, seed, prefix, tracing, sc.depth)
}
pub fn execute_at(sc: &Scenario, tier: Tier, seed: u64, prefix: Vec<u32>, tracing: bool, depth: usize) -> Outcome {
	let run = Run(Arc::new(RunInner {
		depth,
		tier,
		tracing,
		st: Mutex::new(RunState::default()),
	}));
	let slot: Arc<Mutex<Option<Res>>> = Arc::new(Mutex::new(None));
	let (r2, s2, b2) = (run.clone(), slot.clone(), sc.body.clone());
	let cfg = mc::Config {
		preemption_bound: sc.preemptions,
		max_steps: sc.max_steps,
		hash_seed: seed,
	};
	let _ = mc::take_panic();
	let r = mc::run_case(
		&cfg,
		prefix,
		Box::new(move || {
			let v = b2(&r2);
			*s2.lock().unwrap() = Some(v);
		}),
	);
	let mut diverged = None;
	let res = slot.lock().unwrap().take();
	let mut end = "done";
	let mut fail = match &r.end {
		mc::End::Done => None,
		mc::End::Deadlock(d) => {
			end = "deadlock";
			Some(Fail::new(format!("deadlock: {d}")))
		}
		mc::End::StepLimit => {
			end = "steplimit";
			Some(Fail::new("no progress: the step horizon was exceeded"))
		}
		mc::End::Divergence(d) => {
			diverged = Some(d.clone());
			None
		}
	};
	if fail.is_none() && !r.panics.is_empty() {
		end = "panic";
		fail = Some(Fail::new(format!("panic: {}", r.panics.join(" | "))));
	}
	if fail.is_none() {
		if let Some(Err(f)) = res {
			fail = Some(f)
		}
	}
	let st = match run.0.st.lock() {
		Ok(mut g) => std::mem::take(&mut *g),
		Err(p) => std::mem::take(&mut *p.into_inner()),
	};
	if end == "deadlock"
		&& let Some(f) = fail.as_mut()
	{
		f.known = st.hang.clone();
	}
	Outcome {
		fail,
		trail: r.trail,
		steps: r.steps,
		preemptions: r.preemptions,
		tainted: r.tainted,
		diverged,
		st,
		end,
	}
}

#[derive(Default)]
pub struct Stats {
	pub executions: u64,
	pub transitions: u64,
	pub nontrivial: u64,
	pub steps: u64,
	pub choices: u64,
	pub max_len: usize,
	pub states: HashSet<u64>,
	pub finals: HashSet<u64>,
	pub per: BTreeMap<String, (u64, u64)>,
	pub replays_checked: u64,
	pub samples: Vec<String>,
	pub violations: Vec<Violation>,
	pub known: BTreeMap<String, (u64, String)>,
	pub engine_errors: Vec<String>,
	pub truncated: bool,
}
#[derive(Clone)]
pub struct Violation {
	pub scenario: String,
	pub seed: u64,
	pub depth: usize,
	pub prefix: Vec<u32>,
	pub msg: String,
	pub trace: Vec<String>,
}

/// What each worker is executing right now, readable by the supervising process after a crash.
pub struct Slots(pub *mut u8);
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
pub const SLOT: usize = 4096;
impl Slots {
	pub fn write(&self, w: usize, scen: usize, seed: u64, prefix: &[u32], serial: u64) {
		if self.0.is_null() {
			return;
		}
		unsafe {
			let p = self.0.add(w * SLOT) as *mut u64;
			p.write_volatile(0);
			p.add(1).write_volatile(scen as u64);
			p.add(2).write_volatile(seed);
			p.add(3).write_volatile(prefix.len() as u64);
			let q = p.add(5) as *mut u8;
			for (i, c) in prefix.iter().enumerate().take(SLOT - 64) {
				q.add(i).write_volatile(*c as u8);
			}
			p.add(4).write_volatile(serial);
			p.write_volatile(1);
		}
	}
	pub fn idle(&self, w: usize) {
		if !self.0.is_null() {
			unsafe { (self.0.add(w * SLOT) as *mut u64).write_volatile(0) }
		}
	}
	pub fn read(&self, w: usize) -> Option<(usize, u64, Vec<u32>, u64)> {
		unsafe {
			let p = self.0.add(w * SLOT) as *const u64;
			if p.read_volatile() != 1 {
				return None;
			}
			let n = (p.add(3).read_volatile() as usize).min(SLOT - 64);
			let q = p.add(5) as *const u8;
			Some((
				p.add(1).read_volatile() as usize,
				p.add(2).read_volatile(),
				(0..n).map(|i| q.add(i).read_volatile() as u32).collect(),
				p.add(4).read_volatile(),
			))
		}
	}
}

struct Item {
	scen: usize,
	seed: u64,
	prefix: Vec<u32>,
	fixed: usize,
	expand: usize,
}

pub struct Explorer<'a> {
	pub scens: &'a [Scenario],
	pub prop: &'a str,
	pub tier: Tier,
	pub workers: usize,
	pub deadline: Instant,
	pub slots: Slots,
	pub max_violations: usize,
	pub known_listed: Vec<String>,
}

fn relevant(prop: &str, sc: &Scenario, f: &Fail) -> bool {
	f.props.is_empty() && sc.props.iter().any(|p| *p == prop) || f.props.iter().any(|p| *p == prop)
}

impl Explorer<'_> {
	pub fn explore(&self) -> Stats {
		let mut init: Vec<Item> = Vec::new();
		for (i, s) in self.scens.iter().enumerate() {
			for seed in &s.seeds {
				init.push(Item {
					scen: i,
					seed: *seed,
					prefix: vec![],
					fixed: 0,
					expand: s.split,
				});
			}
		}
		init.reverse();
		let queue = Mutex::new(init);
		let cv = Condvar::new();
		let busy = AtomicUsize::new(0);
		let stop = AtomicBool::new(false);
		let serial = AtomicU64::new(1);
		let total: Mutex<Stats> = Mutex::new(Stats::default());
		let dead: Mutex<HashSet<usize>> = Mutex::new(HashSet::new());
		std::thread::scope(|s| {
			for w in 0..self.workers {
				let (queue, cv, busy, stop, serial, total, dead) =
					(&queue, &cv, &busy, &stop, &serial, &total, &dead);
				s.spawn(move || {
					self.worker_loop(w, queue, cv, busy, stop, serial, total, dead);
				});
			}
		});
		let mut t = std::mem::take(&mut *total.lock().unwrap());
		// Shortest counterexample first: re-explore the violating scenarios at lower depths.
		for v in t.violations.iter_mut() {
			if let Some(sc) = self.scens.iter().find(|s| s.name == v.scenario) {
				if let Some((d, p)) = self.shrink(sc, v) {
					v.depth = d;
					v.prefix = p;
				}
				let o = execute_at(sc, self.tier, v.seed, v.prefix.clone(), true, v.depth);
				v.trace = o.st.trace;
				if let Some(f) = o.fail {
					v.msg = f.msg
				}
			}
		}
		t
	}

	fn shrink(&self, sc: &Scenario, v: &Violation) -> Option<(usize, Vec<u32>)> {
		let end = Instant::now() + Duration::from_secs(5);
		for d in 1..sc.depth {
			let mut prefix = Some(vec![]);
			while let Some(p) = prefix {
				if Instant::now() > end {
					return None;
				}
				let o = execute_at(sc, self.tier, v.seed, p, false, d);
				if o.tainted || o.diverged.is_some() {
					return None;
				}
				if let Some(f) = &o.fail {
					if relevant(self.prop, sc, f) && f.known.is_none() {
						return Some((d, o.trail.iter().map(|t| t.0).collect()));
					}
				}
				prefix = mc::next_prefix(&o.trail, 0);
			}
		}
		None
	}

	#[allow(clippy::too_many_arguments)]
	fn worker_loop(
		&self,
		w: usize,
		queue: &Mutex<Vec<Item>>,
		cv: &Condvar,
		busy: &AtomicUsize,
		stop: &AtomicBool,
		serial: &AtomicU64,
		total: &Mutex<Stats>,
		dead: &Mutex<HashSet<usize>>,
	) {
		let mut st = Stats::default();
		loop {
			let item = {
				let mut q = queue.lock().unwrap();
				loop {
					if stop.load(Ordering::Relaxed) {
						break None;
					}
					if let Some(i) = q.pop() {
						busy.fetch_add(1, Ordering::SeqCst);
						break Some(i);
					}
					if busy.load(Ordering::SeqCst) == 0 {
						break None;
					}
					self.slots.idle(w);
					q = cv.wait_timeout(q, Duration::from_millis(20)).unwrap().0;
				}
			};
			let Some(item) = item else { break };
			if dead.lock().unwrap().contains(&item.scen) {
				busy.fetch_sub(1, Ordering::SeqCst);
				cv.notify_all();
				continue;
			}
			let mut todo = Some(item);
			while let Some(item) = todo.take() {
				// A tainted thread is replaced: continue the item on a fresh one.
				if let Some(rest) = self.run_item(w, item, queue, cv, stop, serial, &mut st, dead) {
					let mut st2 = std::mem::take(&mut st);
					let (r, s3) = std::thread::scope(|s| {
						s.spawn(move || {
							let r = self.run_item(w, rest, queue, cv, stop, serial, &mut st2, dead);
							(r, st2)
						})
						.join()
						.unwrap()
					});
					st = s3;
					todo = r;
				}
			}
			busy.fetch_sub(1, Ordering::SeqCst);
			cv.notify_all();
		}
		self.slots.idle(w);
		let mut t = total.lock().unwrap();
		t.executions += st.executions;
		t.transitions += st.transitions;
		t.nontrivial += st.nontrivial;
		t.steps += st.steps;
		t.choices += st.choices;
		t.max_len = t.max_len.max(st.max_len);
		t.states.extend(st.states);
		t.finals.extend(st.finals);
		for (k, v) in st.per {
			let e = t.per.entry(k).or_default();
			e.0 += v.0;
			e.1 += v.1;
		}
		t.replays_checked += st.replays_checked;
		for s in st.samples {
			if t.samples.len() < 6 {
				t.samples.push(s)
			}
		}
		t.violations.extend(st.violations);
		for (k, v) in st.known {
			let e = t.known.entry(k).or_insert((0, v.1));
			e.0 += v.0;
		}
		t.engine_errors.extend(st.engine_errors);
		t.truncated |= st.truncated;
	}

	/// Returns the rest of the item when the current thread must be abandoned.
	#[allow(clippy::too_many_arguments)]
	fn run_item(
		&self,
		w: usize,
		item: Item,
		queue: &Mutex<Vec<Item>>,
		cv: &Condvar,
		stop: &AtomicBool,
		serial: &AtomicU64,
		st: &mut Stats,
		dead: &Mutex<HashSet<usize>>,
	) -> Option<Item> {
		let sc = &self.scens[item.scen];
		let mut prefix = Some(item.prefix.clone());
		let mut expand = item.expand;
		while let Some(p) = prefix {
			if stop.load(Ordering::Relaxed) {
				return None;
			}
			if st.executions % 64 == 0 {
				if Instant::now() > self.deadline {
					st.truncated = true;
					return None;
				}
				if dead.lock().unwrap().contains(&item.scen) {
					return None;
				}
			}
			self.slots
				.write(w, item.scen, item.seed, &p, serial.fetch_add(1, Ordering::Relaxed));
			let plen = p.len();
			let o = execute(sc, self.tier, item.seed, p.clone(), false);
			if let Some(d) = o.diverged {
				st.engine_errors.push(format!("{}: divergence {d}", sc.name));
				stop.store(true, Ordering::Relaxed);
				return None;
			}
			// Splitting: turn the first `expand` choices into separate items.
			if expand > 0 && o.trail.len() > plen && !o.tainted {
				let n = o.trail[plen].1;
				let mut q = queue.lock().unwrap();
				for c in (0..n).rev() {
					let mut p2 = p.clone();
					p2.push(c);
					q.push(Item {
						scen: item.scen,
						seed: item.seed,
						fixed: p2.len(),
						prefix: p2,
						expand: expand - 1,
					});
				}
				drop(q);
				cv.notify_all();
				return None;
			}
			expand = 0;
			st.executions += 1;
			st.transitions += o.st.transitions + o.steps;
			st.steps += o.steps;
			st.choices += o.trail.len() as u64;
			st.max_len = st.max_len.max(o.trail.len());
			if o.st.nontrivial || o.preemptions > 0 {
				st.nontrivial += 1;
			}
			let fin = {
				let mut h = DefaultHasher::new();
				(&sc.name, o.st.hash).hash(&mut h);
				h.finish()
			};
			st.finals.insert(fin);
			if st.states.len() < 4_000_000 {
				for s in &o.st.states {
					let mut h = DefaultHasher::new();
					(item.scen, s).hash(&mut h);
					st.states.insert(h.finish());
				}
			}
			let e = st.per.entry(sc.name.clone()).or_default();
			e.0 += 1;
			let choices: Vec<u32> = o.trail.iter().map(|t| t.0).collect();
			if st.executions % 4096 == 7 && !o.tainted {
				// Determinism of the harness: the same choices must give the same execution.
				let o2 = execute(sc, self.tier, item.seed, choices.clone(), st.samples.len() < 2);
				st.replays_checked += 1;
				if o2.trail != o.trail || o2.st.hash != o.st.hash || o2.fail.is_some() != o.fail.is_some() {
					st.engine_errors
						.push(format!("{}: replay of {choices:?} differs", sc.name));
					stop.store(true, Ordering::Relaxed);
					return None;
				}
				if !o2.st.trace.is_empty() {
					st.samples
						.push(format!("{} {choices:?}: {}", sc.name, o2.st.trace.join("; ")));
				}
			} else if st.samples.is_empty() && o.trail.len() > 2 && !o.tainted {
				let o2 = execute(sc, self.tier, item.seed, choices.clone(), true);
				st.samples
					.push(format!("{} {choices:?}: {}", sc.name, o2.st.trace.join("; ")));
			}
			if let Some(f) = &o.fail {
				if relevant(self.prop, sc, f) {
					let listed = f.known.as_ref().is_some_and(|k| self.known_listed.contains(k));
					if listed {
						let e = st
							.known
							.entry(f.known.clone().unwrap())
							.or_insert((0, format!("{}: {}", sc.name, f.msg)));
						e.0 += 1;
					} else {
						let e = st.per.entry(sc.name.clone()).or_default();
						e.1 += 1;
						let mut d = dead.lock().unwrap();
						if d.insert(item.scen) {
							st.violations.push(Violation {
								scenario: sc.name.clone(),
								seed: item.seed,
								depth: sc.depth,
								prefix: choices.clone(),
								msg: f.msg.clone(),
								trace: vec![],
							});
						}
						if d.len() >= self.max_violations {
							stop.store(true, Ordering::Relaxed);
						}
						return None;
					}
				}
			}
			prefix = mc::next_prefix(&o.trail, item.fixed);
			if o.tainted {
				return prefix.map(|p| Item {
					scen: item.scen,
					seed: item.seed,
					prefix: p,
					fixed: item.fixed,
					expand: 0,
				});
			}
		}
		None
	}
}

#![allow(dead_code, unused)]
//! mc check PROPERTY [quick|thorough]   supervise an exploration and write the evidence
//! mc worker PROPERTY TIER DIR          the exploration itself (started by check)
//! mc replay FILE                       replay a recorded violation, printing its trace
//! mc one SCENARIO SEED DEPTH CHOICES   run a single execution
//! mc list [PROPERTY]
#[macro_use]
mod engine;
mod json;
mod suites;

use engine::*;
use json::J;
use std::collections::BTreeMap;
use std::fs;
use std::real::sync::{Arc, Mutex};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio, exit};
use std::time::{Duration, Instant};

unsafe extern "C" {
	fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
	fn alarm(s: u32) -> u32;
}

const HANG_SECS: u64 = 25;
const WORKERS: usize = 8;

fn tier(s: &str) -> Tier {
	if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}
fn tier_name(t: Tier) -> &'static str {
	if t == Tier::Thorough { "thorough" } else { "quick" }
}
fn map_slots(path: &Path) -> Slots {
	use std::os::fd::AsRawFd;
	let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
	f.set_len((WORKERS * SLOT) as u64).unwrap();
	let p = unsafe { mmap(std::ptr::null_mut(), WORKERS * SLOT, 3, 1, f.as_raw_fd(), 0) };
	assert!(p as isize != -1);
	Slots(p)
}
fn verif() -> PathBuf {
	PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
fn known_listed(prop: &str) -> Vec<(String, String)> {
	let mut v = vec![];
	if let Ok(s) = fs::read_to_string(verif().join("known_findings.jsonl")) {
		for l in s.lines() {
			if let Some(j) = json::parse(l) {
				if j.get("property").and_then(J::str) == Some(prop) && j.get("status").and_then(J::str) == Some("known") {
					v.push((
						j.get("id").and_then(J::str).unwrap_or("").to_string(),
						j.get("what").and_then(J::str).unwrap_or("").to_string(),
					));
				}
			}
		}
	}
	v
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	let r = match a.get(1).map(|s| s.as_str()) {
		Some("check") => check(&a[2], tier(a.get(3).map(|s| s.as_str()).unwrap_or("quick"))),
		Some("worker") => worker(&a[2], tier(&a[3]), Path::new(&a[4])),
		Some("replay") => replay(&a[2]),
		Some("one") => one(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5], tier(a.get(6).map(|s| s.as_str()).unwrap_or("quick")), true),
		Some("scan") => scan(&a[2], tier(a.get(3).map(|s| s.as_str()).unwrap_or("quick")), a.get(4).and_then(|s| s.parse().ok()).unwrap_or(0)),
		Some("list") => {
			for s in suites::all(Tier::Quick) {
				if a.get(2).is_none_or(|p| s.props.contains(&p.as_str())) {
					println!("{} {:?} depth {} preemptions {}", s.name, s.props, s.depth, s.preemptions);
				}
			}
			0
		}
		_ => 2,
	};
	exit(r)
}

fn scens(prop: &str, t: Tier) -> Vec<Scenario> {
	suites::all(t)
		.into_iter()
		.filter(|s| s.props.iter().any(|p| *p == prop))
		.map(|mut s| {
			// Checked over every scenario there is: one step less deep, to stay affordable.
			if t == Tier::Quick && matches!(prop, "C01" | "C02" | "C03") && s.preemptions == 0 && s.depth > 3 {
				s.depth -= 1;
			}
			s
		})
		.collect()
}

fn parse_choices(s: &str) -> Vec<u32> {
	s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

/// Development aid: every kind of failure of the matching scenarios, with its shortest history.
fn scan(pat: &str, t: Tier, depth: usize) -> i32 {
	std::mc::install_panic_hook();
	for sc in suites::all(t).into_iter().filter(|s| s.name.starts_with(pat)) {
		let sc = Arc::new(sc);
		let d = if depth == 0 { sc.depth } else { depth };
		for &seed in &sc.seeds.clone() {
			let found: Arc<Mutex<BTreeMap<String, (usize, Vec<u32>, String)>>> = Default::default();
			let next: Arc<Mutex<(Option<Vec<u32>>, u64, u64)>> = Arc::new(Mutex::new((Some(vec![]), 0, 0)));
			loop {
				let (sc2, f2, n2) = (sc.clone(), found.clone(), next.clone());
				std::real::thread::spawn(move || loop {
					let mut n = n2.lock().unwrap();
					let Some(p) = n.0.clone() else { return };
					if n.1 > 3_000_000 {
						n.0 = None;
						return;
					}
					drop(n);
					let o = execute_at(&sc2, t, seed, p, false, d);
					let mut n = n2.lock().unwrap();
					n.0 = std::mc::next_prefix(&o.trail, 0);
					n.1 += 1;
					if let Some(f) = o.fail.as_ref().filter(|f| f.known.is_none()) {
						n.2 += 1;
						let key: String = format!("{:?}{:?} {}", f.known, f.props, f.msg).chars().filter(|c| !c.is_ascii_digit()).take(160).collect();
						let ch: Vec<u32> = o.trail.iter().map(|x| x.0).collect();
						let mut g = f2.lock().unwrap();
						let e = g.entry(key).or_insert((usize::MAX, vec![], String::new()));
						if ch.len() < e.0 {
							*e = (ch.len(), ch, f.msg.clone());
						}
					}
					if o.tainted {
						return;
					}
				})
				.join()
				.ok();
				if next.lock().unwrap().0.is_none() {
					break;
				}
			}
			let n = next.lock().unwrap();
			println!("== {} seed {seed}: {} executions, {} failing", sc.name, n.1, n.2);
			let mut l: Vec<_> = found.lock().unwrap().values().cloned().collect();
			l.sort();
			for (_, ch, msg) in l.iter().take(12) {
				println!(" * {msg}");
				let o = execute_at(&sc, t, seed, ch.clone(), true, d);
				for x in &o.st.trace {
					println!("      {x}");
				}
				println!("      choices {}", ch.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
			}
			if l.len() > 12 {
				println!(" ... {} more kinds", l.len() - 12);
			}
		}
	}
	0
}

fn one(name: &str, seed: u64, depth: usize, choices: &str, t: Tier, print: bool) -> i32 {
	std::mc::install_panic_hook();
	unsafe { alarm(120) };
	let all = suites::all(t);
	let Some(sc) = all.iter().find(|s| s.name == name) else { return 2 };
	let d = if depth == 0 { sc.depth } else { depth };
	let o = execute_at(sc, t, seed, parse_choices(choices), true, d);
	if print {
		for l in &o.st.trace {
			println!("  {l}");
		}
		println!("choices {:?}", o.trail.iter().map(|t| t.0).collect::<Vec<_>>());
		match (&o.diverged, &o.fail) {
			(Some(d), _) => println!("DIVERGED {d}"),
			(_, Some(f)) => println!("FAIL {:?} {}", f.known, f.msg),
			_ => println!("ok"),
		}
	}
	if o.diverged.is_some() { 2 } else if o.fail.is_some() { 1 } else { 0 }
}

fn replay(file: &str) -> i32 {
	let s = fs::read_to_string(file).expect("replay file");
	let j = json::parse(&s).expect("replay json");
	one(
		j.get("scenario").and_then(J::str).unwrap(),
		j.get("hash_seed").and_then(J::num).unwrap_or(0.0) as u64,
		j.get("depth").and_then(J::num).unwrap_or(0.0) as usize,
		j.get("choices").and_then(J::str).unwrap(),
		tier(j.get("tier").and_then(J::str).unwrap_or("quick")),
		true,
	)
}

fn worker(prop: &str, t: Tier, dir: &Path) -> i32 {
	std::mc::install_panic_hook();
	let start = Instant::now();
	let list = scens(prop, t);
	let budget = std::env::var("MC_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(match t {
		Tier::Quick => 240,
		Tier::Thorough => 780,
	});
	let ex = Explorer {
		scens: &list,
		prop,
		tier: t,
		workers: WORKERS,
		deadline: start + Duration::from_secs(budget),
		slots: map_slots(&dir.join("slots")),
		max_violations: 3,
		known_listed: known_listed(prop).into_iter().map(|k| k.0).collect(),
	};
	let st = ex.explore();
	let mut o = vec![
		("executions", J::n(st.executions)),
		("transitions", J::n(st.transitions)),
		("nontrivial", J::n(st.nontrivial)),
		("choices", J::n(st.choices)),
		("max_choices", J::n(st.max_len as u64)),
		("states", J::n(st.states.len() as u64)),
		("finals", J::n(st.finals.len() as u64)),
		("replays_checked", J::n(st.replays_checked)),
		("truncated", J::Bool(st.truncated)),
		("wall", J::Num(start.elapsed().as_secs_f64())),
	];
	o.push(("samples", J::Arr(st.samples.iter().map(J::s).collect())));
	o.push((
		"scenarios",
		J::Arr(
			list.iter()
				.map(|s| {
					J::obj(vec![
						("name", J::s(&s.name)),
						("depth", J::n(s.depth as u64)),
						("preemptions", J::n(s.preemptions as u64)),
						("hash_seeds", J::n(s.seeds.len() as u64)),
						("executions", J::n(st.per.get(&s.name).map(|p| p.0).unwrap_or(0))),
					])
				})
				.collect(),
		),
	));
	o.push((
		"violations",
		J::Arr(
			st.violations
				.iter()
				.map(|v| {
					J::obj(vec![
						("scenario", J::s(&v.scenario)),
						("hash_seed", J::n(v.seed)),
						("depth", J::n(v.depth as u64)),
						("choices", J::s(v.prefix.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","))),
						("message", J::s(&v.msg)),
						("trace", J::Arr(v.trace.iter().map(J::s).collect())),
					])
				})
				.collect(),
		),
	));
	o.push((
		"known",
		J::Arr(
			st.known
				.iter()
				.map(|(k, v)| J::obj(vec![("id", J::s(k)), ("count", J::n(v.0)), ("example", J::s(&v.1))]))
				.collect(),
		),
	));
	o.push(("engine_errors", J::Arr(st.engine_errors.iter().map(J::s).collect())));
	fs::write(dir.join("result.tmp"), J::obj(o).to_string()).unwrap();
	fs::rename(dir.join("result.tmp"), dir.join("result.json")).unwrap();
	exit(0)
}

fn violation_file(prop: &str, t: Tier, v: Vec<(&str, J)>, n: usize) -> PathBuf {
	let d = verif().join(".build/replays");
	let _ = fs::create_dir_all(&d);
	let p = d.join(format!("{prop}-{}-{n}.json", tier_name(t)));
	let mut o = vec![("property", J::s(prop)), ("tier", J::s(tier_name(t)))];
	o.extend(v);
	fs::write(&p, J::obj(o).to_string()).unwrap();
	p
}

/// Re-run one recorded execution in a process of its own; `None` when it hangs or crashes.
fn probe(sc: &Scenario, seed: u64, choices: &str, t: Tier) -> (Option<i32>, String) {
	let exe = std::env::current_exe().unwrap();
	let mut c = Command::new(exe)
		.args(["one", &sc.name, &seed.to_string(), "0", choices, tier_name(t)])
		.stdout(Stdio::null())
		.stderr(Stdio::null())
		.spawn()
		.unwrap();
	let start = Instant::now();
	loop {
		if let Some(s) = c.try_wait().unwrap() {
			return (s.code(), format!("ended with {s}"));
		}
		if start.elapsed() > Duration::from_secs(HANG_SECS) {
			let _ = c.kill();
			let _ = c.wait();
			return (None, format!("did not end within {HANG_SECS} s (non-termination)"));
		}
		std::thread::sleep(Duration::from_millis(20));
	}
}

fn check(prop: &str, t: Tier) -> i32 {
	let start = Instant::now();
	let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
	let dir = std::env::temp_dir().join(format!("rxmc-{}-{}", prop, std::process::id()));
	let _ = fs::remove_dir_all(&dir);
	fs::create_dir_all(&dir).unwrap();
	let list = scens(prop, t);
	if list.is_empty() {
		eprintln!("no scenario for {prop}");
		return 2;
	}
	let slots = map_slots(&dir.join("slots"));
	let exe = std::env::current_exe().unwrap();
	let mut child = Command::new(exe)
		.args(["worker", prop, tier_name(t), dir.to_str().unwrap()])
		.stdout(Stdio::null())
		.stderr(fs::File::create(dir.join("stderr")).unwrap())
		.spawn()
		.unwrap();
	let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); WORKERS];
	let mut suspect: Option<Vec<usize>> = None;
	let status = loop {
		if let Some(s) = child.try_wait().unwrap() {
			break Some(s);
		}
		for w in 0..WORKERS {
			if let Some((_, _, _, serial)) = slots.read(w) {
				if last[w].0 != serial {
					last[w] = (serial, Instant::now());
				} else if last[w].1.elapsed() > Duration::from_secs(HANG_SECS) {
					suspect = Some(vec![w]);
				}
			} else {
				last[w] = (0, Instant::now());
			}
		}
		if let Some(w) = suspect.as_ref().map(|s| s[0]) {
			// Re-run the execution alone: the machine may only have been busy.
			let hangs = slots.read(w).is_some_and(|(scen, hs, prefix, _)| {
				list.get(scen).is_some_and(|sc| {
					let ch = prefix.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
					!matches!(probe(sc, hs, &ch, t).0, Some(0..=2))
				})
			});
			if hangs {
				let _ = child.kill();
				let _ = child.wait();
				break None;
			}
			suspect = None;
			last[w].1 = Instant::now();
		}
		std::thread::sleep(Duration::from_millis(10));
	};
	let mut violations: Vec<(String, PathBuf)> = vec![];
	let mut result = None;
	let mut rc = 0;
	let res_path = dir.join("result.json");
	if status.is_some_and(|s| s.success()) && res_path.exists() {
		result = json::parse(&fs::read_to_string(&res_path).unwrap());
	} else {
		// A crash or a hang inside an execution: find which one by re-running the candidates.
		let cands: Vec<usize> = suspect.unwrap_or_else(|| (0..WORKERS).collect());
		for w in cands {
			if let Some((scen, hs, prefix, _)) = slots.read(w) {
				let Some(sc) = list.get(scen) else { continue };
				let ch = prefix.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
				let (code, how) = probe(sc, hs, &ch, t);
				if !matches!(code, Some(0..=2)) {
					let p = violation_file(
						prop,
						t,
						vec![
							("scenario", J::s(&sc.name)),
							("hash_seed", J::n(hs)),
							("depth", J::n(0)),
							("choices", J::s(ch)),
							("message", J::s(format!("the execution {how}"))),
						],
						violations.len(),
					);
					violations.push((format!("{}: the execution {how}", sc.name), p));
				}
			}
		}
		if violations.is_empty() {
			eprintln!("engine failure: worker {status:?}");
			eprintln!("{}", fs::read_to_string(dir.join("stderr")).unwrap_or_default());
			rc = 2;
		}
	}
	let null = J::Null;
	let r = result.as_ref().unwrap_or(&null);
	if let Some(J::Arr(e)) = r.get("engine_errors") {
		if !e.is_empty() {
			eprintln!("engine errors: {e:?}");
			rc = 2;
		}
	}
	if let Some(J::Arr(vs)) = r.get("violations") {
		for v in vs {
			let p = violation_file(
				prop,
				t,
				["scenario", "hash_seed", "depth", "choices", "message", "trace"]
					.iter()
					.map(|k| (*k, v.get(k).cloned().unwrap_or(J::Null)))
					.collect(),
				violations.len(),
			);
			violations.push((
				format!(
					"{}: {}",
					v.get("scenario").and_then(J::str).unwrap_or(""),
					v.get("message").and_then(J::str).unwrap_or("")
				),
				p,
			));
		}
	}
	let listed = known_listed(prop);
	let mut seen = vec![];
	if let Some(J::Arr(ks)) = r.get("known") {
		for k in ks {
			seen.push(k.get("id").and_then(J::str).unwrap_or("").to_string());
		}
	}
	for (id, what) in &listed {
		if seen.contains(id) {
			println!("KNOWN-FINDING: property={prop} {what}");
		}
	}
	let num = |k: &str| r.get(k).and_then(J::num).unwrap_or(0.0);
	let truncated = matches!(r.get("truncated"), Some(J::Bool(true)));
	let cov = J::obj(vec![
		("states", J::Num(num("states"))),
		("transitions", J::Num(num("transitions"))),
		("traces_validated_against_impl", J::Num(num("executions"))),
		("executions", J::Num(num("executions"))),
		("distinct_complete_histories", J::Num(num("finals"))),
		("choice_points", J::Num(num("choices"))),
		("longest_choice_sequence", J::Num(num("max_choices"))),
		("executions_with_interference_or_effect", J::Num(num("nontrivial"))),
		("determinism_replays", J::Num(num("replays_checked"))),
		("exhaustive", J::Bool(!truncated && violations.is_empty() && rc == 0)),
		("scenarios", r.get("scenarios").cloned().unwrap_or(J::Arr(vec![]))),
		("known_findings_observed", r.get("known").cloned().unwrap_or(J::Arr(vec![]))),
		("samples", r.get("samples").cloned().unwrap_or(J::Arr(vec![]))),
	]);
	let ev = J::obj(vec![
		("property", J::s(prop)),
		("tier", J::s(tier_name(t))),
		("seed", J::Num(seed as f64)),
		("level", J::s("model_checking")),
		("coverage", cov),
		(
			"assumptions",
			J::Arr(vec![
				J::s("sequentially consistent interleavings at lock and atomic operations; reference counts are not scheduling points"),
				J::s("bounds: sequence depth, value alphabet and preemption bound listed per scenario"),
				J::s("rustc and the instrumented std facade (locks, atomics, hash maps) preserve the code's meaning"),
			]),
		),
		("wall_s", J::Num(start.elapsed().as_secs_f64())),
		(
			"violations",
			J::Num(violations.len() as f64),
		),
	]);
	let evd = verif().join("evidence");
	let _ = fs::create_dir_all(&evd);
	fs::write(evd.join(format!("{prop}.json")), ev.to_string()).unwrap();
	let _ = fs::remove_dir_all(&dir);
	println!(
		"{prop} {}: {} scenarios, {} executions, {} transitions, {} states, {} distinct histories, {:.1}s{}",
		tier_name(t),
		list.len(),
		num("executions"),
		num("transitions"),
		num("states"),
		num("finals"),
		start.elapsed().as_secs_f64(),
		if truncated { " (time budget reached: bounds not exhausted)" } else { "" }
	);
	for (m, p) in &violations {
		println!("  {m}");
		println!("VIOLATION property={prop} replay={}", p.display());
	}
	let _ = std::io::stdout().flush();
	if !violations.is_empty() { 1 } else { rc }
}

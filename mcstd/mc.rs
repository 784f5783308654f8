//! Controlled execution engine: every managed execution runs its tasks as coroutines on one
//! operating system thread; which task runs next, and every `choose`, is decided by a choice
//! sequence, so a depth-first enumeration of choice sequences visits every execution within the
//! preemption bound exactly once.
use real::any::Any;
use real::boxed::Box;
use real::cell::{Cell, RefCell};
use real::panic::{AssertUnwindSafe, catch_unwind};
use real::prelude::rust_2021::*;
use real::string::String;
use real::sync::{Arc, Mutex};
use real::vec::Vec;
use real::{format, ptr, thread, thread_local};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
	Lock,
	TryLock,
	Unlock,
	Atomic,
	Yield,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
	/// Every task ran to completion.
	Done,
	/// No task can ever proceed again.
	Deadlock(String),
	/// More scheduling points than the configured horizon: a loop that never ends.
	StepLimit,
	/// A replayed choice did not fit: the harness does not own all nondeterminism.
	Divergence(String),
}

#[derive(Clone, Debug)]
pub struct CaseResult {
	pub end: End,
	/// Panics that escaped a task, in order.
	pub panics: Vec<String>,
	/// (chosen, number of alternatives) for every choice of the execution.
	pub trail: Vec<(u32, u32)>,
	pub steps: u64,
	pub preemptions: u32,
	/// The operating system thread must not be used for further executions.
	pub tainted: bool,
}

#[derive(Clone, Debug)]
pub struct Config {
	pub preemption_bound: u32,
	pub max_steps: u64,
	pub hash_seed: u64,
}
impl Default for Config {
	fn default() -> Self {
		Config {
			preemption_bound: 0,
			max_steps: 200_000,
			hash_seed: 0,
		}
	}
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
	Ready,
	Blocked(usize),
	Done,
}

struct Task {
	sp: *mut u8,
	status: Status,
	what: &'static str,
	stack: Option<Stack>,
	body: Option<Box<dyn FnOnce()>>,
}

struct Exec {
	tasks: Vec<Task>,
	cur: usize,
	main_sp: *mut u8,
	prefix: Vec<u32>,
	trail: Vec<(u32, u32)>,
	preemptions: u32,
	steps: u64,
	cfg: Config,
	end: Option<End>,
	panics: Vec<String>,
	tainted: bool,
}

thread_local! {
	static CUR: Cell<*mut Exec> = const { Cell::new(ptr::null_mut()) };
	static POOL: RefCell<Vec<Stack>> = const { RefCell::new(Vec::new()) };
	static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
	static SEED: Cell<u64> = const { Cell::new(0) };
}

const STACK: usize = 512 * 1024;
struct Stack(*mut u8);

unsafe extern "C" {
	fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
	fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}

impl Stack {
	fn get() -> Stack {
		if let Some(s) = POOL.with(|p| p.borrow_mut().pop()) {
			return s;
		}
		unsafe {
			// PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
			let p = mmap(ptr::null_mut(), STACK, 3, 0x2 | 0x20 | 0x4000, -1, 0);
			assert!(p as isize != -1, "mmap failed");
			mprotect(p, 4096, 0);
			Stack(p)
		}
	}
	fn put(self) {
		POOL.with(|p| p.borrow_mut().push(self));
	}
}

#[unsafe(naked)]
unsafe extern "C" fn switch_stacks(_save: *mut *mut u8, _to: *mut u8) {
	real::arch::naked_asm!(
		"push rbp", "push rbx", "push r12", "push r13", "push r14", "push r15",
		"mov [rdi], rsp",
		"mov rsp, rsi",
		"pop r15", "pop r14", "pop r13", "pop r12", "pop rbx", "pop rbp",
		"ret",
	)
}

#[unsafe(naked)]
unsafe extern "C" fn trampoline() {
	real::arch::naked_asm!(
		".cfi_startproc", ".cfi_undefined rip",
		"xor ebp, ebp",
		"and rsp, -16",
		"call {entry}",
		"ud2", ".cfi_endproc",
		entry = sym entry,
	)
}

extern "C" fn entry() -> ! {
	let ex = CUR.get();
	let body = unsafe { let ex = &mut *ex; ex.tasks[ex.cur].body.take() };
	let r = catch_unwind(AssertUnwindSafe(move || {
		if let Some(b) = body {
			b()
		}
	}));
	unsafe {
		let ex = &mut *ex;
		if let Err(p) = r {
			let msg = LAST_PANIC
				.with(|l| l.borrow_mut().take())
				.unwrap_or_else(|| payload(&*p));
			ex.panics.push(msg);
			let _ = catch_unwind(AssertUnwindSafe(move || drop(p)));
		}
		let me = ex.cur;
		ex.tasks[me].status = Status::Done;
		wake(usize::MAX - me);
		reschedule();
	}
	unreachable!()
}

fn payload(p: &(dyn Any + Send)) -> String {
	if let Some(s) = p.downcast_ref::<&'static str>() {
		String::from(*s)
	} else if let Some(s) = p.downcast_ref::<String>() {
		s.clone()
	} else {
		String::from("non-string panic payload")
	}
}

/// Is the current operating system thread inside a managed execution?
#[inline]
pub fn managed() -> bool {
	!CUR.get().is_null()
}
#[inline]
fn ex() -> &'static mut Exec {
	unsafe { &mut *CUR.get() }
}

unsafe fn go(ex: *mut Exec, to: usize) {
	unsafe {
		let from = (*ex).cur;
		if from == to {
			return;
		}
		(*ex).cur = to;
		let tasks = &mut (*ex).tasks;
		let target = tasks[to].sp;
		let save: *mut *mut u8 = &mut tasks[from].sp;
		switch_stacks(save, target);
	}
}

fn to_main() {
	let e = CUR.get();
	unsafe {
		let mut dummy: *mut u8 = ptr::null_mut();
		switch_stacks(&mut dummy, (*e).main_sp);
	}
}

fn abandon(end: End) -> ! {
	let e = ex();
	if thread::panicking() {
		e.tainted = true;
	}
	if e.end.is_none() {
		e.end = Some(end);
	}
	to_main();
	unreachable!()
}

fn ready(e: &Exec) -> Vec<usize> {
	(0..e.tasks.len())
		.filter(|i| e.tasks[*i].status == Status::Ready)
		.collect()
}

/// The current task cannot continue: pick another one.
fn reschedule() {
	let e = ex();
	let r = ready(e);
	if r.is_empty() {
		if e.tasks.iter().all(|t| t.status == Status::Done) {
			e.end = Some(End::Done);
			to_main();
			unreachable!()
		}
		let d: Vec<String> = e
			.tasks
			.iter()
			.enumerate()
			.filter(|(_, t)| t.status != Status::Done)
			.map(|(i, t)| format!("task {i} blocked in {}", t.what))
			.collect();
		abandon(End::Deadlock(d.join("; ")));
	}
	let c = if r.len() > 1 { choose(r.len()) } else { 0 };
	unsafe { go(CUR.get(), r[c]) };
}

/// A scheduling point: the scheduler may preempt the current task here.
pub fn point(_op: Op, _addr: usize) {
	let e = ex();
	e.steps += 1;
	if e.steps > e.cfg.max_steps {
		abandon(End::StepLimit);
	}
	if e.tasks.len() <= 1 || e.preemptions >= e.cfg.preemption_bound || thread::panicking() {
		return;
	}
	let mut r = ready(e);
	if r.len() <= 1 {
		return;
	}
	let cur = e.cur;
	r.retain(|i| *i != cur);
	r.insert(0, cur);
	let c = choose(r.len());
	if c > 0 {
		ex().preemptions += 1;
		unsafe { go(CUR.get(), r[c]) };
	}
}

pub fn yield_point() {
	if managed() {
		point(Op::Yield, 0)
	}
}

pub fn block_on(addr: usize, what: &'static str) {
	let e = ex();
	if thread::panicking() {
		let t = LAST_PANIC.with(|l| l.borrow_mut().take());
		if let Some(t) = t {
			e.panics.push(t);
		}
		e.tainted = true;
		abandon(End::Deadlock(format!("{what} while unwinding from a panic")));
	}
	let cur = e.cur;
	e.tasks[cur].status = Status::Blocked(addr);
	e.tasks[cur].what = what;
	reschedule();
}

pub fn wake(addr: usize) {
	for t in ex().tasks.iter_mut() {
		if t.status == Status::Blocked(addr) {
			t.status = Status::Ready;
		}
	}
}

/// Resolve a choice between `n` alternatives of the environment.
pub fn choose(n: usize) -> usize {
	let e = ex();
	let n = n as u32;
	let i = e.trail.len();
	let c = if i < e.prefix.len() {
		e.prefix[i]
	} else {
		0
	};
	if c >= n {
		abandon(End::Divergence(format!("choice {i}: {c} of {n}")));
	}
	e.trail.push((c, n));
	c as usize
}

pub fn hash_seed() -> u64 {
	SEED.get()
}
pub fn set_hash_seed(s: u64) {
	SEED.set(s)
}
/// Steps of the current execution, as a logical clock.
pub fn steps() -> u64 {
	if managed() { ex().steps } else { 0 }
}
pub fn current_task() -> usize {
	if managed() { ex().cur } else { 0 }
}
pub fn trail() -> Vec<(u32, u32)> {
	if managed() {
		ex().trail.clone()
	} else {
		Vec::new()
	}
}

pub struct JoinHandle<T> {
	id: usize,
	slot: Arc<Mutex<Option<T>>>,
}
impl<T> JoinHandle<T> {
	/// `None` if the task panicked.
	pub fn join(self) -> Option<T> {
		loop {
			if ex().tasks[self.id].status == Status::Done {
				break;
			}
			block_on(usize::MAX - self.id, "join");
		}
		self.slot.lock().unwrap().take()
	}
}

fn add_task(e: &mut Exec, body: Box<dyn FnOnce()>) -> usize {
	let stack = Stack::get();
	let id = e.tasks.len();
	let sp = unsafe {
		let top = stack.0.add(STACK - 64) as *mut usize;
		*top = trampoline as *const () as usize;
		for k in 1..=6 {
			*top.sub(k) = 0;
		}
		top.sub(6) as *mut u8
	};
	e.tasks.push(Task {
		sp,
		status: Status::Ready,
		what: "",
		stack: Some(stack),
		body: Some(body),
	});
	id
}

/// Start another task (a thread of the execution).
pub fn spawn<T: 'static>(f: impl FnOnce() -> T + 'static) -> JoinHandle<T> {
	let slot = Arc::new(Mutex::new(None));
	let s2 = slot.clone();
	let id = add_task(
		ex(),
		Box::new(move || {
			let v = f();
			*s2.lock().unwrap() = Some(v);
		}),
	);
	JoinHandle { id, slot }
}

/// Run one execution. `prefix` fixes the first choices; later ones take alternative 0.
pub fn run_case(cfg: &Config, prefix: Vec<u32>, body: Box<dyn FnOnce()>) -> CaseResult {
	assert!(!managed());
	SEED.set(cfg.hash_seed);
	let mut e = Box::new(Exec {
		tasks: Vec::with_capacity(8),
		cur: 0,
		main_sp: ptr::null_mut(),
		prefix,
		trail: Vec::new(),
		preemptions: 0,
		steps: 0,
		cfg: cfg.clone(),
		end: None,
		panics: Vec::new(),
		tainted: false,
	});
	add_task(&mut e, body);
	let p: *mut Exec = &mut *e;
	CUR.set(p);
	unsafe {
		let save: *mut *mut u8 = &mut (*p).main_sp;
		let to = (&(*p).tasks)[0].sp;
		switch_stacks(save, to);
	}
	CUR.set(ptr::null_mut());
	let clean = e.end == Some(End::Done);
	for t in e.tasks.iter_mut() {
		if t.status == Status::Done {
			t.stack.take().map(Stack::put);
		} else {
			// Abandoned: the frames on this stack are never unwound.
			real::mem::forget(t.stack.take());
			real::mem::forget(t.body.take());
		}
	}
	CaseResult {
		end: e.end.take().unwrap_or(End::Done),
		panics: real::mem::take(&mut e.panics),
		trail: real::mem::take(&mut e.trail),
		steps: e.steps,
		preemptions: e.preemptions,
		tainted: e.tainted || (!clean && thread::panicking()),
	}
}

/// The next choice prefix in depth-first order, keeping the first `fixed` choices.
pub fn next_prefix(trail: &[(u32, u32)], fixed: usize) -> Option<Vec<u32>> {
	let mut i = trail.len();
	while i > fixed {
		i -= 1;
		if trail[i].0 + 1 < trail[i].1 {
			let mut p: Vec<u32> = trail[..i].iter().map(|t| t.0).collect();
			p.push(trail[i].0 + 1);
			return Some(p);
		}
	}
	None
}

/// Silence panics of managed executions and remember their message.
pub fn install_panic_hook() {
	let old = real::panic::take_hook();
	real::panic::set_hook(Box::new(move |info| {
		if managed() {
			let msg = format!(
				"{} at {}",
				payload(info.payload()),
				info.location()
					.map(|l| format!("{}:{}", l.file(), l.line()))
					.unwrap_or_default()
			);
			if real::env::var_os("MC_PANICS").is_some() { real::eprintln!("panic: {msg}"); }
			LAST_PANIC.with(|l| {
				let mut l = l.borrow_mut();
				if l.is_none() {
					*l = Some(msg)
				}
			});
		} else {
			old(info)
		}
	}));
}
/// Forget the remembered panic (after the harness caught one itself) and return it.
pub fn take_panic() -> Option<String> {
	LAST_PANIC.with(|l| l.borrow_mut().take())
}

//! Instrumented synchronisation primitives. Outside a managed execution they behave exactly like
//! the real ones. Inside one, every operation is a scheduling point, and an operation that cannot
//! proceed blocks its task in the controlled scheduler instead of the operating system thread.
use crate::mc;
use real::fmt;
use real::ops::{Deref, DerefMut};
use real::prelude::rust_2021::*;
pub use real::sync::*;

pub struct Mutex<T: ?Sized> {
	inner: real::sync::Mutex<T>,
}
pub struct MutexGuard<'a, T: ?Sized> {
	addr: usize,
	inner: real::mem::ManuallyDrop<real::sync::MutexGuard<'a, T>>,
}

impl<T> Mutex<T> {
	pub const fn new(t: T) -> Self {
		Mutex {
			inner: real::sync::Mutex::new(t),
		}
	}
	pub fn into_inner(self) -> LockResult<T> {
		self.inner.into_inner()
	}
}
impl<T: ?Sized> Mutex<T> {
	fn addr(&self) -> usize {
		&self.inner as *const _ as *const () as usize
	}
	fn g<'a>(&'a self, inner: real::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
		MutexGuard {
			addr: self.addr(),
			inner: real::mem::ManuallyDrop::new(inner),
		}
	}
	pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
		if mc::managed() {
			mc::point(mc::Op::Lock, self.addr());
			loop {
				match self.inner.try_lock() {
					Ok(g) => return Ok(self.g(g)),
					Err(TryLockError::Poisoned(p)) => {
						return Err(PoisonError::new(self.g(p.into_inner())));
					}
					Err(TryLockError::WouldBlock) => mc::block_on(self.addr(), "Mutex::lock"),
				}
			}
		}
		match self.inner.lock() {
			Ok(g) => Ok(self.g(g)),
			Err(p) => Err(PoisonError::new(self.g(p.into_inner()))),
		}
	}
	pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
		if mc::managed() {
			mc::point(mc::Op::TryLock, self.addr());
		}
		match self.inner.try_lock() {
			Ok(g) => Ok(self.g(g)),
			Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(
				self.g(p.into_inner()),
			))),
			Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
		}
	}
	pub fn is_poisoned(&self) -> bool {
		self.inner.is_poisoned()
	}
	pub fn clear_poison(&self) {
		self.inner.clear_poison()
	}
	pub fn get_mut(&mut self) -> LockResult<&mut T> {
		self.inner.get_mut()
	}
}
impl<T: Default> Default for Mutex<T> {
	fn default() -> Self {
		Self::new(T::default())
	}
}
impl<T> From<T> for Mutex<T> {
	fn from(t: T) -> Self {
		Self::new(t)
	}
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		self.inner.fmt(f)
	}
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
	type Target = T;
	fn deref(&self) -> &T {
		&self.inner
	}
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
	fn deref_mut(&mut self) -> &mut T {
		&mut self.inner
	}
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
	fn drop(&mut self) {
		if mc::managed() {
			mc::point(mc::Op::Unlock, self.addr);
			unsafe { real::mem::ManuallyDrop::drop(&mut self.inner) };
			mc::wake(self.addr);
		} else {
			unsafe { real::mem::ManuallyDrop::drop(&mut self.inner) };
		}
	}
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		(**self).fmt(f)
	}
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		(**self).fmt(f)
	}
}

pub struct RwLock<T: ?Sized> {
	inner: real::sync::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized> {
	addr: usize,
	inner: real::mem::ManuallyDrop<real::sync::RwLockReadGuard<'a, T>>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
	addr: usize,
	inner: real::mem::ManuallyDrop<real::sync::RwLockWriteGuard<'a, T>>,
}
impl<T> RwLock<T> {
	pub const fn new(t: T) -> Self {
		RwLock {
			inner: real::sync::RwLock::new(t),
		}
	}
	pub fn into_inner(self) -> LockResult<T> {
		self.inner.into_inner()
	}
}
impl<T: ?Sized> RwLock<T> {
	fn addr(&self) -> usize {
		&self.inner as *const _ as *const () as usize
	}
	fn rg<'a>(&'a self, inner: real::sync::RwLockReadGuard<'a, T>) -> RwLockReadGuard<'a, T> {
		RwLockReadGuard {
			addr: self.addr(),
			inner: real::mem::ManuallyDrop::new(inner),
		}
	}
	fn wg<'a>(&'a self, inner: real::sync::RwLockWriteGuard<'a, T>) -> RwLockWriteGuard<'a, T> {
		RwLockWriteGuard {
			addr: self.addr(),
			inner: real::mem::ManuallyDrop::new(inner),
		}
	}
	pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
		if mc::managed() {
			mc::point(mc::Op::Lock, self.addr());
			loop {
				match self.inner.try_read() {
					Ok(g) => return Ok(self.rg(g)),
					Err(TryLockError::Poisoned(p)) => {
						return Err(PoisonError::new(self.rg(p.into_inner())));
					}
					Err(TryLockError::WouldBlock) => mc::block_on(self.addr(), "RwLock::read"),
				}
			}
		}
		match self.inner.read() {
			Ok(g) => Ok(self.rg(g)),
			Err(p) => Err(PoisonError::new(self.rg(p.into_inner()))),
		}
	}
	pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
		if mc::managed() {
			mc::point(mc::Op::Lock, self.addr());
			loop {
				match self.inner.try_write() {
					Ok(g) => return Ok(self.wg(g)),
					Err(TryLockError::Poisoned(p)) => {
						return Err(PoisonError::new(self.wg(p.into_inner())));
					}
					Err(TryLockError::WouldBlock) => mc::block_on(self.addr(), "RwLock::write"),
				}
			}
		}
		match self.inner.write() {
			Ok(g) => Ok(self.wg(g)),
			Err(p) => Err(PoisonError::new(self.wg(p.into_inner()))),
		}
	}
	pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
		if mc::managed() {
			mc::point(mc::Op::TryLock, self.addr());
		}
		match self.inner.try_read() {
			Ok(g) => Ok(self.rg(g)),
			Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(
				self.rg(p.into_inner()),
			))),
			Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
		}
	}
	pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
		if mc::managed() {
			mc::point(mc::Op::TryLock, self.addr());
		}
		match self.inner.try_write() {
			Ok(g) => Ok(self.wg(g)),
			Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(
				self.wg(p.into_inner()),
			))),
			Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
		}
	}
	pub fn is_poisoned(&self) -> bool {
		self.inner.is_poisoned()
	}
	pub fn clear_poison(&self) {
		self.inner.clear_poison()
	}
	pub fn get_mut(&mut self) -> LockResult<&mut T> {
		self.inner.get_mut()
	}
}
impl<T: Default> Default for RwLock<T> {
	fn default() -> Self {
		Self::new(T::default())
	}
}
impl<T> From<T> for RwLock<T> {
	fn from(t: T) -> Self {
		Self::new(t)
	}
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		self.inner.fmt(f)
	}
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
	type Target = T;
	fn deref(&self) -> &T {
		&self.inner
	}
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
	type Target = T;
	fn deref(&self) -> &T {
		&self.inner
	}
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
	fn deref_mut(&mut self) -> &mut T {
		&mut self.inner
	}
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
	fn drop(&mut self) {
		if mc::managed() {
			mc::point(mc::Op::Unlock, self.addr);
			unsafe { real::mem::ManuallyDrop::drop(&mut self.inner) };
			mc::wake(self.addr);
		} else {
			unsafe { real::mem::ManuallyDrop::drop(&mut self.inner) };
		}
	}
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
	fn drop(&mut self) {
		if mc::managed() {
			mc::point(mc::Op::Unlock, self.addr);
			unsafe { real::mem::ManuallyDrop::drop(&mut self.inner) };
			mc::wake(self.addr);
		} else {
			unsafe { real::mem::ManuallyDrop::drop(&mut self.inner) };
		}
	}
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		(**self).fmt(f)
	}
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		(**self).fmt(f)
	}
}

/// Condition variable: modelled for managed executions (no spurious wake-ups), real otherwise.
#[derive(Default)]
pub struct Condvar {
	inner: real::sync::Condvar,
	epoch: real::sync::atomic::AtomicUsize,
}
impl Condvar {
	pub const fn new() -> Self {
		Condvar {
			inner: real::sync::Condvar::new(),
			epoch: real::sync::atomic::AtomicUsize::new(0),
		}
	}
	fn addr(&self) -> usize {
		self as *const _ as usize
	}
	pub fn wait<'a, T>(&self, mut guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
		if mc::managed() {
			// Only usable through guards of managed executions; re-locks through a raw pointer.
			let m = guard.addr as *const real::sync::Mutex<T>;
			let e = self.epoch.load(real::sync::atomic::Ordering::SeqCst);
			real::mem::drop(guard);
			while self.epoch.load(real::sync::atomic::Ordering::SeqCst) == e {
				mc::block_on(self.addr(), "Condvar::wait");
			}
			let m: &'a real::sync::Mutex<T> = unsafe { &*m };
			loop {
				match m.try_lock() {
					Ok(g) => {
						return Ok(MutexGuard {
							addr: m as *const _ as usize,
							inner: real::mem::ManuallyDrop::new(g),
						});
					}
					Err(TryLockError::Poisoned(p)) => {
						return Err(PoisonError::new(MutexGuard {
							addr: m as *const _ as usize,
							inner: real::mem::ManuallyDrop::new(p.into_inner()),
						}));
					}
					Err(TryLockError::WouldBlock) => {
						mc::block_on(m as *const _ as usize, "Condvar relock")
					}
				}
			}
		}
		let addr = guard.addr;
		let inner = unsafe { real::mem::ManuallyDrop::take(&mut guard.inner) };
		real::mem::forget(guard);
		match self.inner.wait(inner) {
			Ok(g) => Ok(MutexGuard {
				addr,
				inner: real::mem::ManuallyDrop::new(g),
			}),
			Err(p) => Err(PoisonError::new(MutexGuard {
				addr,
				inner: real::mem::ManuallyDrop::new(p.into_inner()),
			})),
		}
	}
	pub fn notify_one(&self) {
		self.notify_all()
	}
	pub fn notify_all(&self) {
		self.epoch
			.fetch_add(1, real::sync::atomic::Ordering::SeqCst);
		self.inner.notify_all();
		if mc::managed() {
			mc::wake(self.addr());
		}
	}
}

pub mod atomic {
	use crate::mc;
	use real::fmt;
	use real::prelude::rust_2021::*;
	pub use real::sync::atomic::{Ordering, compiler_fence, fence};

	macro_rules! common {
		($name:ident, $t:ty) => {
			#[repr(transparent)]
			pub struct $name(real::sync::atomic::$name);
			impl $name {
				pub const fn new(v: $t) -> Self {
					$name(real::sync::atomic::$name::new(v))
				}
				fn p(&self) {
					if mc::managed() {
						mc::point(mc::Op::Atomic, self as *const _ as usize);
					}
				}
				pub fn load(&self, o: Ordering) -> $t {
					self.p();
					self.0.load(o)
				}
				pub fn store(&self, v: $t, o: Ordering) {
					self.p();
					self.0.store(v, o)
				}
				pub fn swap(&self, v: $t, o: Ordering) -> $t {
					self.p();
					self.0.swap(v, o)
				}
				pub fn compare_exchange(
					&self,
					a: $t,
					b: $t,
					s: Ordering,
					f: Ordering,
				) -> Result<$t, $t> {
					self.p();
					self.0.compare_exchange(a, b, s, f)
				}
				pub fn compare_exchange_weak(
					&self,
					a: $t,
					b: $t,
					s: Ordering,
					f: Ordering,
				) -> Result<$t, $t> {
					self.p();
					self.0.compare_exchange(a, b, s, f)
				}
				pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
					&self,
					s: Ordering,
					l: Ordering,
					f: F,
				) -> Result<$t, $t> {
					self.p();
					self.0.fetch_update(s, l, f)
				}
				pub fn try_update<F: FnMut($t) -> Option<$t>>(
					&self,
					s: Ordering,
					l: Ordering,
					f: F,
				) -> Result<$t, $t> {
					self.fetch_update(s, l, f)
				}
				pub fn update<F: FnMut($t) -> $t>(&self, s: Ordering, l: Ordering, mut f: F) -> $t {
					self.fetch_update(s, l, |v| Some(f(v))).unwrap()
				}
				pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
					self.p();
					self.0.fetch_and(v, o)
				}
				pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
					self.p();
					self.0.fetch_or(v, o)
				}
				pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
					self.p();
					self.0.fetch_xor(v, o)
				}
				pub fn get_mut(&mut self) -> &mut $t {
					self.0.get_mut()
				}
				pub fn into_inner(self) -> $t {
					self.0.into_inner()
				}
			}
			impl Default for $name {
				fn default() -> Self {
					$name(Default::default())
				}
			}
			impl From<$t> for $name {
				fn from(v: $t) -> Self {
					Self::new(v)
				}
			}
			impl fmt::Debug for $name {
				fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
					self.0.fmt(f)
				}
			}
		};
	}
	macro_rules! int {
		($($name:ident $t:ty),*) => {$(
			common!($name, $t);
			impl $name {
				pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { self.p(); self.0.fetch_add(v, o) }
				pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { self.p(); self.0.fetch_sub(v, o) }
				pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { self.p(); self.0.fetch_max(v, o) }
				pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { self.p(); self.0.fetch_min(v, o) }
			}
		)*};
	}
	common!(AtomicBool, bool);
	impl AtomicBool {
		pub fn fetch_not(&self, o: Ordering) -> bool {
			self.p();
			self.0.fetch_xor(true, o)
		}
	}
	int!(AtomicUsize usize, AtomicIsize isize, AtomicU8 u8, AtomicU16 u16, AtomicU32 u32,
		AtomicU64 u64, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64);
	pub use real::sync::atomic::AtomicPtr;
}

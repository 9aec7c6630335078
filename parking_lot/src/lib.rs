//! Simulated parking_lot: same API and the same blocking rules as the real crate, but every acquisition
//! and release is a scheduling point of the simulator and every wait is a wait in the simulated scheduler.
//!
//! The rules that matter for deadlocks are kept exactly: a new reader waits as soon as a writer holds the
//! lock *or has announced itself* (writer bit set while it waits for readers to drain), a writer announces
//! itself only when no other writer or upgradable reader is there, an upgrade announces the writer first
//! and then waits for the remaining readers, and nothing is re-entrant.
use std::cell::Cell;
use std::time::{Duration, Instant};

extern "C" {
    fn sim_point(kind: u32, addr: usize);
    /// blocks the current simulated thread until woken (true) or until the timeout passed (false)
    fn sim_wait(addr: usize, timeout_ns: u64) -> bool;
    fn sim_wake(addr: usize, n: usize);
    fn sim_tid() -> usize;
}
const K_LOCK: u32 = 0;
const K_UNLOCK: u32 = 1;
const FOREVER: u64 = u64::MAX;

fn point(kind: u32, addr: usize) {
    unsafe { sim_point(kind, addr) }
}
fn wait(addr: usize, t: u64) -> bool {
    unsafe { sim_wait(addr, t) }
}
fn wake(addr: usize) {
    unsafe { sim_wake(addr, usize::MAX) }
}
fn ns(d: Duration) -> u64 {
    d.as_nanos().min(u64::MAX as u128 - 1) as u64
}
fn until(t: Instant) -> Duration {
    t.saturating_duration_since(Instant::now())
}

pub struct RawMutex {
    locked: Cell<bool>,
}
unsafe impl Sync for RawMutex {}
unsafe impl Send for RawMutex {}
impl RawMutex {
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    fn acquire(&self, timeout: u64) -> bool {
        point(K_LOCK, self.addr());
        while self.locked.get() {
            if !wait(self.addr(), timeout) {
                if self.locked.get() {
                    return false;
                }
                break;
            }
        }
        self.locked.set(true);
        true
    }
}
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawMutex = RawMutex { locked: Cell::new(false) };
    type GuardMarker = lock_api::GuardNoSend;
    fn lock(&self) {
        self.acquire(FOREVER);
    }
    fn try_lock(&self) -> bool {
        point(K_LOCK, self.addr());
        if self.locked.get() {
            false
        } else {
            self.locked.set(true);
            true
        }
    }
    unsafe fn unlock(&self) {
        self.locked.set(false);
        wake(self.addr());
        point(K_UNLOCK, self.addr());
    }
    fn is_locked(&self) -> bool {
        self.locked.get()
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        lock_api::RawMutex::unlock(self)
    }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, d: Duration) -> bool {
        self.acquire(ns(d))
    }
    fn try_lock_until(&self, t: Instant) -> bool {
        self.acquire(ns(until(t)))
    }
}

pub struct RawRwLock {
    readers: Cell<usize>, // includes the upgradable reader
    writer: Cell<bool>,   // held, or announced and waiting for readers
    upgradable: Cell<bool>,
}
unsafe impl Sync for RawRwLock {}
unsafe impl Send for RawRwLock {}
impl RawRwLock {
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    fn wait_readers(&self, timeout: u64) -> bool {
        while self.readers.get() > 0 {
            if !wait(self.addr(), timeout) && self.readers.get() > 0 {
                return false;
            }
        }
        true
    }
    fn acq_shared(&self, recursive: bool, timeout: u64) -> bool {
        point(K_LOCK, self.addr());
        while self.writer.get() && !(recursive && self.readers.get() > 0) {
            if !wait(self.addr(), timeout) {
                return false;
            }
        }
        self.readers.set(self.readers.get() + 1);
        true
    }
    fn acq_excl(&self, timeout: u64) -> bool {
        point(K_LOCK, self.addr());
        while self.writer.get() || self.upgradable.get() {
            if !wait(self.addr(), timeout) {
                return false;
            }
        }
        self.writer.set(true);
        if !self.wait_readers(timeout) {
            self.writer.set(false);
            wake(self.addr());
            return false;
        }
        true
    }
    fn acq_upgradable(&self, timeout: u64) -> bool {
        point(K_LOCK, self.addr());
        while self.writer.get() || self.upgradable.get() {
            if !wait(self.addr(), timeout) {
                return false;
            }
        }
        self.upgradable.set(true);
        self.readers.set(self.readers.get() + 1);
        true
    }
    fn released(&self) {
        wake(self.addr());
        point(K_UNLOCK, self.addr());
    }
}
unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawRwLock =
        RawRwLock { readers: Cell::new(0), writer: Cell::new(false), upgradable: Cell::new(false) };
    type GuardMarker = lock_api::GuardNoSend;
    fn lock_shared(&self) {
        self.acq_shared(false, FOREVER);
    }
    fn try_lock_shared(&self) -> bool {
        point(K_LOCK, self.addr());
        if self.writer.get() {
            return false;
        }
        self.readers.set(self.readers.get() + 1);
        true
    }
    unsafe fn unlock_shared(&self) {
        self.readers.set(self.readers.get() - 1);
        self.released();
    }
    fn lock_exclusive(&self) {
        self.acq_excl(FOREVER);
    }
    fn try_lock_exclusive(&self) -> bool {
        point(K_LOCK, self.addr());
        if self.writer.get() || self.upgradable.get() || self.readers.get() > 0 {
            return false;
        }
        self.writer.set(true);
        true
    }
    unsafe fn unlock_exclusive(&self) {
        self.writer.set(false);
        self.released();
    }
    fn is_locked(&self) -> bool {
        self.writer.get() || self.readers.get() > 0
    }
    fn is_locked_exclusive(&self) -> bool {
        self.writer.get()
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        lock_api::RawRwLock::unlock_shared(self)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.writer.set(false);
        self.readers.set(1);
        self.released();
    }
}
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, d: Duration) -> bool {
        self.acq_shared(false, ns(d))
    }
    fn try_lock_shared_until(&self, t: Instant) -> bool {
        self.acq_shared(false, ns(until(t)))
    }
    fn try_lock_exclusive_for(&self, d: Duration) -> bool {
        self.acq_excl(ns(d))
    }
    fn try_lock_exclusive_until(&self, t: Instant) -> bool {
        self.acq_excl(ns(until(t)))
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        self.acq_shared(true, FOREVER);
    }
    fn try_lock_shared_recursive(&self) -> bool {
        point(K_LOCK, self.addr());
        if self.writer.get() && self.readers.get() == 0 {
            return false;
        }
        self.readers.set(self.readers.get() + 1);
        true
    }
}
unsafe impl lock_api::RawRwLockRecursiveTimed for RawRwLock {
    fn try_lock_shared_recursive_for(&self, d: Duration) -> bool {
        self.acq_shared(true, ns(d))
    }
    fn try_lock_shared_recursive_until(&self, t: Instant) -> bool {
        self.acq_shared(true, ns(until(t)))
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        self.acq_upgradable(FOREVER);
    }
    fn try_lock_upgradable(&self) -> bool {
        point(K_LOCK, self.addr());
        if self.writer.get() || self.upgradable.get() {
            return false;
        }
        self.upgradable.set(true);
        self.readers.set(self.readers.get() + 1);
        true
    }
    unsafe fn unlock_upgradable(&self) {
        self.upgradable.set(false);
        self.readers.set(self.readers.get() - 1);
        self.released();
    }
    unsafe fn upgrade(&self) {
        point(K_LOCK, self.addr());
        self.upgradable.set(false);
        self.readers.set(self.readers.get() - 1);
        self.writer.set(true);
        self.wait_readers(FOREVER);
    }
    unsafe fn try_upgrade(&self) -> bool {
        point(K_LOCK, self.addr());
        if self.readers.get() > 1 {
            return false;
        }
        self.upgradable.set(false);
        self.readers.set(0);
        self.writer.set(true);
        true
    }
}
unsafe impl lock_api::RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) {
        lock_api::RawRwLockUpgrade::unlock_upgradable(self)
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.upgradable.set(false);
        self.released();
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.writer.set(false);
        self.upgradable.set(true);
        self.readers.set(1);
        self.released();
    }
}
unsafe impl lock_api::RawRwLockUpgradeTimed for RawRwLock {
    fn try_lock_upgradable_for(&self, d: Duration) -> bool {
        self.acq_upgradable(ns(d))
    }
    fn try_lock_upgradable_until(&self, t: Instant) -> bool {
        self.acq_upgradable(ns(until(t)))
    }
    unsafe fn try_upgrade_for(&self, _d: Duration) -> bool {
        lock_api::RawRwLockUpgrade::try_upgrade(self)
    }
    unsafe fn try_upgrade_until(&self, _t: Instant) -> bool {
        lock_api::RawRwLockUpgrade::try_upgrade(self)
    }
}

pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: RawThreadId = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        std::num::NonZeroUsize::new(unsafe { sim_tid() } + 1).unwrap()
    }
}

pub type RawFairMutex = RawMutex;
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type FairMutex<T> = lock_api::Mutex<RawMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
#[cfg(feature = "arc_lock")]
pub type ArcMutexGuard<T> = lock_api::ArcMutexGuard<RawMutex, T>;
#[cfg(feature = "arc_lock")]
pub type ArcRwLockReadGuard<T> = lock_api::ArcRwLockReadGuard<RawRwLock, T>;
#[cfg(feature = "arc_lock")]
pub type ArcRwLockWriteGuard<T> = lock_api::ArcRwLockWriteGuard<RawRwLock, T>;

pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val)
}
pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}

#[derive(Default, Debug)]
pub struct Condvar {
    waiters: std::sync::atomic::AtomicUsize,
}
impl Condvar {
    pub const fn new() -> Self {
        Self { waiters: std::sync::atomic::AtomicUsize::new(0) }
    }
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    pub fn notify_one(&self) -> bool {
        point(K_UNLOCK, self.addr());
        unsafe { sim_wake(self.addr(), 1) };
        self.waiters.load(std::sync::atomic::Ordering::SeqCst) > 0
    }
    pub fn notify_all(&self) -> usize {
        point(K_UNLOCK, self.addr());
        wake(self.addr());
        self.waiters.load(std::sync::atomic::Ordering::SeqCst)
    }
    fn wait_ns<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, t: u64) -> bool {
        let raw = unsafe { MutexGuard::mutex(g).raw() };
        self.waiters.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        raw.locked.set(false);
        wake(raw.addr());
        let woken = wait(self.addr(), t);
        self.waiters.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
        raw.acquire(FOREVER);
        woken
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        self.wait_ns(g, FOREVER);
    }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, d: Duration) -> WaitTimeoutResult {
        WaitTimeoutResult(!self.wait_ns(g, ns(d)))
    }
    pub fn wait_until<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, t: Instant) -> WaitTimeoutResult {
        WaitTimeoutResult(!self.wait_ns(g, ns(until(t))))
    }
    pub fn wait_while<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, mut f: impl FnMut(&mut T) -> bool) {
        while f(&mut *g) {
            self.wait(g);
        }
    }
    pub fn wait_while_for<T: ?Sized>(
        &self,
        g: &mut MutexGuard<'_, T>,
        mut f: impl FnMut(&mut T) -> bool,
        d: Duration,
    ) -> WaitTimeoutResult {
        let end = Instant::now() + d;
        while f(&mut *g) {
            if self.wait_until(g, end).timed_out() {
                return WaitTimeoutResult(f(&mut *g));
            }
        }
        WaitTimeoutResult(false)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum OnceState {
    New,
    Poisoned,
    InProgress,
    Done,
}
pub struct Once {
    done: Mutex<bool>,
}
impl Once {
    pub const fn new() -> Self {
        Self { done: const_mutex(false) }
    }
    pub fn call_once(&self, f: impl FnOnce()) {
        let mut g = self.done.lock();
        if !*g {
            f();
            *g = true;
        }
    }
    pub fn state(&self) -> OnceState {
        if *self.done.lock() {
            OnceState::Done
        } else {
            OnceState::New
        }
    }
}
impl Default for Once {
    fn default() -> Self {
        Self::new()
    }
}

//! parking_lot on the simulated scheduler: the same locking rules (one writer, one upgradable reader, a
//! waiting writer keeps plain readers out but not recursive ones), every wait a scheduling decision.
use simcore::sched;
use std::cell::Cell;

pub use lock_api;

#[derive(Default)]
struct St {
    readers: Cell<u32>,
    writer: Cell<bool>,
    upgradable: Cell<bool>,
    /// a writer, or an upgrading reader, waits for readers to leave
    pending: Cell<u32>,
}
pub struct RawRwLock(St);
unsafe impl Sync for RawRwLock {}
unsafe impl Send for RawRwLock {}

fn wait_until(mut ready: impl FnMut() -> bool) {
    sched::yield_point();
    while !ready() {
        simcore::stat("probe.lock_wait");
        sched::wait_on_lock();
    }
}
impl RawRwLock {
    fn wake(&self) {
        sched::lock_released();
        sched::yield_point();
    }
    fn free(&self) -> bool {
        self.0.readers.get() == 0 && !self.0.writer.get() && !self.0.upgradable.get()
    }
    fn shared_ok(&self, recursive: bool) -> bool {
        let s = &self.0;
        !s.writer.get() && (s.pending.get() == 0 || recursive && s.readers.get() + s.upgradable.get() as u32 > 0)
    }
    fn add_reader(&self) {
        self.0.readers.set(self.0.readers.get() + 1);
    }
}
unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawRwLock = RawRwLock(St { readers: Cell::new(0), writer: Cell::new(false), upgradable: Cell::new(false), pending: Cell::new(0) });
    type GuardMarker = lock_api::GuardNoSend;
    fn lock_shared(&self) {
        wait_until(|| self.shared_ok(false));
        self.add_reader();
    }
    fn try_lock_shared(&self) -> bool {
        sched::yield_point();
        let ok = self.shared_ok(false);
        if ok {
            self.add_reader();
        }
        ok
    }
    unsafe fn unlock_shared(&self) {
        sched::yield_point();
        self.0.readers.set(self.0.readers.get() - 1);
        self.wake();
    }
    fn lock_exclusive(&self) {
        // first keep other writers and upgradable readers out, then wait for the readers
        let s = &self.0;
        wait_until(|| !s.writer.get() && !s.upgradable.get() && s.pending.get() == 0);
        s.pending.set(s.pending.get() + 1);
        wait_until(|| self.free());
        s.pending.set(s.pending.get() - 1);
        s.writer.set(true);
    }
    fn try_lock_exclusive(&self) -> bool {
        sched::yield_point();
        let ok = self.free() && self.0.pending.get() == 0;
        if ok {
            self.0.writer.set(true);
        }
        ok
    }
    unsafe fn unlock_exclusive(&self) {
        sched::yield_point();
        self.0.writer.set(false);
        self.wake();
    }
    fn is_locked(&self) -> bool {
        !self.free()
    }
    fn is_locked_exclusive(&self) -> bool {
        self.0.writer.get()
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        lock_api::RawRwLock::unlock_shared(self)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.0.writer.set(false);
        self.add_reader();
        self.wake();
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        wait_until(|| self.shared_ok(true));
        self.add_reader();
    }
    fn try_lock_shared_recursive(&self) -> bool {
        sched::yield_point();
        let ok = self.shared_ok(true);
        if ok {
            self.add_reader();
        }
        ok
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        let s = &self.0;
        wait_until(|| !s.writer.get() && !s.upgradable.get() && s.pending.get() == 0);
        s.upgradable.set(true);
    }
    fn try_lock_upgradable(&self) -> bool {
        sched::yield_point();
        let s = &self.0;
        let ok = !s.writer.get() && !s.upgradable.get() && s.pending.get() == 0;
        if ok {
            s.upgradable.set(true);
        }
        ok
    }
    unsafe fn unlock_upgradable(&self) {
        sched::yield_point();
        self.0.upgradable.set(false);
        self.wake();
    }
    unsafe fn upgrade(&self) {
        let s = &self.0;
        s.pending.set(s.pending.get() + 1);
        wait_until(|| s.readers.get() == 0);
        s.pending.set(s.pending.get() - 1);
        s.upgradable.set(false);
        s.writer.set(true);
    }
    unsafe fn try_upgrade(&self) -> bool {
        let s = &self.0;
        let ok = s.readers.get() == 0;
        if ok {
            s.upgradable.set(false);
            s.writer.set(true);
        }
        ok
    }
}
unsafe impl lock_api::RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) {
        lock_api::RawRwLockUpgrade::unlock_upgradable(self)
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.0.upgradable.set(false);
        self.add_reader();
        self.wake();
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.0.writer.set(false);
        self.0.upgradable.set(true);
        self.wake();
    }
}
pub struct RawMutex(Cell<bool>);
unsafe impl Sync for RawMutex {}
unsafe impl Send for RawMutex {}
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawMutex = RawMutex(Cell::new(false));
    type GuardMarker = lock_api::GuardNoSend;
    fn lock(&self) {
        wait_until(|| !self.0.get());
        self.0.set(true);
    }
    fn try_lock(&self) -> bool {
        sched::yield_point();
        !self.0.replace(true)
    }
    unsafe fn unlock(&self) {
        sched::yield_point();
        self.0.set(false);
        sched::lock_released();
        sched::yield_point();
    }
    fn is_locked(&self) -> bool {
        self.0.get()
    }
}
/// Simulated threads are told apart by their index.
pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: RawThreadId = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        std::num::NonZeroUsize::new(if sched::in_fiber() { sched::current() + 2 } else { 1 }).unwrap()
    }
}
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub const fn const_rwlock<T>(v: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, v)
}
pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, v)
}

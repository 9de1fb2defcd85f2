//! `std` as seen by the code under test: atomics and locks are preemption points of the
//! deterministic thread scheduler, files come from the simulated file system, standard output is
//! captured, the wall clock is simulated time. Everything else is the real `std`.
pub use std::*;

#[macro_export]
macro_rules! println {
    () => { $crate::__print(::std::string::String::from("\n")) };
    ($($t:tt)*) => { $crate::__print({
        let mut s = ::std::format!($($t)*);
        s.push('\n');
        s
    }) };
}

#[macro_export]
macro_rules! print {
    ($($t:tt)*) => { $crate::__print(::std::format!($($t)*)) };
}

/// Standard error of the simulated process: only looked at for secrets.
#[macro_export]
macro_rules! eprintln {
    () => { $crate::__eprint(::std::string::String::from("\n")) };
    ($($t:tt)*) => { $crate::__eprint(::std::format!($($t)*)) };
}

#[macro_export]
macro_rules! eprint {
    ($($t:tt)*) => { $crate::__eprint(::std::format!($($t)*)) };
}

/// Thread-locals start afresh in every simulated run and in every simulated thread.
#[macro_export]
macro_rules! thread_local {
    () => {};
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const $e:block $(; $($r:tt)*)?) => {
        $crate::thread_local! { $(#[$a])* $v static $n: $t = $e; $($($r)*)? }
    };
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = $e:expr $(; $($r:tt)*)?) => {
        $(#[$a])*
        $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::__new({
            fn init() -> $t {
                $e
            }
            init
        });
        $($crate::thread_local! { $($r)* })?
    };
}

pub mod process {
    pub use std::process::*;
    /// Ends the simulated process.
    pub fn exit(code: i32) -> ! {
        simcore::exec::exit_process(code)
    }
    pub fn abort() -> ! {
        simcore::exec::exit_process(134)
    }
}

/// Hash tables whose iteration order is drawn, one order per table.
pub mod collections {
    pub use std::collections::*;

    pub mod hash_map {
        pub use super::HashMap;
        pub use super::RandomState;
        pub use std::collections::hash_map::{DefaultHasher, Drain, Entry, IntoIter, IntoKeys, IntoValues, Iter, IterMut, Keys, OccupiedEntry, VacantEntry, Values, ValuesMut};
    }
    pub mod hash_set {
        pub use super::HashSet;
        pub use std::collections::hash_set::{Drain, IntoIter, Iter};
    }

    use std::collections::{HashMap as Map, HashSet as Set};
    use std::fmt;
    use std::hash::{BuildHasher, DefaultHasher, Hash, Hasher};
    use std::ops::{Deref, DerefMut, Index};

    #[derive(Clone, Debug)]
    pub struct RandomState(u64);
    impl RandomState {
        pub fn new() -> Self {
            RandomState(simcore::threads::draw(1 << 16) as u64)
        }
    }
    impl Default for RandomState {
        fn default() -> Self {
            Self::new()
        }
    }
    impl BuildHasher for RandomState {
        type Hasher = DefaultHasher;
        fn build_hasher(&self) -> DefaultHasher {
            let mut h = DefaultHasher::new();
            h.write_u64(self.0);
            h
        }
    }

    pub struct HashMap<K, V, S = RandomState>(Map<K, V, S>);
    pub struct HashSet<T, S = RandomState>(Set<T, S>);

    impl<K, V> HashMap<K, V> {
        pub fn new() -> Self {
            HashMap(Map::default())
        }
        pub fn with_capacity(n: usize) -> Self {
            HashMap(Map::with_capacity_and_hasher(n, RandomState::new()))
        }
    }
    impl<K, V, S> HashMap<K, V, S> {
        pub const fn with_hasher(s: S) -> Self {
            HashMap(Map::with_hasher(s))
        }
        pub fn into_keys(self) -> hash_map::IntoKeys<K, V> {
            self.0.into_keys()
        }
        pub fn into_values(self) -> hash_map::IntoValues<K, V> {
            self.0.into_values()
        }
    }
    impl<K, V, S> Deref for HashMap<K, V, S> {
        type Target = Map<K, V, S>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<K, V, S> DerefMut for HashMap<K, V, S> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.0
        }
    }
    impl<K, V, S: Default> Default for HashMap<K, V, S> {
        fn default() -> Self {
            HashMap(Map::default())
        }
    }
    impl<K: Clone, V: Clone, S: Clone> Clone for HashMap<K, V, S> {
        fn clone(&self) -> Self {
            HashMap(self.0.clone())
        }
    }
    impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> {
        fn eq(&self, o: &Self) -> bool {
            self.0 == o.0
        }
    }
    impl<K: Eq + Hash, V: Eq, S: BuildHasher> Eq for HashMap<K, V, S> {}
    impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> {
        fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
            HashMap(i.into_iter().collect())
        }
    }
    impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
        fn from(a: [(K, V); N]) -> Self {
            a.into_iter().collect()
        }
    }
    impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> {
        fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
            self.0.extend(i)
        }
    }
    impl<K, V, S> IntoIterator for HashMap<K, V, S> {
        type Item = (K, V);
        type IntoIter = hash_map::IntoIter<K, V>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.into_iter()
        }
    }
    impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
        type Item = (&'a K, &'a V);
        type IntoIter = hash_map::Iter<'a, K, V>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.iter()
        }
    }
    impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
        type Item = (&'a K, &'a mut V);
        type IntoIter = hash_map::IterMut<'a, K, V>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.iter_mut()
        }
    }
    impl<K: Eq + Hash + std::borrow::Borrow<Q>, Q: Eq + Hash + ?Sized, V, S: BuildHasher> Index<&Q> for HashMap<K, V, S> {
        type Output = V;
        fn index(&self, k: &Q) -> &V {
            &self.0[k]
        }
    }

    impl<T> HashSet<T> {
        pub fn new() -> Self {
            HashSet(Set::default())
        }
        pub fn with_capacity(n: usize) -> Self {
            HashSet(Set::with_capacity_and_hasher(n, RandomState::new()))
        }
    }
    impl<T, S> HashSet<T, S> {
        pub const fn with_hasher(s: S) -> Self {
            HashSet(Set::with_hasher(s))
        }
    }
    impl<T, S> Deref for HashSet<T, S> {
        type Target = Set<T, S>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<T, S> DerefMut for HashSet<T, S> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.0
        }
    }
    impl<T, S: Default> Default for HashSet<T, S> {
        fn default() -> Self {
            HashSet(Set::default())
        }
    }
    impl<T: Clone, S: Clone> Clone for HashSet<T, S> {
        fn clone(&self) -> Self {
            HashSet(self.0.clone())
        }
    }
    impl<T: fmt::Debug, S> fmt::Debug for HashSet<T, S> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<T: Eq + Hash, S: BuildHasher> PartialEq for HashSet<T, S> {
        fn eq(&self, o: &Self) -> bool {
            self.0 == o.0
        }
    }
    impl<T: Eq + Hash, S: BuildHasher> Eq for HashSet<T, S> {}
    impl<T: Eq + Hash, S: BuildHasher + Default> FromIterator<T> for HashSet<T, S> {
        fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
            HashSet(i.into_iter().collect())
        }
    }
    impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T> {
        fn from(a: [T; N]) -> Self {
            a.into_iter().collect()
        }
    }
    impl<T: Eq + Hash, S: BuildHasher> Extend<T> for HashSet<T, S> {
        fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
            self.0.extend(i)
        }
    }
    impl<T, S> IntoIterator for HashSet<T, S> {
        type Item = T;
        type IntoIter = hash_set::IntoIter<T>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.into_iter()
        }
    }
    impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
        type Item = &'a T;
        type IntoIter = hash_set::Iter<'a, T>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.iter()
        }
    }
}

#[doc(hidden)]
pub fn __eprint(s: String) {
    simcore::secrets::shown("printed", &s);
}

#[doc(hidden)]
pub fn __print(s: String) {
    simcore::secrets::shown("printed", &s);
    simcore::try_with(|w| {
        w.logf(|| format!("stdout: {}", s.trim_end()));
        w.stdout.push_str(&s)
    });
}

pub mod io {
    pub use std::io::*;

    /// Standard error of the simulated process.
    #[derive(Debug)]
    pub struct Stderr(());
    pub type StderrLock<'a> = Stderr;
    pub fn stderr() -> Stderr {
        Stderr(())
    }
    impl Stderr {
        pub fn lock(&self) -> Stderr {
            Stderr(())
        }
    }
    impl std::io::Write for Stderr {
        fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
            crate::__eprint(String::from_utf8_lossy(buf).into_owned());
            Ok(buf.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }

    /// Standard output of the simulated process.
    #[derive(Debug)]
    pub struct Stdout(());
    pub type StdoutLock<'a> = Stdout;
    pub fn stdout() -> Stdout {
        Stdout(())
    }
    impl Stdout {
        pub fn lock(&self) -> Stdout {
            Stdout(())
        }
    }
    impl std::io::Write for Stdout {
        fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
            crate::__print(String::from_utf8_lossy(buf).into_owned());
            Ok(buf.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    impl std::io::Write for &Stdout {
        fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
            crate::__print(String::from_utf8_lossy(buf).into_owned());
            Ok(buf.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    pub fn read_to_string<R: Read>(mut r: R) -> Result<String> {
        let mut s = String::new();
        r.read_to_string(&mut s)?;
        Ok(s)
    }
}

pub mod fs {
    pub use std::fs::*;

    use std::io::{self, Read};
    use std::path::Path;

    pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> {
        simcore::fs::read(&p.as_ref().display().to_string())
    }
    pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> {
        String::from_utf8(read(p)?)
            .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "stream did not contain valid UTF-8"))
    }

    #[derive(Debug)]
    pub struct File {
        data: Vec<u8>,
        pos: usize,
    }
    impl File {
        pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> {
            Ok(File { data: read(p)?, pos: 0 })
        }
    }
    fn rd(f: &mut File, buf: &mut [u8]) -> io::Result<usize> {
        let mut n = buf.len().min(f.data.len() - f.pos);
        if n > 1 && simcore::with(|w| w.fs.short_reads && w.chance(1, 2)) {
            n = 1 + simcore::draw(n as u32 - 1) as usize;
            simcore::fault("fs.short_read");
        }
        buf[..n].copy_from_slice(&f.data[f.pos..f.pos + n]);
        f.pos += n;
        Ok(n)
    }
    impl Read for File {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            rd(self, buf)
        }
    }
}

pub mod time {
    pub use std::time::*;

    /// Simulated monotonic clock.
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
    pub struct Instant(u64);
    impl Instant {
        pub fn now() -> Self {
            Instant(simcore::try_with(|w| w.now).unwrap_or(0))
        }
        pub fn elapsed(&self) -> Duration {
            Duration::from_nanos(Self::now().0.saturating_sub(self.0))
        }
        pub fn duration_since(&self, o: Instant) -> Duration {
            Duration::from_nanos(self.0.saturating_sub(o.0))
        }
    }
    /// Simulated wall clock; it ticks in microseconds.
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
    pub struct SystemTime(Duration);
    pub const UNIX_EPOCH: SystemTime = SystemTime(Duration::ZERO);
    #[derive(Clone, Debug)]
    pub struct SystemTimeError(Duration);
    impl SystemTimeError {
        pub fn duration(&self) -> Duration {
            self.0
        }
    }
    impl std::fmt::Display for SystemTimeError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("second time provided was later than self")
        }
    }
    impl std::error::Error for SystemTimeError {}
    impl SystemTime {
        pub const UNIX_EPOCH: SystemTime = UNIX_EPOCH;
        pub fn now() -> Self {
            SystemTime(Duration::from_secs(1_700_000_000) + Duration::from_micros(Instant::now().0 / 1000))
        }
        pub fn duration_since(&self, o: SystemTime) -> Result<Duration, SystemTimeError> {
            self.0.checked_sub(o.0).ok_or_else(|| SystemTimeError(o.0 - self.0))
        }
        pub fn elapsed(&self) -> Result<Duration, SystemTimeError> {
            Self::now().duration_since(*self)
        }
    }
    impl std::ops::Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            self.duration_since(o)
        }
    }
    impl std::ops::Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0 + d.as_nanos() as u64)
        }
    }
}

pub mod thread {
    pub use std::thread::*;

    use std::any::Any;
    use std::cell::{Cell, RefCell};
    use std::collections::HashMap;

    std::thread_local! {
        static LOCALS: RefCell<(u64, HashMap<usize, Box<dyn Any>>)> = RefCell::default();
    }

    pub struct LocalKey<T: 'static>(fn() -> T);
    impl<T> std::fmt::Debug for LocalKey<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.debug_struct("LocalKey").finish_non_exhaustive()
        }
    }
    impl<T: 'static> LocalKey<T> {
        #[doc(hidden)]
        pub const fn __new(init: fn() -> T) -> Self {
            LocalKey(init)
        }
        fn slot(&'static self) -> *const T {
            let key = self as *const Self as usize;
            let old = LOCALS.with(|l| {
                let mut l = l.borrow_mut();
                let run = simcore::world::run_number();
                (l.0 != run).then(|| std::mem::replace(&mut *l, (run, HashMap::new())))
            });
            drop(old);
            if let Some(p) = LOCALS.with(|l| l.borrow().1.get(&key).map(|b| b.downcast_ref::<T>().unwrap() as *const T)) {
                return p;
            }
            let b = Box::new((self.0)());
            let p = &*b as *const T;
            LOCALS.with(|l| l.borrow_mut().1.insert(key, b));
            p
        }
        pub fn with<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
            // The box stays where it is until the run or the thread is over.
            f(unsafe { &*self.slot() })
        }
        pub fn try_with<R>(&'static self, f: impl FnOnce(&T) -> R) -> std::result::Result<R, AccessError> {
            Ok(self.with(f))
        }
    }
    impl<T: 'static> LocalKey<Cell<T>> {
        pub fn set(&'static self, v: T) {
            self.with(|c| c.set(v))
        }
        pub fn get(&'static self) -> T
        where
            T: Copy,
        {
            self.with(|c| c.get())
        }
        pub fn take(&'static self) -> T
        where
            T: Default,
        {
            self.with(|c| c.take())
        }
        pub fn replace(&'static self, v: T) -> T {
            self.with(|c| c.replace(v))
        }
        pub fn update(&'static self, f: impl FnOnce(T) -> T)
        where
            T: Copy,
        {
            self.with(|c| c.set(f(c.get())))
        }
    }
    impl<T: 'static> LocalKey<RefCell<T>> {
        pub fn with_borrow<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
            self.with(|c| f(&c.borrow()))
        }
        pub fn with_borrow_mut<R>(&'static self, f: impl FnOnce(&mut T) -> R) -> R {
            self.with(|c| f(&mut c.borrow_mut()))
        }
        pub fn set(&'static self, v: T) {
            self.with(|c| *c.borrow_mut() = v)
        }
        pub fn take(&'static self) -> T
        where
            T: Default,
        {
            self.with(|c| c.take())
        }
        pub fn replace(&'static self, v: T) -> T {
            self.with(|c| c.replace(v))
        }
    }
    pub fn yield_now() {
        simcore::threads::yield_point("yield");
    }
    pub fn sleep(_: std::time::Duration) {
        simcore::threads::yield_point("sleep");
    }
}

pub mod sync {
    pub use std::sync::*;

    use simcore::threads::{active, per_run, yield_point};

    /// A lock that hands the baton on instead of blocking the simulation.
    #[derive(Default)]
    pub struct Mutex<T: ?Sized>(std::sync::Mutex<T>);
    impl<T: std::fmt::Debug + ?Sized> std::fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            per_run(self).0.fmt(f)
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex(std::sync::Mutex::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            yield_point("mutex lock");
            let this = per_run(self);
            if !active() {
                return this.0.lock();
            }
            loop {
                match this.0.try_lock() {
                    Ok(g) => return Ok(g),
                    Err(TryLockError::Poisoned(p)) => return Err(p),
                    Err(TryLockError::WouldBlock) => yield_point("mutex wait"),
                }
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            yield_point("mutex try_lock");
            per_run(self).0.try_lock()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            per_run(self).0.is_poisoned()
        }
        pub fn clear_poison(&self) {
            per_run(self).0.clear_poison()
        }
    }

    #[derive(Default)]
    pub struct RwLock<T: ?Sized>(std::sync::RwLock<T>);
    impl<T: std::fmt::Debug + ?Sized> std::fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            per_run(self).0.fmt(f)
        }
    }
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock(std::sync::RwLock::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            yield_point("rwlock read");
            let this = per_run(self);
            if !active() {
                return this.0.read();
            }
            loop {
                match this.0.try_read() {
                    Ok(g) => return Ok(g),
                    Err(TryLockError::Poisoned(p)) => return Err(p),
                    Err(TryLockError::WouldBlock) => yield_point("rwlock wait"),
                }
            }
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            yield_point("rwlock write");
            let this = per_run(self);
            if !active() {
                return this.0.write();
            }
            loop {
                match this.0.try_write() {
                    Ok(g) => return Ok(g),
                    Err(TryLockError::Poisoned(p)) => return Err(p),
                    Err(TryLockError::WouldBlock) => yield_point("rwlock wait"),
                }
            }
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            yield_point("rwlock try_read");
            per_run(self).0.try_read()
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            yield_point("rwlock try_write");
            per_run(self).0.try_write()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
    }

    /// A cell that is written once; whoever has to wait for its initialisation hands the baton on.
    pub struct OnceLock<T> {
        cell: std::sync::OnceLock<T>,
        busy: std::sync::atomic::AtomicBool,
    }
    struct Free<'a>(&'a std::sync::atomic::AtomicBool);
    impl Drop for Free<'_> {
        fn drop(&mut self) {
            self.0.store(false, std::sync::atomic::Ordering::Release);
        }
    }
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T: std::fmt::Debug> std::fmt::Debug for OnceLock<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            per_run(self).cell.fmt(f)
        }
    }
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            OnceLock { cell: std::sync::OnceLock::new(), busy: std::sync::atomic::AtomicBool::new(false) }
        }
        pub fn get(&self) -> Option<&T> {
            yield_point("once get");
            per_run(self).cell.get()
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.cell.get_mut()
        }
        pub fn set(&self, t: T) -> Result<(), T> {
            yield_point("once set");
            per_run(self).cell.set(t)
        }
        pub fn into_inner(self) -> Option<T> {
            self.cell.into_inner()
        }
        pub fn take(&mut self) -> Option<T> {
            self.cell.take()
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            self.get_or_try_init(|| Ok::<T, std::convert::Infallible>(f())).unwrap_or_else(|e| match e {})
        }
        pub fn get_or_try_init<F: FnOnce() -> Result<T, E>, E>(&self, f: F) -> Result<&T, E> {
            yield_point("once init");
            let this = per_run(self);
            let mut f = Some(f);
            loop {
                if let Some(t) = this.cell.get() {
                    return Ok(t);
                }
                if !this.busy.swap(true, std::sync::atomic::Ordering::AcqRel) {
                    let _free = Free(&this.busy);
                    if let (None, Some(f)) = (this.cell.get(), f.take()) {
                        let t = f()?;
                        let _ = this.cell.set(t);
                    }
                } else if active() {
                    yield_point("once wait");
                } else {
                    std::thread::yield_now();
                }
            }
        }
    }

    /// A value initialised on first use.
    pub struct LazyLock<T, F = fn() -> T> {
        cell: OnceLock<T>,
        init: std::sync::Mutex<Option<F>>,
    }
    impl<T, F: FnOnce() -> T> LazyLock<T, F> {
        pub const fn new(f: F) -> Self {
            LazyLock { cell: OnceLock::new(), init: std::sync::Mutex::new(Some(f)) }
        }
        pub fn force(this: &Self) -> &T {
            let this = per_run(this);
            this.cell.get_or_init(|| {
                let f = this.init.lock().unwrap_or_else(|e| e.into_inner()).take();
                f.expect("LazyLock instance has previously been poisoned")()
            })
        }
    }
    impl<T, F: FnOnce() -> T> std::ops::Deref for LazyLock<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            Self::force(self)
        }
    }
    impl<T: std::fmt::Debug, F> std::fmt::Debug for LazyLock<T, F> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.cell.fmt(f)
        }
    }

    /// Runs something once.
    pub struct Once(OnceLock<()>);
    impl Default for Once {
        fn default() -> Self {
            Self::new()
        }
    }
    impl Once {
        pub const fn new() -> Self {
            Once(OnceLock::new())
        }
        pub fn call_once<F: FnOnce()>(&self, f: F) {
            self.0.get_or_init(f);
        }
        pub fn is_completed(&self) -> bool {
            self.0.get().is_some()
        }
    }

    pub mod atomic {
        pub use std::sync::atomic::*;

        use simcore::threads::yield_point;

        trait Bits {
            fn bits(self) -> u64;
            fn of(v: u64) -> Self;
        }
        macro_rules! bits { ($($t:ty)*) => { $(impl Bits for $t {
            fn bits(self) -> u64 { self as u64 }
            fn of(v: u64) -> Self { v as $t }
        })* } }
        bits!(u8 u16 u32 u64 usize i32 i64 isize i16 i8);
        impl Bits for bool {
            fn bits(self) -> u64 {
                self as u64
            }
            fn of(v: u64) -> Self {
                v != 0
            }
        }

        macro_rules! atomic {
            ($name:ident, $t:ty) => {
                /// Every operation is a preemption point.
                #[derive(Default)]
                #[repr(transparent)]
                pub struct $name(std::sync::atomic::$name);
                impl std::fmt::Debug for $name {
                    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                        self.cell(|a| a.fmt(f))
                    }
                }
                impl From<$t> for $name {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
                impl $name {
                    pub const fn new(v: $t) -> Self {
                        Self(std::sync::atomic::$name::new(v))
                    }
                    /// A `static` starts afresh in every simulated run, as in a new process.
                    fn cell<R>(&self, f: impl FnOnce(&std::sync::atomic::$name) -> R) -> R {
                        let addr = self as *const Self as usize;
                        if !simcore::threads::is_static(addr) {
                            return f(&self.0);
                        }
                        let init = self.0.load(Ordering::Relaxed).bits();
                        let Some(v) = simcore::threads::static_get(addr, init) else { return f(&self.0) };
                        let tmp = std::sync::atomic::$name::new(<$t as Bits>::of(v));
                        let r = f(&tmp);
                        simcore::threads::static_set(addr, tmp.into_inner().bits());
                        r
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        yield_point("load");
                        self.cell(|a_| a_.load(o))
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        yield_point("store");
                        self.cell(|a_| a_.store(v, o))
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        yield_point("swap");
                        self.cell(|a_| a_.swap(v, o))
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        yield_point("compare_exchange");
                        self.cell(|a_| a_.compare_exchange(a, b, s, f))
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        yield_point("compare_exchange_weak");
                        // A weak exchange may fail for no reason.
                        if simcore::threads::active() && simcore::threads::draw(4) == 3 {
                            return Err(self.cell(|a_| a_.load(f)));
                        }
                        self.cell(|a_| a_.compare_exchange(a, b, s, f))
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                        let mut prev = self.load(f);
                        while let Some(n) = g(prev) {
                            match self.compare_exchange_weak(prev, n, s, f) {
                                Ok(x) => return Ok(x),
                                Err(p) => prev = p,
                            }
                        }
                        Err(prev)
                    }
                    pub fn try_update(&self, s: Ordering, f: Ordering, g: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                        self.fetch_update(s, f, g)
                    }
                    pub fn update(&self, s: Ordering, f: Ordering, mut g: impl FnMut($t) -> $t) -> $t {
                        self.fetch_update(s, f, |v| Some(g(v))).unwrap()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                }
            };
        }
        macro_rules! int {
            ($name:ident, $t:ty) => {
                atomic!($name, $t);
                impl $name {
                    pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                        yield_point("fetch_add");
                        let extra = simcore::threads::warp() as $t;
                        self.cell(|a_| a_.fetch_add(v.wrapping_add(v.wrapping_mul(extra)), o))
                    }
                    pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                        yield_point("fetch_sub");
                        self.cell(|a_| a_.fetch_sub(v, o))
                    }
                    pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                        yield_point("fetch_and");
                        self.cell(|a_| a_.fetch_and(v, o))
                    }
                    pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                        yield_point("fetch_or");
                        self.cell(|a_| a_.fetch_or(v, o))
                    }
                    pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
                        yield_point("fetch_xor");
                        self.cell(|a_| a_.fetch_xor(v, o))
                    }
                    pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t {
                        yield_point("fetch_nand");
                        self.cell(|a_| a_.fetch_nand(v, o))
                    }
                    pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                        yield_point("fetch_max");
                        self.cell(|a_| a_.fetch_max(v, o))
                    }
                    pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
                        yield_point("fetch_min");
                        self.cell(|a_| a_.fetch_min(v, o))
                    }
                }
            };
        }
        int!(AtomicU64, u64);
        int!(AtomicU32, u32);
        int!(AtomicU16, u16);
        int!(AtomicU8, u8);
        int!(AtomicUsize, usize);
        int!(AtomicI64, i64);
        int!(AtomicI16, i16);
        int!(AtomicI8, i8);
        int!(AtomicI32, i32);
        int!(AtomicIsize, isize);
        atomic!(AtomicBool, bool);
        impl AtomicBool {
            pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
                yield_point("fetch_or");
                self.cell(|a_| a_.fetch_or(v, o))
            }
            pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
                yield_point("fetch_and");
                self.cell(|a_| a_.fetch_and(v, o))
            }
            pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
                yield_point("fetch_xor");
                self.cell(|a_| a_.fetch_xor(v, o))
            }
            pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool {
                yield_point("fetch_nand");
                self.cell(|a_| a_.fetch_nand(v, o))
            }
            pub fn fetch_not(&self, o: Ordering) -> bool {
                self.fetch_xor(true, o)
            }
        }
    }
}

//! std::sync with scheduling points (see the mcsched crate). Everything not redefined here is std's own.
use mcsched::point;
use std::fmt;
use std::mem::ManuallyDrop;
use std::ops::{Deref, DerefMut};
pub use std::sync::*;

pub mod atomic {
    use super::*;
    pub use std::sync::atomic::*;
    /// The variable to use instead of one of the crates: counters can be substituted (see mcsched::with_counter)
    trait Real {
        fn real(&self) -> &Self {
            self
        }
    }
    macro_rules! real { ($($n:ident)*) => { $( impl Real for std::sync::atomic::$n {} )* } }
    real!(AtomicBool AtomicU8 AtomicU16 AtomicU32 AtomicUsize AtomicI8 AtomicI16 AtomicI32 AtomicI64 AtomicIsize);
    impl Real for std::sync::atomic::AtomicU64 {
        fn real(&self) -> &Self {
            mcsched::counter().unwrap_or(self)
        }
    }
    macro_rules! common {
        ($n:ident, $t:ty) => {
            #[repr(transparent)]
            pub struct $n(std::sync::atomic::$n);
            impl $n {
                pub const fn new(v: $t) -> Self {
                    Self(std::sync::atomic::$n::new(v))
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
                fn r(&self) -> &std::sync::atomic::$n {
                    Real::real(&self.0)
                }
                pub fn load(&self, o: Ordering) -> $t {
                    point();
                    self.r().load(o)
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    point();
                    self.r().store(v, o)
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.r().swap(v, o)
                }
                pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    point();
                    self.r().compare_exchange(c, n, s, f)
                }
                pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    point();
                    self.r().compare_exchange(c, n, s, f)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> {
                    point();
                    self.r().fetch_update(s, f, g)
                }
                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.r().fetch_and(v, o)
                }
                pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.r().fetch_nand(v, o)
                }
                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.r().fetch_or(v, o)
                }
                pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.r().fetch_xor(v, o)
                }
                pub const fn as_ptr(&self) -> *mut $t {
                    self.0.as_ptr()
                }
            }
            impl Default for $n {
                fn default() -> Self {
                    Self::new(Default::default())
                }
            }
            impl From<$t> for $n {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
            impl fmt::Debug for $n {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    self.0.fmt(f)
                }
            }
        };
    }
    macro_rules! int {
        ($($n:ident $t:ty),*) => { $(
            common!($n, $t);
            impl $n {
                pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.r().fetch_add(v, o)
                }
                pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.r().fetch_sub(v, o)
                }
                pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.r().fetch_max(v, o)
                }
                pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.r().fetch_min(v, o)
                }
            }
        )* };
    }
    common!(AtomicBool, bool);
    impl AtomicBool {
        pub fn fetch_not(&self, o: Ordering) -> bool {
            point();
            self.0.fetch_xor(true, o)
        }
    }
    int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
    pub struct AtomicPtr<T>(std::sync::atomic::AtomicPtr<T>);
    impl<T> AtomicPtr<T> {
        pub const fn new(v: *mut T) -> Self {
            Self(std::sync::atomic::AtomicPtr::new(v))
        }
        pub fn get_mut(&mut self) -> &mut *mut T {
            self.0.get_mut()
        }
        pub fn into_inner(self) -> *mut T {
            self.0.into_inner()
        }
        pub fn load(&self, o: Ordering) -> *mut T {
            point();
            self.0.load(o)
        }
        pub fn store(&self, v: *mut T, o: Ordering) {
            point();
            self.0.store(v, o)
        }
        pub fn swap(&self, v: *mut T, o: Ordering) -> *mut T {
            point();
            self.0.swap(v, o)
        }
        pub fn compare_exchange(&self, c: *mut T, n: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
            point();
            self.0.compare_exchange(c, n, s, f)
        }
        pub fn compare_exchange_weak(&self, c: *mut T, n: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
            point();
            self.0.compare_exchange(c, n, s, f)
        }
    }
    impl<T> fmt::Debug for AtomicPtr<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
}

macro_rules! guard {
    ($g:ident, $t:ident, [$($m:ident)?]) => {
        pub struct $g<'a, T: ?Sized> {
            inner: ManuallyDrop<std::sync::$g<'a, T>>,
            addr: usize,
        }
        impl<T: ?Sized> Deref for $g<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                &self.inner
            }
        }
        $(impl<T: ?Sized> DerefMut for $g<'_, T> {
            fn deref_mut(&mut self) -> &mut T {
                let $m = &mut self.inner;
                $m
            }
        })?
        impl<T: ?Sized> Drop for $g<'_, T> {
            fn drop(&mut self) {
                point();
                unsafe { ManuallyDrop::drop(&mut self.inner) };
                mcsched::unlocked(self.addr);
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $g<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
    };
}
guard!(MutexGuard, Mutex, [m]);
guard!(RwLockReadGuard, RwLock, []);
guard!(RwLockWriteGuard, RwLock, [m]);

macro_rules! acquire {
    ($lock:ident, $try:ident, $g:ident) => {
        pub fn $lock(&self) -> LockResult<$g<'_, T>> {
            let addr = &self.0 as *const _ as *const u8 as usize;
            mcsched::locking();
            let w = |g| $g { inner: ManuallyDrop::new(g), addr };
            if !mcsched::active() {
                return match self.0.$lock() {
                    Ok(g) => Ok(w(g)),
                    Err(e) => Err(PoisonError::new(w(e.into_inner()))),
                };
            }
            loop {
                point();
                match self.0.$try() {
                    Ok(g) => return Ok(w(g)),
                    Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new(w(e.into_inner()))),
                    Err(TryLockError::WouldBlock) => mcsched::block(addr),
                }
            }
        }
        pub fn $try(&self) -> TryLockResult<$g<'_, T>> {
            let addr = &self.0 as *const _ as *const u8 as usize;
            let w = |g| $g { inner: ManuallyDrop::new(g), addr };
            point();
            match self.0.$try() {
                Ok(g) => Ok(w(g)),
                Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(w(e.into_inner())))),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }
    };
}
#[derive(Default)]
pub struct Mutex<T: ?Sized>(std::sync::Mutex<T>);
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex(std::sync::Mutex::new(v))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    acquire!(lock, try_lock, MutexGuard);
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
#[derive(Default)]
pub struct RwLock<T: ?Sized>(std::sync::RwLock<T>);
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock(std::sync::RwLock::new(v))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    acquire!(read, try_read, RwLockReadGuard);
    acquire!(write, try_write, RwLockWriteGuard);
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

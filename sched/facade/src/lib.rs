//! A stand-in for `std` given to the crate under check: everything is the real `std`,
//! except that locks, atomics and yields are scheduling points of a controlled scheduler.
//! Threads that are not under control see plain `std` behaviour.
pub use ::std::*;

pub mod ctl;

pub mod sync {
    pub use ::std::sync::*;

    pub use crate::ctl::lock::{Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub mod atomic {
        pub use ::std::sync::atomic::*;

        pub use crate::ctl::atom::{
            AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicU16, AtomicU32, AtomicU64, AtomicU8,
            AtomicUsize,
        };
    }
}
pub mod thread {
    pub use ::std::thread::*;

    pub fn yield_now() {
        if !crate::ctl::backoff("yield") {
            ::std::thread::yield_now()
        }
    }
    pub fn sleep(d: ::std::time::Duration) {
        if !crate::ctl::backoff("sleep") {
            ::std::thread::sleep(d)
        }
    }
}
pub mod hint {
    pub use ::std::hint::*;

    pub fn spin_loop() {
        if !crate::ctl::backoff("spin") {
            ::std::hint::spin_loop()
        }
    }
}

//! `std` with every primitive of concurrency replaced by loom's, so that the generated code and
//! its runtime, compiled against this crate under the name `std` (and `core`), run under loom's
//! exhaustive scheduler.
#[doc(no_inline)]
pub use std::*;
pub use loom;
pub extern crate std as real;

pub mod sync {
    pub use loom::sync::{Arc, Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard, mpsc};
    pub use std::sync::*;
    pub mod atomic {
        pub use loom::sync::atomic::{
            fence, AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicPtr, AtomicU16, AtomicU32,
            AtomicU64, AtomicU8, AtomicUsize,
        };
        pub use std::sync::atomic::*;
    }
}
pub mod thread {
    pub use loom::thread::{spawn, yield_now, Builder, JoinHandle};
    pub use std::thread::*;
}
pub mod hint {
    pub use loom::hint::spin_loop;
    pub use std::hint::*;
}

//! Deterministic simulator for syntaxis: the library part knows nothing about
//! syntaxis itself (scheduler, fake OS, choice sequence, driver, reference
//! models); each property lives in one binary under src/bin.
#![allow(clippy::all)]
#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
pub mod choice;
pub mod sys;
pub mod sched;
pub mod hot;
pub mod os;
pub mod driver;
pub mod refgram;
pub mod ebnf;
pub mod reflex;
pub mod reftree;

pub use sched::{choose, chance, pick, range, par, solo, Outcome, note, fired, fault, expect};
pub use driver::{Violation, Scenario, Verdict};

#[global_allocator]
static ALLOC: sched::SimAlloc = sched::SimAlloc;

#[macro_export]
macro_rules! violation {
    ($class:expr, $($arg:tt)*) => {
        return Err($crate::Violation { class: ($class).to_string(), msg: format!($($arg)*) })
    };
}
#[macro_export]
macro_rules! require {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !($cond) { $crate::violation!($class, $($arg)*); }
    };
}

/// Compile-time test "is this type Sync / Send", so that a type that stops being
/// shareable is no longer shared between simulated threads (instead of failing to build).
#[macro_export]
macro_rules! is_sync {
    ($t:ty) => {{
        struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait Fallback { fn yes(&self) -> bool { false } }
        impl<T: ?Sized> Fallback for Probe<T> {}
        #[allow(dead_code)]
        impl<T: ?Sized + Sync> Probe<T> { fn yes(&self) -> bool { true } }
        Probe::<$t>(std::marker::PhantomData).yes()
    }};
}
#[macro_export]
macro_rules! is_send {
    ($t:ty) => {{
        struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait Fallback { fn yes(&self) -> bool { false } }
        impl<T: ?Sized> Fallback for Probe<T> {}
        #[allow(dead_code)]
        impl<T: ?Sized + Send> Probe<T> { fn yes(&self) -> bool { true } }
        Probe::<$t>(std::marker::PhantomData).yes()
    }};
}

/// Carries a value across simulated threads without asking the type system:
/// only one simulated thread runs at any time.
pub struct Carry<T>(pub T);
unsafe impl<T> Send for Carry<T> {}
unsafe impl<T> Sync for Carry<T> {}

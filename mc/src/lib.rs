//! Reference models and exploration framework for model checking graviola.
pub mod aeadref;
pub mod aeads;
pub mod big;
pub mod cpuid;
pub mod der;
pub mod ec;
pub mod edref;
pub mod fw;
pub mod mlkemref;
pub mod guard;
pub mod isa;
pub mod hashref;
pub mod mont;
pub mod nist;
pub mod ops;
pub mod rng;
pub mod rsaref;
pub mod sched;
pub mod step;
pub mod watch;

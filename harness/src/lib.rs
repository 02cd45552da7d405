//! Shared parts of the checks: the property-test runner, the reference model
//! and the input generators.  Nothing here depends on the code under test,
//! except `kzg` (only built with the `kzg` feature).
pub mod gen;
pub mod model;
pub mod pbt;
#[cfg(feature = "kzg")]
pub mod kzg;
#[cfg(feature = "kzg")]
pub mod batch;
#[cfg(feature = "kzg")]
pub mod calls;
pub mod proc;

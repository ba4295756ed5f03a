//! Shared machinery of the property checks.
pub mod adapters;
pub mod driver;
pub mod exec;
pub mod fine;
pub mod gen;
pub mod sigsrc;
pub mod sources;
pub mod vecsrc;
pub mod mapsrc;
pub mod mvec;
pub mod sched;
pub mod ledger;

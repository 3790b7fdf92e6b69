pub mod sched;
pub mod shim;
pub mod sys;
pub mod tool;

pub mod capture;
pub mod circuit;
pub mod codec;
pub mod cycles;
pub mod gadget;
pub mod iofault;
pub mod pour;
pub mod refver;
pub mod report;
pub mod tree;
pub use report::{guard, Case, Report, Tier};

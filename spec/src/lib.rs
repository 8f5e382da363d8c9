//! Reference semantics of forust, written from the property statements (/verif/properties.jsonl).
//!
//! Nothing in this crate is ever executed. It is compiled to MIR by the same driver as /repo and the
//! analysis compares, function by function, the value graph of /repo's code with the value graph of the
//! definition of the same name given here. It is deliberately written in a different style from /repo
//! (index loops instead of iterator chains, one expression instead of a sequence of updates and so on), so that
//! agreement is established by the normaliser and not by textual likeness.
#![allow(dead_code, clippy::all)]
pub mod binning;
pub mod constraints;
pub mod data;
pub mod errors;
pub mod gradientbooster;
pub mod grower;
pub mod histogram;
pub mod metric;
pub mod node;
pub mod objective;
pub mod partial_dependence;
pub mod sampler;
pub mod shapley;
pub mod splitter;
pub mod tree;
pub mod utils;

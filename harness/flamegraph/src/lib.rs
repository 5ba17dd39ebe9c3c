//! CXX: the real `flamegraph`, from its `main`.
include!("/repo/flamegraph/src/main.rs");
#[path = "../../sym/tool.rs"]
mod tool;
pub mod harness;

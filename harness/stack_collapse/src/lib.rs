//! CXX: the real `stack_collapse`, from its `main`.
include!("/repo/stack_collapse/src/main.rs");
#[path = "../../sym/tool.rs"]
mod tool;
pub mod harness;

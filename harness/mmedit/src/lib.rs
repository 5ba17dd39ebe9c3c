//! C22: the real `mmedit`, from its `main`.
include!("/repo/mmedit/src/main.rs");
#[path = "../../sym/tool.rs"]
mod tool;
pub mod harness;

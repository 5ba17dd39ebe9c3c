//! C28: the real `mmview`, from its `main`.
include!("/repo/mmview/src/main.rs");
#[path = "../../sym/tool.rs"]
mod tool;
pub mod harness;

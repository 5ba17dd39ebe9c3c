//! C17, C18: the real `crox`, from its `main`.
include!("/repo/crox/src/main.rs");
#[path = "../../sym/tool.rs"]
mod tool;
#[path = "../../sym/json.rs"]
mod jsontext;
pub mod harness;

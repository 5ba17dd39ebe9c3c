//! C19, C20, C21, C27: the real `summarize`.
include!("/repo/summarize/src/main.rs");
#[path = "../../sym/tool.rs"]
mod tool;
#[path = "../../sym/json.rs"]
mod jsontext;
mod table;
mod t_aggregate;
mod t_diff;
mod t_summary;
pub mod harness {
    pub static TABLE: &[sym::Table] = &[crate::t_diff::TABLE, crate::t_aggregate::TABLE, crate::t_summary::TABLE];
}

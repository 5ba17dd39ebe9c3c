mod analysis;
mod events;
mod files;
mod hw;
mod profiler;
mod raw;
mod streams;
mod strings;
mod threads;

fn main() {
    let mut v: Vec<(&'static str, extern "C" fn())> = vec![];
    v.extend_from_slice(raw::TABLE);
    v.extend_from_slice(streams::TABLE);
    v.extend_from_slice(events::TABLE);
    v.extend_from_slice(files::TABLE);
    v.extend_from_slice(hw::TABLE);
    v.extend_from_slice(analysis::TABLE);
    v.extend_from_slice(profiler::TABLE);
    v.extend_from_slice(strings::TABLE);
    v.extend_from_slice(threads::TABLE);
    sym::run(&v);
}

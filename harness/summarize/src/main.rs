fn main() {
    let mut v: Vec<(&'static str, extern "C" fn())> = vec![];
    for t in summarize_h::harness::TABLE {
        v.extend_from_slice(t);
    }
    sym::run(&v);
}

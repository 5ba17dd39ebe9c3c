fn main() {
    sym::run(flamegraph_h::harness::TABLE);
}

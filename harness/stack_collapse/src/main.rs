fn main() {
    sym::run(stack_collapse_h::harness::TABLE);
}

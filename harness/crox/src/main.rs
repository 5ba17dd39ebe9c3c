fn main() {
    sym::run(crox_h::harness::TABLE);
}

fn main() {
    sym::run(mmedit_h::harness::TABLE);
}

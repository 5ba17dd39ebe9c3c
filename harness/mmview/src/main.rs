fn main() {
    sym::run(mmview_h::harness::TABLE);
}

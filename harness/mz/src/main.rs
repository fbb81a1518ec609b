fn main() {
    pbt::main(vec![mz::c02::property(), mz::c03::property(), mz::c04::property(), mz::c07::property()])
}

fn main() {
    vfh::native::main()
}

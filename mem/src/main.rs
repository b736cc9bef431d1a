fn main() {
	mem::main()
}

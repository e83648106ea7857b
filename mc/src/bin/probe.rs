fn main() { mc::probe::main() }

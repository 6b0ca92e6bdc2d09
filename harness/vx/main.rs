fn main() { akasa_core::vx::main_entry() }

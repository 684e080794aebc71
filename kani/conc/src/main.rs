#[cfg(kani)] fn main() {}
#[cfg(not(kani))] fn main() { nd::main_with(&h_conc::all()) }

//! The drivers that bring their own types, alone: quick to build with the sanitizers.
fn main() {
    vh::run::main(&|| Vec::new())
}

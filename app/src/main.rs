mod structs;
mod types;

#[cfg(feature = "galloc")]
#[global_allocator]
static GLOBAL: vh::galloc::G = vh::galloc::G;

fn main() {
    vh::run::main(&|| types::all())
}

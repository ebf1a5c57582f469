#[macro_use]
mod engine;
mod common;
mod props;

fn main() {
    std::env::set_var("RUST_BACKTRACE", "0");
    let a: Vec<String> = std::env::args().collect();
    std::process::exit(engine::cli(&a, props::all(), false));
}

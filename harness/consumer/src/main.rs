//! P53, P54: pacts built by Rust consumer tests.
mod dsl;
mod built;
mod tests;

fn main() {
  std::env::set_var("PACT_DO_NOT_TRACK", "true");
  moncore::main_with(vec![built::prop(), tests::prop()]);
}

mod broker;
mod select;
mod sent;
mod states;
mod stub;
mod verdict;
mod world;

fn main() {
  std::env::set_var("PACT_DO_NOT_TRACK", "true");
  moncore::main_with(vec![verdict::prop(), sent::prop(), states::prop(), select::prop(), broker::prop()]);
}

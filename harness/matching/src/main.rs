mod body;
mod generate;
mod messages;
mod other;
mod parts;
mod spec;
mod tmpl;
mod util;
mod xml;

fn main() {
  if std::env::var("PACTMON_DUMP").is_ok() { moncore::install_panic_hook(); return spec::dump() }
  moncore::main_with(vec![body::prop(), parts::prop(), spec::prop(), xml::prop(), other::prop(), messages::prop(), generate::prop()]);
}

mod asks;
mod check;
mod content;
mod convert;
mod dates;
mod exprs;
mod formats;
mod gen;
mod gens;
mod laws;
mod merge;
mod mutate;
mod paths;
mod query;
mod rt;
mod rules;
mod single;
mod spell;
mod total;
mod versions;
mod writer;

fn main() {
  if let Some(p) = std::env::var_os("PACTMON_WRITER") { return writer::process(std::path::Path::new(&p)) }
  if let Some(p) = std::env::var_os("PACTMON_KEYS") { return laws::process(std::path::Path::new(&p)) }
  if let Ok(p) = std::env::var("PACTMON_ZONE") { moncore::install_panic_hook(); return formats::zone_process(&p) }
  moncore::main_with(vec![rt::v4(), rt::old(), total::prop(), merge::prop(), writer::prop(), convert::prop(), query::prop(), paths::exprs(), paths::resolve(), rules::selection(), rules::model(), laws::prop(), dates::prop(), formats::prop(), exprs::prop(), gens::values(), gens::application(), gens::states(), content::types(), content::headers(), check::prop(), versions::versions(), versions::fetch(), mutate::prop(), asks::prop(), spell::prop(), single::doors(), single::conflicts()]);
}

//! Stand-in for clap 2: keeps what was declared; reading a command line is not supported.
use std::collections::HashSet;
use std::ffi::{OsStr, OsString};
use std::marker::PhantomData;
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)] pub enum ArgSettings { Multiple }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)] pub enum AppSettings { NoBinaryName, ColorNever, ArgRequiredElseHelp, ColoredHelp }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)] pub enum ErrorKind { HelpDisplayed, VersionDisplayed, Io }
#[derive(Debug, Clone)] pub struct Error { pub message: String, pub kind: ErrorKind }
impl Error { pub fn exit(&self) -> ! { panic!("{}", self.message) } }
#[derive(Debug, Clone, Default)] pub struct Flags(pub HashSet<ArgSettings>);
impl Flags { pub fn is_set(&self, s: ArgSettings) -> bool { self.0.contains(&s) } }
#[derive(Debug, Clone, Default)] pub struct Base<'b> { pub help: Option<&'b str>, pub settings: Flags }
#[derive(Debug, Clone, Default)] pub struct Switched<'b> { pub long: Option<&'b str>, pub short: Option<char> }
#[derive(Debug, Clone, Default)] pub struct Valued<'b> {
  pub possible_vals: Option<Vec<&'b str>>, pub default_val: Option<&'b OsStr>, pub env: Option<(&'b OsStr, Option<OsString>)>
}
#[derive(Debug, Clone, Default)]
pub struct Arg<'a, 'b> { pub name: &'a str, pub s: Switched<'b>, pub b: Base<'b>, pub v: Valued<'b>, takes: bool }
impl<'a: 'b, 'b> Arg<'a, 'b> {
  pub fn with_name(name: &'a str) -> Self { Arg { name, ..Default::default() } }
  pub fn short(mut self, s: &'b str) -> Self { self.s.short = s.trim_start_matches('-').chars().next(); self }
  pub fn long(mut self, s: &'b str) -> Self { self.s.long = Some(s.trim_start_matches('-')); self }
  pub fn help(mut self, s: &'b str) -> Self { self.b.help = Some(s); self }
  pub fn takes_value(mut self, b: bool) -> Self { self.takes = b; self }
  pub fn use_delimiter(self, _: bool) -> Self { self }
  pub fn possible_values(mut self, v: &[&'b str]) -> Self { self.v.possible_vals = Some(v.to_vec()); self }
  pub fn required_unless_one(self, _: &[&'a str]) -> Self { self }
  pub fn multiple(mut self, b: bool) -> Self { if b { self.b.settings.0.insert(ArgSettings::Multiple); } self }
  pub fn number_of_values(self, _: u64) -> Self { self }
  pub fn empty_values(self, _: bool) -> Self { self }
  pub fn env(mut self, e: &'b str) -> Self { self.v.env = Some((OsStr::new(e), std::env::var_os(e))); self }
  pub fn requires(self, _: &'a str) -> Self { self }
  pub fn requires_all(self, _: &[&'a str]) -> Self { self }
  pub fn conflicts_with(self, _: &'a str) -> Self { self }
  pub fn conflicts_with_all(self, _: &[&'a str]) -> Self { self }
  pub fn required(self, _: bool) -> Self { self }
  pub fn hidden(self, _: bool) -> Self { self }
  pub fn default_value(mut self, d: &'b str) -> Self { self.v.default_val = Some(OsStr::new(d)); self }
  pub fn validator<F>(self, _: F) -> Self where F: Fn(String) -> Result<(), String> + 'static { self }
}
#[derive(Debug, Clone, Default)] pub struct Parser<'a, 'b> { pub opts: Vec<Arg<'a, 'b>>, pub flags: Vec<Arg<'a, 'b>> }
#[derive(Debug, Clone)] pub struct App<'a, 'b> { pub p: Parser<'a, 'b> }
impl<'a, 'b> App<'a, 'b> {
  pub fn new<S: Into<String>>(_: S) -> Self { App { p: Parser { opts: vec![], flags: vec![] } } }
  pub fn version<S: Into<&'b str>>(self, _: S) -> Self { self }
  pub fn about<S: Into<&'b str>>(self, _: S) -> Self { self }
  pub fn version_short<S: AsRef<str>>(self, _: S) -> Self { self }
  pub fn setting(self, _: AppSettings) -> Self { self }
  pub fn arg(mut self, a: Arg<'a, 'b>) -> Self { if a.takes { self.p.opts.push(a) } else { self.p.flags.push(a) } self }
  pub fn get_matches_safe(self) -> Result<ArgMatches<'a>, Error> { Err(Error { message: "no command line".to_string(), kind: ErrorKind::Io }) }
  pub fn get_matches_from_safe<I, T>(self, _: I) -> Result<ArgMatches<'a>, Error> where I: IntoIterator<Item = T>, T: Into<OsString> + Clone {
    Err(Error { message: "no command line".to_string(), kind: ErrorKind::Io })
  }
}
#[derive(Debug, Clone, Default)] pub struct ArgMatches<'a>(PhantomData<&'a str>);
impl<'a> ArgMatches<'a> {
  pub fn value_of<S: AsRef<str>>(&self, _: S) -> Option<&str> { None }
  pub fn values_of<S: AsRef<str>>(&'a self, _: S) -> Option<std::vec::IntoIter<&'a str>> { None }
  pub fn values_of_lossy<S: AsRef<str>>(&self, _: S) -> Option<Vec<String>> { None }
  pub fn is_present<S: AsRef<str>>(&self, _: S) -> bool { false }
}
#[macro_export] macro_rules! crate_version { () => { env!("CARGO_PKG_VERSION") } }

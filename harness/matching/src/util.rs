//! Shared helpers: running the matchers, comparing verdicts, building interactions.
use std::cell::RefCell;
use std::collections::HashMap;
use std::future::Future;
use std::panic::RefUnwindSafe;

use moncore::Value;
use pact_matching::engine::context::{MatchingConfiguration, PlanMatchingContext};
use pact_matching::engine::{build_request_plan, execute_request_plan};
use pact_matching::{match_request, match_response, Mismatch, RequestMatchResult};
use pact_models::interaction::Interaction;
use pact_models::pact::Pact;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::pact::V4Pact;
use pact_models::v4::synch_http::SynchronousHttp;

pub type BoxI = Box<dyn Interaction + Send + Sync + RefUnwindSafe>;
pub type BoxP = Box<dyn Pact + Send + Sync + RefUnwindSafe>;

thread_local! { static RT: RefCell<tokio::runtime::Runtime> = RefCell::new(tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()); }
pub fn wait<F: Future>(f: F) -> F::Output { RT.with(|rt| rt.borrow().block_on(f)) }

pub fn http(request: HttpRequest, response: HttpResponse) -> SynchronousHttp { SynchronousHttp { description: "x".into(), request, response, ..SynchronousHttp::default() } }
pub fn pact_of(i: &SynchronousHttp) -> BoxP { use pact_models::v4::interaction::V4Interaction; V4Pact { interactions: vec![i.boxed_v4()], ..V4Pact::default() }.boxed() }

/// The request matched by the classic engine
pub fn req(expected: &HttpRequest, actual: &HttpRequest) -> RequestMatchResult {
  let i = http(expected.clone(), HttpResponse::default());
  let b: BoxI = i.boxed();
  wait(match_request(expected.clone(), actual.clone(), &pact_of(&i), &b)).expect("the classic engine returned an error")
}

/// The request matched by the plan engine
pub fn req2(expected: &HttpRequest, actual: &HttpRequest) -> anyhow::Result<RequestMatchResult> {
  let i = http(expected.clone(), HttpResponse::default());
  let mut context = PlanMatchingContext {
    pact: pact_of(&i).as_v4_pact()?, interaction: i.boxed().as_v4().unwrap(), matching_rules: Default::default(),
    config: MatchingConfiguration { allow_unexpected_entries: false, log_executed_plan: false, log_plan_summary: false, coloured_output: false }
  };
  let plan = build_request_plan(expected, &context)?;
  let done = execute_request_plan(&plan, actual, &mut context)?;
  Ok(done.into())
}

pub fn res(expected: &HttpResponse, actual: &HttpResponse) -> Vec<Mismatch> {
  let i = http(HttpRequest::default(), expected.clone());
  let b: BoxI = i.boxed();
  wait(match_response(expected.clone(), actual.clone(), &pact_of(&i), &b))
}

pub fn kind(m: &Mismatch) -> &'static str { match m {
  Mismatch::MethodMismatch { .. } => "method", Mismatch::PathMismatch { .. } => "path", Mismatch::StatusMismatch { .. } => "status",
  Mismatch::QueryMismatch { .. } => "query", Mismatch::HeaderMismatch { .. } => "header", Mismatch::BodyTypeMismatch { .. } => "body-type",
  Mismatch::BodyMismatch { .. } => "body", Mismatch::MetadataMismatch { .. } => "metadata" } }
/// Kinds of difference reported, sorted, once each
pub fn kinds(ms: &[Mismatch]) -> Vec<&'static str> { let mut k: Vec<_> = ms.iter().map(kind).collect(); k.sort(); k.dedup(); k }
pub fn show(ms: &[Mismatch]) -> String { ms.iter().take(4).map(|m| format!("[{}] {}", kind(m), m.description())).collect::<Vec<_>>().join("; ") }
#[allow(dead_code)] pub fn s(v: &Value) -> String { moncore::pred::short(v) }
#[allow(dead_code)] pub fn hm(items: &[(&str, &[&str])]) -> HashMap<String, Vec<String>> { items.iter().map(|(k, v)| (k.to_string(), v.iter().map(|s| s.to_string()).collect())).collect() }

//! P44: a Pact Broker is asked for the right pacts and told what the verification found.
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use moncore::*;
use serde_json::{json, Value};
use pact_models::http_utils::HttpAuth;
use pact_verifier::*;
use pact_verifier::callback_executors::HttpRequestProviderStateExecutor;
use crate::stub::*;
use crate::world::*;

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Trouble { None, NoPacts, Index500, Unauthorised, PactGone, PactBad, ListBad, FlakyIndex, PublishFails }

fn case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  // what is stored in the broker
  let prov = r.pick_s(&["provider", "my provider", "é/1", "a+b&c"]);
  let enc = |s: &str| s.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-_.~".contains(&b) { (b as char).to_string() } else { format!("%{:02X}", b) }).collect::<String>();
  let mut all: Vec<Inter> = vec![];
  struct P { from: usize, to: usize, doc: Value, pending: bool, notices: Vec<(String, String)> }
  let mut ps: Vec<P> = vec![];
  let rate = *r.pick(&[0u64, 0, 3, 6]);
  let stages = ["before_verification", "after_verification:success_true_published_true", "after_verification:success_true_published_false", "after_verification:success_false_published_true", "after_verification:success_false_published_false"];
  let trouble = if r.chance(1, 3) { *r.pick(&[Trouble::NoPacts, Trouble::Index500, Trouble::Unauthorised, Trouble::PactGone, Trouble::PactBad, Trouble::ListBad, Trouble::FlakyIndex, Trouble::PublishFails]) } else { Trouble::None };
  let dynamic = r.bool();
  for _ in 0..r.range(1, 3) {
    let spec = r.range(2, 4) as u32;
    let from = all.len();
    for _ in 0..r.range(1, 3) {
      let kind = if spec == 4 { *r.pick(&[Kind::Http, Kind::Http, Kind::Async, Kind::Sync]) } else { Kind::Http };
      let f = r.chance(rate, 10);
      let mut i = inter(r, all.len(), spec, kind, f, vec![]);
      if r.chance(4, 5) { let id = format!("int{}", all.len()); i.json["_id"] = json!(id); i.id = Some(id); }
      all.push(i);
    }
    let refs: Vec<&Inter> = all[from..].iter().collect();
    let doc = pact(spec, false, &format!("consumer {}", ps.len()), &prov, &refs);
    let pending = dynamic && r.chance(1, 4);
    let notices = if dynamic { stages.iter().filter(|_| r.bool()).map(|s| (s.to_string(), format!("notice <{s}> of pact {}", ps.len()))).collect() } else { vec![] };
    ps.push(P { from, to: all.len(), doc, pending, notices });
  }
  let gone = r.us(ps.len());
  let context = r.pick_s(&["", "", "/broker", "/a/b"]);
  let auth = match r.below(3) { 0 => HttpAuth::None, 1 => HttpAuth::User("me".into(), if r.bool() { Some("pä:ss".into()) } else { None }), _ => HttpAuth::Token("tok123".into()) };
  let auth_header = match &auth { HttpAuth::User(u, p) => { Some(format!("Basic {}", b64(format!("{u}:{}", p.clone().unwrap_or_default()).as_bytes()))) } HttpAuth::Token(t) => Some(format!("Bearer {t}")), _ => None };
  let version = r.pick_s(&["1.0.0", "1.0.0+abc/x", "sha 1"]);
  let tags: Vec<String> = r.subset(&["prod", "feat/x", "t 1"], 1, 3).into_iter().map(String::from).collect();
  let branch = if r.chance(1, 3) { Some(r.pick_s(&["main", "feat/b c"])) } else { None };
  let build = if r.bool() { Some("http://ci/1?x=y".to_string()) } else { None };
  let publish = r.chance(2, 3);
  let absolute = r.bool();
  let log: Arc<Mutex<Vec<Req>>> = Default::default();
  let port: Arc<Mutex<u16>> = Default::default();
  let (l, p2, c2, prov2) = (log.clone(), port.clone(), context.clone(), enc(&prov));
  let listed: Vec<(Value, bool, Vec<(String, String)>)> = ps.iter().map(|p| (p.doc.clone(), p.pending, p.notices.clone())).collect();
  let mut flaky = if trouble == Trouble::FlakyIndex { 2 } else { 0 };
  let broker = Stub::start(move |q| {
    l.lock().unwrap().push(q.clone());
    let base = if absolute { format!("http://127.0.0.1:{}{c2}", p2.lock().unwrap()) } else { c2.clone() };
    let hal = |v: Value| send(200, &[("Content-Type", "application/hal+json;charset=utf-8")], v.to_string());
    if trouble == Trouble::Unauthorised { return send(401, &[("Content-Type", "application/hal+json")], "{}") }
    let path = q.path().strip_prefix(c2.as_str()).unwrap_or("?").to_string();
    if flaky > 0 { flaky -= 1; return send(503, &[], "") }
    match (q.method.as_str(), path.as_str()) {
      ("GET", "/" | "") => {
        if trouble == Trouble::Index500 { return send(500, &[], "") }
        hal(json!({"_links": {
          "pb:latest-provider-pacts": {"href": format!("{base}/pacts/provider/{{provider}}/latest"), "templated": true},
          "pb:provider-pacts-for-verification": {"href": format!("{base}/pacts/provider/{{provider}}/for-verification"), "templated": true}}}))
      }
      ("GET", p) if p == format!("/pacts/provider/{prov2}/latest") => {
        if trouble == Trouble::NoPacts { return send(404, &[], "") }
        if trouble == Trouble::ListBad { return hal(json!({"_links": {"pacts": {"href": "x"}}})) }
        hal(json!({"_links": {"pacts": listed.iter().enumerate().map(|(k, _)| json!({"href": format!("{base}/pacts/{k}"), "title": "a pact", "name": "c"})).collect::<Vec<_>>()}}))
      }
      ("GET", p) if p == format!("/pacts/provider/{prov2}/for-verification") => if trouble == Trouble::NoPacts { send(404, &[], "") } else { hal(json!({"_links": {"self": {"href": format!("{base}/pacts/provider/{prov2}/for-verification"), "title": "t"}}})) },
      ("POST", p) if p == format!("/pacts/provider/{prov2}/for-verification") => {
        if trouble == Trouble::ListBad { return hal(json!({"_embedded": {"pacts": [{"shortDescription": 1}]}})) }
        hal(json!({"_embedded": {"pacts": listed.iter().enumerate().map(|(k, (_, pending, notices))| json!({"shortDescription": "d",
          "verificationProperties": {"pending": pending, "notices": notices.iter().map(|(w, t)| json!({"when": w, "text": t})).collect::<Vec<_>>()},
          "_links": {"self": {"href": format!("{base}/pacts/{k}"), "name": "p"}}})).collect::<Vec<_>>()}}))
      }
      ("GET", p) if p.starts_with("/pacts/") => {
        let Ok(k) = p[7..].parse::<usize>() else { return send(404, &[], "") };
        if k == gone && trouble == Trouble::PactGone { return send(410, &[], "") }
        if k == gone && trouble == Trouble::PactBad { return hal(json!([1])) }
        let mut d = listed[k].0.clone();
        d["_links"] = json!({"pb:publish-verification-results": {"href": format!("{base}/results/{k}")}, "pb:provider": {"href": format!("{base}/pacticipants/{prov2}"), "title": "x"}, "self": {"href": format!("{base}/pacts/{k}")}, "curies": [{"name": "pb"}]});
        hal(d)
      }
      ("GET", p) if p == format!("/pacticipants/{prov2}") => hal(json!({"_links": {"pb:version-tag": {"href": format!("{base}/tag/{{version}}/{{tag}}"), "templated": true}, "pb:branch-version": {"href": format!("{base}/branch/{{branch}}/{{version}}"), "templated": true}}})),
      ("PUT", p) if p.starts_with("/tag/") || p.starts_with("/branch/") => send(201, &[("Content-Type", "application/hal+json")], "{}"),
      ("POST", p) if p.starts_with("/results/") => if trouble == Trouble::PublishFails { send(422, &[], "") } else { send(201, &[("Content-Type", "application/hal+json")], "{}") },
      _ => send(404, &[], "")
    }
  });
  *port.lock().unwrap() = broker.port;
  let w = all.clone();
  let asked: Arc<Mutex<Vec<usize>>> = Default::default();
  let a2 = asked.clone();
  let stub = Stub::start(move |q| match whose(&w, &q) { Some(i) => { a2.lock().unwrap().push(i.n); i.answer.clone() } None => send(599, &[], "") });
  let url = format!("http://127.0.0.1:{}{}{}", broker.port, context, if context.is_empty() && r.bool() { "/" } else { "" });
  let selectors: Vec<Value> = r.subset(&[json!({"mainBranch": true}), json!({"tag": "t", "latest": true, "fallbackTag": "u"}), json!({"branch": "b", "consumer": "c d"}), json!({"deployedOrReleased": true}), json!({"environment": "prod", "deployed": true})], 1, 2);
  let enable_pending = r.bool();
  let wip = if r.bool() { Some("2020-01-01".to_string()) } else { None };
  let ptags: Vec<String> = if r.bool() { vec!["dev".into()] } else { vec![] };
  let source = if dynamic {
    PactSource::BrokerWithDynamicConfiguration { provider_name: prov.clone(), broker_url: url.clone(), enable_pending, include_wip_pacts_since: wip.clone(), provider_tags: ptags.clone(), provider_branch: branch.clone(), selectors: selectors::json_to_selectors(selectors.clone()), auth: Some(auth.clone()), links: vec![] }
  } else { PactSource::BrokerUrl(prov.clone(), url.clone(), Some(auth.clone()), vec![]) };
  let no_pacts_is_error = r.bool();
  let opts: VerificationOptions<NullRequestFilterExecutor> = VerificationOptions { no_pacts_is_error, ..options() };
  let pubs = PublishOptions { provider_version: Some(version.clone()), build_url: build.clone(), provider_tags: tags.clone(), provider_branch: branch.clone() };
  cx.note(format!("dynamic {dynamic} trouble {trouble:?} publish {publish} {pubs:?} url {url} auth {auth:?} pacts {:?}", ps.iter().map(|p| (p.doc.to_string(), p.pending, &p.notices)).collect::<Vec<_>>()));
  cx.note(format!("behaviour {:?}", all.iter().map(|i| (&i.desc, &i.faults)).collect::<Vec<_>>()));
  cx.sample(|| json!({"source": source.to_string(), "publish": format!("{pubs:?}"), "pacts": ps.iter().map(|p| p.doc.clone()).collect::<Vec<_>>()}));
  let res = no_panic(|| block(verify_provider_async(provider(&prov, stub.port), vec![source], FilterInfo::None, vec![], &opts, if publish { Some(&pubs) } else { None }, &Arc::new(HttpRequestProviderStateExecutor::default()), None)));
  let res = match res { Ok(Ok(v)) => v, Ok(Err(e)) => return violated("no-verdict", format!("{e}")), Err(p) => return violated("panic", p) };
  drop(broker); drop(stub);
  let log = log.lock().unwrap().clone();
  for q in &log {
    ensure!(q.header("authorization") == auth_header.as_deref().into_iter().collect::<Vec<_>>(), "auth", "{} {} has authorization {:?} and not {:?}", q.method, q.target, q.header("authorization"), auth_header);
    cx.tick("broker requests");
  }
  let at = |q: &Req| q.path().strip_prefix(context.as_str()).unwrap_or("?").to_string();
  let lost = matches!(trouble, Trouble::NoPacts | Trouble::Index500 | Trouble::Unauthorised | Trouble::ListBad);
  let usable = |k: usize| !lost && !(k == gone && matches!(trouble, Trouble::PactGone | Trouble::PactBad));
  // every pact the broker lists is verified once
  let want: Vec<usize> = ps.iter().enumerate().filter(|(k, _)| usable(*k)).flat_map(|(_, p)| all[p.from..p.to].iter().map(|i| i.n)).collect();
  ensure!(*asked.lock().unwrap() == want, "verified", "interactions {:?} verified and not {:?}", asked.lock().unwrap(), want);
  // the verdict
  let broken = |p: &P| all[p.from..p.to].iter().any(|i| !i.good());
  let fatal = |p: &P| !p.pending && all[p.from..p.to].iter().any(|i| !i.good() && !i.pending);
  let mut expect = !ps.iter().enumerate().any(|(k, p)| usable(k) && fatal(p));
  match trouble { Trouble::NoPacts => expect = !no_pacts_is_error, Trouble::Index500 | Trouble::Unauthorised | Trouble::ListBad | Trouble::PactGone | Trouble::PactBad => expect = false, _ => {} }
  ensure!(res.result == expect, if res.result { "passed-broken" } else { "failed-good" }, "result {} where {expect} was due: {:?}", res.result, res.errors);
  let pend = ps.iter().enumerate().filter(|(k, _)| usable(*k)).flat_map(|(_, p)| all[p.from..p.to].iter().map(move |i| p.pending || i.pending)).collect::<Vec<_>>();
  ensure!(res.interaction_results.iter().map(|i| i.pending).collect::<Vec<_>>() == pend, "pending-flag", "{:?} and not {:?}", res.interaction_results.iter().map(|i| i.pending).collect::<Vec<_>>(), pend);
  if trouble != Trouble::None { cx.tick("broker troubles"); }
  // selection
  if dynamic && !lost {
    let posts: Vec<&Req> = log.iter().filter(|q| q.method == "POST" && at(q).ends_with("/for-verification")).collect();
    ensure!(posts.len() == 1, "selection-requests", "{} requests for the pacts to verify", posts.len());
    let mut w = json!({"includePendingStatus": enable_pending, "consumerVersionSelectors": selectors});
    if let Some(b) = &branch { w["providerVersionBranch"] = json!(b); }
    if let Some(s) = &wip { w["includeWipPactsSince"] = json!(s); }
    if !ptags.is_empty() { w["providerVersionTags"] = json!(ptags); }
    ensure!(posts[0].json() == w, "selection-request", "{} and not {w}", posts[0].json());
    cx.tick("selections");
  }
  // notices
  for (k, p) in ps.iter().enumerate() {
    if !usable(k) { continue }
    let due = [stages[0].to_string(), format!("after_verification:success_{}_published_{}", !broken(p), publish)];
    for (w, t) in &p.notices {
      let shown = res.output.iter().filter(|l| l.contains(t.as_str())).count();
      ensure!(shown == due.contains(w) as usize, "notice", "notice {t} of a pact that {} was shown {} times", if broken(p) { "failed" } else { "passed" }, shown);
      if shown == 1 { cx.tick("notices shown"); }
    }
  }
  // what was published
  let writes: Vec<&Req> = log.iter().filter(|q| q.method != "GET" && !at(q).ends_with("/for-verification")).collect();
  if !publish { ensure!(writes.is_empty(), "published-unasked", "{:?}", writes); cx.tick("runs that publish nothing"); return Ok(()) }
  let mut rest = writes.as_slice();
  for (k, p) in ps.iter().enumerate() {
    if !usable(k) { continue }
    // provider version first: branch and tags
    let mut before: Vec<&Req> = vec![];
    while let Some(q) = rest.first() { rest = &rest[1..]; before.push(q); if at(q).starts_with("/results/") { break } }
    let Some(post) = before.pop() else { return violated("not-published", format!("the result of pact {k} was not published: {:?}", writes.iter().map(|q| (&q.method, &q.target)).collect::<Vec<_>>())) };
    ensure!(post.method == "POST" && at(post) == format!("/results/{k}"), "published-elsewhere", "the result of pact {k} goes to {} {}", post.method, post.target);
    let mut puts: Vec<String> = before.iter().map(|q| at(q)).collect(); puts.sort();
    let mut due: Vec<String> = tags.iter().map(|t| format!("/tag/{}/{}", enc(&version), enc(t))).chain(branch.iter().map(|b| format!("/branch/{}/{}", enc(b), enc(&version)))).collect(); due.sort();
    ensure!(puts == due && before.iter().all(|q| q.method == "PUT"), "version-attributes", "{:?} before the results and not {:?}", puts, due);
    let j = post.json();
    let good = !broken(p);
    ensure!(j["success"] == json!(good), if good { "published-failure" } else { "published-success" }, "pact {k}: {j}");
    ensure!(j["providerApplicationVersion"] == json!(version) && j.get("buildUrl").cloned() == build.clone().map(|b| json!(b)), "published-version", "{j}");
    let results = j["testResults"].as_array().cloned().unwrap_or_default();
    let mut by_id: BTreeMap<String, Value> = BTreeMap::new();
    for t in &results { if let Some(old) = by_id.insert(t["interactionId"].as_str().unwrap_or("").into(), t.clone()) { ensure!(old["interactionId"] == json!(""), "published-twice", "{j}"); } }
    for i in &all[p.from..p.to] {
      let Some(id) = &i.id else { continue };
      let Some(t) = by_id.remove(id) else { return violated("result-missing", format!("no result for {id} in {j}")) };
      ensure!(t["success"] == json!(i.good()), "published-wrong", "interaction {id} with {:?}: {t}", i.faults);
      let n = |k: &str| t[k].as_array().map(|a| a.len()).unwrap_or(0);
      if i.good() { ensure!(n("mismatches") + n("exceptions") == 0, "published-wrong", "{t}"); }
      else if i.faults.iter().all(|f| f.named().is_some()) {
        for f in &i.faults {
          let attr = match f { Fault::Status => "status", Fault::HeaderGone | Fault::HeaderValue => "header", Fault::MetaGone | Fault::MetaValue => "metadata", _ => "body" };
          ensure!(t["mismatches"].as_array().unwrap_or(&vec![]).iter().any(|m| m["attribute"] == attr && m["description"].is_string()), "published-detail", "{:?}: {t}", f);
        }
        cx.tick("published mismatches");
      } else { ensure!(n("exceptions") > 0, "published-detail", "{:?}: {t}", i.faults); cx.tick("published exceptions"); }
      cx.tick("published interactions");
    }
    by_id.remove("");
    ensure!(by_id.is_empty(), "published-unknown", "results for {:?} of pact {k}", by_id.keys().collect::<Vec<_>>());
    cx.tick("published results");
    cx.saw((dynamic, good, p.pending, p.to - p.from, tags.len(), branch.is_some(), build.is_some(), trouble, auth_header.is_some(), &context));
  }
  ensure!(rest.is_empty(), "published-unasked", "{:?}", rest);
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P44", level: "exploration",
    rule: "1-3 generated pacts served by a loopback Pact Broker (latest pacts, or pacts for verification with selectors, pending and notices; context paths, relative and absolute links, authentication, troubles), verified with and without publishing; the broker's log of requests is checked against the stored pacts, the options and the known behaviour of the provider. Non-trivial: each distinct (mode, result, pending, interactions, tags, branch, build, trouble, authentication, context).",
    assumptions: vec!["Results of interactions without an id in the broker are not judged.", "HTTP over loopback through a stand-in for reqwest."],
    phases: vec![phase("broker", 3000, case)],
    floors: vec![("broker requests", 10000), ("published results", 1500), ("published interactions", 2000), ("published mismatches", 200), ("published exceptions", 80), ("selections", 800), ("notices shown", 600), ("runs that publish nothing", 500), ("broker troubles", 500)],
    probes: vec![]
  }
}

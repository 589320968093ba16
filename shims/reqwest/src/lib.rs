//! Stand-in for `reqwest`: a small HTTP/1.1 client over `TcpStream` (loopback only, no TLS),
//! with the part of the API that pact-reference uses. The request is written on the calling
//! thread when the `send()` future is polled.
use std::io::{Read, Write};
use std::net::{TcpStream, ToSocketAddrs};
use std::time::Duration;

use bytes::Bytes;
use http::header::{HeaderName, HeaderValue};
pub use http::{header, HeaderMap, Method, StatusCode, Version};
pub use url::Url;

#[derive(Debug)]
pub struct Error { msg: String, status: Option<StatusCode>, url: Option<Url> }
impl Error {
    fn new<S: ToString>(m: S) -> Error { Error { msg: m.to_string(), status: None, url: None } }
    pub fn is_status(&self) -> bool { self.status.is_some() }
    pub fn status(&self) -> Option<StatusCode> { self.status }
    pub fn url(&self) -> Option<&Url> { self.url.as_ref() }
    pub fn is_connect(&self) -> bool { false }
    pub fn is_timeout(&self) -> bool { false }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.msg) }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub trait IntoUrl { fn into_url(self) -> Result<Url>; }
impl IntoUrl for Url { fn into_url(self) -> Result<Url> { Ok(self) } }
impl IntoUrl for &str { fn into_url(self) -> Result<Url> { Url::parse(self).map_err(|e| Error::new(format!("builder error: {}", e))) } }
impl IntoUrl for String { fn into_url(self) -> Result<Url> { self.as_str().into_url() } }
impl IntoUrl for &String { fn into_url(self) -> Result<Url> { self.as_str().into_url() } }

#[derive(Debug, Clone, Default)]
pub struct Body(Bytes);
impl From<&'static str> for Body { fn from(s: &'static str) -> Body { Body(Bytes::from_static(s.as_bytes())) } }
impl From<String> for Body { fn from(s: String) -> Body { Body(s.into()) } }
impl From<Bytes> for Body { fn from(s: Bytes) -> Body { Body(s) } }
impl From<Vec<u8>> for Body { fn from(s: Vec<u8>) -> Body { Body(s.into()) } }

#[derive(Debug, Clone)]
pub struct Client { headers: HeaderMap, timeout: Duration }
impl Default for Client { fn default() -> Self { Client::new() } }
impl Client {
    pub fn new() -> Client { Client { headers: HeaderMap::new(), timeout: Duration::from_secs(20) } }
    pub fn builder() -> ClientBuilder { ClientBuilder::new() }
    pub fn request<U: IntoUrl>(&self, method: Method, url: U) -> RequestBuilder {
        RequestBuilder { client: self.clone(), req: url.into_url().map(|url| Request { method, url, headers: HeaderMap::new(), body: None }) }
    }
    pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::GET, url) }
    pub fn post<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::POST, url) }
    pub fn put<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::PUT, url) }
    pub fn delete<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::DELETE, url) }
}

#[derive(Debug, Clone)]
pub struct ClientBuilder(Client);
impl Default for ClientBuilder { fn default() -> Self { Self::new() } }
impl ClientBuilder {
    pub fn new() -> Self { ClientBuilder(Client::new()) }
    pub fn danger_accept_invalid_certs(self, _: bool) -> Self { self }
    pub fn default_headers(mut self, h: HeaderMap) -> Self { self.0.headers.extend(h); self }
    pub fn user_agent<V: AsRef<str>>(mut self, v: V) -> Self { if let Ok(v) = HeaderValue::from_str(v.as_ref()) { self.0.headers.insert(header::USER_AGENT, v); } self }
    pub fn tcp_keepalive<D: Into<Option<Duration>>>(self, _: D) -> Self { self }
    pub fn pool_max_idle_per_host(self, _: usize) -> Self { self }
    pub fn pool_idle_timeout<D: Into<Option<Duration>>>(self, _: D) -> Self { self }
    pub fn http1_title_case_headers(self) -> Self { self }
    pub fn no_proxy(self) -> Self { self }
    pub fn connection_verbose(self, _: bool) -> Self { self }
    pub fn timeout(mut self, t: Duration) -> Self { self.0.timeout = t; self }
    pub fn build(self) -> Result<Client> { Ok(self.0) }
}

#[derive(Debug, Clone)]
pub struct Request { method: Method, url: Url, headers: HeaderMap, body: Option<Bytes> }
impl Request {
    pub fn method(&self) -> &Method { &self.method }
    pub fn url(&self) -> &Url { &self.url }
    pub fn headers(&self) -> &HeaderMap { &self.headers }
    pub fn body(&self) -> Option<&Bytes> { self.body.as_ref() }
}

#[derive(Debug)]
pub struct RequestBuilder { client: Client, req: Result<Request> }
impl RequestBuilder {
    fn with(mut self, f: impl FnOnce(&mut Request) -> Result<()>) -> Self {
        let e = match self.req.as_mut() { Ok(r) => f(r).err(), Err(_) => None };
        if let Some(e) = e { self.req = Err(e) }
        self
    }
    pub fn header<K, V>(self, k: K, v: V) -> Self
    where HeaderName: TryFrom<K>, <HeaderName as TryFrom<K>>::Error: Into<http::Error>,
          HeaderValue: TryFrom<V>, <HeaderValue as TryFrom<V>>::Error: Into<http::Error> {
        self.with(|r| {
            let k = HeaderName::try_from(k).map_err(|e| Error::new(e.into()))?;
            let v = HeaderValue::try_from(v).map_err(|e| Error::new(e.into()))?;
            r.headers.append(k, v);
            Ok(())
        })
    }
    pub fn headers(self, h: HeaderMap) -> Self {
        self.with(|r| {
            // as reqwest's replace_headers: the first value of a name replaces, the rest append
            for k in h.keys() { r.headers.remove(k); }
            for (k, v) in h.iter() { r.headers.append(k.clone(), v.clone()); }
            Ok(())
        })
    }
    pub fn body<B: Into<Body>>(self, b: B) -> Self { self.with(|r| { r.body = Some(b.into().0); Ok(()) }) }
    pub fn json<T: serde::Serialize + ?Sized>(self, t: &T) -> Self {
        self.with(|r| {
            r.body = Some(serde_json::to_vec(t).map_err(Error::new)?.into());
            r.headers.entry(header::CONTENT_TYPE).or_insert(HeaderValue::from_static("application/json"));
            Ok(())
        })
    }
    pub fn form<T: serde::Serialize + ?Sized>(self, t: &T) -> Self {
        self.with(|r| { r.body = Some(serde_urlencoded::to_string(t).map_err(Error::new)?.into());
            r.headers.insert(header::CONTENT_TYPE, HeaderValue::from_static("application/x-www-form-urlencoded")); Ok(()) })
    }
    pub fn query<T: serde::Serialize + ?Sized>(self, t: &T) -> Self {
        self.with(|r| {
            { let mut p = r.url.query_pairs_mut();
              t.serialize(serde_urlencoded::Serializer::new(&mut p)).map_err(Error::new)?; }
            if let Some("") = r.url.query() { r.url.set_query(None) }
            Ok(())
        })
    }
    fn auth(self, v: String) -> Self { self.with(|r| { r.headers.append(header::AUTHORIZATION, HeaderValue::from_str(&v).map_err(Error::new)?); Ok(()) }) }
    pub fn basic_auth<U: std::fmt::Display, P: std::fmt::Display>(self, u: U, p: Option<P>) -> Self {
        use base64::Engine;
        let s = format!("{}:{}", u, p.map(|p| p.to_string()).unwrap_or_default());
        self.auth(format!("Basic {}", base64::engine::general_purpose::STANDARD.encode(s)))
    }
    pub fn bearer_auth<T: std::fmt::Display>(self, t: T) -> Self { self.auth(format!("Bearer {}", t)) }
    pub fn try_clone(&self) -> Option<RequestBuilder> {
        self.req.as_ref().ok().map(|r| RequestBuilder { client: self.client.clone(), req: Ok(r.clone()) })
    }
    pub fn build(self) -> Result<Request> { self.req }
    pub async fn send(self) -> Result<Response> { self.send_now() }
    fn send_now(self) -> Result<Response> { execute(&self.client, self.req?) }
}

fn execute(client: &Client, mut r: Request) -> Result<Response> {
    let io = |e: std::io::Error| Error::new(format!("error sending request for url: {}", e));
    for k in client.headers.keys() {
        if !r.headers.contains_key(k) { for v in client.headers.get_all(k) { r.headers.append(k.clone(), v.clone()); } }
    }
    let host = r.url.host_str().ok_or_else(|| Error::new("no host"))?.to_string();
    let port = r.url.port_or_known_default().ok_or_else(|| Error::new("no port"))?;
    if r.url.scheme() != "http" { return Err(Error::new("only http is supported by the stand-in client")) }
    let addr = (host.trim_matches(|c| c == '[' || c == ']'), port).to_socket_addrs().map_err(io)?.next().ok_or_else(|| Error::new("no address"))?;
    let mut s = TcpStream::connect_timeout(&addr, client.timeout).map_err(io)?;
    s.set_read_timeout(Some(client.timeout)).map_err(io)?;
    s.set_write_timeout(Some(client.timeout)).map_err(io)?;
    let _ = s.set_nodelay(true);
    let mut out = Vec::new();
    let target = match r.url.query() { Some(q) => format!("{}?{}", r.url.path(), q), None => r.url.path().to_string() };
    out.extend_from_slice(format!("{} {} HTTP/1.1\r\n", r.method, target).as_bytes());
    if !r.headers.contains_key(header::HOST) { out.extend_from_slice(format!("host: {}:{}\r\n", host, port).as_bytes()); }
    if !r.headers.contains_key(header::ACCEPT) { out.extend_from_slice(b"accept: */*\r\n"); }
    for (k, v) in r.headers.iter() {
        if k == header::CONTENT_LENGTH || k == header::CONNECTION || k == header::TRANSFER_ENCODING { continue }
        out.extend_from_slice(k.as_str().as_bytes()); out.extend_from_slice(b": ");
        out.extend_from_slice(v.as_bytes()); out.extend_from_slice(b"\r\n");
    }
    if let Some(b) = &r.body { out.extend_from_slice(format!("content-length: {}\r\n", b.len()).as_bytes()); }
    out.extend_from_slice(b"connection: close\r\n\r\n");
    if let Some(b) = &r.body { out.extend_from_slice(b); }
    s.write_all(&out).map_err(io)?;
    let mut raw = Vec::new();
    s.read_to_end(&mut raw).map_err(io)?;
    let end = raw.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| Error::new("incomplete response"))?;
    let head = String::from_utf8_lossy(&raw[..end]).to_string();
    let mut lines = head.split("\r\n");
    let status = lines.next().and_then(|l| l.split(' ').nth(1)).and_then(|c| c.parse::<u16>().ok())
        .and_then(|c| StatusCode::from_u16(c).ok()).ok_or_else(|| Error::new("bad status line"))?;
    let mut headers = HeaderMap::new();
    for l in lines {
        let Some((k, v)) = l.split_once(':') else { return Err(Error::new("bad header")) };
        headers.append(HeaderName::from_bytes(k.trim().as_bytes()).map_err(Error::new)?, HeaderValue::from_str(v.trim()).map_err(Error::new)?);
    }
    let mut body = raw[end + 4..].to_vec();
    if let Some(n) = headers.get(header::CONTENT_LENGTH).and_then(|v| v.to_str().ok()).and_then(|v| v.parse::<usize>().ok()) {
        if body.len() < n { return Err(Error::new("error decoding response body: end of file before message length reached")) }
        body.truncate(n);
    }
    Ok(Response { status, headers, body: body.into(), url: r.url })
}

#[derive(Debug)]
pub struct Response { status: StatusCode, headers: HeaderMap, body: Bytes, url: Url }
impl Response {
    pub fn status(&self) -> StatusCode { self.status }
    pub fn headers(&self) -> &HeaderMap { &self.headers }
    pub fn url(&self) -> &Url { &self.url }
    pub async fn bytes(self) -> Result<Bytes> { Ok(self.body) }
    pub async fn text(self) -> Result<String> { Ok(String::from_utf8_lossy(&self.body).to_string()) }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> { serde_json::from_slice(&self.body).map_err(Error::new) }
    pub fn error_for_status(self) -> Result<Response> {
        if self.status.is_client_error() || self.status.is_server_error() {
            Err(Error { msg: format!("HTTP status {}", self.status), status: Some(self.status), url: Some(self.url) })
        } else { Ok(self) }
    }
}
impl<T: Into<Body>> From<http::Response<T>> for Response {
    fn from(r: http::Response<T>) -> Response {
        let (p, b) = r.into_parts();
        Response { status: p.status, headers: p.headers, body: b.into().0, url: Url::parse("http://localhost/").unwrap() }
    }
}

pub async fn get<U: IntoUrl>(url: U) -> Result<Response> { Client::new().get(url).send().await }

pub mod blocking {
    use super::*;
    #[derive(Debug, Clone, Default)]
    pub struct Client(super::Client);
    impl Client {
        pub fn new() -> Client { Client(super::Client::new()) }
        pub fn builder() -> ClientBuilder { ClientBuilder(super::Client::builder()) }
        pub fn request<U: IntoUrl>(&self, method: Method, url: U) -> RequestBuilder { RequestBuilder(self.0.request(method, url)) }
        pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder { RequestBuilder(self.0.get(url)) }
        pub fn post<U: IntoUrl>(&self, url: U) -> RequestBuilder { RequestBuilder(self.0.post(url)) }
        pub fn put<U: IntoUrl>(&self, url: U) -> RequestBuilder { RequestBuilder(self.0.put(url)) }
    }
    pub fn get<U: IntoUrl>(url: U) -> Result<Response> { Client::new().get(url).send() }
    #[derive(Debug, Clone, Default)]
    pub struct ClientBuilder(super::ClientBuilder);
    impl ClientBuilder {
        pub fn new() -> Self { Self::default() }
        pub fn default_headers(self, h: HeaderMap) -> Self { ClientBuilder(self.0.default_headers(h)) }
        pub fn user_agent<V: AsRef<str>>(self, v: V) -> Self { ClientBuilder(self.0.user_agent(v)) }
        pub fn timeout<D: Into<Option<Duration>>>(self, t: D) -> Self { match t.into() { Some(t) => ClientBuilder(self.0.timeout(t)), None => self } }
        pub fn danger_accept_invalid_certs(self, b: bool) -> Self { ClientBuilder(self.0.danger_accept_invalid_certs(b)) }
        pub fn build(self) -> Result<Client> { Ok(Client(self.0.build()?)) }
    }
    #[derive(Debug)]
    pub struct RequestBuilder(super::RequestBuilder);
    impl RequestBuilder {
        pub fn basic_auth<U: std::fmt::Display, P: std::fmt::Display>(self, u: U, p: Option<P>) -> Self { RequestBuilder(self.0.basic_auth(u, p)) }
        pub fn bearer_auth<T: std::fmt::Display>(self, t: T) -> Self { RequestBuilder(self.0.bearer_auth(t)) }
        pub fn header<K, V>(self, k: K, v: V) -> Self
        where HeaderName: TryFrom<K>, <HeaderName as TryFrom<K>>::Error: Into<http::Error>,
              HeaderValue: TryFrom<V>, <HeaderValue as TryFrom<V>>::Error: Into<http::Error> { RequestBuilder(self.0.header(k, v)) }
        pub fn headers(self, h: HeaderMap) -> Self { RequestBuilder(self.0.headers(h)) }
        pub fn query<T: serde::Serialize + ?Sized>(self, t: &T) -> Self { RequestBuilder(self.0.query(t)) }
        pub fn body<B: Into<Body>>(self, b: B) -> Self { RequestBuilder(self.0.body(b)) }
        pub fn json<T: serde::Serialize + ?Sized>(self, t: &T) -> Self { RequestBuilder(self.0.json(t)) }
        pub fn timeout(mut self, t: Duration) -> Self { self.0.client.timeout = t; self }
        pub fn send(self) -> Result<Response> { Ok(Response(self.0.send_now()?)) }
    }
    #[derive(Debug)]
    pub struct Response(super::Response);
    impl Response {
        pub fn headers(&self) -> &HeaderMap { self.0.headers() }
        pub fn url(&self) -> &Url { self.0.url() }
        pub fn text(self) -> Result<String> { Ok(String::from_utf8_lossy(&self.0.body).to_string()) }
        pub fn bytes(self) -> Result<Bytes> { Ok(self.0.body) }
        pub fn error_for_status(self) -> Result<Response> { Ok(Response(self.0.error_for_status()?)) }
        pub fn status(&self) -> StatusCode { self.0.status }
        pub fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> { serde_json::from_slice(&self.0.body).map_err(Error::new) }
    }
}

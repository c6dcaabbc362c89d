//! Stand-in: requests are answered in-process by the handler registered for
//! the URL's host and port. Unregistered hosts refuse the connection.
use std::{
    collections::HashMap,
    fmt,
    future::Future,
    pin::Pin,
    sync::{Arc, Mutex, OnceLock},
};
pub use url::Url;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Method(&'static str);
impl Method {
    pub const GET: Method = Method("GET");
    pub const POST: Method = Method("POST");
    pub const PUT: Method = Method("PUT");
    pub const DELETE: Method = Method("DELETE");
    pub fn as_str(&self) -> &str {
        self.0
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct StatusCode(u16);
macro_rules! codes { ($($n:ident = $v:expr),*) => { $(pub const $n: StatusCode = StatusCode($v);)* } }
impl StatusCode {
    codes!(OK = 200, ACCEPTED = 202, BAD_REQUEST = 400, UNAUTHORIZED = 401, FORBIDDEN = 403, NOT_FOUND = 404,
        IM_A_TEAPOT = 418, TOO_MANY_REQUESTS = 429, INTERNAL_SERVER_ERROR = 500, BAD_GATEWAY = 502,
        SERVICE_UNAVAILABLE = 503, GATEWAY_TIMEOUT = 504);
    pub fn as_u16(&self) -> u16 {
        self.0
    }
    pub fn from_u16(v: u16) -> Result<StatusCode, String> {
        Ok(StatusCode(v))
    }
    pub fn is_success(&self) -> bool {
        (200..300).contains(&self.0)
    }
    pub fn is_client_error(&self) -> bool {
        (400..500).contains(&self.0)
    }
    pub fn is_server_error(&self) -> bool {
        (500..600).contains(&self.0)
    }
    pub fn canonical_reason(&self) -> Option<&'static str> {
        Some(match self.0 {
            200 => "OK",
            202 => "Accepted",
            400 => "Bad Request",
            401 => "Unauthorized",
            403 => "Forbidden",
            404 => "Not Found",
            418 => "I'm a teapot",
            429 => "Too Many Requests",
            500 => "Internal Server Error",
            502 => "Bad Gateway",
            503 => "Service Unavailable",
            504 => "Gateway Timeout",
            _ => return None,
        })
    }
}
impl fmt::Display for StatusCode {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{} {}", self.0, self.canonical_reason().unwrap_or("<unknown status code>"))
    }
}

#[derive(Debug, Clone)]
enum Kind {
    Request(String),
    Status(StatusCode),
    Decode(String),
}
#[derive(Clone)]
pub struct Error {
    kind: Kind,
    url: Option<Url>,
}
pub type Result<T, E = Error> = std::result::Result<T, E>;
impl Error {
    pub fn is_request(&self) -> bool {
        matches!(self.kind, Kind::Request(_))
    }
    pub fn is_connect(&self) -> bool {
        self.is_request()
    }
    pub fn is_timeout(&self) -> bool {
        false
    }
    pub fn is_status(&self) -> bool {
        matches!(self.kind, Kind::Status(_))
    }
    pub fn is_decode(&self) -> bool {
        matches!(self.kind, Kind::Decode(_))
    }
    pub fn status(&self) -> Option<StatusCode> {
        match self.kind {
            Kind::Status(s) => Some(s),
            _ => None,
        }
    }
    pub fn url(&self) -> Option<&Url> {
        self.url.as_ref()
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match &self.kind {
            Kind::Request(_) => write!(f, "error sending request")?,
            Kind::Decode(e) => write!(f, "error decoding response body: {e}")?,
            Kind::Status(s) if s.is_client_error() => write!(f, "HTTP status client error ({s})")?,
            Kind::Status(s) => write!(f, "HTTP status server error ({s})")?,
        }
        if let Some(u) = &self.url {
            write!(f, " for url ({u})")?;
        }
        Ok(())
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "reqwest::Error {{ kind: {:?}, url: {:?} }}", self.kind, self.url.as_ref().map(|u| u.as_str()))
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Debug)]
pub struct Body(Vec<u8>);
impl Body {
    pub fn as_bytes(&self) -> Option<&[u8]> {
        Some(&self.0)
    }
}
impl From<Vec<u8>> for Body {
    fn from(v: Vec<u8>) -> Body {
        Body(v)
    }
}
impl From<String> for Body {
    fn from(v: String) -> Body {
        Body(v.into_bytes())
    }
}
impl From<&'static str> for Body {
    fn from(v: &'static str) -> Body {
        Body(v.as_bytes().to_vec())
    }
}
impl From<&'static [u8]> for Body {
    fn from(v: &'static [u8]) -> Body {
        Body(v.to_vec())
    }
}

#[derive(Debug, Clone)]
pub struct Request {
    method: Method,
    url: Url,
    pub header_list: Vec<(String, String)>,
    body: Option<Body>,
}
impl Request {
    pub fn new(method: Method, url: Url) -> Request {
        Request { method, url, header_list: vec![], body: None }
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn url_mut(&mut self) -> &mut Url {
        &mut self.url
    }
    pub fn body_mut(&mut self) -> &mut Option<Body> {
        &mut self.body
    }
    pub fn method_mut(&mut self) -> &mut Method {
        &mut self.method
    }
    pub fn method(&self) -> &Method {
        &self.method
    }
    pub fn body(&self) -> Option<&Body> {
        self.body.as_ref()
    }
    pub fn try_clone(&self) -> Option<Request> {
        Some(self.clone())
    }
}
#[must_use]
#[derive(Debug)]
pub struct RequestBuilder {
    client: Client,
    request: Request,
    failed: Option<Error>,
}
impl RequestBuilder {
    pub fn from_parts(client: Client, request: Request) -> RequestBuilder {
        RequestBuilder { client, request, failed: None }
    }
    pub fn header(mut self, k: impl AsRef<str>, v: impl AsRef<str>) -> RequestBuilder {
        self.request.header_list.push((k.as_ref().to_ascii_lowercase(), v.as_ref().to_string()));
        self
    }
    pub fn body(mut self, b: impl Into<Body>) -> RequestBuilder {
        self.request.body = Some(b.into());
        self
    }
    pub fn json<T: serde::Serialize + ?Sized>(mut self, t: &T) -> RequestBuilder {
        self.request.body = Some(Body(serde_json::to_vec(t).unwrap()));
        self.header("content-type", "application/json")
    }
    pub fn timeout(self, _d: std::time::Duration) -> RequestBuilder {
        self
    }
    pub fn build(self) -> Result<Request> {
        match self.failed {
            Some(e) => Err(e),
            None => Ok(self.request),
        }
    }
    pub fn send(self) -> impl Future<Output = Result<Response>> + Send {
        async move {
            let client = self.client.clone();
            client.execute(self.build()?).await
        }
    }
    pub fn bearer_auth(self, t: impl fmt::Display) -> RequestBuilder {
        self.header(header::AUTHORIZATION, format!("Bearer {t}"))
    }
    pub fn try_clone(&self) -> Option<RequestBuilder> {
        Some(RequestBuilder { client: self.client.clone(), request: self.request.clone(), failed: self.failed.clone() })
    }
}

/// what the real crate accepts where a URL is needed
pub trait IntoUrl {
    fn into_url(self) -> Result<Url>;
}
impl IntoUrl for Url {
    fn into_url(self) -> Result<Url> {
        Ok(self)
    }
}
macro_rules! text_url {
    ($($t:ty),*) => { $(impl IntoUrl for $t {
        fn into_url(self) -> Result<Url> {
            Url::parse(self.as_ref()).map_err(|e| Error { kind: Kind::Request(e.to_string()), url: None })
        }
    })* };
}
text_url!(&str, String, &String);

pub mod header {
    pub const ACCEPT: &str = "accept";
    pub const AUTHORIZATION: &str = "authorization";
    pub const CONTENT_LENGTH: &str = "content-length";
    pub const CONTENT_TYPE: &str = "content-type";
    pub const USER_AGENT: &str = "user-agent";
}
#[derive(Debug, Default)]
pub struct ClientBuilder(());
impl ClientBuilder {
    pub fn new() -> ClientBuilder {
        ClientBuilder(())
    }
    pub fn timeout(self, _d: std::time::Duration) -> ClientBuilder {
        self
    }
    pub fn connect_timeout(self, _d: std::time::Duration) -> ClientBuilder {
        self
    }
    pub fn build(self) -> Result<Client> {
        Ok(Client(()))
    }
}
#[derive(Debug, Clone, Default)]
pub struct Client(());
impl Client {
    pub fn new() -> Client {
        Client(())
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder(())
    }
    pub fn get<U: IntoUrl>(&self, u: U) -> RequestBuilder {
        self.request(Method::GET, u)
    }
    pub fn post<U: IntoUrl>(&self, u: U) -> RequestBuilder {
        self.request(Method::POST, u)
    }
    pub fn request<U: IntoUrl>(&self, m: Method, u: U) -> RequestBuilder {
        let (url, failed) = match u.into_url() {
            Ok(u) => (u, None),
            Err(e) => (Url::parse("http://invalid.invalid/").unwrap(), Some(e)),
        };
        RequestBuilder { client: self.clone(), request: Request::new(m, url), failed }
    }
    pub fn execute(&self, r: Request) -> impl Future<Output = Result<Response>> + Send {
        async move {
            let url = r.url.clone();
            let h = mock::find(&url);
            match h {
                None => Err(Error { kind: Kind::Request("connection refused".into()), url: Some(url) }),
                Some(h) => match h(r).await {
                    Ok((status, body)) => Ok(Response { status: StatusCode(status), body, url }),
                    Err(e) => Err(Error { kind: Kind::Request(e), url: Some(url) }),
                },
            }
        }
    }
}
#[derive(Debug)]
pub struct Response {
    status: StatusCode,
    body: Vec<u8>,
    url: Url,
}
impl Response {
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.body).into_owned())
    }
    pub async fn bytes(self) -> Result<Vec<u8>> {
        Ok(self.body)
    }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> {
        serde_json::from_slice(&self.body).map_err(|e| Error { kind: Kind::Decode(e.to_string()), url: Some(self.url) })
    }
    pub fn content_length(&self) -> Option<u64> {
        Some(self.body.len() as u64)
    }
    pub fn error_for_status_ref(&self) -> Result<&Response> {
        if self.status.is_client_error() || self.status.is_server_error() {
            Err(Error { kind: Kind::Status(self.status), url: Some(self.url.clone()) })
        } else {
            Ok(self)
        }
    }
    pub fn error_for_status(self) -> Result<Response> {
        if self.status.is_client_error() || self.status.is_server_error() {
            Err(Error { kind: Kind::Status(self.status), url: Some(self.url) })
        } else {
            Ok(self)
        }
    }
}

pub mod mock {
    use super::*;
    pub type Reply = std::result::Result<(u16, Vec<u8>), String>;
    pub type Handler = Arc<dyn Fn(Request) -> Pin<Box<dyn Future<Output = Reply> + Send>> + Send + Sync>;
    static REG: OnceLock<Mutex<HashMap<String, Handler>>> = OnceLock::new();
    fn reg() -> &'static Mutex<HashMap<String, Handler>> {
        REG.get_or_init(Default::default)
    }
    fn key(u: &Url) -> String {
        format!("{}:{}", u.host_str().unwrap_or(""), u.port_or_known_default().unwrap_or(0))
    }
    pub fn register(base: &Url, h: Handler) {
        reg().lock().unwrap().insert(key(base), h);
    }
    pub fn unregister(base: &Url) {
        reg().lock().unwrap().remove(&key(base));
    }
    pub(crate) fn find(u: &Url) -> Option<Handler> {
        reg().lock().unwrap().get(&key(u)).cloned()
    }
}

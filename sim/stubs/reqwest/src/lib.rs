//! Stand-in for `reqwest`: requests travel through the simulated network.
use simrt::net::{NetErr, Reply};
use std::fmt;
use std::time::Duration;

pub use http::header;
pub use http::{Method, StatusCode, Version};
pub use url::Url;

#[derive(Debug, Clone, PartialEq)]
enum Kind {
    Status(StatusCode),
    Connect,
    Timeout,
    Request,
    Body,
    Decode,
    Builder,
}
pub struct Error {
    kind: Kind,
    url: Option<Url>,
    source: Option<Box<dyn std::error::Error + Send + Sync>>,
}
pub type Result<T> = std::result::Result<T, Error>;
impl Error {
    fn new(kind: Kind, url: Option<Url>) -> Self {
        Error { kind, url, source: None }
    }
    pub fn status(&self) -> Option<StatusCode> {
        match self.kind {
            Kind::Status(s) => Some(s),
            _ => None,
        }
    }
    pub fn url(&self) -> Option<&Url> {
        self.url.as_ref()
    }
    pub fn without_url(mut self) -> Self {
        self.url = None;
        self
    }
    pub fn is_status(&self) -> bool {
        self.status().is_some()
    }
    pub fn is_timeout(&self) -> bool {
        self.kind == Kind::Timeout
    }
    pub fn is_connect(&self) -> bool {
        self.kind == Kind::Connect
    }
    pub fn is_request(&self) -> bool {
        matches!(self.kind, Kind::Request | Kind::Connect | Kind::Timeout)
    }
    pub fn is_body(&self) -> bool {
        self.kind == Kind::Body
    }
    pub fn is_decode(&self) -> bool {
        self.kind == Kind::Decode
    }
    pub fn is_builder(&self) -> bool {
        self.kind == Kind::Builder
    }
    pub fn is_redirect(&self) -> bool {
        false
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "reqwest::Error {{ kind: {:?}, url: {:?}, source: {:?} }}", self.kind, self.url.as_ref().map(|u| u.as_str()), self.source)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.kind {
            Kind::Status(s) if s.is_client_error() => write!(f, "HTTP status client error ({s})")?,
            Kind::Status(s) => write!(f, "HTTP status server error ({s})")?,
            Kind::Body => write!(f, "request or response body error")?,
            Kind::Decode => write!(f, "error decoding response body")?,
            Kind::Builder => write!(f, "builder error")?,
            _ => write!(f, "error sending request")?,
        }
        if let Some(u) = &self.url {
            write!(f, " for url ({u})")?
        }
        Ok(())
    }
}
impl std::error::Error for Error {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.source.as_ref().map(|s| &**s as _)
    }
}

pub trait IntoUrl {
    fn into_url(self) -> Result<Url>;
}
impl IntoUrl for Url {
    fn into_url(self) -> Result<Url> {
        Ok(self)
    }
}
impl IntoUrl for &str {
    fn into_url(self) -> Result<Url> {
        Url::parse(self).map_err(|_| Error::new(Kind::Builder, None))
    }
}
impl IntoUrl for String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
}
impl IntoUrl for &String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Body(Vec<u8>);
impl From<Vec<u8>> for Body {
    fn from(v: Vec<u8>) -> Self {
        Body(v)
    }
}
impl From<String> for Body {
    fn from(v: String) -> Self {
        Body(v.into_bytes())
    }
}

#[derive(Debug)]
pub struct Request {
    method: Method,
    url: Url,
    headers: header::HeaderMap,
    timeout: Option<Duration>,
    body: Option<Body>,
}
impl Request {
    pub fn new(method: Method, url: Url) -> Self {
        Request { method, url, headers: Default::default(), timeout: None, body: None }
    }
    pub fn method(&self) -> &Method {
        &self.method
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn url_mut(&mut self) -> &mut Url {
        &mut self.url
    }
    pub fn headers(&self) -> &header::HeaderMap {
        &self.headers
    }
    pub fn headers_mut(&mut self) -> &mut header::HeaderMap {
        &mut self.headers
    }
    pub fn timeout(&self) -> Option<&Duration> {
        self.timeout.as_ref()
    }
    pub fn timeout_mut(&mut self) -> &mut Option<Duration> {
        &mut self.timeout
    }
    pub fn body(&self) -> Option<&Body> {
        self.body.as_ref()
    }
    pub fn try_clone(&self) -> Option<Request> {
        Some(Request {
            method: self.method.clone(),
            url: self.url.clone(),
            headers: self.headers.clone(),
            timeout: self.timeout,
            body: self.body.clone(),
        })
    }
}

#[derive(Clone, Debug, Default)]
pub struct Client {
    timeout: Option<Duration>,
    headers: header::HeaderMap,
}
#[derive(Default)]
pub struct ClientBuilder(Client);
impl ClientBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn timeout(mut self, d: Duration) -> Self {
        self.0.timeout = Some(d);
        self
    }
    pub fn connect_timeout(self, _: Duration) -> Self {
        self
    }
    pub fn read_timeout(mut self, d: Duration) -> Self {
        self.0.timeout = Some(d);
        self
    }
    pub fn pool_idle_timeout(self, _: impl Into<Option<Duration>>) -> Self {
        self
    }
    pub fn pool_max_idle_per_host(self, _: usize) -> Self {
        self
    }
    pub fn tcp_keepalive(self, _: impl Into<Option<Duration>>) -> Self {
        self
    }
    pub fn user_agent(self, _: impl AsRef<str>) -> Self {
        self
    }
    pub fn default_headers(mut self, h: header::HeaderMap) -> Self {
        self.0.headers = h;
        self
    }
    pub fn build(self) -> Result<Client> {
        Ok(self.0)
    }
}
impl Client {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder::new()
    }
    pub fn get(&self, u: impl IntoUrl) -> RequestBuilder {
        self.request(Method::GET, u)
    }
    pub fn post(&self, u: impl IntoUrl) -> RequestBuilder {
        self.request(Method::POST, u)
    }
    pub fn request(&self, m: Method, u: impl IntoUrl) -> RequestBuilder {
        RequestBuilder { client: self.clone(), request: u.into_url().map(|u| Request::new(m, u)) }
    }
    pub async fn execute(&self, r: Request) -> Result<Response> {
        let url = r.url.clone();
        let limit = r.timeout.or(self.timeout);
        let started = simrt::now();
        let send = simrt::net::send(simrt::net::Req { method: r.method.to_string(), url: url.clone() });
        let reply = match limit {
            None => send.await,
            Some(d) => deadline(d, send).await.unwrap_or(Err(NetErr::Timeout)),
        };
        match reply {
            Ok(reply) => {
                let status = StatusCode::from_u16(reply.status).map_err(|_| Error::new(Kind::Request, Some(url.clone())))?;
                let mut headers = header::HeaderMap::new();
                for (k, v) in &reply.headers {
                    if let (Ok(k), Ok(v)) = (header::HeaderName::try_from(k.as_str()), header::HeaderValue::try_from(v.as_str())) {
                        headers.append(k, v);
                    }
                }
                Ok(Response { status, url, headers, reply, until: limit.map(|d| started + d), extensions: http::Extensions::new() })
            }
            Err(e) => {
                let kind = match e {
                    NetErr::Connect => Kind::Connect,
                    NetErr::Timeout => Kind::Timeout,
                    NetErr::Reset | NetErr::BodyReset => Kind::Request,
                };
                Err(Error::new(kind, Some(url)))
            }
        }
    }
}
async fn deadline<T>(d: Duration, f: impl std::future::Future<Output = T>) -> Option<T> {
    let mut f = std::pin::pin!(f);
    let mut s = std::pin::pin!(simrt::sleep(d));
    use std::future::Future;
    std::future::poll_fn(move |cx| {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(cx) {
            return std::task::Poll::Ready(Some(v));
        }
        s.as_mut().poll(cx).map(|_| None)
    })
    .await
}

pub struct RequestBuilder {
    client: Client,
    request: Result<Request>,
}
impl RequestBuilder {
    pub fn from_parts(client: Client, request: Request) -> Self {
        RequestBuilder { client, request: Ok(request) }
    }
    pub fn header<K, V>(mut self, k: K, v: V) -> Self
    where
        header::HeaderName: TryFrom<K>,
        header::HeaderValue: TryFrom<V>,
    {
        if let (Ok(r), Ok(k), Ok(v)) = (&mut self.request, header::HeaderName::try_from(k), header::HeaderValue::try_from(v)) {
            r.headers.append(k, v);
        }
        self
    }
    pub fn headers(mut self, h: header::HeaderMap) -> Self {
        if let Ok(r) = &mut self.request {
            r.headers.extend(h)
        }
        self
    }
    pub fn timeout(mut self, d: Duration) -> Self {
        if let Ok(r) = &mut self.request {
            r.timeout = Some(d)
        }
        self
    }
    pub fn query<T: serde::Serialize + ?Sized>(self, _: &T) -> Self {
        self
    }
    pub fn body(mut self, b: impl Into<Body>) -> Self {
        if let Ok(r) = &mut self.request {
            r.body = Some(b.into())
        }
        self
    }
    pub fn json<T: serde::Serialize + ?Sized>(self, t: &T) -> Self {
        let v = serde_json::to_vec(t).unwrap_or_default();
        self.body(v)
    }
    pub fn build(self) -> Result<Request> {
        self.request
    }
    pub async fn send(self) -> Result<Response> {
        let c = self.client;
        c.execute(self.request?).await
    }
}

pub struct Response {
    status: StatusCode,
    url: Url,
    headers: header::HeaderMap,
    reply: Reply,
    until: Option<Duration>,
    extensions: http::Extensions,
}
impl fmt::Debug for Response {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Response {{ url: {}, status: {} }}", self.url, self.status)
    }
}
impl Response {
    #[doc(hidden)]
    pub fn __parts(&self) -> (StatusCode, Url, Reply) {
        (self.status, self.url.clone(), self.reply.clone())
    }
    #[doc(hidden)]
    pub fn __cached(url: Url, body: Vec<u8>) -> Self {
        Response {
            status: StatusCode::OK,
            url,
            headers: Default::default(),
            reply: Reply { status: 200, headers: vec![], body, broken: None, body_delay: Duration::ZERO },
            until: None,
            extensions: http::Extensions::new(),
        }
    }
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn headers(&self) -> &header::HeaderMap {
        &self.headers
    }
    pub fn headers_mut(&mut self) -> &mut header::HeaderMap {
        &mut self.headers
    }
    pub fn extensions(&self) -> &http::Extensions {
        &self.extensions
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn version(&self) -> Version {
        Version::HTTP_11
    }
    pub fn content_length(&self) -> Option<u64> {
        Some(self.reply.body.len() as u64)
    }
    pub fn error_for_status(self) -> Result<Self> {
        if self.status.is_client_error() || self.status.is_server_error() {
            Err(Error::new(Kind::Status(self.status), Some(self.url)))
        } else {
            Ok(self)
        }
    }
    pub fn error_for_status_ref(&self) -> Result<&Self> {
        if self.status.is_client_error() || self.status.is_server_error() {
            Err(Error::new(Kind::Status(self.status), Some(self.url.clone())))
        } else {
            Ok(self)
        }
    }
    async fn receive(self) -> Result<(Vec<u8>, Url)> {
        let url = self.url;
        if self.reply.body_delay > Duration::ZERO {
            let wait = match self.until {
                Some(t) => self.reply.body_delay.min(t.saturating_sub(simrt::now())),
                None => self.reply.body_delay,
            };
            simrt::sleep(wait).await;
            if wait < self.reply.body_delay {
                return Err(Error::new(Kind::Timeout, Some(url)));
            }
        }
        match self.reply.broken {
            Some(NetErr::Timeout) => Err(Error::new(Kind::Timeout, Some(url))),
            Some(_) => Err(Error::new(Kind::Body, Some(url))),
            None => Ok((self.reply.body, url)),
        }
    }
    pub async fn bytes(self) -> Result<bytes::Bytes> {
        Ok(self.receive().await?.0.into())
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.receive().await?.0).into_owned())
    }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> {
        let (b, url) = self.receive().await?;
        serde_json::from_slice(&b).map_err(|e| Error { kind: Kind::Decode, url: Some(url), source: Some(Box::new(e)) })
    }
}

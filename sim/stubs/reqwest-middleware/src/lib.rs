//! Stand-in for `reqwest-middleware`: the same chain of middlewares around the simulated client.
use http::Extensions;
use reqwest::{header, Client, IntoUrl, Method, Request, Response};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::time::Duration;

#[derive(thiserror::Error, Debug)]
pub enum Error {
    #[error("Middleware error: {0}")]
    Middleware(#[source] anyhow::Error),
    #[error("Request error: {0}")]
    Reqwest(#[from] reqwest::Error),
}
impl From<anyhow::Error> for Error {
    fn from(e: anyhow::Error) -> Self {
        Error::Middleware(e)
    }
}
impl Error {
    pub fn middleware<E: std::error::Error + Send + Sync + 'static>(e: E) -> Self {
        Error::Middleware(e.into())
    }
    pub fn status(&self) -> Option<reqwest::StatusCode> {
        match self {
            Error::Reqwest(e) => e.status(),
            _ => None,
        }
    }
    pub fn is_timeout(&self) -> bool {
        matches!(self, Error::Reqwest(e) if e.is_timeout())
    }
    pub fn is_connect(&self) -> bool {
        matches!(self, Error::Reqwest(e) if e.is_connect())
    }
    pub fn is_status(&self) -> bool {
        matches!(self, Error::Reqwest(e) if e.is_status())
    }
    pub fn is_middleware(&self) -> bool {
        matches!(self, Error::Middleware(_))
    }
}
pub type Result<T> = std::result::Result<T, Error>;

type Fut<'a> = Pin<Box<dyn Future<Output = Result<Response>> + Send + 'a>>;

#[async_trait::async_trait]
pub trait Middleware: 'static + Send + Sync {
    async fn handle(&self, req: Request, extensions: &mut Extensions, next: Next<'_>) -> Result<Response>;
}

#[derive(Clone)]
pub struct Next<'a> {
    client: &'a Client,
    rest: &'a [Arc<dyn Middleware>],
}
impl<'a> Next<'a> {
    pub fn run(self, req: Request, extensions: &'a mut Extensions) -> Fut<'a> {
        match self.rest.split_first() {
            Some((m, rest)) => m.handle(req, extensions, Next { client: self.client, rest }),
            None => Box::pin(async move { Ok(self.client.execute(req).await?) }),
        }
    }
}

pub struct ClientBuilder {
    client: Client,
    stack: Vec<Arc<dyn Middleware>>,
}
impl ClientBuilder {
    pub fn new(client: Client) -> Self {
        ClientBuilder { client, stack: vec![] }
    }
    pub fn with<M: Middleware>(self, m: M) -> Self {
        self.with_arc(Arc::new(m))
    }
    pub fn with_arc(mut self, m: Arc<dyn Middleware>) -> Self {
        self.stack.push(m);
        self
    }
    pub fn build(self) -> ClientWithMiddleware {
        ClientWithMiddleware { client: self.client, stack: self.stack.into() }
    }
}
#[derive(Clone)]
pub struct ClientWithMiddleware {
    client: Client,
    stack: Arc<[Arc<dyn Middleware>]>,
}
impl From<Client> for ClientWithMiddleware {
    fn from(client: Client) -> Self {
        ClientBuilder::new(client).build()
    }
}
impl ClientWithMiddleware {
    pub fn get(&self, u: impl IntoUrl) -> RequestBuilder {
        self.request(Method::GET, u)
    }
    pub fn post(&self, u: impl IntoUrl) -> RequestBuilder {
        self.request(Method::POST, u)
    }
    pub fn request(&self, m: Method, u: impl IntoUrl) -> RequestBuilder {
        RequestBuilder { inner: self.client.request(m, u), client: self.clone(), extensions: Extensions::new() }
    }
    pub async fn execute(&self, r: Request) -> Result<Response> {
        self.execute_with_extensions(r, &mut Extensions::new()).await
    }
    pub async fn execute_with_extensions(&self, r: Request, x: &mut Extensions) -> Result<Response> {
        Next { client: &self.client, rest: &self.stack }.run(r, x).await
    }
}
pub struct RequestBuilder {
    inner: reqwest::RequestBuilder,
    client: ClientWithMiddleware,
    extensions: Extensions,
}
impl RequestBuilder {
    pub fn header<K, V>(mut self, k: K, v: V) -> Self
    where
        header::HeaderName: TryFrom<K>,
        header::HeaderValue: TryFrom<V>,
    {
        self.inner = self.inner.header(k, v);
        self
    }
    pub fn headers(mut self, h: header::HeaderMap) -> Self {
        self.inner = self.inner.headers(h);
        self
    }
    pub fn timeout(mut self, d: Duration) -> Self {
        self.inner = self.inner.timeout(d);
        self
    }
    pub fn query<T: serde::Serialize + ?Sized>(mut self, q: &T) -> Self {
        self.inner = self.inner.query(q);
        self
    }
    pub fn with_extension<T: Clone + Send + Sync + 'static>(mut self, t: T) -> Self {
        self.extensions.insert(t);
        self
    }
    pub fn build(self) -> reqwest::Result<Request> {
        self.inner.build()
    }
    pub async fn send(mut self) -> Result<Response> {
        let r = self.inner.build()?;
        self.client.execute_with_extensions(r, &mut self.extensions).await
    }
}

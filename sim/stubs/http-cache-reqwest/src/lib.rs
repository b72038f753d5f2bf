//! Stand-in for `http-cache-reqwest`: an in-memory cache of successful replies.
use http::Extensions;
use reqwest::{Request, Response};
use reqwest_middleware::{Middleware, Next, Result};
use std::collections::HashMap;
use std::path::PathBuf;
use std::sync::Mutex;

#[derive(Debug, Clone, Default)]
pub struct CACacheManager {
    pub path: PathBuf,
}
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq)]
pub enum CacheMode {
    #[default]
    Default,
    NoStore,
    Reload,
    NoCache,
    ForceCache,
    OnlyIfCached,
    IgnoreRules,
}
#[derive(Debug, Clone, Default)]
pub struct HttpCacheOptions {}
#[derive(Debug, Clone, Default)]
pub struct HttpCache<T> {
    pub mode: CacheMode,
    pub manager: T,
    pub options: HttpCacheOptions,
}
pub struct Cache<T>(pub HttpCache<T>);

static STORE: Mutex<Option<HashMap<(PathBuf, String), Vec<u8>>>> = Mutex::new(None);

#[async_trait::async_trait]
impl Middleware for Cache<CACacheManager> {
    async fn handle(&self, req: Request, x: &mut Extensions, next: Next<'_>) -> Result<Response> {
        let key = (self.0.manager.path.clone(), req.url().to_string());
        let hit = STORE.lock().unwrap().get_or_insert_default().get(&key).cloned();
        let url = req.url().clone();
        if let Some(b) = hit {
            return Ok(Response::__cached(url, b));
        }
        let r = next.run(req, x).await?;
        let (status, _, reply) = r.__parts();
        if status.is_success() && reply.broken.is_none() {
            STORE.lock().unwrap().get_or_insert_default().insert(key, reply.body);
        }
        Ok(r)
    }
}

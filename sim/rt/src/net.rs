//! Transport of simulated HTTP requests.
use std::cell::RefCell;
use std::time::Duration;
pub use url::Url;

#[derive(Clone, Debug)]
pub struct Req {
    pub method: String,
    pub url: Url,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum NetErr {
    Connect,
    Timeout,
    /// The connection broke before the response head was complete.
    Reset,
    /// The connection broke while the body was being received.
    BodyReset,
}
#[derive(Clone, Debug)]
pub struct Reply {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    /// The body ends with an error after `body`.
    pub broken: Option<NetErr>,
    /// Time between head and body.
    pub body_delay: Duration,
}
pub struct Fate {
    pub delay: Duration,
    pub result: Result<Reply, NetErr>,
}
type Handler = Box<dyn FnMut(&Req) -> Fate>;

thread_local! {
    static HANDLER: RefCell<Option<Handler>> = const { RefCell::new(None) };
    static SENT: RefCell<Vec<(u64, String)>> = const { RefCell::new(Vec::new()) };
}
pub fn set_handler(h: Handler) {
    HANDLER.with(|x| *x.borrow_mut() = Some(h))
}
pub fn clear() {
    let h = HANDLER.with(|x| x.borrow_mut().take());
    drop(h);
    SENT.with(|x| x.borrow_mut().clear());
}
/// When each request left (nanoseconds) and what it asked for, since the last call.
pub fn take_sent() -> Vec<(u64, String)> {
    SENT.with(|x| std::mem::take(&mut *x.borrow_mut()))
}
fn decide(req: &Req) -> Fate {
    crate::check_doom();
    SENT.with(|x| x.borrow_mut().push((crate::now().as_nanos() as u64, req.url.path().to_string())));
    let mut h = HANDLER.with(|x| x.borrow_mut().take()).expect("no transport");
    let fate = h(req);
    HANDLER.with(|x| {
        let mut x = x.borrow_mut();
        if x.is_none() {
            *x = Some(h)
        }
    });
    fate
}
pub async fn send(req: Req) -> Result<Reply, NetErr> {
    let fate = decide(&req);
    crate::sleep(fate.delay).await;
    fate.result
}

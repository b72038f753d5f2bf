//! A beacon node as its HTTP interface shows it, and a network in front of it.
use crate::chain::{Chain, SPE, hex};
use simkit::{Ctx, Rng};
use simrt::net::{Fate, NetErr, Reply, Req};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Debug)]
pub enum Head {
    /// the chain does not grow
    At(u64),
    /// the slot `from` is reached at time zero, then one more every 12 seconds up to a last one
    Clock { from: u64, until: u64 },
}

pub const NET_FAULTS: [&str; 10] =
    ["refused", "timeout", "reset", "http-500", "http-503", "http-429", "broken-body", "cut-body", "not-json", "http-502-html"];

/// What the network does to requests and answers.
#[derive(Clone, Debug, Default)]
pub struct Weather {
    /// longest delay of an answer
    pub delay_ms: u64,
    /// chance of a fault in thousandths, for at most `budget` requests
    pub per_mille: u64,
    pub budget: u64,
    /// faults hit exactly these requests (counted from 0) if not empty
    pub at: BTreeSet<u64>,
    pub kinds: Vec<usize>,
    pub seed: u64,
}
impl Weather {
    pub fn calm() -> Self {
        Weather::default()
    }
    pub fn delays(ctx: &mut Ctx) -> Self {
        let delay_ms = *ctx.t.pick(&[0u64, 20, 500, 4000]);
        Weather { delay_ms, seed: ctx.t.raw() | 1, ..Weather::default() }
    }
}

#[derive(Default)]
pub struct Seen {
    pub requests: u64,
    pub faults: BTreeMap<&'static str, u64>,
    /// (path, status or 0, intact)
    pub log: Vec<(String, u16, bool)>,
    /// when the latest request was made, and the shortest time between two successive polls of the finality of
    /// the head that were both answered
    pub latest: u64,
    pub shortest: Option<u64>,
}
impl Seen {
    fn note(&mut self, path: String, status: u16, intact: bool) {
        let now = simrt::now_ms();
        let poll = |l: &(String, u16, bool)| l.0.ends_with("states/head/finality_checkpoints") && l.1 == 200 && l.2;
        let before = self.log.last().is_some_and(poll);
        self.log.push((path, status, intact));
        if before && self.log.last().is_some_and(poll) {
            let t = now - self.latest;
            self.shortest = Some(self.shortest.map_or(t, |s| s.min(t)));
        }
        self.latest = now;
    }
}
pub type Log = Rc<RefCell<Seen>>;

/// Changes answers before the network sees them.
pub type Twist = Box<dyn FnMut(&str, Reply) -> Reply>;

pub struct Node {
    pub chain: Arc<Chain>,
    pub head: Head,
    /// additional slots the node lags behind
    pub lag: u64,
}
impl Node {
    pub fn head_slot(&self) -> u64 {
        let h = match self.head {
            Head::At(s) => s,
            Head::Clock { from, until } => (from + simrt::now_ms() / 12_000).min(until),
        };
        h.saturating_sub(self.lag).min(self.chain.last())
    }
    fn block_slot(&self, id: &str) -> Option<u64> {
        let head = self.head_slot();
        let c = &self.chain;
        let s = match id {
            "head" => c.block_before(head)?,
            "finalized" => *c.by_root.get(&c.get(head)?.state.fin.1)?,
            "genesis" => return None,
            _ => match id.strip_prefix("0x") {
                Some(h) => {
                    let mut r = [0; 32];
                    hex_to(h, &mut r)?;
                    *c.by_root.get(&r)?
                }
                None => id.parse().ok()?,
            },
        };
        (s <= head && c.get(s)?.block.is_some()).then_some(s)
    }
    fn state_slot(&self, id: &str) -> Option<u64> {
        let head = self.head_slot();
        let c = &self.chain;
        let s = match id {
            "head" => head,
            "finalized" => c.get(head)?.state.fin.0 * SPE,
            "justified" => c.get(head)?.state.cj.0 * SPE,
            _ => match id.strip_prefix("0x") {
                Some(h) => {
                    let mut r = [0; 32];
                    hex_to(h, &mut r)?;
                    (c.first()..=head).find(|s| c.get(*s).is_some_and(|x| x.state.root_of() == r))?
                }
                None => id.parse().ok()?,
            },
        };
        (s <= head && c.get(s).is_some()).then_some(s)
    }
    pub fn answer(&self, path: &str) -> Reply {
        let ok = |s: String| reply(200, s);
        let Some(k) = path.find("eth/v") else { return not_found() };
        let p = &path[k..];
        if let Some(id) = p.strip_prefix("eth/v1/beacon/headers/") {
            return match self.block_slot(id) {
                Some(s) => ok(self.chain.get(s).unwrap().block.as_ref().unwrap().header_json()),
                None => not_found(),
            };
        }
        if let Some(id) = p.strip_prefix("eth/v2/beacon/blocks/") {
            return match self.block_slot(id) {
                Some(s) => {
                    let x = self.chain.get(s).unwrap();
                    ok(x.block.as_ref().unwrap().block_json(x.state.version()))
                }
                None => not_found(),
            };
        }
        if let Some(id) = p.strip_prefix("eth/v2/debug/beacon/states/") {
            if id == "0" && self.chain.first() > 0 || id == "genesis" {
                return ok(self.chain.genesis.clone());
            }
            return match self.state_slot(id) {
                Some(s) => ok(self.chain.get(s).unwrap().state.state_json()),
                None => not_found(),
            };
        }
        if let Some(id) = p.strip_prefix("eth/v1/beacon/states/").and_then(|x| x.strip_suffix("/finality_checkpoints")) {
            return match self.state_slot(id) {
                Some(s) => ok(self.chain.get(s).unwrap().state.finality_json()),
                None => not_found(),
            };
        }
        if p == "eth/v1/beacon/genesis" {
            return ok(format!(
                r#"{{"data":{{"genesis_time":"1600000000","genesis_validators_root":"{}","genesis_fork_version":"0x00000000"}}}}"#,
                hex(&self.chain.gvr)
            ));
        }
        not_found()
    }
}
pub fn reply(status: u16, body: String) -> Reply {
    Reply {
        status,
        headers: vec![("content-type".into(), "application/json".into())],
        body: body.into_bytes(),
        broken: None,
        body_delay: Duration::ZERO,
    }
}
pub fn not_found() -> Reply {
    reply(404, r#"{"code":404,"message":"NOT_FOUND"}"#.into())
}
pub fn hex_to(s: &str, out: &mut [u8]) -> Option<()> {
    if s.len() != out.len() * 2 {
        return None;
    }
    for (i, o) in out.iter_mut().enumerate() {
        *o = u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()?;
    }
    Some(())
}

pub fn spoil(kind: &'static str, good: Reply, r: &mut Rng) -> Result<Reply, NetErr> {
    let html = |s: u16| Reply {
        status: s,
        headers: vec![("content-type".into(), "text/html".into())],
        body: b"<html><body>error</body></html>".to_vec(),
        broken: None,
        body_delay: Duration::ZERO,
    };
    match kind {
        "refused" => Err(NetErr::Connect),
        "timeout" => Err(NetErr::Timeout),
        "reset" => Err(NetErr::Reset),
        "http-500" => Ok(reply(500, r#"{"code":500,"message":"INTERNAL"}"#.into())),
        "http-503" => Ok(reply(503, r#"{"code":503,"message":"SYNCING"}"#.into())),
        "http-429" => Ok(reply(429, String::new())),
        "http-502-html" => Ok(html(502)),
        "not-json" => Ok(html(200)),
        "broken-body" => {
            let mut g = good;
            let k = r.idx(g.body.len().max(1));
            g.body.truncate(k);
            g.broken = Some(NetErr::BodyReset);
            Ok(g)
        }
        _ => {
            // the answer ends early without any sign of it
            let mut g = good;
            let k = r.idx(g.body.len().max(1));
            g.body.truncate(k);
            Ok(g)
        }
    }
}

/// Puts a node and its network behind the transport of this thread's runtime.
pub fn connect(node: Node, w: Weather, mut twist: Option<Twist>) -> Log {
    let log: Log = Rc::default();
    let l2 = log.clone();
    let mut r = Rng::new(w.seed);
    let mut w = w;
    simrt::net::set_handler(Box::new(move |req: &Req| {
        let mut seen = l2.borrow_mut();
        let n = seen.requests;
        seen.requests += 1;
        let delay = Duration::from_micros(if w.delay_ms == 0 { 1000 } else { 1000 + r.below(w.delay_ms * 1000) });
        let path = req.url.path().to_string();
        let mut good = node.answer(&path);
        if let Some(t) = &mut twist {
            good = t(&path, good);
        }
        if w.delay_ms > 0 {
            good.body_delay = Duration::from_micros(r.below(w.delay_ms * 500));
        }
        let hit = if w.at.is_empty() { w.per_mille > 0 && r.below(1000) < w.per_mille } else { w.at.contains(&n) };
        if hit && w.budget > 0 && !w.kinds.is_empty() {
            w.budget -= 1;
            let kind = NET_FAULTS[w.kinds[r.idx(w.kinds.len())]];
            *seen.faults.entry(kind).or_default() += 1;
            // a missing answer cannot be cut
            let status = good.status;
            let result = spoil(kind, good, &mut r);
            seen.note(path, if kind.contains("body") { status } else { 0 }, false);
            let delay = if kind == "timeout" { delay + Duration::from_secs(30) } else { delay };
            return Fate { delay, result };
        }
        seen.note(path, good.status, true);
        Fate { delay, result: Ok(good) }
    }));
    log
}

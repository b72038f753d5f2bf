//! The beacon API client under every kind of answer and timing (C13).
use crate::api::{Head, NET_FAULTS, Node, hex_to, reply, spoil};
use crate::build::{Env, URL, isolated, network, panic_text};
use crate::chain::{Chain, Profile, SPE, hex};
use host::{BeaconClient, ChainReader};
use serde_json::Value;
use simkit::{Ctx, Rng, RunResult, must, violate};
use simrt::net::{Fate, Reply, Req};
use ssz_rs::HashTreeRoot;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Kind {
    Header,
    Block,
    State,
    Finality,
}
#[derive(Clone, Debug)]
struct Call {
    kind: Kind,
    id: String,
    /// through the trait the readers use
    via_trait: bool,
}
impl Call {
    fn path(&self) -> String {
        match self.kind {
            Kind::Header => format!("/eth/v1/beacon/headers/{}", self.id),
            Kind::Block => format!("/eth/v2/beacon/blocks/{}", self.id),
            Kind::State => format!("/eth/v2/debug/beacon/states/{}", self.id),
            Kind::Finality => format!("/eth/v1/beacon/states/{}/finality_checkpoints", self.id),
        }
    }
}
/// What becomes of one answer.
#[derive(Clone, Debug, PartialEq)]
enum Fix {
    Intact,
    Net(&'static str),
    /// another status, with the intact body or an error body
    Status(u16, bool),
    /// a state's version that belongs to another fork
    Version(&'static str),
    /// no version, no data, or null in their place
    Gone(&'static str, bool),
    /// a value that is none of its field
    Odd(u64),
    /// finalized what is not justified
    Backward(u64),
    /// cut within the body
    Cut(u64),
}
const FORKS: [&str; 7] = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra", "fulu"];
const STATUS: [u16; 14] = [400, 401, 403, 405, 408, 410, 414, 429, 500, 501, 502, 503, 504, 404];

/// All places in a value, as pointers.
fn places(v: &Value, at: &str, out: &mut Vec<String>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                let p = format!("{at}/{k}");
                out.push(p.clone());
                places(x, &p, out);
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate().take(3) {
                let p = format!("{at}/{i}");
                out.push(p.clone());
                places(x, &p, out);
            }
        }
        _ => {}
    }
}
fn apply(fix: &Fix, good: Reply, r: &mut Rng) -> (Result<Reply, simrt::net::NetErr>, String) {
    let edit = |mut g: Reply, f: &mut dyn FnMut(&mut Value) -> String| {
        let Ok(mut v) = serde_json::from_slice::<Value>(&g.body) else { return (Ok(g), "unparsed".into()) };
        let what = f(&mut v);
        g.body = serde_json::to_vec(&v).unwrap();
        (Ok(g), what)
    };
    match fix {
        Fix::Intact => (Ok(good), String::new()),
        Fix::Net(k) => (spoil(k, good, r), String::new()),
        Fix::Status(s, body) => {
            let mut g = if *body { good } else { reply(*s, r#"{"code":0,"message":"x"}"#.into()) };
            g.status = *s;
            (Ok(g), String::new())
        }
        Fix::Version(f) => edit(good, &mut |v| {
            v["version"] = Value::String(f.to_string());
            String::new()
        }),
        Fix::Gone(k, null) => edit(good, &mut |v| {
            if *null {
                v[*k] = Value::Null;
            } else if let Some(o) = v.as_object_mut() {
                o.remove(*k);
            }
            String::new()
        }),
        Fix::Backward(n) => edit(good, &mut |v| {
            let e: u64 = v["data"]["current_justified"]["epoch"].as_str().and_then(|e| e.parse().ok()).unwrap_or(0);
            v["data"]["finalized"]["epoch"] = Value::String((e + n).to_string());
            v["data"]["finalized"]["root"] = Value::String(hex(&[7; 32]));
            String::new()
        }),
        Fix::Cut(n) => {
            let mut g = good;
            let k = (*n % g.body.len().max(1) as u64) as usize;
            g.body.truncate(k);
            (Ok(g), format!("after {k} bytes"))
        }
        Fix::Odd(n) => edit(good, &mut |v| {
            let mut all = vec![];
            places(&v["data"], "/data", &mut all);
            // the stand-in types carry the parts of a body that nothing reads without looking at them
            all.retain(|p| p.strip_prefix("/data/message/body/").is_none_or(|r| r.starts_with("attestations")));
            // without these it is a well-formed block of an earlier fork
            all.retain(|p| !p.ends_with("/committee_bits"));
            let mut x = Rng::new(*n);
            let p = all[x.idx(all.len())].clone();
            let how = x.below(5);
            if how == 0 {
                // the field is missing
                let (up, key) = p.rsplit_once('/').unwrap();
                let up = up.to_string();
                let key = key.to_string();
                if let Some(o) = v.pointer_mut(&up).and_then(|u| u.as_object_mut()) {
                    o.remove(&key);
                    return format!("{p} removed");
                }
            }
            let Some(slot) = (if how == 0 { None } else { v.pointer_mut(&p) }) else { return "unchanged".into() };
            *slot = match (how, &*slot) {
                (1, _) => Value::Null,
                (2, Value::Object(_)) => Value::String("zz".into()),
                (2, _) => Value::Object(Default::default()),
                (3, Value::String(s)) if s.starts_with("0x") && s.len() > 2 => Value::String(s[..s.len() - 1].to_string()),
                (3, Value::String(s)) if s.bytes().all(|c| c.is_ascii_digit()) => Value::String(format!("{s}1{}", "0".repeat(80))),
                (4, Value::String(s)) => Value::String(format!("-{s}")),
                _ => Value::String("zz".into()),
            };
            format!("{p} = {slot}").chars().take(120).collect()
        }),
    }
}

/// The outcome of a call as plain values.
#[derive(Clone, Debug, PartialEq)]
enum Got {
    Absent,
    Failed(String),
    /// kind-specific content
    Data(Value),
    State(u64, [u8; 32], String),
    Points(Vec<(u64, [u8; 32])>),
    Panic(String),
}
async fn perform(c: &BeaconClient, call: &Call) -> Got {
    let err = |e: &dyn std::fmt::Display| Got::Failed(e.to_string().chars().take(160).collect());
    let cps = |v: Vec<z_core::Checkpoint>| Got::Points(v.into_iter().map(|c| (c.epoch().as_u64(), c.root().0)).collect());
    match (call.kind, call.via_trait) {
        (Kind::Header, false) => match c.get_block_header(&call.id).await {
            Ok(None) => Got::Absent,
            Ok(Some(h)) => Got::Data(serde_json::to_value(&h).unwrap()),
            Err(e) => err(&e),
        },
        (Kind::Header, true) => match ChainReader::get_block_header(c, &call.id).await {
            Ok(None) => Got::Absent,
            Ok(Some(h)) => Got::Data(serde_json::to_value(&h).unwrap()),
            Err(e) => err(&e),
        },
        (Kind::Block, false) => match c.get_block(&call.id).await {
            Ok(None) => Got::Absent,
            Ok(Some(h)) => Got::Data(serde_json::to_value(&h).unwrap()),
            Err(e) => err(&e),
        },
        (Kind::Block, true) => match ChainReader::get_block(c, &call.id).await {
            Ok(None) => Got::Absent,
            Ok(Some(h)) => Got::Data(serde_json::to_value(&h).unwrap()),
            Err(e) => err(&e),
        },
        (Kind::State, _) => match c.get_beacon_state(&call.id).await {
            Ok(s) => Got::State(s.slot(), <[u8; 32]>::try_from(s.hash_tree_root().unwrap().as_ref()).unwrap(), s.version().to_string()),
            Err(e) => err(&e),
        },
        (Kind::Finality, false) => match c.get_finality_checkpoints(&call.id).await {
            Ok(f) => cps(vec![f.previous_justified.into(), f.current_justified.into(), f.finalized.into()]),
            Err(e) => err(&e),
        },
        (Kind::Finality, true) => match ChainReader::get_consensus_state(c, &call.id).await {
            Ok(s) => cps(vec![s.current_justified_checkpoint(), s.finalized_checkpoint()]),
            Err(e) => err(&e),
        },
    }
}
/// What an intact answer means.
fn expect(chain: &Chain, call: &Call, good: &Reply) -> Got {
    if good.status != 200 {
        return match call.kind {
            Kind::Header | Kind::Block => Got::Absent,
            _ => Got::Failed(String::new()),
        };
    }
    let v: Value = serde_json::from_slice(&good.body).unwrap();
    match call.kind {
        Kind::Header => Got::Data(if call.via_trait { v["data"]["header"].clone() } else { v["data"].clone() }),
        Kind::Block => Got::Data(v["data"]["message"].clone()),
        Kind::State => {
            let slot: u64 = v["data"]["slot"].as_str().unwrap().parse().unwrap();
            Got::State(slot, chain.get(slot).map_or([0; 32], |s| s.state.root_of()), v["version"].as_str().unwrap().into())
        }
        Kind::Finality => {
            let cp = |k: &str| {
                let mut r = [0; 32];
                hex_to(v["data"][k]["root"].as_str().unwrap().trim_start_matches("0x"), &mut r).unwrap();
                (v["data"][k]["epoch"].as_str().unwrap().parse().unwrap(), r)
            };
            Got::Points(if call.via_trait { vec![cp("current_justified"), cp("finalized")] } else { vec![cp("previous_justified"), cp("current_justified"), cp("finalized")] })
        }
    }
}

struct Plan {
    calls: Vec<(Call, Fix)>,
    /// first call of each group of concurrent calls
    groups: Vec<usize>,
    pauses: Vec<u64>,
    rps: u32,
    delay_ms: u64,
    order: u64,
    seed: u64,
}
struct Ran {
    got: Vec<(Got, String)>,
    sent: Vec<(u64, String)>,
    panic: Option<String>,
    sim_ms: u64,
    order: u64,
}
fn run(chain: &Arc<Chain>, head: u64, p: &Plan) -> Ran {
    let mut env = Env::plain(0, "/".into());
    env.hash_seed = p.seed | 1;
    isolated(&env, || {
        simrt::enter(p.order, 0);
        let node = Node { chain: chain.clone(), head: Head::At(head), lag: 0 };
        let plan: Rc<RefCell<BTreeMap<String, VecDeque<(usize, Fix)>>>> = Rc::default();
        for (i, (c, f)) in p.calls.iter().enumerate() {
            plan.borrow_mut().entry(c.path()).or_default().push_back((i, f.clone()));
        }
        let notes: Rc<RefCell<BTreeMap<usize, String>>> = Rc::default();
        let (n2, mut r, delay) = (notes.clone(), Rng::new(p.seed), p.delay_ms);
        simrt::net::set_handler(Box::new(move |req: &Req| {
            let path = req.url.path().to_string();
            let good = node.answer(&path);
            let next = plan.borrow_mut().get_mut(&path).and_then(|q| q.pop_front());
            let d = Duration::from_micros(if delay == 0 { 500 } else { r.below(delay * 1000) + 1 });
            let (result, what) = match &next {
                Some((_, f)) => apply(f, good, &mut r),
                None => (Ok(good), "unplanned".into()),
            };
            if let Some((i, _)) = next {
                n2.borrow_mut().insert(i, what);
            }
            Fate { delay: d, result }
        }));
        let out: Rc<RefCell<BTreeMap<usize, Got>>> = Rc::default();
        let o2 = out.clone();
        let r = simrt::process(|| {
            simrt::block_on(async {
                let client = BeaconClient::builder(url::Url::parse(URL).unwrap()).with_rate_limit(p.rps).build();
                for (g, first) in p.groups.iter().enumerate() {
                    let end = p.groups.get(g + 1).copied().unwrap_or(p.calls.len());
                    let mut tasks = vec![];
                    for i in *first..end {
                        let (c, call, out) = (client.clone(), p.calls[i].0.clone(), o2.clone());
                        tasks.push(simrt::spawn(async move {
                            let g = perform(&c, &call).await;
                            out.borrow_mut().insert(i, g);
                        }));
                    }
                    for t in tasks {
                        let _ = t.await;
                    }
                    if p.pauses[g] > 0 {
                        simrt::sleep(Duration::from_millis(p.pauses[g])).await;
                    }
                }
            })
        });
        let sent = simrt::net::take_sent();
        let st = simrt::leave();
        let panic = match r {
            simrt::Ended::Panicked(p) => Some(panic_text(&*p)),
            simrt::Ended::Killed(w) => Some(format!("killed: {w}")),
            _ => None,
        };
        let out = std::mem::take(&mut *out.borrow_mut());
        let notes = std::mem::take(&mut *notes.borrow_mut());
        let got = (0..p.calls.len()).map(|i| (out.get(&i).cloned().unwrap_or(Got::Panic("no result".into())), notes.get(&i).cloned().unwrap_or_default())).collect();
        Ran { got, sent, panic, sim_ms: st.sim_ms, order: st.order }
    })
}

pub fn c13(ctx: &mut Ctx) -> RunResult {
    let (spec, base) = network(ctx);
    let mut profile = Profile::draw(ctx, base, false);
    profile.epochs = profile.epochs.min(4);
    let seed = ctx.t.raw();
    let chain = Arc::new(Chain::build(&spec, &profile, seed));
    let head = chain.last() - ctx.t.below(20);
    let node = Node { chain: chain.clone(), head: Head::At(head), lag: 0 };
    let roots: Vec<[u8; 32]> = chain.by_root.keys().copied().collect();
    let mut calls: Vec<(Call, Fix)> = vec![];
    let mut groups = vec![];
    let mut pauses = vec![];
    let rps = *ctx.t.pick(&[0u32, 0, 1, 2, 5, 50]);
    for _ in 0..1 + ctx.t.below(5) {
        groups.push(calls.len());
        let mut paths = vec![];
        let most = if ctx.t.chance(1, 3) { 12 } else { 3 };
        for _ in 0..1 + ctx.t.below(most) {
            let kind = *ctx.t.pick(&[Kind::Header, Kind::Block, Kind::Finality, Kind::State]);
            let slot = chain.first() + ctx.t.below(chain.last() - chain.first() + 3);
            let slot = if kind == Kind::State || ctx.t.chance(1, 4) { slot - slot % SPE } else { slot };
            let root = roots[ctx.t.idx(roots.len())];
            let id = match (ctx.t.below(8), kind) {
                (0, _) => "head".to_string(),
                (1, _) => "finalized".to_string(),
                (2 | 3, Kind::Header | Kind::Block) => hex(&root),
                (2, _) if ctx.t.chance(1, 2) => "justified".to_string(),
                _ => slot.to_string(),
            };
            let via_trait = ctx.t.chance(1, 2);
            let call = Call { kind, id, via_trait };
            let good = node.answer(&call.path());
            let fix = match ctx.t.below(10) {
                0..=2 => Fix::Intact,
                3 => {
                    let k = ctx.t.idx(NET_FAULTS.len());
                    Fix::Net(NET_FAULTS[k])
                }
                4 => {
                    let s = *ctx.t.pick(&STATUS);
                    Fix::Status(s, ctx.t.chance(1, 2))
                }
                5 | 6 if good.status == 200 && kind == Kind::State => {
                    let own = serde_json::from_slice::<Value>(&good.body).unwrap()["version"].as_str().unwrap().to_string();
                    let others: Vec<&'static str> = FORKS.iter().copied().filter(|f| *f != own).rev().collect();
                    Fix::Version(others[ctx.t.idx(others.len())])
                }
                7 if good.status == 200 => {
                    let k = if kind == Kind::State && ctx.t.chance(1, 2) { "version" } else { "data" };
                    Fix::Gone(k, ctx.t.chance(1, 2))
                }
                5 | 6 if good.status == 200 && kind == Kind::Finality => Fix::Backward(ctx.t.below(3)),
                8 if good.status == 200 => Fix::Odd(ctx.t.raw()),
                9 if good.status == 200 => Fix::Cut(ctx.t.raw()),
                _ => Fix::Intact,
            };
            // concurrent requests for the same thing could not be told apart
            let path = call.path();
            if paths.contains(&path) {
                continue;
            }
            paths.push(path);
            calls.push((call, fix));
        }
        pauses.push(*ctx.t.pick(&[0u64, 0, 300, 5000]));
    }
    let plan = Plan { calls, groups, pauses, rps, delay_ms: *ctx.t.pick(&[0u64, 20, 2000]), order: ctx.t.raw(), seed: ctx.t.raw() };
    let ran = run(&chain, head, &plan);
    ctx.sim_ms += ran.sim_ms;
    ctx.steps += plan.calls.len() as u64;
    ctx.log(format!("{} calls in {} groups, limit {} per second, answers within {} ms", plan.calls.len(), plan.groups.len(), plan.rps, plan.delay_ms));
    for (i, ((c, f), (g, n))) in plan.calls.iter().zip(&ran.got).enumerate() {
        let mut g = format!("{g:?}");
        g.truncate(g.char_indices().nth(160).map_or(g.len(), |x| x.0));
        ctx.log(format!("  {}{} {}{}: {f:?} {n} -> {g}", if plan.groups.contains(&i) { "| " } else { "  " }, if c.via_trait { "reader" } else { "client" }, c.path(), ""));
    }
    if let Some(p) = &ran.panic {
        violate!("panic", "the client panics instead of reporting an error: {p}");
    }
    for ((c, f), (got, note)) in plan.calls.iter().zip(&ran.got) {
        let good = node.answer(&c.path());
        let want = expect(&chain, c, &good);
        let name = match f {
            Fix::Intact => "intact",
            Fix::Net(k) => k,
            Fix::Status(404, _) => "status-404",
            Fix::Status(..) => "other-status",
            Fix::Version(_) => "wrong-version",
            Fix::Gone(..) => "missing-member",
            Fix::Odd(_) => "malformed",
            Fix::Cut(_) => "truncated",
            Fix::Backward(_) => "contradiction",
        };
        if *f != Fix::Intact {
            ctx.fault(name);
        }
        let same = |a: &Got, b: &Got| match (a, b) {
            (Got::Failed(_), Got::Failed(_)) => true,
            // the genesis state is not part of the simulated chain
            (Got::State(0, _, x), Got::State(0, _, y)) => x == y,
            (a, b) => a == b,
        };
        let absent_allowed = matches!(c.kind, Kind::Header | Kind::Block);
        // is the answer an explicit 404?
        let not_found = match f {
            Fix::Status(s, _) => *s == 404,
            Fix::Net(k) => good.status == 404 && k.contains("body"),
            _ => good.status == 404,
        };
        let what = || format!("{f:?} {note} on {}", c.path());
        if not_found {
            let w = if absent_allowed { Got::Absent } else { Got::Failed(String::new()) };
            must!(same(got, &w), "not-found", "a not-found answer gives {got:?} ({})", what());
        } else {
            must!(*got != Got::Absent, "false-absence", "reported as absent: {}", what());
            match f {
                Fix::Intact => must!(same(got, &want), "changed", "an intact answer for {} gives {got:?}, the chain has {want:?}", c.path()),
                // the client hands on what it got, the readers must not take it
                Fix::Backward(_) if !c.via_trait => must!(!matches!(got, Got::Absent | Got::Panic(_)), "panic", "{got:?} ({})", what()),
                Fix::Odd(_) | Fix::Cut(_) | Fix::Gone(..) => {
                    must!(matches!(got, Got::Failed(_)) || same(got, &want), "false-data", "a damaged answer gives {got:?} ({})", what())
                }
                _ => must!(matches!(got, Got::Failed(_)), "error-hidden", "{} gives {got:?}", what()),
            }
        }
        ctx.cover_of(&(c.kind, c.via_trait, name, std::mem::discriminant(got), good.status));
    }
    // every call asked once, and no faster than allowed
    let mut want: Vec<String> = plan.calls.iter().map(|c| c.0.path()).collect();
    let mut sent: Vec<String> = ran.sent.iter().map(|s| s.1.clone()).collect();
    want.sort();
    sent.sort();
    sent.dedup();
    want.dedup();
    must!(sent == want, "requests", "asked for {sent:?}, needed {want:?}");
    if plan.rps > 0 {
        let t: Vec<u64> = ran.sent.iter().map(|s| s.0).collect();
        let n = plan.rps as u64;
        for i in 0..t.len() {
            for j in i..t.len() {
                let count = (j - i + 1) as u64;
                let allowed = n + (t[j] - t[i]) / (1_000_000_000 / n);
                must!(count <= allowed, "rate", "{count} requests within {} ms at {n} per second", (t[j] - t[i]) / 1_000_000);
            }
        }
        ctx.count_n("limited_requests", t.len() as u64);
    }
    ctx.cover_of(&(plan.rps, plan.calls.len(), ran.order));
    Ok(())
}

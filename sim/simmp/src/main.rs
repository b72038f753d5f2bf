//! Simulation of a proof sender, a faulty network and a verifier over the real `ssz-multiproofs`.
mod alloc;


use simwire::*;
use simkit::{catch, must, violate, Check, Ctx, RunResult, DEFAULT_CHECK};
use simtree::{Node, H};
use ssz_multiproofs::{Multiproof, MultiproofBuilder};
use ssz_rs::{GeneralizedIndexable, HashTreeRoot, MerkleizationError, Path, Prove};
use std::collections::BTreeSet;

#[global_allocator]
static A: alloc::Tracking = alloc::Tracking;

fn hx(h: &[u8]) -> String {
    h.iter().take(6).map(|b| format!("{b:02x}")).collect()
}

/// What a verifier learns from delivered bytes.
#[derive(Debug, Clone, PartialEq)]
struct Reading {
    verdict: Result<(), String>,
    root: Result<H, String>,
    values: Vec<(u64, H)>,
    nodes: Vec<(u64, H)>,
}

fn decode(bytes: &[u8], c: Codec) -> Option<Multiproof<'_>> {
    // the bit-vector decoder (a dependency) panics on inconsistent lengths: such bytes do not decode
    catch(|| match c {
        Codec::Bincode => bincode::deserialize(bytes).ok(),
        Codec::Postcard => postcard::from_bytes(bytes).ok(),
    })
    .ok()
    .flatten()
}

fn read(p: &Multiproof<'_>, root: &H) -> Reading {
    Reading {
        verdict: p.verify(root).map_err(|e| e.to_string()),
        root: p.calculate_root().map_err(|e| e.to_string()),
        values: p.values().map(|(g, v)| (g, *v)).collect(),
        nodes: p.nodes().map(|(g, v)| (g, *v)).collect(),
    }
}

/// The verdict of the same library as a debug build has it, where overflowing arithmetic panics.
fn checked_verdict(bytes: &[u8], c: Codec, root: &H) -> Option<Result<Result<(), String>, String>> {
    type P<'a> = ssz_multiproofs_checked::Multiproof<'a>;
    let p: P<'_> = catch(|| match c {
        Codec::Bincode => bincode::deserialize(bytes).ok(),
        Codec::Postcard => postcard::from_bytes(bytes).ok(),
    })
    .ok()
    .flatten()?;
    Some(catch(|| {
        let v = p.verify(root).map_err(|e| e.to_string());
        if v.is_ok() {
            let n = p.values().count();
            for (g, _) in p.nodes().take(3) {
                let _ = p.get(g);
            }
            let _ = (n, p.values().next_assert_gindex(1).is_ok());
        }
        v
    }))
}

/// Every fact a verified proof states must be a fact of the tree.
fn check_true(ctx: &mut Ctx, tree: &Node, p: &Multiproof<'_>, r: &Reading) -> RunResult {
    for (what, list) in [("values", &r.values), ("nodes", &r.nodes)] {
        for (g, v) in list.iter() {
            let t = tree.at(*g).map(|n| n.root());
            must!(
                t.as_ref() == Some(v),
                format!("false-{what}"),
                "verified proof reports {} at gindex {g} but the tree has {:?}",
                hx(v),
                t.map(|t| hx(&t))
            );
            ctx.count("facts_checked");
        }
    }
    // lookup
    let n = r.values.len();
    for k in 0..4 {
        let g = match k {
            0 if n > 0 => r.values[ctx.t.idx(n)].0,
            1 if n > 0 => r.values[ctx.t.idx(n)].0 ^ 1,
            2 if !r.nodes.is_empty() => r.nodes[ctx.t.idx(r.nodes.len())].0,
            _ => ctx.t.below(64),
        };
        if let Some(v) = p.get(g) {
            let t = tree.at(g).map(|n| n.root());
            must!(t.as_ref() == Some(v), "false-get", "get({g}) of a verified proof returns {}, tree has {:?}", hx(v), t.map(|t| hx(&t)));
        }
    }
    // sequential reads with expected positions, some of them wrong
    let mut it = p.values();
    for (i, (g, _)) in r.values.iter().enumerate() {
        let want = if ctx.t.chance(1, 8) { if i + 1 < n { r.values[i + 1].0 } else { g ^ 1 } } else { *g };
        match it.next_assert_gindex(want) {
            Ok(v) => {
                let t = tree.at(want).map(|n| n.root());
                must!(t.as_ref() == Some(v), "false-next", "next_assert_gindex({want}) returned {}, tree has {:?}", hx(v), t.map(|t| hx(&t)));
            }
            Err(_) => break,
        }
    }
    Ok(())
}

/// Byzantine alterations of a proof. Returns the names of the faults that were applied.
fn tamper(ctx: &mut Ctx, w: &mut Wire, other: &Wire) -> Vec<&'static str> {
    let mut done = vec![];
    let n = ctx.t.below(4);
    for _ in 0..n {
        let leaves = w.data.len() / 32;
        let name = match ctx.t.below(18) {
            0 if leaves > 0 => {
                let i = ctx.t.idx(w.data.len());
                w.data[i] ^= 1 << ctx.t.below(8);
                "flip-data"
            }
            1 if leaves > 1 => {
                let (a, b) = (ctx.t.idx(leaves), ctx.t.idx(leaves));
                for k in 0..32 {
                    w.data.swap(a * 32 + k, b * 32 + k);
                }
                "swap-nodes"
            }
            2 if leaves > 0 => {
                let a = ctx.t.idx(leaves);
                w.data.drain(a * 32..a * 32 + 32);
                "drop-node"
            }
            3 if leaves > 0 => {
                let a = ctx.t.idx(leaves);
                let c = w.data[a * 32..a * 32 + 32].to_vec();
                let at = ctx.t.idx(leaves + 1) * 32;
                w.data.splice(at..at, c);
                "duplicate-node"
            }
            4 if !w.descriptor.is_empty() => {
                let i = ctx.t.idx(w.descriptor.len());
                let b = w.descriptor[i];
                w.descriptor.set(i, !b);
                "flip-descriptor"
            }
            5 => {
                let i = ctx.t.idx(w.descriptor.len() + 1);
                let b = ctx.t.chance(1, 2);
                w.descriptor.insert(i, b);
                "insert-descriptor"
            }
            6 if !w.descriptor.is_empty() => {
                let i = ctx.t.idx(w.descriptor.len());
                w.descriptor.remove(i);
                "delete-descriptor"
            }
            7 if !w.value_mask.is_empty() => {
                let i = ctx.t.idx(w.value_mask.len());
                let b = w.value_mask[i];
                w.value_mask.set(i, !b);
                "flip-mask"
            }
            8 if !w.value_mask.is_empty() => {
                let i = ctx.t.idx(w.value_mask.len());
                w.value_mask.remove(i);
                "shift-mask-left"
            }
            9 => {
                let i = ctx.t.idx(w.value_mask.len() + 1);
                let b = ctx.t.chance(1, 2);
                w.value_mask.insert(i, b);
                "shift-mask-right"
            }
            10 => {
                for _ in 0..1 + ctx.t.below(40) {
                    w.value_mask.push(true);
                }
                "extend-mask"
            }
            11 => {
                w.data = other.data.clone();
                "foreign-data"
            }
            12 => {
                w.descriptor = other.descriptor.clone();
                "foreign-descriptor"
            }
            13 => {
                w.value_mask = other.value_mask.clone();
                "foreign-mask"
            }
            14 => {
                // replace a leaf of the descriptor by an internal node over two given nodes (or back)
                let ones: Vec<usize> = w.descriptor.iter_ones().collect();
                if ones.is_empty() || leaves < ones.len() {
                    continue;
                }
                let k = ctx.t.idx(ones.len());
                w.descriptor.insert(ones[k], false);
                w.descriptor.insert(ones[k], false);
                w.descriptor.remove(ones[k]);
                w.descriptor.insert(ones[k] + 1, true);
                let mut x = vec![0u8; 32];
                x[0] = ctx.t.below(256) as u8;
                w.data.splice(k * 32..k * 32, x);
                "split-leaf"
            }
            15 => {
                for _ in 0..1 + ctx.t.below(70) {
                    w.descriptor.push(ctx.t.chance(1, 2));
                }
                "extend-descriptor"
            }
            16 => {
                let cut = ctx.t.idx(w.data.len() + 1);
                w.data.truncate(cut);
                "truncate-data"
            }
            _ => {
                let cut = 1 + ctx.t.idx(70);
                for _ in 0..cut {
                    w.data.push(ctx.t.below(256) as u8);
                }
                "extend-data"
            }
        };
        done.push(name);
    }
    for d in &done {
        ctx.fault(d);
    }
    done
}

fn random_mask(ctx: &mut Ctx, n: usize) -> Vec<bool> {
    let mut r = ctx.t.fork();
    let dens = ctx.t.below(4);
    (0..n).map(|_| dens == 0 || r.below(4) < dens).collect()
}

fn codec(ctx: &mut Ctx) -> Codec {
    *ctx.t.pick(&[Codec::Bincode, Codec::Postcard])
}

/// Bits with a representation whose first element is not aligned (accepted by the wire format).
fn misalign(b: &Bits, by: usize) -> Bits {
    let x: Bits = std::iter::repeat_n(true, by).chain(b.iter().map(|x| *x)).collect();
    Bits::from_bitslice(&x[by..])
}

fn c06(ctx: &mut Ctx) -> RunResult {
    let (tree, kind) = random_tree(ctx, true);
    let (other_tree, _) = random_tree(ctx, true);
    let root = tree.root();
    ctx.log(format!("tree kind {kind}, root {}", hx(&root)));
    let deliveries = 1 + ctx.t.below(4);
    for _ in 0..deliveries {
        ctx.steps += 1;
        let stop = ctx.t.below(8);
        let mut r = ctx.t.fork();
        let f = frontier(&mut r, &tree, stop, 300);
        let mask = random_mask(ctx, f.len());
        let mut w = encode_frontier(&f, &mask);
        if kind == "over-deep" {
            ctx.fault("over-deep-proof");
        }
        let g = frontier(&mut r, &other_tree, stop, 60);
        let gm = random_mask(ctx, g.len());
        let other = encode_frontier(&g, &gm);
        let honest = w.clone();
        let mut faults = tamper(ctx, &mut w, &other);
        if ctx.t.chance(1, 6) {
            w.max_stack_depth = ctx.t.below(100) as usize;
            faults.push("hint");
            ctx.fault("alter-hint");
        }
        if ctx.t.chance(1, 10) {
            w.descriptor = misalign(&w.descriptor, 1 + ctx.t.idx(31));
            w.value_mask = misalign(&w.value_mask, 1 + ctx.t.idx(31));
            faults.push("misaligned");
            ctx.fault("misaligned-bits");
        }
        let c = codec(ctx);
        let mut bytes = w.encode(c);
        if ctx.t.chance(1, 6) {
            for _ in 0..1 + ctx.t.below(3) {
                let i = ctx.t.idx(bytes.len());
                bytes[i] ^= 1 << ctx.t.below(8);
            }
            faults.push("wire-bytes");
            ctx.fault("flip-wire-bytes");
        }
        if ctx.t.chance(1, 20) {
            let n = ctx.t.idx(bytes.len());
            bytes.truncate(n);
            faults.push("wire-truncated");
            ctx.fault("truncate-wire");
        }
        let Some(p) = decode(&bytes, c) else {
            ctx.count("undecodable");
            continue;
        };
        // an abort while reading is a matter of C08; here it counts as a refusal
        let Ok(rd) = catch(|| read(&p, &root)) else {
            ctx.count("aborted");
            continue;
        };
        let accepted = rd.verdict.is_ok();
        ctx.log(format!("faults {faults:?}: {:?}, {} values", rd.verdict, rd.values.len()));
        let depth = f.iter().map(|x| x.0.len()).max().unwrap_or(0);
        ctx.cover_of(&(kind, accepted, depth / 4, f.len().min(64) / 4, &faults));
        if accepted {
            ctx.count("accepted");
            if w != honest || !faults.is_empty() {
                ctx.count("accepted_although_altered");
            }
            check_true(ctx, &tree, &p, &rd)?;
            must!(rd.root == Ok(root), "verify-root", "verify accepted but calculate_root gives {:?}", rd.root.as_ref().map(|r| hx(r)));
            // the reported nodes must by themselves imply the root
            let back: Wire = match c {
                Codec::Bincode => bincode::deserialize(&bytes).unwrap(),
                Codec::Postcard => postcard::from_bytes(&bytes).unwrap(),
            };
            match reference_read(&back) {
                Some((pos, rr)) => {
                    must!(rr == root, "reference-root", "independent reading of an accepted proof gives another root");
                    for ((path, h), (gi, v)) in pos.iter().zip(rd.nodes.iter()) {
                        must!(
                            gindex(path) == Some(*gi) && h == v,
                            "reference-position",
                            "accepted proof: node {} is at depth {} gindex {:?} but is reported at {gi}",
                            hx(h),
                            path.len(),
                            gindex(path)
                        );
                    }
                }
                None => ctx.count("accepted_although_not_one_tree"),
            }
        } else {
            ctx.count("rejected");
        }
    }
    if ctx.sample.is_none() {
        ctx.sample = Some(ctx.trace.join("; "));
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

#[derive(Debug)]
struct Container(Node);
impl HashTreeRoot for Container {
    fn tree_node(&self) -> Node {
        self.0.clone()
    }
}
impl GeneralizedIndexable for Container {
    fn compute_generalized_index(_: usize, _: Path) -> Result<usize, MerkleizationError> {
        Err(MerkleizationError::InvalidPath)
    }
}
impl Prove for Container {}

#[derive(Debug, Clone, Default, ssz_rs::SimpleSerialize)]
struct Inner {
    key: ssz_rs::ByteVector<48>,
    cred: ssz_rs::ByteVector<32>,
    balance: u64,
    flag: bool,
    e1: u64,
    e2: u64,
    e3: u64,
}
#[derive(Debug, Clone, Default, ssz_rs::SimpleSerialize)]
struct Typed {
    time: u64,
    root: ssz_rs::ByteVector<32>,
    nested: Inner,
    items: ssz_rs::List<Inner, 1099511627776>,
    balances: ssz_rs::List<u64, 1099511627776>,
    mixes: ssz_rs::Vector<ssz_rs::ByteVector<32>, 64>,
    tail: u64,
}

fn random_typed(r: &mut simkit::Rng, n: usize) -> Typed {
    let inner = |r: &mut simkit::Rng| Inner {
        key: r.bytes::<48>().into(),
        cred: r.bytes::<32>().into(),
        balance: r.next() >> 20,
        flag: r.below(2) == 1,
        e1: r.below(50),
        e2: r.below(50),
        e3: u64::MAX,
    };
    Typed {
        time: r.next(),
        root: r.bytes::<32>().into(),
        nested: inner(r),
        items: (0..n).map(|_| inner(r)).collect(),
        balances: (0..n).map(|_| r.next() >> 10).collect(),
        mixes: (0..64).map(|_| r.bytes::<32>().into()).collect::<Vec<_>>().try_into().unwrap(),
        tail: r.next(),
    }
}

enum Reg {
    Gindex(u64),
    Many(Vec<u64>),
    Path(Vec<ssz_rs::PathElement>, u64),
}

fn build<T: Prove + GeneralizedIndexable + Sync>(c: &T, regs: &[Reg]) -> Result<Multiproof<'static>, String> {
    let mut b = MultiproofBuilder::new();
    for r in regs {
        b = match r {
            Reg::Gindex(g) => b.with_gindex(*g as usize),
            Reg::Many(v) => b.with_gindices(v.iter().map(|g| *g as usize)),
            Reg::Path(p, _) => b.with_path::<T>(p),
        };
    }
    match catch(|| b.build(c)) {
        Ok(Ok(p)) => Ok(p),
        Ok(Err(e)) => Err(e.to_string()),
        Err(e) => Err(format!("abort: {e}")),
    }
}

fn plan(ctx: &mut Ctx) -> rayon_core::sim::Plan {
    let random = ctx.t.chance(7, 8);
    let threads = *ctx.t.pick(&[1usize, 2, 3, 4, 8, 16, 64]);
    // halves that interrupt each other
    let preempt = if random && ctx.t.chance(1, 6) { 1 + ctx.t.below(24) as u32 } else { 0 };
    let threads = if preempt > 0 { threads.clamp(2, 4) } else { threads };
    rayon_core::sim::Plan { threads, seed: ctx.t.raw(), random, preempt }
}

/// Chooses positions none of which is above another.
fn pick_positions(ctx: &mut Ctx, tree: &Node) -> Vec<u64> {
    let mut r = ctx.t.fork();
    let most = if ctx.t.chance(1, 6) { 120 } else { 12 };
    let want = 1 + ctx.t.below(most) as usize;
    let deep = ctx.t.below(3);
    let mut out: Vec<u64> = vec![];
    let mut tries = 0;
    while out.len() < want && tries < want * 6 {
        tries += 1;
        // random walk down
        let mut n = tree.clone();
        let mut g = 1u64;
        // sometimes start next to an already chosen position
        if !out.is_empty() && r.below(3) == 0 {
            let o = out[r.idx(out.len())];
            let up = r.below(4) as u32;
            g = (o >> up) ^ 1;
            if g < 2 {
                continue;
            }
            match tree.at(g) {
                Some(x) => n = x,
                None => continue,
            }
        }
        while let Some((a, b)) = n.children() {
            if g > 1 && r.below(12) == 0 && deep != 2 || g >= 1 << 62 {
                break;
            }
            // prefer non-zero sub-trees
            let right = match (&a, &b) {
                (Node::Zero(_), Node::Branch(_)) => r.below(8) != 0,
                (Node::Branch(_), Node::Zero(_)) => r.below(8) == 0,
                _ => r.below(2) == 1,
            };
            n = if right { b } else { a };
            g = g * 2 + right as u64;
        }
        if g < 2 || out.iter().any(|o| is_ancestor(*o, g) || is_ancestor(g, *o)) {
            continue;
        }
        out.push(g);
    }
    if out.is_empty() {
        out.push(2 + r.below(2));
    }
    out
}

fn c07(ctx: &mut Ctx) -> RunResult {
    rayon_core::sim::clear();
    let shape = ctx.t.below(60);
    if shape < 40 {
        let (tree, kind) = random_tree(ctx, false);
        let pos = pick_positions(ctx, &tree);
        let regs = pos.iter().map(|g| Reg::Gindex(*g)).collect();
        c07_case(ctx, &Container(tree), kind, regs)
    } else if shape < 59 {
        let mut r = ctx.t.fork();
        let n = ctx.t.idx(20);
        let typed = random_typed(&mut r, n);
        let tree = typed.tree_node();
        let mut regs: Vec<Reg> = vec![];
        let mut have: Vec<u64> = vec![];
        for _ in 0..1 + ctx.t.below(25) {
            let i = r.idx(n.max(1));
            let f = ["balance", "flag", "e1", "e2", "e3", "cred"][r.idx(6)];
            let p: Vec<ssz_rs::PathElement> = match r.below(9) {
                0 => vec!["time".into()],
                1 => vec!["nested".into(), f.into()],
                2 if n > 0 => vec!["items".into(), i.into(), f.into()],
                3 if n > 0 => vec!["items".into(), i.into(), "key".into(), 0.into()],
                4 if n > 0 => vec!["items".into(), i.into(), "key".into(), 47.into()],
                5 => vec!["items".into(), ssz_rs::PathElement::Length],
                6 if n > 0 => vec!["balances".into(), i.into()],
                7 => vec!["mixes".into(), r.idx(64).into()],
                _ => vec!["root".into()],
            };
            let g = Typed::generalized_index(&p).unwrap() as u64;
            if have.iter().any(|o| *o != g && (is_ancestor(*o, g) || is_ancestor(g, *o))) {
                continue;
            }
            have.push(g);
            regs.push(Reg::Path(p, g));
        }
        let _ = tree;
        c07_case(ctx, &typed, "typed", regs)
    } else {
        // large request sets: the only ones for which the index computation itself is split
        if !ctx.t.chance(1, if ctx.thorough { 4 } else { 12 }) {
            return Ok(());
        }
        let depth = 15 + ctx.t.below(3) as u32;
        let n = (20_000 + ctx.t.below(20_000)).min(1 << depth);
        let mut r = ctx.t.fork();
        let leaves: Vec<Node> = (0..1u64 << depth).map(|_| Node::leaf(r.bytes())).collect();
        let tree = Node::merkleize(&leaves, depth);
        let base = 1u64 << depth;
        let mut set = BTreeSet::new();
        if ctx.t.chance(1, 2) {
            set.extend((0..n).map(|i| base + i));
        } else {
            while (set.len() as u64) < n * 3 / 4 {
                set.insert(base + r.below(base));
            }
        }
        let v: Vec<u64> = set.into_iter().collect();
        ctx.count("large_sets");
        c07_case(ctx, &Container(tree), "large", vec![Reg::Many(v)])
    }
}

fn c07_case<T: Prove + GeneralizedIndexable + Sync>(ctx: &mut Ctx, cont: &T, kind: &'static str, mut regs: Vec<Reg>) -> RunResult {
    let tree = cont.tree_node();
    let root = tree.root();
    let mut want: Vec<u64> = regs
        .iter()
        .flat_map(|r| match r {
            Reg::Gindex(g) | Reg::Path(_, g) => vec![*g],
            Reg::Many(v) => v.clone(),
        })
        .collect();
    want.sort();
    want.dedup();
    want.sort_by(|a, b| tree_order(*a, *b));
    if want.is_empty() {
        return Ok(());
    }
    let expect: Vec<(u64, H)> = want.iter().map(|g| (*g, tree.at(*g).unwrap().root())).collect();
    ctx.log(format!("{kind}: {} positions", want.len()));
    // the same request under several schedules and registration orders
    let rounds = if kind == "large" { 2 } else { 3 };
    let mut first: Option<Vec<u8>> = None;
    for round in 0..rounds {
        ctx.steps += 1;
        let p = plan(ctx);
        ctx.t.shuffle(&mut regs);
        if ctx.t.chance(1, 5) {
            // registering a position twice
            let extra: Vec<u64> = want.iter().take(3).copied().collect();
            regs.push(Reg::Many(extra));
            ctx.fault("duplicate-registration");
        }
        ctx.log(format!("round {round}: {} workers, random schedule {}", p.threads, p.random));
        if p.random {
            ctx.fault("random-schedule");
        }
        if p.preempt > 0 {
            ctx.fault("preempted-halves");
        }
        rayon_core::sim::install(p.clone());
        let built = build(cont, &regs);
        let (joins, sig) = rayon_core::sim::take_stats();
        rayon_core::sim::clear();
        ctx.count_n("joins", joins);
        ctx.cover_of(&("sched", sig, p.threads));
        let proof = match built {
            Ok(p) => p,
            Err(e) => violate!("build-failed", "building a proof for {} provable positions failed: {e} ({:?}...)", want.len(), &want[..want.len().min(8)]),
        };
        let c = codec(ctx);
        let bytes = match c {
            Codec::Bincode => bincode::serialize(&proof).unwrap(),
            Codec::Postcard => postcard::to_stdvec(&proof).unwrap(),
        };
        // deliver possibly twice and out of order with the proof of another container
        let copies = 1 + ctx.t.below(2);
        for _ in 0..copies {
            let Some(back) = decode(&bytes, c) else { violate!("roundtrip-decode", "a built proof does not decode after {c:?}") };
            must!(back == proof, "roundtrip-equal", "a built proof differs after {c:?}");
            let rd = match catch(|| read(&back, &root)) {
                Ok(r) => r,
                Err(e) => violate!("verify-abort", "verifying a built proof aborted: {e}"),
            };
            must!(rd.verdict.is_ok(), "verify-built", "a built proof does not verify: {:?} ({kind}, {:?}...)", rd.verdict, &want[..want.len().min(8)]);
            must!(
                rd.values == expect,
                "values-built",
                "a built proof reports {:?} instead of {:?}",
                rd.values.iter().map(|x| x.0).take(12).collect::<Vec<_>>(),
                expect.iter().map(|x| x.0).take(12).collect::<Vec<_>>()
            );
            let mut it = back.values();
            for (g, v) in &expect {
                match it.next_assert_gindex(*g) {
                    Ok(x) => must!(x == v, "next-built", "next_assert_gindex({g}) returned another value"),
                    Err(e) => violate!("next-built", "next_assert_gindex({g}) of a built proof: {e}"),
                }
            }
            must!(it.next().is_none(), "extra-built", "a built proof reports extra values");
            for _ in 0..2 {
                let (g, v) = &expect[ctx.t.idx(expect.len())];
                if kind != "large" {
                    must!(back.get(*g) == Some(v), "get-built", "get({g}) of a built proof is wrong");
                }
            }
            let mut wrong = root;
            wrong[ctx.t.idx(32)] ^= 1 << ctx.t.below(8);
            must!(back.verify(&wrong).is_err(), "wrong-root", "a built proof verifies against another root");
            ctx.count("deliveries");
        }
        let canon = bincode::serialize(&proof).unwrap();
        match &first {
            None => first = Some(canon),
            Some(f) => must!(*f == canon, "schedule-dependent", "the same request built different proofs under different schedules or registration orders"),
        }
    }
    let depth = want.iter().map(|g| 63 - g.leading_zeros()).max().unwrap();
    ctx.cover_of(&(kind, want.len().min(64), depth));
    if ctx.sample.is_none() {
        ctx.sample = Some(ctx.trace.join("; "));
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

fn random_wire(ctx: &mut Ctx) -> (Wire, H, &'static str) {
    let (tree, _) = random_tree(ctx, true);
    let mut r = ctx.t.fork();
    let stop = ctx.t.below(8);
    let f = frontier(&mut r, &tree, stop, 200);
    let mask = random_mask(ctx, f.len());
    let mut w = encode_frontier(&f, &mask);
    let root = tree.root();
    let kind = match ctx.t.below(7) {
        0 => "honest",
        1 => {
            let other = w.clone();
            tamper(ctx, &mut w, &other);
            "tampered"
        }
        2 => {
            let n = ctx.t.below(400);
            w.descriptor = (0..n).map(|_| r.below(2) == 1).collect();
            ctx.fault("random-descriptor");
            "random-descriptor"
        }
        3 => {
            let n = ctx.t.below(3000);
            w.descriptor = (0..n).map(|_| false).collect();
            if ctx.t.chance(1, 2) {
                for _ in 0..ctx.t.below(5) {
                    w.descriptor.push(true);
                }
            }
            ctx.fault("all-internal");
            "all-internal"
        }
        4 => {
            let n = ctx.t.below(300);
            w.descriptor = (0..n).map(|_| true).collect();
            ctx.fault("all-leaves");
            "all-leaves"
        }
        5 => {
            let n = ctx.t.idx(w.data.len() + 1);
            w.data.truncate(n);
            ctx.fault("short-data");
            "short-data"
        }
        _ => {
            w.descriptor = Bits::new();
            if ctx.t.chance(1, 2) {
                w.data.clear();
            }
            if ctx.t.chance(1, 2) {
                w.value_mask = Bits::new();
            }
            ctx.fault("empty-descriptor");
            "empty-descriptor"
        }
    };
    (w, root, kind)
}

fn c08(ctx: &mut Ctx) -> RunResult {
    let (mut w, root, kind) = random_wire(ctx);
    if ctx.t.chance(1, 8) {
        w.descriptor = misalign(&w.descriptor, 1 + ctx.t.idx(31));
        w.value_mask = misalign(&w.value_mask, 1 + ctx.t.idx(31));
        ctx.fault("misaligned-bits");
    }
    let c = codec(ctx);
    let mut flips: Vec<(usize, u8)> = vec![];
    let mut base: Option<Reading> = None;
    let hints = [w.max_stack_depth, 0, 1, 1 << ctx.t.below(16), 1 << (20 + ctx.t.below(43)), usize::MAX, ctx.t.raw() as usize];
    let byte_noise = ctx.t.chance(1, 3);
    for (k, hint) in hints.iter().enumerate() {
        ctx.steps += 1;
        w.max_stack_depth = *hint;
        let mut bytes = w.encode(c);
        // the hint is the last field: noise goes to the part before it so that all variants share it
        let n_hint = match c {
            Codec::Bincode => 8,
            Codec::Postcard => postcard::to_stdvec(hint).unwrap().len(),
        };
        let body = bytes.len() - n_hint;
        if byte_noise {
            if k == 0 {
                for _ in 0..1 + ctx.t.below(4) {
                    flips.push((ctx.t.idx(body), 1 << ctx.t.below(8)));
                }
                ctx.fault("flip-wire-bytes");
            }
            for (i, x) in &flips {
                bytes[*i] ^= x;
            }
        }
        let Some(p) = decode(&bytes, c) else {
            ctx.count("undecodable");
            if k == 0 {
                ctx.cover_of(&(kind, "undecodable"));
            }
            continue;
        };
        if *hint != hints[0] {
            ctx.fault("alter-hint");
        }
        let probe = ctx.t.below(1 << 20);
        let (r, max, total) = alloc::measured(|| {
            catch(|| {
                let rd = read(&p, &root);
                let _ = p.get(probe);
                let _ = p.values().next_assert_gindex(probe);
                rd
            })
        });
        let rd = match r {
            Ok(r) => r,
            Err(e) => violate!("abort", "checking a delivered proof aborted: {e} ({kind}, {} bits, {} data bytes, hint {hint})", w.descriptor.len(), w.data.len()),
        };
        match checked_verdict(&bytes, c, &root) {
            None => violate!("decode-differs", "the bytes decode only without overflow checks"),
            Some(Err(e)) => violate!("abort", "checking a delivered proof aborts a debug build: {e} ({kind}, {} bits, {} data bytes, hint {hint})", w.descriptor.len(), w.data.len()),
            Some(Ok(v)) => must!(v == rd.verdict, "debug-differs", "a debug build says {v:?} where a release build says {:?}", rd.verdict),
        }
        let limit = 8192 + 2048 * bytes.len();
        must!(max <= limit && total <= limit * 16, "memory", "checking a proof of {} bytes requested {max} bytes at once, {total} in total (hint {hint}, {kind})", bytes.len());
        ctx.count("checked");
        ctx.log(format!("{kind} hint {hint}: {:?}", rd.verdict));
        ctx.cover_of(&(kind, rd.verdict.as_ref().err(), w.descriptor.len().min(400) / 8, w.data.len().min(4096) / 64, rd.values.len().min(32)));
        match &base {
            None => base = Some(rd),
            Some(b) => must!(*b == rd, "hint-matters", "with stack-size hint {hint} the proof reads {:?}, otherwise {:?}", rd.verdict, b.verdict),
        }
    }
    if ctx.sample.is_none() {
        ctx.sample = Some(ctx.trace.join("; "));
    }
    Ok(())
}

fn main() {
    rayon_core::sim::set_catcher(|f| catch(f));
    const REAL: &[&str] = &["ssz-multiproofs (builder, verifier, iterators, serde)", "serde/bincode/postcard/bitvec/sha2", "rayon iterators"];
    const STUB: &[&str] = &["rayon-core (seeded single-threaded fork/join)", "ssz_rs (tree computation; independent sparse Merkle tree)", "network (simulated delivery with faults)"];
    simkit::main(&[
        Check {
            id: "C06",
            rule: "a state is (tree kind, verdict, frontier depth, frontier size, sequence of faults applied) of one delivered proof",
            real: REAL,
            stub: STUB,
            assumptions: &["SHA-256 is collision free for the generated data", "arithmetic wraps as in the repository's release profile"],
            quick_runs: 300_000,
            thorough_runs: 20_000_000,
            quick_cap: 45,
            thorough_cap: 1200,
            run: c06,
            expect_faults: &["flip-data", "swap-nodes", "flip-descriptor", "shift-mask-left", "over-deep-proof", "foreign-descriptor", "misaligned-bits"],
            ..DEFAULT_CHECK
        },
        Check {
            id: "C07",
            rule: "a state is a fork/join schedule actually taken, or a (container kind, number of positions, depth) triple",
            real: REAL,
            stub: STUB,
            assumptions: &["requested positions exist in the container, none lies above another, and none is the root", "forked halves interrupt each other only where they call into the Merkle tree library"],
            quick_runs: 60_000,
            thorough_runs: 5_000_000,
            quick_cap: 45,
            thorough_cap: 1200,
            run: c07,
            expect_faults: &["random-schedule", "preempted-halves", "duplicate-registration"],
            ..DEFAULT_CHECK
        },
        Check {
            id: "C08",
            rule: "a state is (proof kind, verdict, descriptor length, data length, reported values) of one checked delivery",
            real: REAL,
            stub: STUB,
            assumptions: &["the cost of decoding the bytes themselves is not counted", "a run longer than 60 s counts as a hang"],
            quick_runs: 60_000,
            thorough_runs: 10_000_000,
            quick_cap: 45,
            thorough_cap: 1200,
            run: c08,
            expect_faults: &["alter-hint", "flip-wire-bytes", "random-descriptor", "all-internal", "short-data", "empty-descriptor"],
            hang_secs: 60,
            ..DEFAULT_CHECK
        },
    ]);
}

//! Runs a property: fixed numbers of cases per variant, split into shards whose seeds
//! derive from (VERIF_SEED, property, variant, shard); shrinks the first failure; writes
//! the evidence and a replay file.

use crate::ffi::Lib;
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use refmodel::{Params, ALL};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Env {
    /// [variant][profile]; profile 0 = plain, 1 = checked
    pub libs: Vec<[Lib; 2]>,
    pub tier: Tier,
    pub seed: u64,
    pub evidence: PathBuf,
    pub replays: PathBuf,
    pub verif: PathBuf,
}

impl Env {
    pub fn lib(&self, v: usize, checked: bool) -> &Lib {
        &self.libs[v][checked as usize]
    }
}

/// What a case turned out to be.
#[derive(Default)]
pub struct Obs {
    /// violates or satisfies the property in a way that means something
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// further evaluations done inside the case (default: one per case)
    pub evals: u64,
    /// hashes of distinct things explored inside the case, if finer than the case
    pub inner: Vec<u64>,
}
impl Obs {
    pub fn ok(labels: Vec<&'static str>) -> Obs {
        Obs { nontrivial: true, labels, evals: 1, inner: vec![] }
    }
    pub fn trivial(label: &'static str) -> Obs {
        Obs { nontrivial: false, labels: vec![label], evals: 1, inner: vec![] }
    }
}

pub trait Prop: Sync {
    type Case: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + Sync;
    const ID: &'static str;
    const RULE: &'static str;
    fn strategy(&self, p: &Params, v: usize) -> BoxedStrategy<Self::Case>;
    /// cases per variant
    fn cases(&self, tier: Tier, v: usize) -> usize;
    /// fixed cases run first (regressions, exhaustive parts)
    fn pinned(&self, _tier: Tier, _p: &Params) -> Vec<Self::Case> {
        vec![]
    }
    fn run(&self, env: &Env, p: &Params, v: usize, c: &Self::Case) -> Result<Obs, String>;
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the reference model in harness/refmodel (own unit tests: SHA3/AES/KAT vectors, round trips)".into()]
    }
    fn threads(&self) -> usize {
        8
    }
    fn shard(&self) -> usize {
        64
    }
}

pub fn hash_of<T: Hash>(x: T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn rng_for(seed: u64, id: &str, v: usize, shard: usize) -> TestRng {
    let mut b = Vec::new();
    b.extend(seed.to_le_bytes());
    b.extend(id.as_bytes());
    b.extend([v as u8]);
    b.extend((shard as u64).to_le_bytes());
    TestRng::from_seed(RngAlgorithm::ChaCha, &refmodel::sha3_256(&b))
}

/// Pinned cases are handed out in portions of this size.
const PINNED: usize = 16;

struct Failure<C> {
    order: (usize, usize, usize),
    variant: usize,
    case: C,
    msg: String,
}

#[derive(Default)]
struct Tally {
    evals: u64,
    cases: u64,
    trivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    per_variant: BTreeMap<String, u64>,
    samples: Vec<Value>,
}

pub enum Outcome {
    Held,
    Violated,
}

pub fn run<P: Prop>(prop: &P, env: &Env) -> Result<Outcome, String> {
    let t0 = Instant::now();
    let tally = Mutex::new(Tally::default());
    let failures: Mutex<Vec<Failure<P::Case>>> = Mutex::new(vec![]);

    // work list: (shard, variant, first pinned case); shard 0 = pinned cases
    let pinned: Vec<Vec<P::Case>> = ALL.iter().map(|p| prop.pinned(env.tier, p)).collect();
    let mut work = vec![];
    for (v, l) in pinned.iter().enumerate() {
        work.extend((0..l.len()).step_by(PINNED).map(|k| (0, v, k)));
    }
    // by position, so that all variants start at once
    work.sort_by_key(|(_, v, k)| (*k, *v));
    let mut shards_max = 0;
    for v in 0..4 {
        shards_max = shards_max.max(1 + prop.cases(env.tier, v).div_ceil(prop.shard()));
    }
    for s in 1..shards_max {
        for v in 0..4 {
            if (s - 1) * prop.shard() < prop.cases(env.tier, v) {
                work.push((s, v, 0));
            }
        }
    }
    let next = AtomicUsize::new(0);
    let found = AtomicUsize::new(usize::MAX);

    let eval = |order: (usize, usize, usize), v: usize, c: &P::Case, local: &mut Tally| -> bool {
        let r = prop.run(env, &ALL[v], v, c);
        match r {
            Ok(o) => {
                local.cases += 1;
                local.evals += o.evals.max(1);
                *local.per_variant.entry(ALL[v].name.into()).or_default() += o.evals.max(1);
                for l in &o.labels {
                    *local.labels.entry((*l).into()).or_default() += 1;
                }
                if o.nontrivial {
                    if o.inner.is_empty() {
                        local.distinct.insert(hash_of((v, format!("{c:?}"))));
                    } else {
                        local.distinct.extend(o.inner.iter().map(|h| hash_of((v, h))));
                    }
                    if local.samples.is_empty() {
                        local.samples.push(json!({"variant": ALL[v].name, "order": [order.0, order.1, order.2],
                            "case": serde_json::to_value(c).unwrap(), "labels": o.labels}));
                    }
                } else {
                    local.trivial += 1;
                }
                true
            }
            Err(msg) => {
                failures.lock().unwrap().push(Failure { order, variant: v, case: c.clone(), msg });
                false
            }
        }
    };

    std::thread::scope(|sc| {
        for _ in 0..prop.threads() {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    // later shards are pointless once an earlier one failed
                    if i >= work.len() || i > found.load(Ordering::SeqCst) {
                        break;
                    }
                    let (s, v, first) = work[i];
                    let mut local = Tally::default();
                    if s == 0 {
                        for (k, c) in pinned[v].iter().enumerate().skip(first).take(PINNED) {
                            if !eval((0, v, k), v, c, &mut local) {
                                found.fetch_min(i, Ordering::SeqCst);
                                break;
                            }
                        }
                    } else {
                        let cfg = Config { failure_persistence: None, ..Config::default() };
                        let mut runner = TestRunner::new_with_rng(cfg, rng_for(env.seed, P::ID, v, s));
                        let strat = prop.strategy(&ALL[v], v);
                        let n = prop.shard().min(prop.cases(env.tier, v) - (s - 1) * prop.shard());
                        for k in 0..n {
                            let tree = strat.new_tree(&mut runner).expect("generator");
                            let c = tree.current();
                            if !eval((s, v, k), v, &c, &mut local) {
                                found.fetch_min(i, Ordering::SeqCst);
                                // regenerate the tree for shrinking is not possible: shrink it here
                                let (c, msg) = shrink(prop, env, v, tree);
                                let mut f = failures.lock().unwrap();
                                if let Some(x) = f.iter_mut().find(|x| x.order == (s, v, k)) {
                                    if let Some(m) = msg {
                                        x.case = c;
                                        x.msg = m;
                                    }
                                }
                                break;
                            }
                        }
                    }
                    let mut t = tally.lock().unwrap();
                    t.evals += local.evals;
                    t.cases += local.cases;
                    t.trivial += local.trivial;
                    t.distinct.extend(local.distinct);
                    for (k, n) in local.labels {
                        *t.labels.entry(k).or_default() += n;
                    }
                    for (k, n) in local.per_variant {
                        *t.per_variant.entry(k).or_default() += n;
                    }
                    t.samples.extend(local.samples);
                })
                .expect("thread");
        }
    });

    let mut fails = failures.into_inner().unwrap();
    fails.sort_by_key(|f| f.order);
    let t = tally.into_inner().unwrap();
    // first sample of every variant, in a fixed order
    let mut samples = t.samples;
    samples.sort_by_key(|s| s["order"].to_string());
    let mut keep: Vec<Value> = vec![];
    for p in ALL.iter() {
        keep.extend(samples.iter().filter(|s| s["variant"] == p.name).take(2).cloned());
    }
    let ev = json!({
        "property": P::ID,
        "tier": tier_name(env.tier),
        "seed": env.seed,
        "level": prop.level(),
        "coverage": {
            "evaluations": t.evals,
            "distinct_nontrivial": t.distinct.len(),
            "cases": t.cases,
            "trivial_cases": t.trivial,
            "rule": P::RULE,
            "classes": t.labels,
            "evaluations_per_variant": t.per_variant,
            "samples": keep,
        },
        "assumptions": prop.assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": fails.len().min(1),
    });
    write_json(&env.evidence, &ev)?;

    println!(
        "{}: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s",
        P::ID,
        t.cases,
        t.evals,
        t.distinct.len(),
        t0.elapsed().as_secs_f64()
    );
    for (k, n) in &t.labels {
        println!("  {k}: {n}");
    }
    if let Some(f) = fails.first() {
        let path = env.replays.join(format!("{}-{}-{}.json", P::ID, ALL[f.variant].name, env.seed));
        write_json(
            &path,
            &json!({"property": P::ID, "variant": ALL[f.variant].name, "message": f.msg,
                    "case": serde_json::to_value(&f.case).unwrap()}),
        )?;
        println!("{} [{}]: {}", P::ID, ALL[f.variant].name, f.msg);
        println!("VIOLATION property={} replay={}", P::ID, path.display());
        return Ok(Outcome::Violated);
    }
    if t.distinct.is_empty() {
        return Err("no non-trivial case was explored".into());
    }
    Ok(Outcome::Held)
}

fn shrink<P: Prop, T: ValueTree<Value = P::Case>>(prop: &P, env: &Env, v: usize, mut tree: T) -> (P::Case, Option<String>) {
    let end = Instant::now() + Duration::from_secs(20);
    let mut best = (tree.current(), None);
    let mut steps = 0;
    if !tree.simplify() {
        return best;
    }
    while steps < 400 && Instant::now() < end {
        steps += 1;
        let c = tree.current();
        match prop.run(env, &ALL[v], v, &c) {
            Err(m) => {
                best = (c, Some(m));
                if !tree.simplify() {
                    break;
                }
            }
            Ok(_) => {
                if !tree.complicate() {
                    break;
                }
            }
        }
    }
    best
}

pub fn replay<P: Prop>(prop: &P, env: &Env, v: &Value, path: &str) -> Result<Outcome, String> {
    let name = v["variant"].as_str().ok_or("no variant")?;
    let vi = ALL.iter().position(|p| p.name == name).ok_or("unknown variant")?;
    let c: P::Case = serde_json::from_value(v["case"].clone()).map_err(|e| e.to_string())?;
    match prop.run(env, &ALL[vi], vi, &c) {
        Ok(_) => {
            println!("{}: replayed case holds", P::ID);
            Ok(Outcome::Held)
        }
        Err(m) => {
            println!("{} [{name}]: {m}", P::ID);
            println!("VIOLATION property={} replay={path}", P::ID);
            Ok(Outcome::Violated)
        }
    }
}

pub fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

pub fn write_json(path: &std::path::Path, v: &Value) -> Result<(), String> {
    if let Some(d) = path.parent() {
        std::fs::create_dir_all(d).map_err(|e| e.to_string())?;
    }
    std::fs::write(path, serde_json::to_string_pretty(v).unwrap() + "\n").map_err(|e| e.to_string())
}

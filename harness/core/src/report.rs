//! Case runner, evidence and verdicts.
use rand::SeedableRng;
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub verif_dir: String,
    pub only_case: Option<u64>,
    pub start: Instant,
    /// Keys and descriptions of this property's recorded findings.
    pub known: Vec<(String, String)>,
}
impl Ctx {
    pub fn is_known(&self, key: &str) -> bool {
        self.known.iter().any(|k| k.0 == key)
    }
    pub fn from_env() -> (Ctx, Vec<String>) {
        let mut args: Vec<String> = std::env::args().skip(1).collect();
        let mut only = None;
        if let Some(p) = args.iter().position(|a| a == "--case") {
            only = args.get(p + 1).and_then(|s| s.parse().ok());
            args.drain(p..(p + 2).min(args.len()));
        }
        let prop = args.first().cloned().unwrap_or_default();
        let env = |k: &str| std::env::var(k).ok();
        let verif_dir = env("VERIF_DIR").unwrap_or_else(|| "/verif".into());
        let list = std::fs::read_to_string(format!("{verif_dir}/known-findings.txt")).unwrap_or_default();
        let head = format!("known: property={prop} key=");
        let known = list
            .lines()
            .filter_map(|l| l.strip_prefix(&head))
            .map(|l| {
                let (k, d) = l.split_once(' ').unwrap_or((l, ""));
                (k.to_string(), d.to_string())
            })
            .collect();
        (
            Ctx {
                prop,
                seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
                thorough: env("VERIF_TIER").as_deref() == Some("thorough"),
                verif_dir,
                known,
                only_case: only,
                start: Instant::now(),
            },
            args,
        )
    }
    pub fn scale(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough { thorough } else { quick * 4 }
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    cap: usize,
}
impl Stats {
    /// Judge one evaluation; `sig` identifies it when it is non-trivial.
    pub fn eval<T: Hash>(&mut self, nontrivial: Option<T>) {
        self.evals += 1;
        if let Some(t) = nontrivial {
            if self.distinct.len() < 3_000_000 {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                t.hash(&mut h);
                self.distinct.insert(h.finish());
            }
        }
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.samples.len() < self.cap.max(2) {
            self.samples.push(f());
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub msg: String,
    pub log: Vec<String>,
}
pub type CaseResult = Result<(), Violation>;
pub fn fail(msg: impl Into<String>, log: &[String]) -> CaseResult {
    Err(Violation { msg: msg.into(), log: log.to_vec() })
}

pub struct Outcome {
    pub stats: Stats,
    pub violation: Option<(u64, Violation)>,
    pub harness_error: Option<String>,
    pub cases: u64,
    pub stopped_early: bool,
}

pub fn case_rng(ctx: &Ctx, stream: &str, case: u64) -> ChaCha8Rng {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (ctx.seed, stream, case).hash(&mut h);
    ChaCha8Rng::seed_from_u64(h.finish())
}

/// Run `n` independent cases on all cores. Every case derives its randomness
/// from (seed, stream, case number) alone, so a single case can be re-run.
pub fn run_cases<F>(ctx: &Ctx, stream: &str, n: u64, max_secs: u64, f: F) -> Outcome
where
    F: Fn(u64, &mut ChaCha8Rng, &mut Stats) -> CaseResult + Sync,
{
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get());
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let early = AtomicBool::new(false);
    let found: Mutex<Option<(u64, Violation)>> = Mutex::new(None);
    let herr: Mutex<Option<String>> = Mutex::new(None);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let t0 = Instant::now();
    let idle = AtomicU64::new(0);
    std::thread::scope(|s| {
        s.spawn(|| {
            let mut tick = 0u64;
            while idle.load(Ordering::Relaxed) < threads as u64 {
                std::thread::sleep(Duration::from_millis(2));
                tick += 1;
                if tick % 256 == 0 {
                    if let Some(case) = crate::meter::hung() {
                        hung(ctx, stream, case);
                    }
                }
            }
        });
        for _ in 0..threads {
            s.spawn(|| {
                let me = crate::meter::worker();
                let mut st = Stats::default();
                while !stop.load(Ordering::Relaxed) {
                    let c = match ctx.only_case {
                        Some(c) => {
                            if next.fetch_add(1, Ordering::Relaxed) > 0 {
                                break;
                            }
                            c
                        }
                        None => next.fetch_add(1, Ordering::Relaxed),
                    };
                    if ctx.only_case.is_none() && c >= n {
                        break;
                    }
                    if t0.elapsed() > Duration::from_secs(max_secs) {
                        early.store(true, Ordering::Relaxed);
                        break;
                    }
                    me.0.case.store(c, Ordering::Relaxed);
                    let mut rng = case_rng(ctx, stream, c);
                    match catch_unwind(AssertUnwindSafe(|| f(c, &mut rng, &mut st))) {
                        Ok(Ok(())) => {
                            done.fetch_add(1, Ordering::Relaxed);
                        }
                        Ok(Err(v)) => {
                            let mut g = found.lock().unwrap();
                            if g.as_ref().map_or(true, |(k, _)| c < *k) {
                                *g = Some((c, v));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                        Err(p) => {
                            let m = p
                                .downcast_ref::<String>()
                                .cloned()
                                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_default();
                            *herr.lock().unwrap() = Some(format!("case {c}: {m}"));
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
                total.lock().unwrap().merge(st);
                drop(me);
                idle.fetch_add(1, Ordering::Relaxed);
            });
        }
    });
    Outcome {
        stats: total.into_inner().unwrap(),
        violation: found.into_inner().unwrap(),
        harness_error: herr.into_inner().unwrap(),
        cases: done.into_inner(),
        stopped_early: early.into_inner(),
    }
}

pub struct Report {
    pub rule: String,
    pub assumptions: Vec<String>,
    pub require: Vec<(String, u64)>,
    pub min_distinct: u64,
}

/// Leave the replay of a violation and say so.
fn violated(ctx: &Ctx, phase: &str, case: u64, v: &Violation) {
    let rdir = format!("{}/replays", ctx.verif_dir);
    let _ = std::fs::create_dir_all(&rdir);
    let path = format!("{rdir}/{}.json", ctx.prop);
    let j = json!({
        "property": ctx.prop, "seed": ctx.seed, "phase": phase, "case": case,
        "tier": if ctx.thorough { "thorough" } else { "quick" },
        "rerun": format!("VERIF_SEED={} VERIF_TIER={} bin/check {} --case {}", ctx.seed,
            if ctx.thorough { "thorough" } else { "quick" }, ctx.prop, case),
        "message": v.msg, "history": v.log,
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    println!("{}: {}", ctx.prop, v.msg);
    println!("VIOLATION property={} replay={}", ctx.prop, path);
}

/// The properties a program run that never ends breaks.
const ENDS: [&str; 9] = ["C03", "C04", "C05", "C06", "C12", "C13", "C15", "C17", "C27"];

fn hung(ctx: &Ctx, phase: &str, case: u64) -> ! {
    let msg = format!("{phase} case {case}: the program was still running after {:?} of CPU time", crate::meter::HUNG);
    if ENDS.contains(&ctx.prop.as_str()) {
        violated(ctx, phase, case, &Violation { msg, log: vec![] });
        std::process::exit(1);
    }
    eprintln!("{}: no verdict: {msg}", ctx.prop);
    std::process::exit(3);
}

/// Merge the phases of a check, write evidence, print the verdict, exit code.
pub fn finish(ctx: &Ctx, phases: Vec<(String, Outcome)>, rep: Report) -> i32 {
    let mut all = Stats::default();
    let mut viol: Option<(String, u64, Violation)> = None;
    let mut herr = None;
    let mut cases = BTreeMap::new();
    let mut early = false;
    for (name, o) in phases {
        if viol.is_none() {
            if let Some((c, v)) = o.violation {
                viol = Some((name.clone(), c, v));
            }
        }
        herr = herr.or(o.harness_error);
        early |= o.stopped_early;
        cases.insert(name, o.cases);
        all.merge(o.stats);
    }
    let wall = ctx.start.elapsed().as_secs_f64();
    let ev = json!({
        "property": ctx.prop,
        "tier": if ctx.thorough { "thorough" } else { "quick" },
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": all.evals,
            "distinct_nontrivial": all.distinct.len(),
            "rule": rep.rule,
            "samples": all.samples,
            "observed": all.counters,
            "cases": cases,
            "stopped_at_time_budget": early,
        },
        "assumptions": rep.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": if viol.is_some() { 1 } else { 0 },
    });
    let dir = format!("{}/evidence", ctx.verif_dir);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", ctx.prop), serde_json::to_string_pretty(&ev).unwrap())
        .expect("write evidence");
    if let Some((phase, case, v)) = viol {
        violated(ctx, &phase, case, &v);
        return 1;
    }
    if let Some(e) = herr {
        eprintln!("{}: harness error (no verdict): {e}", ctx.prop);
        return 3;
    }
    if ctx.only_case.is_none() {
        for (k, min) in &rep.require {
            let got = all.counters.get(k).copied().unwrap_or(0);
            if got < *min {
                eprintln!("{}: inconclusive: observed {got} of {k:?}, need {min}", ctx.prop);
                return 2;
            }
        }
        if (all.distinct.len() as u64) < rep.min_distinct {
            eprintln!("{}: inconclusive: {} distinct evaluations", ctx.prop, all.distinct.len());
            return 2;
        }
    }
    for (k, d) in &ctx.known {
        if all.counters.contains_key(&format!("known:{k}")) {
            println!("KNOWN-FINDING: property={} {d} [{k}]", ctx.prop);
        }
    }
    if let Some((x, k)) = rep.require.iter().map(|(k, m)| (all.counters.get(k).copied().unwrap_or(0) as f64 / *m as f64, k)).min_by(|a, b| a.0.total_cmp(&b.0)) {
        println!("{}: scarcest required observation {k:?}, {x:.1} times the minimum", ctx.prop);
    }
    println!(
        "{}: held on {} evaluations ({} distinct non-trivial), {:.1}s",
        ctx.prop,
        all.evals,
        all.distinct.len(),
        wall
    );
    0
}

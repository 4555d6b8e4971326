//! Monitor runtime: case scheduling, event counters, verdicts, evidence, replay files.
use crate::rng::{hash_bytes, mix, Rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub struct Spec {
    pub id: &'static str,
    /// cases in the quick and thorough tier
    pub quick: usize,
    pub thorough: usize,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// least number of distinct non-trivial cases for a conclusive run
    pub min_nontrivial: usize,
    pub run: fn(&mut Case) -> R,
    /// true: cases must not run at the same time as other cases
    pub serial: bool,
    /// exceeding the per-case deadline is a violation of the property itself
    pub hang_is_violation: bool,
}

#[derive(Default)]
pub struct Shared {
    pub counters: Mutex<BTreeMap<String, u64>>,
    pub distinct: Mutex<HashSet<u64>>,
    pub samples: Mutex<Vec<Value>>,
}

pub struct Case<'a> {
    pub idx: usize,
    pub seed: u64,
    pub tier_thorough: bool,
    pub rng: Rng,
    pub sh: &'a Shared,
    pub replaying: bool,
    local: BTreeMap<String, u64>,
    dist: Vec<u64>,
}
impl<'a> Case<'a> {
    /// count an observed event
    pub fn ev(&mut self, name: &str, n: u64) {
        *self.local.entry(name.to_string()).or_insert(0) += n;
    }
    /// record a distinct, non-trivial observation by its signature
    pub fn seen(&mut self, sig: &str) {
        self.dist.push(hash_bytes(sig.as_bytes()));
    }
    pub fn seen_h(&mut self, h: u64) {
        self.dist.push(h);
    }
    pub fn sample(&mut self, v: Value) {
        if self.idx % 7 == 0 || self.idx < 3 {
            let mut s = self.sh.samples.lock().unwrap();
            if s.len() < 8 {
                s.push(v);
            }
        }
    }
    fn flush(&mut self) {
        let mut c = self.sh.counters.lock().unwrap();
        for (k, v) in std::mem::take(&mut self.local) {
            *c.entry(k).or_insert(0) += v;
        }
        drop(c);
        let mut d = self.sh.distinct.lock().unwrap();
        for h in std::mem::take(&mut self.dist) {
            d.insert(h);
        }
    }
}

pub fn case_rng(id: &str, seed: u64, idx: usize) -> Rng {
    Rng::new(mix(hash_bytes(id.as_bytes()) ^ mix(seed ^ 0x5eed)) ^ mix(idx as u64 + 1))
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {msg}"));
    }));
}
/// Run code under observation; a panic becomes an Err with its location.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

fn run_one(spec: &Spec, sh: &Shared, seed: u64, thorough: bool, idx: usize, replaying: bool) -> R {
    let mut c = Case {
        idx,
        seed,
        tier_thorough: thorough,
        rng: case_rng(spec.id, seed, idx),
        sh,
        replaying,
        local: BTreeMap::new(),
        dist: Vec::new(),
    };
    let r = guarded(|| (spec.run)(&mut c));
    c.flush();
    match r {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// exit code of the check
pub fn run_check(spec: Spec, thorough: bool, seed: u64) -> i32 {
    let t0 = Instant::now();
    let n = std::env::var("VMON_CASES")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { spec.thorough } else { spec.quick });
    let cap_s: u64 = std::env::var("VMON_CAP_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 3000 } else { 300 });
    let cap = Duration::from_secs(cap_s);
    let deadline_case = Duration::from_secs(if thorough { 400 } else { std::env::var("VMON_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(200) });
    let sh = Arc::new(Shared::default());
    let next = Arc::new(AtomicUsize::new(0));
    let done = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let viol: Arc<Mutex<Vec<(usize, String)>>> = Arc::new(Mutex::new(vec![]));
    let workers = if spec.serial {
        1
    } else {
        std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).min(8)
    };
    // per worker: the case in hand, when it started and the thread's id
    #[allow(clippy::type_complexity)]
    let active: Arc<Vec<Mutex<Option<(usize, Instant, Arc<str>)>>>> =
        Arc::new((0..workers).map(|_| Mutex::new(None)).collect());
    let spec = Arc::new(spec);
    let mut handles = vec![];
    for w in 0..workers {
        let (sh, next, done, stop, viol, active, spec) = (
            sh.clone(), next.clone(), done.clone(), stop.clone(), viol.clone(), active.clone(), spec.clone(),
        );
        handles.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let tid = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned())).unwrap_or_default();
                    let tid: Arc<str> = tid.into();
                    loop {
                    if stop.load(Ordering::Relaxed) || t0.elapsed() > cap {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    *active[w].lock().unwrap() = Some((i, Instant::now(), tid.clone()));
                    let r = run_one(&spec, &sh, seed, thorough, i, false);
                    *active[w].lock().unwrap() = None;
                    done.fetch_add(1, Ordering::Relaxed);
                    if let Err(m) = r {
                        let mut v = viol.lock().unwrap();
                        v.push((i, m));
                        if v.len() >= if std::env::var_os("VMON_FAILFAST").is_some() { 1 } else { 20 } {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    }
                })
                .unwrap(),
        );
    }
    // watchdog
    // A case hangs when its time is up and it either burnt half of it on the processor or
    // waits without progress; a thread the machine is too busy to run is given more time.
    let mut hung: Option<usize> = None;
    let mut idle: Vec<(u64, Option<Instant>)> = vec![(0, None); workers];
    let mut begun: Vec<(usize, u64)> = vec![(usize::MAX, 0); workers];
    loop {
        if handles.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
        for (w, a) in active.iter().enumerate() {
            let cur = a.lock().unwrap().clone();
            if let Some((i, t, tid)) = cur {
                if t.elapsed() < Duration::from_secs(2) {
                    continue;
                }
                if begun[w].0 != i {
                    begun[w] = (i, thread_ticks(&tid).map_or(0, |x| x.1));
                }
                let from = begun[w].1;
                if t.elapsed() <= deadline_case {
                    idle[w].1 = None;
                    continue;
                }
                let (running, ticks) = thread_ticks(&tid).unwrap_or((false, 0));
                let busy = ticks.saturating_sub(from) / 100 > deadline_case.as_secs() / 2;
                if running || ticks != idle[w].0 || idle[w].1.is_none() {
                    idle[w] = (ticks, Some(Instant::now()));
                }
                let stuck = idle[w].1.map_or(false, |x| x.elapsed() > Duration::from_secs(20));
                if busy || stuck || t.elapsed() > deadline_case * 5 / 2 {
                    hung = Some(i);
                }
            }
        }
        if hung.is_some() {
            break;
        }
    }
    if hung.is_none() {
        for h in handles {
            let _ = h.join();
        }
    }
    let mut v = viol.lock().unwrap().clone();
    let mut inconclusive = None;
    if let Some(i) = hung {
        if spec.hang_is_violation {
            v.push((i, format!("no answer within {} s (cases normally take well under a second each)", deadline_case.as_secs())));
        } else {
            inconclusive = Some(format!("case {i} gave no answer within {} s", deadline_case.as_secs()));
        }
    }
    v.sort();
    let done_n = done.load(Ordering::Relaxed);
    let distinct = sh.distinct.lock().unwrap().len();
    if v.is_empty() && inconclusive.is_none() && distinct < spec.min_nontrivial.min(n) {
        inconclusive = Some(format!(
            "only {distinct} distinct non-trivial cases observed, {} needed",
            spec.min_nontrivial
        ));
    }
    // evidence
    let dir = verif_dir();
    let _ = std::fs::create_dir_all(format!("{dir}/evidence/replay"));
    let counters = sh.counters.lock().unwrap().clone();
    let mut samples = sh.samples.lock().unwrap().clone();
    if samples.is_empty() {
        samples.push(json!({"note": "no sample recorded", "cases": done_n}));
    }
    let ev = json!({
        "property": spec.id,
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": done_n,
            "distinct_nontrivial": distinct,
            "rule": spec.rule,
            "samples": samples,
            "events_observed": counters,
            "workers": workers,
            "planned_cases": n,
            "inconclusive": inconclusive,
        },
        "assumptions": spec.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": v.len(),
    });
    std::fs::write(
        format!("{dir}/evidence/{}.json", spec.id),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .expect("write evidence");
    println!(
        "{} {} seed={} cases={} distinct={} wall={:.1}s violations={}",
        spec.id,
        if thorough { "thorough" } else { "quick" },
        seed,
        done_n,
        distinct,
        t0.elapsed().as_secs_f64(),
        v.len()
    );
    if std::env::var("VMON_VERBOSE").is_ok() {
        for (k, c) in counters.iter() {
            println!("  {k}: {c}");
        }
    }
    if !v.is_empty() {
        let known = load_known(&dir, spec.id);
        let mut unknown = 0;
        let mut told = HashSet::new();
        for (i, m) in v.iter() {
            if let Some(k) = known.iter().find(|k| m.contains(k.as_str())) {
                if told.insert(k.clone()) {
                    println!("KNOWN-FINDING: property={} {}", spec.id, k);
                }
                continue;
            }
            unknown += 1;
            if unknown > 5 {
                continue;
            }
            let path = format!("{dir}/evidence/replay/{}-{}-{}.json", spec.id, seed, i);
            let _ = std::fs::write(
                &path,
                serde_json::to_string_pretty(&json!({
                    "property": spec.id, "seed": seed, "thorough": thorough, "case": i, "message": m,
                    "replay_with": format!("/verif/check.sh replay {path}")
                }))
                .unwrap(),
            );
            println!("  case {i}: {}", m.chars().take(900).collect::<String>());
            println!("VIOLATION property={} replay={}", spec.id, path);
        }
        if unknown > 0 {
            return 1;
        }
    }
    if let Some(m) = inconclusive {
        println!("INCONCLUSIVE property={} {}", spec.id, m);
        return 2;
    }
    0
}

fn load_known(dir: &str, id: &str) -> Vec<String> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{dir}/known_findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix(&format!("known: property={id} ")) {
                out.push(r.trim().to_string());
            }
        }
    }
    out
}

pub fn replay(spec: Spec, seed: u64, thorough: bool, idx: usize) -> i32 {
    let sh = Shared::default();
    match run_one(&spec, &sh, seed, thorough, idx, true) {
        Ok(()) => {
            println!("case {idx} held");
            0
        }
        Err(m) => {
            println!("case {idx}: {m}");
            1
        }
    }
}

// ---------------------------------------------------------------- comparison helpers
pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    if a == b {
        return true;
    }
    if !a.is_finite() || !b.is_finite() {
        return a.is_nan() && b.is_nan();
    }
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}
pub fn vec_close(name: &str, got: &[f32], want: &[f64], rel: f64, abs: f64) -> R {
    ensure!(got.len() == want.len(), "{name}: {} values, expected {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(close(*g as f64, *w, rel, abs), "{name}[{i}] = {g}, expected {w}");
    }
    Ok(())
}
/// hash of the exact bits of a float slice
pub fn hash_f32(v: &[f32]) -> u64 {
    let mut h = mix(v.len() as u64);
    for x in v {
        h = mix(h ^ x.to_bits() as u64);
    }
    h
}

/// (runnable, processor time in clock ticks) of a thread of this process
fn thread_ticks(tid: &str) -> Option<(bool, u64)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let f: Vec<&str> = s[s.rfind(')')? + 2..].split(' ').collect();
    Some((f[0] == "R", f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?))
}

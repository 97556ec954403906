//! Framework: case generation, shard processes, crash observation, evidence.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- rng
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.u64();
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.u64() % den < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

pub fn hash64(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^ (h >> 29)
}

// ---------------------------------------------------------------- verdicts
pub struct Viol {
    /// Signature used to match known findings.
    pub key: String,
    pub msg: String,
}
pub enum Stop {
    /// The property is broken.
    Violation(Viol),
    /// The harness could not decide (environment, harness bug).
    Inconclusive(String),
}
pub type V = Result<(), Stop>;

pub fn viol<T>(key: &str, msg: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Violation(Viol {
        key: key.to_string(),
        msg: msg.into(),
    }))
}
pub fn inconclusive<T>(msg: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Inconclusive(msg.into()))
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $key:expr, $($arg:tt)*) => {
        if !$cond { return $crate::fw::viol($key, format!($($arg)*)); }
    };
}

// ---------------------------------------------------------------- cases
#[derive(Default)]
pub struct Cov {
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Case<'a> {
    pub seed: u64,
    pub idx: u64,
    pub shard: u32,
    pub tier: Tier,
    pub rng: Rng,
    scratch_base: PathBuf,
    scratch: Option<PathBuf>,
    pub cov: &'a mut Cov,
    pub notes: Vec<String>,
    pub verbose: bool,
}

impl<'a> Case<'a> {
    /// Count an observed event.
    pub fn obs(&mut self, name: &str, n: u64) {
        *self.cov.counters.entry(name.to_string()).or_insert(0) += n;
    }
    pub fn obs_max(&mut self, name: &str, n: u64) {
        let e = self.cov.maxima.entry(name.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// Register the case (or a sub case) as distinct and non trivial.
    pub fn distinct(&mut self, data: &[u8]) {
        self.cov.distinct.insert(hash64(data));
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.cov.samples.len() < 3 {
            let mut s = s();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.cov.samples.push(s);
        }
    }
    /// A description stored in the replay file if the case fails.
    pub fn note(&mut self, s: impl Into<String>) {
        let s = s.into();
        if self.verbose {
            eprintln!("note: {}", s);
        }
        if self.notes.len() < 200 {
            self.notes.push(s)
        }
    }
    /// A private directory, removed after the case.
    pub fn dir(&mut self) -> PathBuf {
        if self.scratch.is_none() {
            let p = self
                .scratch_base
                .join(format!("s{}c{}", self.shard, self.idx));
            let _ = std::fs::remove_dir_all(&p);
            std::fs::create_dir_all(&p).expect("scratch dir");
            self.scratch = Some(p);
        }
        self.scratch.clone().unwrap()
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}

// ---------------------------------------------------------------- specs
pub struct Spec {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub shards: u32,
    pub run: fn(&mut Case) -> V,
    /// Counters that must have been observed for a "held" verdict.
    pub need: &'static [&'static str],
    pub env: fn(shard: u32) -> Vec<(&'static str, String)>,
    pub assumptions: &'static [&'static str],
}
pub fn no_env(_: u32) -> Vec<(&'static str, String)> {
    Vec::new()
}

// ---------------------------------------------------------------- panics
pub static PANICS: Mutex<Vec<(bool, String)>> = Mutex::new(Vec::new());

/// A panic is the harness' own when its location is in this crate.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let (file, line) = info
            .location()
            .map(|l| (l.file().to_string(), l.line()))
            .unwrap_or_default();
        let own = file.starts_with("src/") || file.contains("/verif/harness");
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".to_string());
        let text = format!("panic at {}:{}: {}", file, line, msg);
        if let Ok(mut p) = PANICS.lock() {
            p.push((own, text))
        }
    }));
}

/// Run a closure of the code under test, turning a panic into a value.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| {
        PANICS
            .lock()
            .unwrap()
            .last()
            .map(|p| p.1.clone())
            .unwrap_or_default()
    })
}

// ---------------------------------------------------------------- child
pub fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    hash64(format!("{}/{}/{}", seed, id, idx).as_bytes())
}

pub enum Outcome {
    Held,
    Violation(Viol),
    Inconclusive(String),
}

pub fn run_case(
    spec: &Spec,
    cov: &mut Cov,
    seed: u64,
    idx: u64,
    shard: u32,
    tier: Tier,
    base: &Path,
    verbose: bool,
) -> (Outcome, Vec<String>) {
    PANICS.lock().unwrap().clear();
    cov.evals += 1;
    let mut case = Case {
        seed,
        idx,
        shard,
        tier,
        rng: Rng::new(case_seed(seed, spec.id, idx)),
        scratch_base: base.to_path_buf(),
        scratch: None,
        cov,
        notes: Vec::new(),
        verbose,
    };
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (spec.run)(&mut case)));
    if let Some(p) = &case.scratch {
        let _ = std::fs::remove_dir_all(p);
    }
    let notes = std::mem::take(&mut case.notes);
    let panics = PANICS.lock().unwrap().clone();
    let own = panics.iter().find(|p| p.0).map(|p| p.1.clone());
    let foreign = panics.iter().find(|p| !p.0).map(|p| p.1.clone());
    let out = match res {
        Ok(Err(Stop::Violation(v))) => Outcome::Violation(v),
        Ok(Err(Stop::Inconclusive(s))) => Outcome::Inconclusive(s),
        _ => match (foreign, own) {
            (Some(f), _) => Outcome::Violation(Viol {
                key: "panic".to_string(),
                msg: f,
            }),
            (None, Some(o)) => Outcome::Inconclusive(format!("harness {}", o)),
            (None, None) => Outcome::Held,
        },
    };
    (out, notes)
}

fn child(spec: &Spec, args: &[String]) -> i32 {
    // child ID seed tier shard shards start total outdir deadline_s
    let seed: u64 = args[0].parse().unwrap();
    let tier = if args[1] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let shard: u32 = args[2].parse().unwrap();
    let shards: u64 = args[3].parse().unwrap();
    let start: u64 = args[4].parse().unwrap();
    let total: u64 = args[5].parse().unwrap();
    let out = PathBuf::from(&args[6]);
    let deadline: u64 = args[7].parse().unwrap();
    install_panic_hook();
    let t0 = Instant::now();
    let mut cov = Cov::default();
    let cur = std::fs::File::create(out.join(format!("cur{}", shard))).unwrap();
    let mut known: Vec<(String, String)> = Vec::new();
    let mut status = "held".to_string();
    let mut extra = json!(null);
    let mut code = 0;
    let mut idx = start;
    let mut cut = false;
    let known_keys = known_keys(spec.id);
    while idx < total {
        if t0.elapsed() > Duration::from_secs(deadline) {
            cut = true;
            break;
        }
        use std::os::unix::fs::FileExt;
        let _ = cur.write_at(&idx.to_le_bytes(), 0);
        let (o, notes) = run_case(spec, &mut cov, seed, idx, shard, tier, &out, false);
        match o {
            Outcome::Held => {}
            Outcome::Violation(v) if known_keys.iter().any(|k| *k == v.key) => {
                known.push((v.key, v.msg));
            }
            Outcome::Violation(v) => {
                status = "violation".into();
                extra = json!({"idx": idx, "key": v.key, "msg": v.msg, "notes": notes});
                code = 1;
                break;
            }
            Outcome::Inconclusive(s) => {
                status = "inconclusive".into();
                extra = json!({"idx": idx, "msg": s, "notes": notes});
                code = 3;
                break;
            }
        }
        idx += shards;
    }
    let res = json!({
        "status": status, "extra": extra, "cut": cut,
        "evals": cov.evals, "counters": cov.counters, "maxima": cov.maxima,
        "distinct": cov.distinct.iter().map(|h| format!("{:x}", h)).collect::<Vec<_>>(),
        "samples": cov.samples, "known": known,
    });
    std::fs::write(out.join(format!("res{}", shard)), res.to_string()).unwrap();
    code
}

// ---------------------------------------------------------------- known findings
pub fn verif_root() -> PathBuf {
    std::env::var_os("VERIF_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

/// Lines `finding: property=ID key=KEY what fails`.
fn known_findings(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif_root().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let mut it = l.splitn(3, ' ');
            let p = it.next()?.strip_prefix("property=")?.to_string();
            let k = it.next()?.strip_prefix("key=")?.to_string();
            let w = it.next().unwrap_or("").to_string();
            (p == id).then_some((k, w))
        })
        .collect()
}
fn known_keys(id: &str) -> Vec<String> {
    known_findings(id).into_iter().map(|x| x.0).collect()
}

// ---------------------------------------------------------------- parent
struct Shard {
    n: u32,
    start: u64,
    proc: std::process::Child,
    last_idx: u64,
    last_change: Instant,
}

fn spawn(spec: &Spec, seed: u64, tier: Tier, n: u32, start: u64, total: u64, out: &Path, deadline: u64) -> std::process::Child {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("child").arg(spec.id);
    c.args([
        seed.to_string(),
        if tier == Tier::Thorough { "thorough" } else { "quick" }.to_string(),
        n.to_string(),
        spec.shards.to_string(),
        start.to_string(),
        total.to_string(),
        out.display().to_string(),
        deadline.to_string(),
    ]);
    let home = out.join(format!("home{}", n));
    let _ = std::fs::create_dir_all(&home);
    for k in ["http_proxy", "https_proxy", "all_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "LOGREDUCE_CACHE", "LOGREDUCE_SSL_NO_VERIFY", "LOGREDUCE_LOG"] {
        c.env_remove(k);
    }
    c.env("HOME", &home).env("XDG_CACHE_HOME", home.join("cache"));
    c.env("RUST_BACKTRACE", "0");
    for (k, v) in (spec.env)(n) {
        c.env(k, v);
    }
    let err = std::fs::File::create(out.join(format!("err{}", n))).unwrap();
    c.stdout(std::process::Stdio::null()).stderr(err).stdin(std::process::Stdio::null());
    c.spawn().expect("spawn shard")
}

pub fn run(specs: &[Spec], args: &[String]) -> i32 {
    let id = args[0].as_str();
    let spec = match specs.iter().find(|s| s.id == id) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let total = match tier {
        Tier::Quick => (spec.quick as f64 * scale) as u64,
        Tier::Thorough => (spec.thorough as f64 * scale) as u64,
    }
    .max(1);
    let t0 = Instant::now();
    // The exploration stops at the soft deadline (fewer cases, still a verdict on what was seen).
    let (soft, hard) = match tier {
        Tier::Quick => (300u64, 700u64),
        Tier::Thorough => (3600, 7200),
    };
    let stall = 120u64;
    let base = std::env::temp_dir().join(format!("vh.{}.{}", id, std::process::id()));
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).unwrap();

    let mut live: Vec<Shard> = (0..spec.shards)
        .map(|n| Shard {
            n,
            start: n as u64,
            proc: spawn(spec, seed, tier, n, n as u64, total, &base, soft),
            last_idx: u64::MAX,
            last_change: Instant::now(),
        })
        .collect();
    let mut violation: Option<(u64, String, String, Value)> = None;
    let mut errors: Vec<String> = Vec::new();
    let mut results: Vec<Value> = Vec::new();
    let mut crashed_known = 0u64;
    let keys = known_keys(id);
    while !live.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut next = Vec::new();
        for mut s in live {
            let curf = base.join(format!("cur{}", s.n));
            let cur = std::fs::read(&curf).ok().and_then(|b| b.try_into().ok().map(u64::from_le_bytes)).unwrap_or(u64::MAX);
            if cur != s.last_idx {
                s.last_idx = cur;
                s.last_change = Instant::now();
            }
            match s.proc.try_wait().unwrap() {
                None => {
                    if violation.is_some() {
                        let _ = s.proc.kill();
                        let _ = s.proc.wait();
                        continue;
                    }
                    if s.last_change.elapsed() > Duration::from_secs(stall) {
                        let _ = s.proc.kill();
                        let _ = s.proc.wait();
                        // Bounded progress: cases take well below a second; a case that makes no
                        // progress for two minutes twice, the second time alone, is a violation.
                        let mut again = spawn(spec, seed, tier, s.n, cur, cur + 1, &base, soft);
                        let t = Instant::now();
                        let mut st = None;
                        while t.elapsed() < Duration::from_secs(stall) {
                            if let Some(x) = again.try_wait().unwrap() {
                                st = Some(x);
                                break;
                            }
                            std::thread::sleep(Duration::from_millis(50));
                        }
                        match st {
                            None => {
                                let _ = again.kill();
                                let _ = again.wait();
                                violation = Some((cur, "hang".into(), format!("case {} makes no progress within {} s, twice", cur, stall), json!([])));
                            }
                            Some(_) => errors.push(format!("case {} stalled once, finished when run alone", cur)),
                        }
                        continue;
                    }
                    if t0.elapsed() > Duration::from_secs(hard) {
                        let _ = s.proc.kill();
                        let _ = s.proc.wait();
                        errors.push(format!("shard {} exceeded the hard time limit", s.n));
                        continue;
                    }
                    next.push(s);
                }
                Some(st) => {
                    let resf = base.join(format!("res{}", s.n));
                    let res: Option<Value> = std::fs::read_to_string(&resf).ok().and_then(|t| serde_json::from_str(&t).ok());
                    match (st.code(), st.signal(), res) {
                        (Some(0), _, Some(r)) => results.push(r),
                        (Some(1), _, Some(r)) => {
                            let e = &r["extra"];
                            if violation.is_none() {
                                violation = Some((e["idx"].as_u64().unwrap_or(0), e["key"].as_str().unwrap_or("").into(), e["msg"].as_str().unwrap_or("").into(), e["notes"].clone()));
                            }
                            results.push(r);
                        }
                        (Some(3), _, Some(r)) => {
                            errors.push(format!("case {}: {}", r["extra"]["idx"], r["extra"]["msg"]));
                            results.push(r);
                        }
                        (_, Some(sig), _) if sig == libc::SIGABRT || sig == libc::SIGSEGV || sig == libc::SIGBUS || sig == libc::SIGILL || sig == libc::SIGFPE => {
                            let err = std::fs::read_to_string(base.join(format!("err{}", s.n))).unwrap_or_default();
                            let tail: String = err.lines().rev().take(6).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" / ");
                            let key = format!("crash-signal-{}", sig);
                            if keys.contains(&key) {
                                crashed_known += 1;
                            } else if violation.is_none() {
                                violation = Some((cur, key, format!("the code under test killed its process with signal {}: {}", sig, tail), json!([])));
                            }
                        }
                        (c, sig, _) => {
                            let err = std::fs::read_to_string(base.join(format!("err{}", s.n))).unwrap_or_default();
                            errors.push(format!("shard {} (started at {}) ended with {:?} signal {:?} at case {}: {}", s.n, s.start, c, sig, cur, err.chars().take(500).collect::<String>()));
                        }
                    }
                }
            }
        }
        live = next;
    }
    let _ = std::fs::remove_dir_all(&base);

    // Merge what the shards observed.
    let mut evals = 0u64;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxima: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<String> = HashSet::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut cut = 0;
    for r in &results {
        evals += r["evals"].as_u64().unwrap_or(0);
        for (k, v) in r["counters"].as_object().unwrap() {
            *counters.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
        }
        for (k, v) in r["maxima"].as_object().unwrap() {
            let e = maxima.entry(k.clone()).or_insert(0);
            *e = (*e).max(v.as_u64().unwrap_or(0));
        }
        for d in r["distinct"].as_array().unwrap() {
            distinct.insert(d.as_str().unwrap().to_string());
        }
        for s in r["samples"].as_array().unwrap() {
            if samples.len() < 8 {
                samples.push(s.clone());
            }
        }
        for k in r["known"].as_array().unwrap() {
            *known_seen.entry(k[0].as_str().unwrap_or("").to_string()).or_insert(0) += 1;
        }
        if r["cut"].as_bool() == Some(true) {
            cut += 1;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let evidence = json!({
        "property": id,
        "tier": if tier == Tier::Thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": spec.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct.len(),
            "rule": spec.rule,
            "samples": samples,
            "observed": counters,
            "observed_maxima": maxima,
            "planned_cases": total,
            "shards_cut_by_time": cut,
            "known_findings_seen": known_seen,
            "errors": errors,
        },
        "assumptions": spec.assumptions,
        "wall_s": wall,
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    let evdir = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    let _ = std::fs::write(evdir.join(format!("{}.json", id)), serde_json::to_string_pretty(&evidence).unwrap() + "\n");

    for (k, w) in known_findings(id) {
        println!("KNOWN-FINDING: property={} {} (key {}, seen {} times)", id, w, k, known_seen.get(&k).copied().unwrap_or(0) + crashed_known);
    }
    if let Some((idx, key, msg, notes)) = violation {
        let rdir = verif_root().join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let rp = rdir.join(format!("{}-seed{}-case{}.json", id, seed, idx));
        let replay = json!({"property": id, "seed": seed, "case": idx, "tier": if tier == Tier::Thorough {"thorough"} else {"quick"}, "key": key, "message": msg, "notes": notes,
            "rerun": format!("VERIF_SEED={} {} case {} {}", seed, std::env::current_exe().unwrap().display(), id, idx)});
        let _ = std::fs::write(&rp, serde_json::to_string_pretty(&replay).unwrap() + "\n");
        println!("{}: case {} [{}]: {}", id, idx, key, msg.chars().take(2000).collect::<String>());
        println!("VIOLATION property={} replay={}", id, rp.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in &errors {
            println!("{}: error: {}", id, e);
        }
        return 2;
    }
    for n in spec.need {
        if counters.get(*n).copied().unwrap_or(0) == 0 && scale >= 1.0 {
            println!("{}: inconclusive: the monitors never observed '{}'", id, n);
            return 2;
        }
    }
    println!("{}: held on {} cases ({} distinct non-trivial) in {:.1} s: {}", id, evals, distinct.len(), wall,
        counters.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" "));
    0
}

pub fn main(specs: &[Spec]) -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("run") => run(specs, &args[1..]),
        Some("child") => match specs.iter().find(|s| s.id == args[1]) {
            Some(s) => child(s, &args[2..]),
            None => 2,
        },
        Some("case") => {
            // Replay one case in this process.
            let spec = specs.iter().find(|s| s.id == args[1]).expect("property");
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let idx: u64 = args[2].parse().unwrap();
            let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
            let base = std::env::temp_dir().join(format!("vh.case.{}", std::process::id()));
            std::fs::create_dir_all(&base).unwrap();
            std::env::set_var("HOME", &base);
            std::env::set_var("XDG_CACHE_HOME", base.join("cache"));
            let shard = (idx % spec.shards as u64) as u32;
            for (k, v) in (spec.env)(shard) {
                std::env::set_var(k, v);
            }
            install_panic_hook();
            let mut cov = Cov::default();
            let (o, notes) = run_case(spec, &mut cov, seed, idx, shard, tier, &base, true);
            let _ = std::fs::remove_dir_all(&base);
            let _ = std::io::stdout().flush();
            match o {
                Outcome::Held => {
                    println!("held; observed {:?} {:?}", cov.counters, cov.maxima);
                    0
                }
                Outcome::Violation(v) => {
                    for n in notes {
                        println!("  {}", n);
                    }
                    println!("violation [{}]: {}", v.key, v.msg);
                    1
                }
                Outcome::Inconclusive(s) => {
                    println!("inconclusive: {}", s);
                    3
                }
            }
        }
        Some("list") => {
            for s in specs {
                println!("{}", s.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vh run ID | vh case ID N | vh list");
            2
        }
    }
}

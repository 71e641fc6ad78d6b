//! Choice-sequence property testing engine: every random decision of a case is
//! recorded as a bounded integer, so a case can be replayed and shrunk.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

/// Source of choices.
pub struct G {
    rng: Option<Rng>,
    given: Vec<u64>,
    pub rec: Vec<u64>,
    trace: Option<std::fs::File>,
    /// Human readable rendering of the case.
    pub desc: String,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub limit: usize,
}

impl G {
    pub fn random(seed: u64) -> Self {
        G {
            rng: Some(Rng::new(seed)),
            given: vec![],
            rec: vec![],
            trace: None,
            desc: String::new(),
            labels: vec![],
            nontrivial: false,
            limit: 200_000,
        }
    }
    pub fn replay(given: Vec<u64>) -> Self {
        let mut g = G::random(0);
        g.rng = None;
        g.given = given;
        g
    }
    fn raw(&mut self, n: u64, draw: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => {
                if self.rec.len() > self.limit {
                    0
                } else {
                    draw(r)
                }
            }
            None => self
                .given
                .get(self.rec.len())
                .copied()
                .unwrap_or(0)
                .min(n - 1),
        };
        self.rec.push(v);
        if let Some(f) = &mut self.trace {
            let _ = f.write_all(format!("{v}\n").as_bytes());
        }
        v
    }
    /// Uniform choice in `0..n`; 0 is the simplest.
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        self.raw(n as u64, |r| r.next() % n as u64) as usize
    }
    pub fn u64(&mut self) -> u64 {
        self.raw(u64::MAX, |r| r.next().min(u64::MAX - 1))
    }
    /// `lo..=hi`, lo is the simplest.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability `num/den`; false is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.raw(2, |r| (r.next() % den < num) as u64) == 1
    }
    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }
    /// Weighted choice; index 0 is the simplest.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let i = self.raw(w.len() as u64, |r| {
            let mut x = r.next() % total;
            for (i, wi) in w.iter().enumerate() {
                if x < *wi as u64 {
                    return i as u64;
                }
                x -= *wi as u64;
            }
            0
        }) as usize;
        // A replayed choice may have become impossible.
        if w[i] == 0 {
            return w.iter().position(|x| *x > 0).unwrap();
        }
        i
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Length biased to small values.
    pub fn len(&mut self, max: usize) -> usize {
        let mut n = 0;
        while n < max && self.chance(3, 5) {
            n += 1;
        }
        n
    }
    pub fn shuffle<T>(&mut self, xs: &mut Vec<T>) {
        for i in (1..xs.len()).rev() {
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l)
        }
    }
    pub fn note(&mut self, k: &str, v: impl std::fmt::Display) {
        if self.trace.is_some() {
            eprintln!("{k}: {v}");
        }
        let _ = writeln!(self.desc, "{k}: {v}");
    }
}

pub enum Outcome {
    Pass,
    Discard,
}
pub type R = Result<Outcome, String>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)) } };
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub run: fn(&mut G) -> R,
    /// Fixed cases of known findings: (signature, description, check).
    pub known: &'static [(&'static str, &'static str, fn() -> Result<(), String>)],
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    s.hash(&mut h);
    h.finish()
}
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}

pub fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    let mut r = Rng::new(seed ^ hash_str(id));
    let a = r.next();
    let mut r = Rng::new(a ^ i.wrapping_mul(0xD1342543DE82EF95));
    r.next()
}

pub fn exec(p: &Prop, g: &mut G) -> R {
    match catch_unwind(AssertUnwindSafe(|| (p.run)(g))) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let loc = PANIC_LOC.with(|l| l.borrow().clone());
            Err(format!("panic at {loc}: {m}"))
        }
    }
}

thread_local! { static PANIC_LOC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| l.to_string()).unwrap_or_default();
        PANIC_LOC.with(|p| *p.borrow_mut() = l);
    }));
}

static PROGRESS: AtomicU64 = AtomicU64::new(u64::MAX);

fn cpu_ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let s = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = s.split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
        + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}
/// Ends the process (code 97) when one case burns too much CPU.
pub fn watchdog(limit_s: u64) {
    std::thread::spawn(move || {
        let mut last = PROGRESS.load(Ordering::Relaxed);
        let mut t0 = cpu_ticks();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let p = PROGRESS.load(Ordering::Relaxed);
            let t = cpu_ticks();
            if p != last {
                last = p;
                t0 = t;
            } else if t - t0 > limit_s * 100 {
                std::process::exit(97);
            }
        }
    });
}
pub const CASE_CPU_S: u64 = 40;

pub fn big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, f)
            .unwrap()
            .join()
            .unwrap_or_else(|_| std::process::exit(98))
    })
}

/// Worker: runs cases i ≡ shard (mod nshards) and writes a report.
pub fn worker(p: &Prop, seed: u64, n: u64, shard: u64, nshards: u64, dir: &str) -> i32 {
    quiet_panics();
    watchdog(CASE_CPU_S);
    big_stack(|| {
        use std::os::unix::fs::FileExt;
        let prog = std::fs::File::create(format!("{dir}/{shard}.prog")).unwrap();
        let mut hashes: HashSet<u64> = HashSet::new();
        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
        let (mut evals, mut discards, mut nontriv) = (0u64, 0u64, 0u64);
        let mut samples: Vec<String> = vec![];
        let mut failure = None;
        let mut i = shard;
        while i < n {
            PROGRESS.store(i, Ordering::Relaxed);
            let _ = prog.write_all_at(&(i + 1).to_le_bytes(), 0);
            let mut g = G::random(case_seed(seed, p.id, i));
            let r = exec(p, &mut g);
            evals += 1;
            match r {
                Ok(Outcome::Pass) => {
                    for l in &g.labels {
                        *labels.entry(l).or_default() += 1;
                    }
                    if g.nontrivial {
                        nontriv += 1;
                        if hashes.insert(hash_str(&g.desc)) && samples.len() < 2 && g.desc.len() < 3000 && i > n / 10 {
                            samples.push(g.desc.clone());
                        }
                    }
                }
                Ok(Outcome::Discard) => discards += 1,
                Err(m) => {
                    failure = Some((i, m, g.rec.clone(), g.desc.clone()));
                    break;
                }
            }
            i += nshards;
        }
        PROGRESS.store(u64::MAX - 1, Ordering::Relaxed);
        let j = serde_json::json!({
            "evals": evals, "discards": discards, "nontriv": nontriv,
            "labels": labels, "samples": samples,
            "failure": failure.as_ref().map(|(i,m,c,d)| serde_json::json!({"case": i, "message": m, "choices": c, "desc": d})),
        });
        let mut hb = Vec::with_capacity(hashes.len() * 8);
        for h in &hashes {
            hb.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(format!("{dir}/{shard}.hash"), hb).unwrap();
        std::fs::write(format!("{dir}/{shard}.json"), j.to_string()).unwrap();
        0
    })
}

/// Runs one case in this process, tracing choices to a file.
pub fn solo(p: &Prop, mut g: G, trace: Option<&str>) -> i32 {
    quiet_panics();
    watchdog(CASE_CPU_S);
    PROGRESS.store(0, Ordering::Relaxed);
    g.trace = trace.map(|t| std::fs::File::create(t).unwrap());
    let r = big_stack(|| {
        let r = exec(p, &mut g);
        (r, g.desc)
    });
    match r {
        (Ok(_), d) => {
            println!("{d}");
            println!("PASS");
            0
        }
        (Err(m), d) => {
            println!("{d}");
            println!("FAIL {m}");
            1
        }
    }
}

fn fails(p: &Prop, c: &[u64]) -> Option<(String, Vec<u64>, String)> {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    let mut g = G::replay(c.to_vec());
    match exec(p, &mut g) {
        Err(m) => Some((m, g.rec, g.desc)),
        _ => None,
    }
}

/// Shrinks a failing choice sequence; prints the result as JSON.
pub fn shrink(p: &Prop, start: Vec<u64>) -> i32 {
    quiet_panics();
    watchdog(CASE_CPU_S);
    PROGRESS.store(0, Ordering::Relaxed);
    big_stack(|| {
        let Some(mut best) = fails(p, &start) else {
            return 3;
        };
        let t0 = std::time::Instant::now();
        let mut budget = 4000i64;
        let ok = |b: &i64| *b > 0 && t0.elapsed().as_secs() < 60;
        let better = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a.iter().map(|x| *x as u128).sum::<u128>()) < (b.len(), b.iter().map(|x| *x as u128).sum::<u128>());
        loop {
            let before = best.1.clone();
            for size in [64usize, 32, 16, 8, 4, 3, 2, 1] {
                let mut i = 0;
                while i < best.1.len() && ok(&budget) {
                    let mut c = best.1.clone();
                    let e = (i + size).min(c.len());
                    c.drain(i..e);
                    budget -= 1;
                    match fails(p, &c) {
                        Some(r) if better(&r.1, &best.1) => best = r,
                        _ => i += size,
                    }
                }
            }
            let mut i = 0;
            while i < best.1.len() && ok(&budget) {
                let v = best.1[i];
                if v > 0 {
                    for cand in [0, 1, v / 2, v - 1] {
                        if cand < v {
                            let mut c = best.1.clone();
                            c[i] = cand;
                            budget -= 1;
                            if let Some(r) = fails(p, &c) {
                                if better(&r.1, &best.1) {
                                    best = r;
                                    break;
                                }
                            }
                        }
                    }
                }
                i += 1;
            }
            if !ok(&budget) || best.1 == before {
                break;
            }
        }
        println!("{}", serde_json::json!({"message": best.0, "choices": best.1, "desc": best.2}));
        0
    })
}

pub struct Cfg {
    pub seed: u64,
    pub thorough: bool,
    pub n: Option<u64>,
}

/// Runs a whole check. Returns the exit code.
pub fn check(p: &Prop, cfg: Cfg) -> i32 {
    let t0 = std::time::Instant::now();
    let n = cfg.n.unwrap_or(if cfg.thorough { p.thorough } else { p.quick });
    let exe = std::env::current_exe().unwrap();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let dir = format!("{root}/target/runs/{}-{}", p.id, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let shards: u64 = 8;
    let limits = "ulimit -v 3000000; ulimit -c 0; exec \"$0\" \"$@\"";
    let spawn = |args: Vec<String>| {
        std::process::Command::new("bash")
            .arg("-c")
            .arg(limits)
            .arg(&exe)
            .args(args)
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn()
            .unwrap()
    };
    let mut kids = vec![];
    for s in 0..shards {
        kids.push((
            s,
            spawn(vec!["worker".into(), p.id.into(), cfg.seed.to_string(), n.to_string(), s.to_string(), shards.to_string(), dir.clone()]),
        ));
    }
    let (mut evals, mut discards, mut nontriv) = (0u64, 0u64, 0u64);
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    // (case, message, choices, desc, crash)
    let mut failure: Option<(u64, String, Vec<u64>, String, bool)> = None;
    let mut error: Option<String> = None;
    for (s, k) in kids {
        let out = k.wait_with_output().unwrap();
        if !out.status.success() {
            // Crashed, hung or ran out of memory: confirm on the case alone.
            let b = std::fs::read(format!("{dir}/{s}.prog")).unwrap_or_default();
            if b.len() < 8 {
                error = Some(format!("worker {s} did not start: {:?}", out.status));
                continue;
            }
            let case = u64::from_le_bytes(b[..8].try_into().unwrap()) - 1;
            let trace = format!("{dir}/{s}.trace");
            let o2 = spawn(vec!["case".into(), p.id.into(), cfg.seed.to_string(), case.to_string(), trace.clone()]).wait_with_output().unwrap();
            let c: Vec<u64> = std::fs::read_to_string(&trace).unwrap_or_default().lines().filter_map(|l| l.parse().ok()).collect();
            match o2.status.code() {
                Some(0) => error = Some(format!("worker {s} died on case {case} ({:?}), not reproduced alone", out.status)),
                Some(1) => failure = Some((case, "case fails".into(), c, String::new(), false)),
                Some(98) | Some(2) => error = Some(format!("case {case} ended with {:?}", o2.status)),
                Some(97) => failure = Some((case, format!("the case does not end (over {CASE_CPU_S} s of CPU time, twice)"), c, String::new(), true)),
                _ => failure = Some((case, format!("the process dies on this case, twice: {:?} then {:?}", out.status, o2.status), c, String::new(), true)),
            }
            continue;
        }
        let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(format!("{dir}/{s}.json")).unwrap()).unwrap();
        evals += j["evals"].as_u64().unwrap();
        discards += j["discards"].as_u64().unwrap();
        nontriv += j["nontriv"].as_u64().unwrap();
        for (k, v) in j["labels"].as_object().unwrap() {
            *labels.entry(k.clone()).or_default() += v.as_u64().unwrap();
        }
        for x in j["samples"].as_array().unwrap() {
            samples.push(x.as_str().unwrap().to_string());
        }
        let hb = std::fs::read(format!("{dir}/{s}.hash")).unwrap();
        for c in hb.chunks(8) {
            hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
        if let Some(f) = j["failure"].as_object() {
            let case = f["case"].as_u64().unwrap();
            if failure.as_ref().map_or(true, |x| x.0 > case || x.4) {
                failure = Some((
                    case,
                    f["message"].as_str().unwrap().into(),
                    f["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
                    f["desc"].as_str().unwrap().into(),
                    false,
                ));
            }
        }
    }
    let mut violations = 0;
    let mut out = String::new();
    // Known findings.
    let kf = std::fs::read_to_string(format!("{root}/known-findings.txt")).unwrap_or_default();
    let mut known_lines = vec![];
    for (sig, what, f) in p.known {
        quiet_panics();
        let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| Err("panic".into()));
        if let Err(m) = r {
            let listed = kf.lines().any(|l| l.starts_with("known:") && l.contains(&format!("property={} ", p.id)) && l.contains(&format!("sig={sig} ")));
            if listed {
                known_lines.push(format!("KNOWN-FINDING: property={} {sig}: {what}", p.id));
            } else {
                violations += 1;
                let path = format!("{root}/replays/{}-{sig}.json", p.id);
                std::fs::create_dir_all(format!("{root}/replays")).unwrap();
                std::fs::write(&path, serde_json::json!({"property": p.id, "fixed_case": sig, "message": m, "case": what}).to_string()).unwrap();
                let _ = writeln!(out, "VIOLATION property={} replay={path}", p.id);
            }
        }
    }
    if let Some((case, mut msg, mut choices, mut desc, crash)) = failure {
        violations += 1;
        let cf = format!("{dir}/fail.choices");
        std::fs::write(&cf, choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join("\n")).unwrap();
        if !crash {
            let o = spawn(vec!["shrink".into(), p.id.into(), cf]).wait_with_output().unwrap();
            if o.status.success() {
                if let Ok(j) = serde_json::from_slice::<serde_json::Value>(&o.stdout) {
                    msg = j["message"].as_str().unwrap_or("").into();
                    desc = j["desc"].as_str().unwrap_or("").into();
                    choices = j["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                }
            }
        }
        std::fs::create_dir_all(format!("{root}/replays")).unwrap();
        let path = format!("{root}/replays/{}-{:016x}.json", p.id, hash_str(&format!("{choices:?}")));
        let j = serde_json::json!({"property": p.id, "seed": cfg.seed, "tier": if cfg.thorough { "thorough" } else { "quick" }, "case": case, "message": msg, "input": desc, "choices": choices,
            "replay": format!("bash /verif/run.sh replay {} {}", p.id, path)});
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        eprintln!("--- {} case {case}\n{desc}--- {msg}", p.id);
        let _ = writeln!(out, "VIOLATION property={} replay={path}", p.id);
    }
    let _ = std::fs::remove_dir_all(&dir);
    samples.truncate(6);
    let ev = serde_json::json!({
        "property": p.id, "tier": if cfg.thorough {"thorough"} else {"quick"}, "seed": cfg.seed, "level": "exploration",
        "coverage": {"evaluations": evals, "distinct_nontrivial": hashes.len(), "nontrivial": nontriv, "discarded": discards, "rule": p.rule, "labels": labels, "samples": samples},
        "wall_s": t0.elapsed().as_secs_f64(), "violations": violations,
    });
    std::fs::create_dir_all(format!("{root}/evidence")).unwrap();
    std::fs::write(format!("{root}/evidence/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    for l in known_lines {
        println!("{l}");
    }
    print!("{out}");
    println!("{} evaluations={evals} nontrivial={nontriv} distinct={} discarded={discards} labels={labels:?} wall={:.1}s", p.id, hashes.len(), t0.elapsed().as_secs_f64());
    if violations > 0 {
        return 1;
    }
    if let Some(e) = error {
        eprintln!("ERROR: {e}");
        return 2;
    }
    0
}

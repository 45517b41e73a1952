//! Case driver: generates cases, runs each against the real code under
//! instrumentation (overflow checks, debug assertions, panic capture, CPU-time
//! and memory limits) and collects what the monitors observed.
use crate::rng::{splitmix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;
pub type CaseFn = fn(&mut Cx) -> R;

pub struct Family {
    pub name: &'static str,
    /// relative share of the cases
    pub weight: u64,
    pub run: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    /// number of cases of the quick tier
    pub quick: u64,
    pub families: Vec<Family>,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// events (and minimum counts) without which a run is inconclusive
    pub need: &'static [(&'static str, u64)],
}

/// What one case sees and reports.
pub struct Cx {
    pub rng: Rng,
    pub index: u64,
    hash: u64,
    nontrivial: bool,
    events: BTreeMap<&'static str, u64>,
    want_desc: bool,
    desc: Option<String>,
    checks: u64,
}

impl Cx {
    fn new(rng: Rng, index: u64) -> Self {
        Cx {
            rng,
            index,
            hash: 0xcbf29ce484222325,
            nontrivial: false,
            events: BTreeMap::new(),
            want_desc: false,
            desc: None,
            checks: 0,
        }
    }
    /// Count an observed event.
    pub fn ev(&mut self, name: &'static str) {
        *self.events.entry(name).or_insert(0) += 1;
    }
    pub fn evn(&mut self, name: &'static str, n: u64) {
        *self.events.entry(name).or_insert(0) += n;
    }
    /// Count one oracle comparison.
    pub fn ok(&mut self) {
        self.checks += 1;
    }
    pub fn key_u(&mut self, v: u64) {
        let mut x = self.hash ^ v;
        self.hash = splitmix(&mut x);
    }
    pub fn key(&mut self, vs: &[f64]) {
        for v in vs {
            self.key_u(v.to_bits());
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn desc<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_desc {
            self.desc = Some(f());
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($cx:expr, $c:expr, $($a:tt)*) => {
        $cx.ok();
        if !($c) { return Err(format!($($a)*)); }
    };
}

#[derive(Default)]
struct Tally {
    cases: u64,
    checks: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    events: BTreeMap<&'static str, u64>,
    fam: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    violations: Vec<Violation>,
    harness_errors: Vec<String>,
}

#[derive(Clone)]
pub struct Violation {
    pub index: u64,
    pub family: String,
    pub message: String,
    pub desc: String,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = std::cell::RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn case_seed(seed: u64, prop: &str, index: u64) -> u64 {
    let mut h = 0x9E3779B97F4A7C15u64 ^ seed;
    for b in prop.bytes() {
        h = h.wrapping_mul(0x100000001b3) ^ b as u64;
    }
    let mut x = h ^ index.wrapping_mul(0xD6E8FEB86659FD93);
    splitmix(&mut x)
}

fn family_of(p: &Prop, index: u64) -> usize {
    let total: u64 = p.families.iter().map(|f| f.weight).sum();
    // spread families evenly over the index range
    let mut r = (index.wrapping_mul(0x9E3779B97F4A7C15) >> 11) % total;
    for (i, f) in p.families.iter().enumerate() {
        if r < f.weight {
            return i;
        }
        r -= f.weight;
    }
    0
}

enum Outcome {
    Ok,
    Violated(String),
    Harness(String),
}

fn run_case(p: &Prop, seed: u64, index: u64, want_desc: bool) -> (Outcome, Cx, &'static str) {
    let fam = &p.families[family_of(p, index)];
    let mut cx = Cx::new(Rng::new(case_seed(seed, p.id, index)), index);
    cx.want_desc = want_desc;
    LAST_PANIC.with(|q| *q.borrow_mut() = None);
    let res = catch_unwind(AssertUnwindSafe(|| (fam.run)(&mut cx)));
    let out = match res {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(m)) => {
            if m.starts_with("HARNESS") {
                Outcome::Harness(m)
            } else {
                Outcome::Violated(m)
            }
        }
        Err(_) => {
            let (loc, msg) = LAST_PANIC
                .with(|q| q.borrow_mut().take())
                .unwrap_or((String::new(), "panic".into()));
            if msg.starts_with("HARNESS Dy::f of") {
                // every generated input is finite, so this came out of the code under test
                Outcome::Violated(format!("a result is {} where a finite number is due", msg.trim_start_matches("HARNESS Dy::f of ")))
            } else if loc.starts_with("src/") {
                // a comparison met something the code under test never returns when it is right
                Outcome::Violated(format!("a result could not be compared: panic in the monitor at {}: {}", loc, msg))
            } else {
                Outcome::Violated(format!("the code under test panicked at {}: {}", loc, msg))
            }
        }
    };
    (out, cx, fam.name)
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

pub fn seed() -> u64 {
    env_u64("VERIF_SEED", 1)
}
pub fn tier() -> String {
    match std::env::var("VERIF_TIER") {
        Ok(s) if s == "thorough" => s,
        _ => "quick".into(),
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

const THREADS: usize = 8;
const STUCK_SECS: u64 = 45;

/// The worker: runs the cases, writes evidence and replay files.
/// Exit code: 0 held, 1 violated, 2 inconclusive / harness error, 78 stuck.
pub fn worker(p: &Prop, root: &str) -> i32 {
    install_panic_hook();
    let seed = seed();
    let tier = tier();
    let scale = env_u64("VERIF_SCALE", 100);
    let (n, wall_cap) = if tier == "thorough" {
        (p.quick * 40 * scale / 100, 780u64)
    } else {
        (p.quick * scale / 100, 400u64)
    };
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let done = AtomicBool::new(false);
    let stop = AtomicBool::new(false);
    let slots: Vec<AtomicU64> = (0..THREADS).map(|_| AtomicU64::new(u64::MAX)).collect();
    let prog = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(true)
        .open(format!("{}/out/{}.progress", root, p.id))
        .expect("HARNESS progress file");
    let total = Mutex::new(Tally::default());
    std::thread::scope(|s| {
        let (next, done, stop, slots, prog, total) = (&next, &done, &stop, &slots, &prog, &total);
        let mut hs = vec![];
        for t in 0..THREADS {
            hs.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut ta = Tally::default();
                        'outer: loop {
                            let base = next.fetch_add(32, Ordering::Relaxed);
                            if base >= n || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            for index in base..(base + 32).min(n) {
                                slots[t].store(index, Ordering::Relaxed);
                                let _ = prog.write_at(&index.to_le_bytes(), (t * 8) as u64);
                                let want = ta.samples.len() < 2 && (index % 101) < 8;
                                let (out, cx, fam) = run_case(p, seed, index, want);
                                ta.cases += 1;
                                ta.checks += cx.checks;
                                *ta.fam.entry(fam).or_insert(0) += 1;
                                for (k, v) in &cx.events {
                                    *ta.events.entry(k).or_insert(0) += v;
                                }
                                if cx.nontrivial {
                                    ta.nontrivial += 1;
                                    if ta.distinct.len() < 3_000_000 {
                                        let mut h = cx.hash ^ family_of(p, index) as u64;
                                        ta.distinct.insert(splitmix(&mut h));
                                    }
                                    if want {
                                        if let Some(d) = &cx.desc {
                                            ta.samples.push(short(&format!("#{} {}: {}", index, fam, d)));
                                        }
                                    }
                                }
                                match out {
                                    Outcome::Ok => {}
                                    Outcome::Violated(m) => {
                                        if ta.violations.len() < 40 {
                                            let (_, cx2, _) = run_case(p, seed, index, true);
                                            ta.violations.push(Violation {
                                                index,
                                                family: fam.to_string(),
                                                message: m,
                                                desc: cx2.desc.unwrap_or_default(),
                                            });
                                        }
                                        if ta.violations.len() >= 40 {
                                            stop.store(true, Ordering::Relaxed);
                                            break 'outer;
                                        }
                                    }
                                    Outcome::Harness(m) => {
                                        if ta.harness_errors.len() < 10 {
                                            ta.harness_errors.push(format!("#{} {}: {}", index, fam, m));
                                        }
                                    }
                                }
                            }
                            if start.elapsed().as_secs() > wall_cap {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        slots[t].store(u64::MAX, Ordering::Relaxed);
                        let mut g = total.lock().unwrap();
                        g.cases += ta.cases;
                        g.checks += ta.checks;
                        g.nontrivial += ta.nontrivial;
                        g.distinct.extend(ta.distinct);
                        for (k, v) in ta.events {
                            *g.events.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in ta.fam {
                            *g.fam.entry(k).or_insert(0) += v;
                        }
                        g.samples.extend(ta.samples);
                        g.violations.extend(ta.violations);
                        g.harness_errors.extend(ta.harness_errors);
                    })
                    .expect("spawn"),
            );
        }
        // watchdog: a case that makes no progress for STUCK_SECS is handed to the
        // supervisor, which decides it in isolation by CPU time.
        let wd = s.spawn(move || {
            let mut seen = vec![(u64::MAX, Instant::now()); THREADS];
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                for t in 0..THREADS {
                    let v = slots[t].load(Ordering::Relaxed);
                    if v != seen[t].0 {
                        seen[t] = (v, Instant::now());
                    } else if v != u64::MAX && seen[t].1.elapsed().as_secs() > STUCK_SECS {
                        println!("STUCK {}", v);
                        std::process::exit(78);
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
        let _ = wd.join();
    });
    let mut g = total.into_inner().unwrap();
    g.violations.sort_by_key(|v| v.index);
    g.samples.sort();
    let mut code = 0;
    let wall = start.elapsed().as_secs_f64();
    let mut groups: BTreeMap<String, (Violation, u64)> = BTreeMap::new();
    for v in &g.violations {
        let sig = format!("{}|{}", v.family, signature(&v.message));
        groups.entry(sig).or_insert((v.clone(), 0)).1 += 1;
    }
    println!(
        "{} seed={} tier={} cases={} nontrivial={} distinct={} oracle-comparisons={} wall={:.1}s",
        p.id, seed, tier, g.cases, g.nontrivial, g.distinct.len(), g.checks, wall
    );
    for (k, v) in &g.fam {
        println!("  family {:<34} {:>9}", k, v);
    }
    for (k, v) in &g.events {
        println!("  event  {:<34} {:>9}", k, v);
    }
    for e in &g.harness_errors {
        println!("HARNESS-ERROR {}", e);
    }
    let mut nviol = 0u64;
    for (_, (v, cnt)) in &groups {
        nviol += 1;
        if nviol <= 5 {
            report_violation(p, root, seed, v, *cnt);
        }
        code = 1;
    }
    let mut missing = vec![];
    for (k, m) in p.need {
        let have = *g.events.get(k).unwrap_or(&0);
        if have < (*m * scale / 100).max(1) {
            missing.push(format!("{} ({} < {})", k, have, m));
        }
    }
    if g.nontrivial == 0 {
        missing.push("non-trivial cases".into());
    }
    write_evidence(p, root, seed, &tier, &g, wall, nviol);
    if code == 0 && (!missing.is_empty() || !g.harness_errors.is_empty()) {
        if !missing.is_empty() {
            println!("INCONCLUSIVE property={} not observed: {}", p.id, missing.join(", "));
        }
        code = 2;
    }
    code
}

fn signature(m: &str) -> String {
    let mut o = String::new();
    for c in m.chars().take(60) {
        if c.is_ascii_digit() || c == '.' || c == '-' {
            if !o.ends_with('#') {
                o.push('#');
            }
        } else {
            o.push(c);
        }
    }
    o.truncate(o.char_indices().nth(40).map(|x| x.0).unwrap_or(o.len()));
    o
}

fn report_violation(p: &Prop, root: &str, seed: u64, v: &Violation, cnt: u64) {
    let path = format!("{}/out/{}-s{}-{}.json", root, p.id, seed, v.index);
    let body = format!(
        "{{\"property\":{},\"seed\":{},\"index\":{},\"family\":{},\"message\":{},\"case\":{},\"replay_cmd\":{}}}\n",
        json_str(p.id),
        seed,
        v.index,
        json_str(&v.family),
        json_str(&v.message),
        json_str(&v.desc),
        json_str(&format!("VERIF_SEED={} ./check.sh {} --case {}", seed, p.id, v.index))
    );
    let _ = std::fs::write(&path, body);
    println!("  {} #{} ({} like it): {}", v.family, v.index, cnt, v.message);
    if !v.desc.is_empty() {
        println!("    case: {}", v.desc);
    }
    println!("VIOLATION property={} replay={}", p.id, path);
}

fn write_evidence(p: &Prop, root: &str, seed: u64, tier: &str, g: &Tally, wall: f64, nviol: u64) {
    let mut ev = String::new();
    for (k, v) in &g.events {
        if !ev.is_empty() {
            ev.push(',');
        }
        ev.push_str(&format!("{}:{}", json_str(k), v));
    }
    let mut fam = String::new();
    for (k, v) in &g.fam {
        if !fam.is_empty() {
            fam.push(',');
        }
        fam.push_str(&format!("{}:{}", json_str(k), v));
    }
    let samples: Vec<String> = g.samples.iter().take(8).map(|s| json_str(s)).collect();
    let samples = if samples.is_empty() { "\"(none)\"".to_string() } else { samples.join(",") };
    let assumptions: Vec<String> = p.assumptions.iter().map(|s| json_str(s)).collect();
    let body = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"oracle_comparisons\":{},\"families\":{{{}}},\"events\":{{{}}}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        json_str(p.id), json_str(tier), seed, g.cases, g.distinct.len(), json_str(p.rule), samples, g.checks, fam, ev,
        assumptions.join(","), wall, nviol
    );
    let dir = format!("{}/evidence", root);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, p.id), body).expect("HARNESS evidence");
}

/// One case in isolation (replay, and the supervisor's confirmation runs).
pub fn single(p: &Prop, index: u64, root: &str, verbose: bool) -> i32 {
    install_panic_hook();
    let s = seed();
    let h = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, || {
                let (out, cx, fam) = run_case(p, s, index, true);
                (out, cx.desc.clone().unwrap_or_default(), fam)
            })
            .expect("spawn")
            .join()
    });
    let (out, desc, fam) = match h {
        Ok(x) => x,
        Err(_) => return 2,
    };
    if verbose {
        println!("family: {}\ncase: {}", fam, desc);
    }
    match out {
        Outcome::Ok => {
            if verbose {
                println!("held");
            }
            0
        }
        Outcome::Violated(m) => {
            report_violation(
                p,
                root,
                s,
                &Violation { index, family: fam.into(), message: m, desc },
                1,
            );
            1
        }
        Outcome::Harness(m) => {
            println!("HARNESS-ERROR {}", m);
            2
        }
    }
}

/// Supervisor: runs the worker under a memory limit; a worker that died or got
/// stuck is decided by re-running the suspected cases alone.
pub fn supervise(p: &Prop, root: &str) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let _ = std::fs::create_dir_all(format!("{}/out", root));
    let run = |args: &[String], mem_kb: u64, cpu: Option<u64>| -> (Option<i32>, String) {
        let lim = match cpu {
            Some(c) => format!("ulimit -v {}; ulimit -t {}; ulimit -c 0; exec \"$@\"", mem_kb, c),
            None => format!("ulimit -v {}; ulimit -c 0; exec \"$@\"", mem_kb),
        };
        let o = std::process::Command::new("sh")
            .arg("-c")
            .arg(lim)
            .arg("sh")
            .arg(&exe)
            .args(args)
            .stderr(std::process::Stdio::null())
            .output();
        match o {
            Ok(o) => (o.status.code(), String::from_utf8_lossy(&o.stdout).into_owned()),
            Err(e) => (Some(2), format!("HARNESS-ERROR cannot start the worker: {}", e)),
        }
    };
    let (code, out) = run(&["worker".into(), p.id.into()], 16 << 20, None);
    print!("{}", out);
    match code {
        Some(c) if c == 0 || c == 1 || c == 2 => return c,
        _ => {}
    }
    // died or stuck: candidates
    let mut cand: Vec<u64> = vec![];
    if let Some(l) = out.lines().find(|l| l.starts_with("STUCK ")) {
        if let Ok(v) = l[6..].trim().parse() {
            cand.push(v);
        }
    } else if let Ok(b) = std::fs::read(format!("{}/out/{}.progress", root, p.id)) {
        for c in b.chunks_exact(8) {
            cand.push(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    let start = Instant::now();
    for idx in cand {
        let (c, o) = run(
            &["case".into(), p.id.into(), idx.to_string()],
            4 << 20,
            Some(30),
        );
        match c {
            Some(0) => continue,
            Some(2) => {
                print!("{}", o);
                continue;
            }
            Some(1) => {
                print!("{}", o);
                return 1;
            }
            other => {
                let m = format!(
                    "the case alone does not finish within 30 CPU-seconds and 4 GB, or aborts the process (status {:?}); its peers take well under a millisecond",
                    other
                );
                report_violation(
                    p,
                    root,
                    seed(),
                    &Violation {
                        index: idx,
                        family: p.families[family_of(p, idx)].name.into(),
                        message: m,
                        desc: String::new(),
                    },
                    1,
                );
                let mut g = Tally::default();
                g.cases = idx + 1;
                g.samples.push(format!("#{}", idx));
                write_evidence(p, root, seed(), &tier(), &g, start.elapsed().as_secs_f64(), 1);
                return 1;
            }
        }
    }
    println!("INCONCLUSIVE property={} the worker ended with {:?} and no single case reproduces it", p.id, code);
    2
}

/// a sample for the evidence, cut to a readable length
fn short(s: &str) -> String {
    if s.chars().count() <= 600 {
        return s.to_string();
    }
    s.chars().take(600).collect::<String>() + " ..."
}

/// Runs cases in turn, for an interpreter: only what it reports counts. "ran N" lines tell how far it got.
pub fn some(p: &Prop, from: u64, to: u64) -> i32 {
    install_panic_hook();
    let s = seed();
    for (k, i) in (from..to).enumerate() {
        let _ = run_case(p, s, i, false);
        println!("ran {}", k + 1);
    }
    0
}

/// Adds an event count to evidence already written.
pub fn note(p: &Prop, root: &str, what: &str, count: &str) -> i32 {
    let f = format!("{}/evidence/{}.json", root, p.id);
    if let Ok(t) = std::fs::read_to_string(&f) {
        let n: u64 = count.parse().unwrap_or(0);
        let t = t.replacen("\"events\":{", &format!("\"events\":{{{}:{},", json_str(what), n), 1).replacen(",}", "}", 1);
        let _ = std::fs::write(&f, t);
        println!("  event  {:<36} {:>10}", what, n);
    }
    0
}

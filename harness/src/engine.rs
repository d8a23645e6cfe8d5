//! Runs cases of a property in child processes, observes verdicts, and writes
//! evidence. Verdicts are three-valued: held (0), violated (1), no answer (2).
use crate::rng::Rng;
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Prop {
    pub id: &'static str,
    /// Cases in the quick and thorough tier
    pub cases: (u64, u64),
    pub run: fn(&mut Rng, &mut Cx),
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Counters that must be seen for the run to count as an answer
    pub must_see: &'static [(&'static str, u64)],
    pub level: &'static str,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub sig: String,
    pub msg: String,
    pub case: u64,
    pub input: String,
}

pub struct Cx {
    pub tier: Tier,
    pub seed: u64,
    pub case: u64,
    pub input: String,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub viols: Vec<Viol>,
    pub scratch: PathBuf,
    cur: Option<std::fs::File>,
}

impl Cx {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counters.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(format!("max {}", k)).or_insert(0);
        *e = (*e).max(n);
    }
    /// Marks the situation as non-trivial, counted once per key
    pub fn distinct(&mut self, key: &str) {
        self.distinct.insert(crate::rng::hash_str(key));
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 2 {
            self.samples.push(v);
        }
    }
    /// Remembers what is being run so that a crash of the process can be replayed
    pub fn input(&mut self, s: &str) {
        self.input = s.to_string();
        if let Some(f) = &mut self.cur {
            use std::io::Seek;
            let _ = f.set_len(0);
            let _ = f.rewind();
            let _ = f.write_all(s.as_bytes());
        }
    }
    pub fn fail(&mut self, sig: impl Into<String>, msg: impl Into<String>) {
        let sig = sig.into();
        if self.viols.iter().filter(|v| v.sig == sig).count() < 3 && self.viols.len() < 60 {
            self.viols.push(Viol { sig, msg: msg.into(), case: self.case, input: self.input.clone() });
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

/// Result of running library code: its value, or where and why it panicked
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") || loc.starts_with("/verif/harness/") {
                // A bug of the harness, which is no verdict about the library
                eprintln!("HARNESS PANIC {} {}", loc, msg);
                std::process::exit(70);
            }
            Err(format!("panic at {}: {}", loc, msg))
        }
    }
}

/// Location-free signature of a panic message from `guard`
pub fn panic_sig(s: &str) -> String {
    let file = s.split(": ").next().unwrap_or("");
    let file = file.rsplit('/').next().unwrap_or(file);
    format!("panic {}", file.split(':').next().unwrap_or(file))
}

pub fn install_hook() {
    panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else {
            String::new()
        };
        let msg: String = msg.chars().take(300).collect();
        LAST_PANIC.with(|l| *l.borrow_mut() = Some((loc, msg)));
    }));
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

pub fn work() -> PathBuf {
    PathBuf::from("/verif/work")
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);

fn run_cases(
    p: &Prop,
    tier: Tier,
    cases: &mut dyn Iterator<Item = u64>,
    cur: Option<std::fs::File>,
    budget: Duration,
    scratch: PathBuf,
) -> (Cx, u64, bool) {
    let mut cx = Cx {
        tier,
        seed: seed(),
        case: 0,
        input: String::new(),
        counters: BTreeMap::new(),
        distinct: HashSet::new(),
        samples: vec![],
        viols: vec![],
        scratch,
        cur,
    };
    let start = Instant::now();
    let mut done = 0;
    let mut cut = false;
    for i in cases {
        if start.elapsed() > budget {
            cut = true;
            break;
        }
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        cx.case = i;
        cx.input.clear();
        let mut r = Rng::for_case(cx.seed, p.id, i);
        let res = guard(|| (p.run)(&mut r, &mut cx));
        if let Err(e) = res {
            cx.fail(panic_sig(&e), e);
        }
        done += 1;
        if !cx.input.is_empty() && cx.samples.len() < 2 && cx.input.len() < 3000 {
            let v = json!({ "case": i, "input": cx.input });
            cx.samples.push(v);
        }
        if cx.viols.len() >= 60 {
            break;
        }
    }
    (cx, done, cut)
}

pub fn child(p: &'static Prop, tier: Tier, k: u64, n: u64, total: u64, budget: Duration, out: PathBuf) -> i32 {
    install_hook();
    let cur_path = out.with_extension("cur");
    let scratch = work().join(format!("scratch-{}-{}-{}", p.id, std::process::id(), k));
    std::fs::create_dir_all(&scratch).expect("scratch");
    std::thread::spawn(|| {
        // A generous watchdog whose firing is no verdict
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = PROGRESS.load(Ordering::Relaxed);
            if now != last.0 {
                last = (now, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(240) {
                eprintln!("WATCHDOG: no progress");
                std::process::exit(71);
            }
        }
    });
    let sc = scratch.clone();
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let cur = std::fs::File::create(&cur_path).expect("cur");
            let mut it = (0..total).filter(|i| i % n == k);
            let (cx, done, cut) = run_cases(p, tier, &mut it, Some(cur), budget, sc);
            let v = json!({
                "done": done, "cut": cut, "counters": cx.counters,
                "distinct": cx.distinct.iter().collect::<Vec<_>>(),
                "samples": cx.samples,
                "viols": cx.viols.iter().map(|v| json!({"sig": v.sig, "msg": v.msg, "case": v.case, "input": v.input})).collect::<Vec<_>>(),
            });
            std::fs::write(&out, v.to_string()).expect("out");
        })
        .expect("spawn");
    let ok = h.join().is_ok();
    let _ = std::fs::remove_dir_all(&scratch);
    if ok { 0 } else { 72 }
}

/// Known findings by (property, signature)
fn known(id: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Ok(t) = std::fs::read_to_string("/verif/known_findings.txt") {
        for l in t.lines() {
            // known: property=<id> sig=[...] text
            if let Some(rest) = l.strip_prefix(&format!("known: property={} sig=[", id)) {
                if let Some((sig, text)) = rest.split_once("] ") {
                    m.insert(sig.to_string(), text.to_string());
                }
            }
        }
    }
    m
}

pub struct Outcome {
    pub evaluations: u64,
    pub distinct: u64,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub viols: Vec<Viol>,
    pub errors: Vec<String>,
    pub extra: Map<String, Value>,
}

pub fn parent(p: &'static Prop, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let total = match tier {
        Tier::Quick => p.cases.0,
        Tier::Thorough => p.cases.1,
    };
    let budget = match tier {
        Tier::Quick => 300,
        Tier::Thorough => 3000,
    };
    let n = std::env::var("VWMON_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8u64).min(total.max(1));
    std::fs::create_dir_all(work().join("replays")).expect("work dir");
    let exe = std::env::current_exe().expect("exe");
    let mut kids = Vec::new();
    for k in 0..n {
        let out = work().join(format!("shard-{}-{}-{}.json", p.id, std::process::id(), k));
        let c = Command::new(&exe)
            .args(["child", p.id, if tier == Tier::Quick { "quick" } else { "thorough" }])
            .args([k.to_string(), n.to_string(), total.to_string(), budget.to_string()])
            .arg(&out)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::piped())
            .spawn()
            .expect("spawn child");
        kids.push((k, out, c));
    }
    let mut o = Outcome {
        evaluations: 0,
        distinct: 0,
        counters: BTreeMap::new(),
        samples: vec![],
        viols: vec![],
        errors: vec![],
        extra: Map::new(),
    };
    let mut distinct: BTreeSet<u64> = BTreeSet::new();
    let mut cut = 0;
    for (k, out, c) in kids {
        let r = c.wait_with_output().expect("wait");
        let err = String::from_utf8_lossy(&r.stderr).to_string();
        let text = std::fs::read_to_string(&out).ok();
        let cur = std::fs::read_to_string(out.with_extension("cur")).unwrap_or_default();
        let _ = std::fs::remove_file(&out);
        let _ = std::fs::remove_file(out.with_extension("cur"));
        use std::os::unix::process::ExitStatusExt;
        match (r.status.code(), r.status.signal()) {
            (Some(0), _) => (),
            (_, Some(s)) if s == 6 || s == 11 || s == 4 || s == 8 || s == 7 => {
                o.viols.push(Viol {
                    sig: format!("killed by signal {}", s),
                    msg: format!("shard {} died from signal {}: {}", k, s, tail(&err)),
                    case: u64::MAX,
                    input: cur,
                });
                continue;
            }
            (c, s) => {
                o.errors.push(format!("shard {} ended with {:?}/{:?}: {}", k, c, s, tail(&err)));
                continue;
            }
        }
        let v: Value = match text.and_then(|t| serde_json::from_str(&t).ok()) {
            Some(v) => v,
            None => {
                o.errors.push(format!("shard {} left no report", k));
                continue;
            }
        };
        o.evaluations += v["done"].as_u64().unwrap_or(0);
        cut += v["cut"].as_bool().unwrap_or(false) as u64;
        for (k, n) in v["counters"].as_object().unwrap() {
            let n = n.as_u64().unwrap();
            let e = o.counters.entry(k.clone()).or_insert(0);
            if k.starts_with("max ") {
                *e = (*e).max(n);
            } else {
                *e += n;
            }
        }
        for d in v["distinct"].as_array().unwrap() {
            distinct.insert(d.as_u64().unwrap());
        }
        for s in v["samples"].as_array().unwrap() {
            if o.samples.len() < 4 {
                o.samples.push(s.clone());
            }
        }
        for x in v["viols"].as_array().unwrap() {
            o.viols.push(Viol {
                sig: x["sig"].as_str().unwrap().into(),
                msg: x["msg"].as_str().unwrap().into(),
                case: x["case"].as_u64().unwrap(),
                input: x["input"].as_str().unwrap().into(),
            });
        }
    }
    o.distinct = distinct.len() as u64;
    o.extra.insert("shards_cut_by_time_budget".into(), json!(cut));
    finish(p.id, tier, p.level, p.rule, p.assumptions, p.must_see, o, t0)
}

fn tail(s: &str) -> String {
    let v: Vec<&str> = s.lines().rev().take(4).collect();
    v.into_iter().rev().collect::<Vec<_>>().join(" / ")
}

pub fn finish(
    id: &str,
    tier: Tier,
    level: &str,
    rule: &str,
    assumptions: &[&str],
    must_see: &[(&str, u64)],
    mut o: Outcome,
    t0: Instant,
) -> i32 {
    let known = known(id);
    let mut reported: BTreeMap<String, Viol> = BTreeMap::new();
    let mut found_known: BTreeSet<String> = BTreeSet::new();
    for v in &o.viols {
        if known.contains_key(&v.sig) {
            found_known.insert(v.sig.clone());
            continue;
        }
        let e = reported.entry(v.sig.clone()).or_insert_with(|| v.clone());
        if v.input.len() < e.input.len() {
            *e = v.clone();
        }
    }
    for (k, t) in &known {
        if found_known.contains(k) {
            println!("KNOWN-FINDING: property={} {}", id, t);
        } else {
            println!("note: known finding [{}] was not observed in this run", k);
        }
    }
    if reported.is_empty() && o.errors.is_empty() {
        for (k, n) in must_see {
            let got = o.counters.get(*k).copied().unwrap_or(0);
            let need = *n;
            if got < need {
                o.errors.push(format!("observed only {} of {:?}, needed {}", got, k, need));
            }
        }
        if o.evaluations == 0 || o.distinct == 0 {
            o.errors.push("nothing was observed".into());
        }
    }
    let mut cov = Map::new();
    cov.insert("evaluations".into(), json!(o.evaluations));
    cov.insert("distinct_nontrivial".into(), json!(o.distinct));
    cov.insert("rule".into(), json!(rule));
    cov.insert("samples".into(), json!(o.samples));
    cov.insert("observed".into(), json!(o.counters));
    for (k, v) in o.extra {
        cov.insert(k, v);
    }
    if !o.errors.is_empty() {
        cov.insert("errors".into(), json!(o.errors));
    }
    let ev = json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed(),
        "level": level,
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": reported.len(),
    });
    let _ = std::fs::create_dir_all("/verif/evidence");
    std::fs::write(
        format!("/verif/evidence/{}.json", id),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .expect("evidence");
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {:.1}s",
        id,
        o.evaluations,
        o.distinct,
        t0.elapsed().as_secs_f64()
    );
    for (k, n) in &o.counters {
        println!("  {:>10} {}", n, k);
    }
    if !reported.is_empty() {
        for (n, (sig, v)) in reported.iter().enumerate().take(12) {
            let path = format!("/verif/work/replays/{}-{}.json", id, n);
            let r = json!({"property": id, "seed": seed(), "case": if v.case == u64::MAX { Value::Null } else { json!(v.case) },
                "signature": sig, "message": v.msg, "input": v.input});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap());
            println!("VIOLATION property={} replay={}", id, path);
            println!("  [{}] {}", sig, v.msg.chars().take(700).collect::<String>());
            println!("  input: {:?}", v.input.chars().take(500).collect::<String>());
        }
        return 1;
    }
    if !o.errors.is_empty() {
        for e in &o.errors {
            println!("ERROR {}: {}", id, e);
        }
        return 2;
    }
    0
}

/// Runs a single case in this process and prints what it finds
pub fn one(p: &'static Prop, tier: Tier, i: u64) -> i32 {
    install_hook();
    let scratch = work().join(format!("scratch-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let sc = scratch.clone();
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let (cx, _, _) =
                run_cases(p, tier, &mut std::iter::once(i), None, Duration::from_secs(10000), sc);
            println!("input: {}", cx.input);
            for v in &cx.viols {
                println!("[{}] {}\n  input {:?}", v.sig, v.msg, v.input);
            }
            println!("{:?}", cx.counters);
            !cx.viols.is_empty() as i32
        })
        .unwrap();
    let r = h.join().unwrap();
    let _ = std::fs::remove_dir_all(&scratch);
    r
}

/// What the programs that run checks do with their arguments
pub fn run_main(a: &[String], find: fn(&str) -> Option<&'static Prop>) -> i32 {
    let get = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| get(i).parse::<u64>().expect("number");
    let prop = |id: &str| find(id).unwrap_or_else(|| panic!("no property {}", id));
    let tier = |s: &str| match s {
        "quick" | "" => Tier::Quick,
        "thorough" => Tier::Thorough,
        x => panic!("unknown tier {}", x),
    };
    match get(1) {
        "run" => parent(prop(get(2)), tier(get(3))),
        "child" => child(
            prop(get(2)),
            tier(get(3)),
            num(4),
            num(5),
            num(6),
            Duration::from_secs(num(7)),
            PathBuf::from(get(8)),
        ),
        "case" => one(prop(get(2)), tier(get(4)), num(3)),
        "replay" => {
            let t = std::fs::read_to_string(get(2)).expect("replay file");
            let v: Value = serde_json::from_str(&t).expect("json");
            std::env::set_var("VERIF_SEED", v["seed"].to_string());
            match v["case"].as_u64() {
                Some(i) => one(prop(v["property"].as_str().unwrap()), Tier::Quick, i),
                None => {
                    println!("no single case: the process died while running {}", v["input"]);
                    2
                }
            }
        }
        x => {
            eprintln!("usage: run|case|replay ... ({:?})", x);
            2
        }
    }
}

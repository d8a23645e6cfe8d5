//! Results depend on text and configuration only: not on threads, on what was
//! done before, or on time keeping; and time keeping counts every call.
use crate::engine::*;
use crate::rng::{hash_str, Rng};
use crate::{fuzz, gen, walk};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Barrier;
use vimwiki::*;

pub static PROP: Prop = Prop {
    id: "C24",
    cases: (400, 12_000),
    run,
    rule: "cases are sets of pages with configurations, whose trees, formatted texts and HTML are made in order, in reverse, again, in several threads at once (each with its own and with shared pages), in other processes, and with time keeping compiled in, switched on, or switched all the time; some under ThreadSanitizer; the report of time keeping is compared with calls counted by a hook; non-trivial: distinct pages and distinct sets of contexts reported",
    assumptions: &["the report of time keeping is the only view of what it counted"],
    must_see: &[
        ("results compared in threads", 10_000),
        ("results compared with other processes", 5_000),
        ("runs under ThreadSanitizer", 10),
        ("contexts compared", 5_000),
        ("calls compared", 100_000),
        ("switched while parsing", 40),
    ],
    level: "exploration",
};

pub struct Job {
    text: String,
    vim: VimwikiConfig,
    html: HtmlConfig,
}

/// The same for the same seed in every process
pub fn jobs(r: &mut Rng, n: usize) -> Vec<Job> {
    (0..n)
        .map(|_| {
            let text = match r.below(3) {
                0 => fuzz::any(r),
                1 => super::c09::text(r),
                _ => gen::any_doc(r).text,
            };
            let vim = super::c07::config(r);
            // A tree that has all kinds of links
            let mut html = super::c09::config(r, &walk::Node::new("page"));
            html.code.server_side = r.chance(1, 100);
            Job { text, vim, html }
        })
        .collect()
}

fn result(j: &Job) -> String {
    let f = || match Language::from_vimwiki_str(&j.text).parse::<Page>() {
        Ok(p) => shown(&p, j),
        Err(e) => {
            let e: ParseError = e;
            format!("error {}", e)
        }
    };
    match guard(f) {
        Ok(s) => s,
        Err(e) => panic_sig(&e),
    }
}

fn shown(p: &Page, j: &Job) -> String {
    let n = walk::page(p);
    let mut regions = String::new();
    n.walk(&mut |k| regions.push_str(&format!("{:?} ", k.region)));
    format!("{}\n{}\n--\n{:?}\n--\n{:?}", n.canon(), regions, p.to_vimwiki_string(j.vim.clone()).map_err(|e| e.to_string()), p.to_html_string(j.html.clone()).map_err(|e| e.to_string()))
}

fn order(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    r.shuffle(&mut v);
    v
}

/// Calls by context seen on this thread
fn contexts(into: &mut BTreeMap<String, u64>) {
    #[cfg(vimwiki_monitor)]
    for (k, v) in vimwiki::monitor::observed().contexts {
        *into.entry(k.to_string()).or_insert(0) += v;
    }
    let _ = into;
}

fn forget() {
    #[cfg(vimwiki_monitor)]
    {
        vimwiki::monitor::reset();
        vimwiki::monitor::set_span_limit(u64::MAX);
    }
}

/// Results of the jobs by each of the threads, which start together
fn in_threads(js: &[Job], orders: &[Vec<usize>]) -> (Vec<Vec<(usize, String)>>, BTreeMap<String, u64>) {
    let b = Barrier::new(orders.len());
    let mut calls = BTreeMap::new();
    let mut out = vec![];
    std::thread::scope(|s| {
        let h: Vec<_> = orders
            .iter()
            .map(|o| {
                let b = &b;
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        forget();
                        b.wait();
                        let v: Vec<_> = o.iter().map(|i| (*i, result(&js[*i]))).collect();
                        let mut c = BTreeMap::new();
                        contexts(&mut c);
                        (v, c)
                    })
                    .expect("thread")
            })
            .collect();
        for t in h {
            let (v, c) = t.join().expect("thread");
            out.push(v);
            for (k, n) in c {
                *calls.entry(k).or_insert(0) += n;
            }
        }
    });
    (out, calls)
}

const SIZES: (usize, usize) = (6, 18);

fn plan(r: &mut Rng) -> Vec<Job> {
    let n = r.range(SIZES.0, SIZES.1);
    jobs(r, n)
}

fn run(r: &mut Rng, cx: &mut Cx) {
    let mut again = r.clone();
    let js = plan(r);
    for j in &js {
        cx.distinct(&j.text);
    }
    cx.input(&js.iter().map(|j| j.text.as_str()).collect::<Vec<_>>().join("\n=====\n"));
    let first: Vec<String> = js.iter().map(result).collect();
    let differs = |cx: &mut Cx, what: &str, i: usize, got: &str| {
        if first[i] != got {
            let (a, b) = gap(&first[i], got);
            cx.input(&js[i].text);
            cx.fail(format!("depends on {}", what), format!("{:?} but {:?}", a, b));
        }
    };
    // The same, made again
    let same = plan(&mut again);
    if same.iter().zip(&js).any(|(a, b)| a.text != b.text) {
        eprintln!("HARNESS: jobs are not reproducible");
        std::process::exit(74);
    }
    for i in (0..js.len()).rev() {
        let got = result(&js[i]);
        differs(cx, "what was done before", i, &got);
        cx.count("results compared in another order");
    }
    // At once
    let k = r.range(2, 8);
    let orders: Vec<_> = (0..k).map(|_| order(r, js.len())).collect();
    let (out, _) = in_threads(&js, &orders);
    for v in &out {
        for (i, s) in v {
            differs(cx, "other threads", *i, s);
            cx.count("results compared in threads");
        }
    }
    shared(cx, &js, &differs);
    // Elsewhere
    let (seed, case) = (cx.seed, cx.case);
    let mode = |r: &mut Rng| *r.pick(&["plain", "off", "on", "on", "toggle"]);
    let m = mode(r);
    let sanitized = case % 24 == 5;
    let bin = match m {
        _ if sanitized => TSAN,
        "plain" => MON,
        _ => TK,
    };
    let m = if sanitized && m == "plain" { "on" } else { m };
    let threads = if m == "plain" { 1 } else { r.range(1, 6) };
    let o = Command::new(bin)
        .args(["purity", &seed.to_string(), &case.to_string(), m, &threads.to_string()])
        .env("TSAN_OPTIONS", "exitcode=66 halt_on_error=1")
        .stdin(Stdio::null())
        .output()
        .unwrap_or_else(|e| {
            eprintln!("HARNESS: cannot run {}: {}", bin, e);
            std::process::exit(73)
        });
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    let err = String::from_utf8_lossy(&o.stderr);
    if o.status.code() == Some(66) && err.contains("ThreadSanitizer") {
        let at = err.lines().filter(|l| l.contains("#0") || l.contains("WARNING")).take(4).collect::<Vec<_>>().join("\n");
        return cx.fail("data race", at);
    }
    if sanitized {
        cx.count("runs under ThreadSanitizer");
    }
    let last = text.lines().find(|l| l.starts_with("RESULT ")).map(|l| serde_json::from_str::<Value>(&l[7..]));
    let v = match (o.status.code(), last) {
        (Some(0), Some(Ok(v))) => v,
        (Some(c), _) if c == 73 || c == 74 || c == 70 => {
            eprintln!("HARNESS: {}", err);
            std::process::exit(c)
        }
        (c, _) => return cx.fail(format!("dies with time keeping {}", m), format!("exit {:?} {}", c, err.chars().take(500).collect::<String>())),
    };
    for (i, h) in v["results"].as_array().unwrap().iter().enumerate() {
        for h in h.as_array().unwrap() {
            if h.as_u64() != Some(hash_str(&first[i])) {
                let what = if m == "plain" { "the process".to_string() } else { format!("time keeping ({})", m) };
                cx.input(&js[i].text);
                cx.fail(format!("depends on {}", what), format!("{} differs", js[i].text));
            }
            cx.count("results compared with other processes");
        }
    }
    if m == "toggle" {
        cx.count("switched while parsing");
    }
    if m == "on" || m == "off" {
        let mut want: BTreeMap<String, u64> = BTreeMap::new();
        for (k, n) in v["calls"].as_object().unwrap() {
            want.insert(k.clone(), n.as_u64().unwrap());
        }
        if want.is_empty() {
            eprintln!("HARNESS: no calls were counted");
            std::process::exit(75);
        }
        cx.distinct(&want.keys().cloned().collect::<Vec<_>>().join("/"));
        if m == "off" {
            want.clear();
        }
        let mut reports = text.split("====== TIMEKEEPER REPORT ======").skip(1).map(report);
        let got = match reports.next() {
            Some(Ok(g)) => g,
            x => return cx.fail("no report", format!("{:?} in {}", x, text)),
        };
        cx.add("contexts compared", want.len() as u64);
        cx.add("calls compared", want.values().sum());
        if got != want {
            let k = want.keys().chain(got.keys()).find(|k| want.get(*k) != got.get(*k)).unwrap();
            cx.fail("calls miscounted", format!("{} threads: {} was called {:?} times but {:?} were counted", threads, k, want.get(k), got.get(k)));
        }
        // It is cleared by then
        match reports.next() {
            Some(Ok(g)) if g.is_empty() => (),
            x => cx.fail("report not cleared", format!("{:?}", x)),
        }
    }
}

/// Pages that several threads look at together
fn shared(cx: &mut Cx, js: &[Job], differs: &dyn Fn(&mut Cx, &str, usize, &str)) {
    let pages: Vec<_> = js.iter().map(|j| guard(|| Language::from_vimwiki_str(&j.text).parse::<Page>().ok()).ok().flatten()).collect();
    let b = Barrier::new(4);
    let mut out = vec![];
    std::thread::scope(|s| {
        let h: Vec<_> = (0..4)
            .map(|_| {
                let (b, pages) = (&b, &pages);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        b.wait();
                        pages
                            .iter()
                            .zip(js)
                            .enumerate()
                            .filter_map(|(i, (p, j))| p.as_ref().map(|p| (i, guard(|| shown(p, j)).unwrap_or_else(|e| panic_sig(&e)))))
                            .collect::<Vec<_>>()
                    })
                    .expect("thread")
            })
            .collect();
        out.extend(h.into_iter().map(|t| t.join().expect("thread")));
    });
    for v in out {
        for (i, s) in v {
            differs(cx, "sharing pages between threads", i, &s);
            cx.count("results compared of shared pages");
        }
    }
}

fn gap<'a>(a: &'a str, b: &'a str) -> (String, String) {
    let n = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count().saturating_sub(40);
    let f = |s: &str| s.chars().skip(n).take(160).collect::<String>();
    (f(a), f(b))
}

/// Calls by context according to a report
fn report(s: &str) -> Result<BTreeMap<String, u64>, String> {
    let s = s.split("===============================").next().unwrap();
    let mut m = BTreeMap::new();
    for l in s.lines().filter(|l| !l.is_empty()) {
        let x = l.strip_prefix("- ").ok_or(l)?;
        let (k, x) = x.rsplit_once(": (").ok_or(l)?;
        let n = x.split(' ').next().and_then(|n| n.parse().ok()).ok_or(l)?;
        if m.insert(k.to_string(), n).is_some() {
            return Err(format!("{} twice", k));
        }
    }
    Ok(m)
}

const MON: &str = "/verif/target/mon/debug/vwmon";
const TK: &str = "/verif/target/tk/debug/vwmon";
const TSAN: &str = "/verif/target/tsan/x86_64-unknown-linux-gnu/debug/vwmon";

/// `vwmon purity SEED CASE MODE THREADS`
pub fn purity(seed: u64, case: u64, mode: &str, threads: usize) -> i32 {
    install_hook();
    let (mode, threads) = (mode.to_string(), threads);
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || purity_(seed, case, &mode, threads))
        .unwrap()
        .join()
        .unwrap_or(1)
}

fn purity_(seed: u64, case: u64, mode: &str, threads: usize) -> i32 {
    let mut r = Rng::for_case(seed, PROP.id, case);
    let js = plan(&mut r);
    let orders: Vec<_> = (0..threads).map(|_| order(&mut r, js.len())).collect();
    #[cfg(feature = "timekeeper")]
    {
        use vimwiki::timekeeper as t;
        t::clear();
        if t::is_enabled() {
            println!("enabled from the start");
            return 1;
        }
        if mode == "on" {
            t::enable();
        }
    }
    #[cfg(not(feature = "timekeeper"))]
    if mode != "plain" {
        return 73;
    }
    let stop = AtomicBool::new(false);
    let (out, calls) = std::thread::scope(|_s| {
        if mode == "toggle" {
            #[cfg(feature = "timekeeper")]
            _s.spawn(|| {
                let mut n = 0u64;
                while !stop.load(Ordering::Relaxed) {
                    vimwiki::timekeeper::toggle_enabled();
                    n += 1;
                    if n % 7 == 0 {
                        vimwiki::timekeeper::clear();
                    }
                    if n % 31 == 0 {
                        vimwiki::timekeeper::print_report(n % 62 == 0);
                    }
                    std::thread::sleep(std::time::Duration::from_micros(r.below(80) as u64));
                }
            });
        }
        let x = in_threads(&js, &orders);
        stop.store(true, Ordering::Relaxed);
        x
    });
    let mut results: Vec<Vec<u64>> = vec![vec![]; js.len()];
    for v in out {
        for (i, s) in v {
            results[i].push(hash_str(&s));
        }
    }
    println!("\nRESULT {}", json!({"results": results, "calls": calls}));
    #[cfg(feature = "timekeeper")]
    if mode != "toggle" {
        vimwiki::timekeeper::disable();
        vimwiki::timekeeper::print_report(true);
        vimwiki::timekeeper::print_report(false);
    }
    0
}

//! Inspect and cached runs report the current content of the wikis.
use crate::cli::*;
use crate::engine::*;
use crate::props::c15::same;
use crate::props::c17::allowed;
use crate::rng::Rng;
use crate::walk;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::path::{Path, PathBuf};
use vimwiki::*;

pub static PROP: Prop = Prop {
    id: "C19",
    cases: (700, 16_000),
    run,
    rule: "each case is a history of edits of wikis and runs of the real program with changing options against one cache; after every run its results are compared with those of fresh parses of the files, and the cache with the pages; non-trivial: distinct sequences of edits and options",
    assumptions: &["nothing else writes to the cache", "files do not change while the program runs", "files have the same checksum only if their text is the same"],
    must_see: &[
        ("inspections", 900), ("conversions", 500), ("pages reported", 5_000), ("entries of the cache checked", 3_000), ("runs without cache", 300), ("runs without pruning", 300), ("pruning runs that removed something", 200), ("pages edited", 500), ("pages edited at the same time and size", 100), ("pages removed", 200), ("pages renamed", 200), ("pages swapped", 100), ("pages back at an earlier text", 150), ("partial runs", 300), ("entries reused", 1_000), ("queries", 300),
    ],
    level: "exploration",
};

/// The pages of the wikis chosen, as the program has to report them
pub fn expect_ast<'a>(w: &World, s: &'a Wikis, chosen: &[bool]) -> Vec<(usize, Vec<(PathBuf, &'a String)>)> {
    let mut v = vec![];
    for (i, x) in s.config.wikis.iter().enumerate() {
        if chosen[i] {
            v.push((i, s.pages.iter().map(|(k, t)| (w.root.join(k), t)).filter(|(k, _)| page_of(x, k)).collect()));
        }
    }
    v
}

fn parse(t: &str) -> Option<Page<'static>> {
    let p: Result<Page, ParseError> = Language::from_vimwiki_str(t).parse();
    p.ok().map(|p| p.into_owned())
}

/// Compares what inspect says about everything
pub fn check_ast(cx: &mut Cx, s: &Wikis, want: &[(usize, Vec<(PathBuf, &String)>)], out: &[u8]) -> bool {
    let v: Value = match serde_json::from_slice(out) {
        Ok(v) => v,
        Err(e) => {
            cx.fail("inspection is no JSON", format!("{} {}", e, String::from_utf8_lossy(out)));
            return false;
        }
    };
    let wikis = match v.as_array().filter(|a| a.len() == 1).and_then(|a| a[0]["wikis"].as_array()) {
        Some(w) if w.len() == want.len() => w,
        _ => {
            cx.fail("wikis reported", format!("{} wanted, {}", want.len(), v));
            return false;
        }
    };
    for (x, (i, files)) in wikis.iter().zip(want) {
        let k = &s.config.wikis[*i];
        if x["index"].as_u64() != Some(*i as u64) || x["name"].as_str() != k.name.as_deref() || x["path"].as_str() != k.path.to_str() {
            cx.fail("wiki reported", format!("{:?} {}", k, x));
            return false;
        }
        let got = x["files"].as_array().cloned().unwrap_or_default();
        let mut seen: BTreeMap<&str, &Value> = BTreeMap::new();
        for f in &got {
            if seen.insert(f["path"].as_str().unwrap_or(""), f).is_some() {
                cx.fail("file reported twice", f["path"].to_string());
                return false;
            }
        }
        let names: BTreeSet<&str> = files.iter().map(|f| f.0.to_str().unwrap()).collect();
        if names != seen.keys().copied().collect() {
            cx.fail("files reported", format!("{:?} rather than {:?}", seen.keys(), names));
            return false;
        }
        for (p, t) in files {
            let f = seen[p.to_str().unwrap()];
            cx.count("pages reported");
            if f["checksum"].as_str() != Some(&sha1(t.as_bytes())) {
                cx.fail("checksum reported", format!("{:?} {}", p, f["checksum"]));
                return false;
            }
            let page: Page = match serde_json::from_value(f["data"].clone()) {
                Ok(p) => p,
                Err(e) => {
                    cx.fail("page reported", format!("{:?} {} {}", p, e, f["data"]));
                    return false;
                }
            };
            let fresh = parse(t).unwrap();
            if walk::page(&page) != walk::page(&fresh) {
                cx.fail("content reported", format!("{:?}: {:?}", p, walk::diff(&walk::page(&fresh).canon(), &walk::page(&page).canon())));
                return false;
            }
            same(&fresh, &page, "inspection", cx);
        }
    }
    true
}

/// Whether the cache has these entries, each with its page
pub fn check_entry(cx: &mut Cx, text: &str, data: &[u8]) -> bool {
    cx.count("entries of the cache checked");
    let fresh = parse(text).unwrap();
    match serde_json::from_slice::<Page>(data) {
        Ok(p) if walk::page(&p) == walk::page(&fresh) => true,
        Ok(p) => {
            cx.fail("entry of the cache differs", format!("{:?}", walk::diff(&walk::page(&fresh).canon(), &walk::page(&p).canon())));
            false
        }
        Err(e) => {
            cx.fail("entry of the cache damaged", format!("{} {}", e, String::from_utf8_lossy(data)));
            false
        }
    }
}

fn expected_html(w: &World, s: &Wikis, chosen: &[bool]) -> Option<BTreeMap<PathBuf, String>> {
    let mut m = BTreeMap::new();
    for (rel, t) in &s.pages {
        let abs = w.root.join(rel);
        if s.wikis_of(&abs).iter().any(|i| chosen[*i]) {
            let h = s.home_of(&abs).unwrap();
            m.insert(output_of(&s.config.wikis[h], &abs), expect_html(&s.config, t, &abs, Some(h)).ok()?);
        }
    }
    Some(m)
}

fn mtime(p: &Path) -> Option<std::time::SystemTime> {
    std::fs::metadata(p).ok()?.modified().ok()
}

/// One random change of the pages
fn edit(r: &mut Rng, cx: &mut Cx, w: &World, s: &mut Wikis, past: &mut Vec<String>, log: &mut String) {
    let ks: Vec<PathBuf> = s.pages.keys().cloned().collect();
    let ok = |s: &Wikis, rel: &Path, t: &str| {
        let abs = w.root.join(rel);
        expect_html(&s.config, t, &abs, s.home_of(&abs)).is_ok()
    };
    if ks.is_empty() || r.chance(1, 6) {
        let i = r.below(s.config.wikis.len());
        let rel = s.config.wikis[i].path.strip_prefix(&w.root).unwrap().join(format!("new{}.{}", r.below(20), s.config.wikis[i].ext));
        let abs = w.root.join(&rel);
        let o = output_of(&s.config.wikis[s.home_of(&abs).unwrap()], &abs);
        let taken = s.pages.keys().any(|k| k != &rel && output_of(&s.config.wikis[s.home_of(&w.root.join(k)).unwrap()], &w.root.join(k)) == o);
        let t = page_text(r);
        if !taken && ok(s, &rel, &t) {
            cx.count("pages added");
            log.push('+');
            w.write(rel.to_str().unwrap(), &t);
            s.pages.insert(rel, t);
        }
        return;
    }
    let k = r.pick(&ks).clone();
    let p = w.root.join(&k);
    let old = s.pages[&k].clone();
    past.push(old.clone());
    match r.below(9) {
        0 => {
            cx.count("pages removed");
            log.push('-');
            std::fs::remove_file(&p).expect("scratch");
            s.pages.remove(&k);
        }
        1 => {
            let to = k.with_file_name(format!("ren{}.{}", r.below(20), k.extension().unwrap().to_str().unwrap()));
            if !s.pages.contains_key(&to) && !w.root.join(&to).exists() && ok(s, &to, &old) {
                cx.count("pages renamed");
                log.push('r');
                std::fs::rename(&p, w.root.join(&to)).expect("scratch");
                s.pages.remove(&k);
                s.pages.insert(to, old);
            }
        }
        2 => {
            let k2 = r.pick(&ks).clone();
            let (a, b) = (old, s.pages[&k2].clone());
            if k != k2 && ok(s, &k, &b) && ok(s, &k2, &a) {
                cx.count("pages swapped");
                log.push('s');
                let (m, m2) = (mtime(&p), mtime(&w.root.join(&k2)));
                w.write(k.to_str().unwrap(), &b);
                w.write(k2.to_str().unwrap(), &a);
                for (x, m) in [(&k, m), (&k2, m2)] {
                    if let (Some(m), Ok(f)) = (m, std::fs::File::options().write(true).open(w.root.join(x))) {
                        let _ = f.set_modified(m);
                    }
                }
                s.pages.insert(k, b);
                s.pages.insert(k2, a);
            }
        }
        3 => {
            let t = r.pick(past).clone();
            if ok(s, &k, &t) {
                cx.count("pages back at an earlier text");
                log.push('b');
                w.write(k.to_str().unwrap(), &t);
                s.pages.insert(k, t);
            }
        }
        4 | 5 => {
            // Another letter of the same length, at the same time
            let mut t: Vec<char> = old.chars().collect();
            let at: Vec<usize> = (0..t.len()).filter(|i| t[*i].is_ascii_lowercase()).collect();
            if at.is_empty() {
                return;
            }
            let i = *r.pick(&at);
            t[i] = if t[i] == 'q' { 'z' } else { 'q' };
            let t: String = t.into_iter().collect();
            if ok(s, &k, &t) {
                cx.count("pages edited at the same time and size");
                log.push('q');
                let m = mtime(&p);
                w.write(k.to_str().unwrap(), &t);
                if let (Some(m), Ok(f)) = (m, std::fs::File::options().write(true).open(&p)) {
                    let _ = f.set_modified(m);
                }
                s.pages.insert(k, t);
            }
        }
        _ => {
            let t = page_text(r);
            if ok(s, &k, &t) {
                cx.count("pages edited");
                log.push('e');
                w.write(k.to_str().unwrap(), &t);
                s.pages.insert(k, t);
            }
        }
    }
}

fn run(r: &mut Rng, cx: &mut Cx) {
    let w = World::new(&cx.scratch, cx.case);
    let c = base_config(r, &w);
    let mut s = fill(r, &w, c);
    let toml = html_toml(r, &s.config);
    w.write("cfg.toml", &toml);
    let mut past: Vec<String> = vec![];
    let mut history = String::new();
    let mut log = String::new();
    let caches = ["cache", "cache2/deep"];
    for step in 0..r.range(3, 7) {
        if step > 0 {
            for _ in 0..r.range(0, 3) {
                edit(r, cx, &w, &mut s, &mut past, &mut log);
            }
        }
        let rel_cache = if r.chance(1, 8) { caches[1] } else { caches[0] };
        let cache = w.path(rel_cache);
        // Something that was no page, or is no longer
        if r.chance(1, 6) && cache.is_dir() {
            w.write(&format!("{}/{}", rel_cache, sha1(b"gone")), "{}");
        }
        w.settle();
        let mut chosen = vec![true; s.config.wikis.len()];
        let mut all: Vec<OsString> = vec![];
        if r.chance(1, 4) {
            let i = r.below(s.config.wikis.len());
            chosen = (0..s.config.wikis.len()).map(|k| k == i).collect();
            all.extend(args(&["--include", &i.to_string()]));
            if s.config.wikis.len() > 1 {
                cx.count("partial runs");
            }
        }
        let no_cache = r.chance(1, 6);
        let no_prune = r.chance(1, 5);
        all.extend(args(&["--config", w.path("cfg.toml").to_str().unwrap(), "--cache", cache.to_str().unwrap()]));
        if no_cache {
            all.push("--no-cache".into());
            cx.count("runs without cache");
        }
        if no_prune {
            all.push("--no-prune-cache".into());
            cx.count("runs without pruning");
        }
        let want = expect_ast(&w, &s, &chosen);
        let mut outs: BTreeSet<PathBuf> = BTreeSet::new();
        let mut html = None;
        let mut file = None;
        let mut query = None;
        match r.below(6) {
            0 | 1 => {
                cx.count("conversions");
                log.push('C');
                let Some(h) = expected_html(&w, &s, &chosen) else { return };
                all.push("convert".into());
                outs.extend(h.keys().cloned());
                html = Some(h);
            }
            2 => {
                cx.count("queries");
                log.push('Q');
                let qs = ["$.wikis[*].files[*].path", "$..checksum", "$.wikis[*].index", "$.wikis[*].name", "$.wikis[*].files[*].data.elements", "$.nothing"];
                let i = r.below(qs.len());
                query = Some(i);
                all.extend(args(&["inspect", qs[i]]));
            }
            k => {
                cx.count("inspections");
                log.push('I');
                all.push("inspect".into());
                if k == 3 {
                    let f = w.path("home/out.json");
                    all.push(r.pick(&["-o", "--output"]).into());
                    all.push(f.clone().into());
                    outs.insert(f.clone());
                    file = Some(f);
                }
                all.push("$".into());
            }
        }
        log.push_str(if no_cache { "n" } else if no_prune { "k" } else { "" });
        history.push_str(&format!("{} {:?}\npages {:?}\n", log, all, s.pages));
        if history.len() > 20_000 {
            let cut = history.char_indices().map(|x| x.0).find(|i| *i > history.len() - 15_000).unwrap_or(0);
            history = history[cut..].to_string();
        }
        cx.input(&format!("{}\n{}", toml, history));
        let before = w.snapshot();
        let o = w.run(&all, &[]);
        let after = w.snapshot();
        cx.count("runs");
        if o.panicked() || o.signal.is_some() || o.code != Some(0) {
            return cx.fail("run failed", o.show());
        }
        let own = if no_cache { None } else { Some(cache.as_path()) };
        for e in o.changes() {
            if !allowed(&e.path, &outs, own) {
                return cx.fail("changes something else", format!("{} {:?}", e.op, e.path));
            }
        }
        for (what, p) in changes(&before, &after) {
            if what == "removed" && !p.starts_with(rel_cache) || !allowed(&w.root.join(&p), &outs, own) {
                return cx.fail("something else was changed", format!("{} {:?}", what, p));
            }
        }
        // Results
        if let Some(h) = &html {
            for (p, t) in h {
                match after.get(p.strip_prefix(&w.root).unwrap()) {
                    Some(Entry::File(_, b)) if b == t.as_bytes() => cx.count("pages written"),
                    x => return cx.fail("page written", format!("{:?} {:?} rather than {:?}", p, x, t)),
                }
            }
        } else if let Some(i) = query {
            let got: Vec<Value> = match serde_json::from_slice(&o.stdout) {
                Ok(Value::Array(v)) => v,
                _ => return cx.fail("answer is no list", String::from_utf8_lossy(&o.stdout).into_owned()),
            };
            let mut exp: Vec<Value> = vec![];
            for (i2, files) in &want {
                match i {
                    2 => exp.push((*i2).into()),
                    3 => exp.push(s.config.wikis[*i2].name.clone().into()),
                    _ => (),
                }
                for (p, t) in files {
                    match i {
                        0 => exp.push(p.to_str().unwrap().into()),
                        1 => exp.push(sha1(t.as_bytes()).into()),
                        4 => exp.push(Value::Null),
                        _ => (),
                    }
                }
            }
            if i == 4 {
                if got.len() != exp.len() {
                    return cx.fail("answer to a query", format!("{:?} rather than {:?}", got, exp));
                }
            } else {
                let mut a: Vec<String> = got.iter().map(|v| v.to_string()).collect();
                let mut b: Vec<String> = exp.iter().map(|v| v.to_string()).collect();
                a.sort();
                b.sort();
                if a != b {
                    return cx.fail("answer to a query", format!("{:?} rather than {:?}", a, b));
                }
            }
        } else {
            let data = match &file {
                Some(f) => {
                    if !o.stdout.is_empty() {
                        cx.fail("prints something", String::from_utf8_lossy(&o.stdout).into_owned());
                    }
                    std::fs::read(f).unwrap_or_default()
                }
                None => o.stdout.clone(),
            };
            if !check_ast(cx, &s, &want, &data) {
                return;
            }
        }
        // The cache
        let entries = |s: &Snap| -> BTreeMap<String, Entry> {
            s.iter().filter(|(k, _)| k.parent() == Some(Path::new(rel_cache))).map(|(k, v)| (k.file_name().unwrap().to_str().unwrap().to_string(), v.clone())).collect()
        };
        let (was, is) = (entries(&before), entries(&after));
        let texts: BTreeMap<String, &String> = want.iter().flat_map(|x| x.1.iter().map(|f| (sha1(f.1.as_bytes()), f.1))).collect();
        if no_cache {
            if was != is {
                return cx.fail("cache changed by a run without it", String::new());
            }
            continue;
        }
        for (k, t) in &texts {
            match is.get(k) {
                Some(Entry::File(_, d)) => {
                    if was.get(k).is_some() {
                        cx.count("entries reused");
                    }
                    if !check_entry(cx, t, d) {
                        return;
                    }
                }
                x => return cx.fail("no entry in the cache", format!("{} {:?}", k, x)),
            }
        }
        if no_prune {
            if let Some(k) = was.keys().find(|k| !is.contains_key(*k)) {
                return cx.fail("removed without pruning", k.clone());
            }
        } else {
            if was.keys().any(|k| !is.contains_key(k)) {
                cx.count("pruning runs that removed something");
            }
            if let Some(k) = is.keys().find(|k| !texts.contains_key(*k)) {
                return cx.fail("left after pruning", k.clone());
            }
        }
    }
    cx.distinct(&log);
}

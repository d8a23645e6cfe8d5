//! A damaged or interrupted cache never harms results.
use crate::cli::*;
use crate::engine::*;
use crate::props::c17::allowed;
use crate::props::c19::{check_ast, check_entry, expect_ast};
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};

pub static PROP: Prop = Prop {
    id: "C20",
    cases: (240, 6_000),
    run,
    rule: "each case has wikis with a warm or cold cache and either damages entries, or ends the program before or within each of its operations on files, or lets each of them fail, or runs several programs at once; afterwards (or meanwhile) results have to be those without a cache and entries whole; non-trivial: distinct faults by kind, operation and file",
    assumptions: &["what a process wrote before it was killed stays written (no loss of power)", "damage that leaves another well-formed page behind is not looked at"],
    must_see: &[
        ("runs killed before an operation", 1_000), ("runs killed within a write", 200), ("operations that failed", 500), ("runs after a kill", 1_500), ("entries truncated", 1_500), ("entries damaged otherwise", 300), ("entries of a wrong type", 100), ("entries not readable", 20), ("cache not writable", 20), ("cache that is a file", 20), ("runs at once", 100), ("entries repaired", 1_000), ("complete enumerations of crash points", 60),
    ],
    level: "fault_enumeration",
};

const CACHE: &str = "cache/c";

struct Case<'a> {
    w: &'a World,
    s: Wikis,
    base: Vec<OsString>,
    html: BTreeMap<PathBuf, String>,
}

impl Case<'_> {
    fn args(&self, convert: bool, prune: bool) -> Vec<OsString> {
        let mut a = self.base.clone();
        if !prune {
            a.push("--no-prune-cache".into());
        }
        a.extend(if convert { args(&["convert"]) } else { args(&["inspect", "$"]) });
        a
    }
    /// Judges a run that nothing went wrong in, or that coped with what did
    fn results(&self, cx: &mut Cx, convert: bool, o: &Out, what: &str) -> bool {
        if convert {
            for (p, h) in &self.html {
                match std::fs::read(p) {
                    Ok(b) if b == h.as_bytes() => cx.count("pages checked"),
                    x => {
                        cx.fail(format!("page after {}", what), format!("{:?} {:?}", p, x.map(|b| String::from_utf8_lossy(&b).into_owned())));
                        return false;
                    }
                }
            }
            true
        } else {
            let want = expect_ast(self.w, &self.s, &vec![true; self.s.config.wikis.len()]);
            check_ast(cx, &self.s, &want, &o.stdout)
        }
    }
    /// Sources are as they were
    fn sources(&self, cx: &mut Cx, what: &str) -> bool {
        for (k, t) in &self.s.pages {
            if std::fs::read(self.w.root.join(k)).ok().as_deref() != Some(t.as_bytes()) {
                cx.fail(format!("source harmed by {}", what), format!("{:?}", k));
                return false;
            }
        }
        true
    }
    /// Entries are those of the pages
    fn cache(&self, cx: &mut Cx, exact: bool, what: &str) -> bool {
        for t in self.s.pages.values() {
            match std::fs::read(self.w.path(CACHE).join(sha1(t.as_bytes()))) {
                Ok(b) => {
                    if !check_entry(cx, t, &b) {
                        return false;
                    }
                }
                Err(e) => {
                    cx.fail(format!("no entry after {}", what), e.to_string());
                    return false;
                }
            }
        }
        if exact {
            let mut n: Vec<String> = self.s.pages.values().map(|t| sha1(t.as_bytes())).collect();
            n.sort();
            n.dedup();
            let there = std::fs::read_dir(self.w.path(CACHE)).map(|d| d.count()).unwrap_or(0);
            if there != n.len() {
                cx.fail(format!("left in the cache after {}", what), format!("{} rather than {}", there, n.len()));
                return false;
            }
        }
        true
    }
    fn reset(&self, warm: &Snap) {
        let _ = std::fs::set_permissions(self.w.path("cache"), std::fs::Permissions::from_mode(0o755));
        let _ = std::fs::set_permissions(self.w.path(CACHE), std::fs::Permissions::from_mode(0o755));
        let _ = std::fs::remove_dir_all(self.w.path("cache"));
        let _ = std::fs::remove_file(self.w.path("cache"));
        for (p, e) in warm {
            if p.starts_with("cache") {
                match e {
                    Entry::Dir(_) => self.w.dir(p.to_str().unwrap()),
                    Entry::File(_, b) => self.w.write(p.to_str().unwrap(), b),
                    Entry::Other => (),
                }
            }
        }
        for x in &self.s.config.wikis {
            let _ = std::fs::remove_dir_all(&x.path_html);
        }
        let _ = std::fs::create_dir_all(self.w.path("cache"));
        self.w.settle();
    }
}

fn bad(cx: &mut Cx, k: &Case, o: &Out, what: &str) -> bool {
    let outs = k.html.keys().cloned().collect();
    if let Some(e) = o.changes().find(|e| !allowed(&e.path, &outs, Some(&k.w.path(CACHE)))) {
        cx.fail(format!("changed something else after {}", what), format!("{} {:?}", e.op, e.path));
        return true;
    }
    cx.add("changes judged by their place", o.changes().count() as u64);
    if o.panicked() || (o.signal.is_some() && o.signal != Some(9)) {
        cx.fail(format!("program panicked: {}", what), o.show());
        return true;
    }
    false
}

fn run(r: &mut Rng, cx: &mut Cx) {
    let w = World::new(&cx.scratch, cx.case);
    let mut c = base_config(r, &w);
    // Output must not lie among the sources, as it is thrown away
    for (i, x) in c.wikis.iter_mut().enumerate() {
        x.path_html = w.path(&format!("out{}", i));
    }
    let mut s = fill(r, &w, c);
    while s.pages.len() > 4 {
        let k = s.pages.keys().nth(r.below(s.pages.len())).unwrap().clone();
        std::fs::remove_file(w.root.join(&k)).expect("scratch");
        s.pages.remove(&k);
    }
    // A page whose entry takes several writes
    if r.chance(1, 2) {
        if let Some(k) = s.pages.keys().next().cloned() {
            let t = "word *bold* [[link]]\n\n".repeat(r.range(8, 30));
            w.write(k.to_str().unwrap(), &t);
            s.pages.insert(k, t);
        }
    }
    w.write("cfg.toml", html_toml(r, &s.config));
    w.settle();
    let mut html = BTreeMap::new();
    for (rel, t) in &s.pages {
        let abs = w.root.join(rel);
        let h = s.home_of(&abs).unwrap();
        match expect_html(&s.config, t, &abs, Some(h)) {
            Ok(x) => html.insert(output_of(&s.config.wikis[h], &abs), x),
            Err(_) => return,
        };
    }
    let base = args(&["--config", w.path("cfg.toml").to_str().unwrap(), "--cache", w.path(CACHE).to_str().unwrap()]);
    let k = Case { w: &w, s, base, html };
    cx.input(&format!("{:?}", k.s.pages));
    // A warm cache, with an entry of a page that is gone
    let cold = Snap::new();
    let o = w.run(&k.args(false, true), &[]);
    if o.code != Some(0) || !k.results(cx, false, &o, "nothing") || !k.cache(cx, true, "nothing") {
        return cx.fail("first run failed", o.show());
    }
    w.write(&format!("{}/{}", CACHE, sha1(b"gone")), "{\"elements\":[]}");
    let warm = w.snapshot();
    let way = r.below(4);
    let start = if if way == 1 { r.bool() } else { r.chance(2, 3) } { &cold } else { &warm };
    match way {
        0 => damage(r, cx, &k, &warm),
        1 => crash(r, cx, &k, start, false),
        2 => crash(r, cx, &k, start, true),
        _ => {
            if r.bool() {
                at_once(r, cx, &k, start)
            } else {
                damage(r, cx, &k, &warm)
            }
        }
    }
    k.reset(&cold);
}

fn damage(r: &mut Rng, cx: &mut Cx, k: &Case, warm: &Snap) {
    let entries: Vec<(PathBuf, Vec<u8>)> = warm
        .iter()
        .filter_map(|(p, e)| match e {
            Entry::File(_, b) if p.starts_with(CACHE) && p.file_name().unwrap().to_str() != Some(&sha1(b"gone")) => Some((p.clone(), b.clone())),
            _ => None,
        })
        .collect();
    if entries.is_empty() {
        return;
    }
    // All truncations of one small entry, or a spread of them for a large one
    let (p0, b0) = r.pick(&entries).clone();
    let mut cuts: Vec<usize> = (0..b0.len()).collect();
    if b0.len() > 60 {
        r.shuffle(&mut cuts);
        cuts.truncate(40);
        cuts.extend([0, 1, b0.len() - 1, b0.len() - 2]);
    }
    let mut faults: Vec<(&str, PathBuf, Vec<u8>)> = cuts.into_iter().map(|n| ("entries truncated", p0.clone(), b0[..n].to_vec())).collect();
    for (p, b) in &entries {
        let mut tail = b.clone();
        tail.extend_from_slice(*r.pick(&[&b"}"[..], b"x", b"\0", b"{}", b"[]"]));
        let mut flip = b.clone();
        let i = r.below(flip.len());
        flip[i] = 0xff;
        let mut hole = b.clone();
        let n = r.range(1, hole.len());
        let at = r.below(hole.len());
        for x in hole.iter_mut().skip(at).take(n) {
            *x = 0;
        }
        faults.push(("entries damaged otherwise", p.clone(), tail));
        faults.push(("entries damaged otherwise", p.clone(), flip));
        faults.push(("entries damaged otherwise", p.clone(), hole));
        faults.push(("entries damaged otherwise", p.clone(), b"\xff\xfe\x00garbage".to_vec()));
        for t in ["[]", "null", "3", "\"page\"", "{}", "{\"elements\":3}", "{\"elements\":[{}]}", "{\"elements\":[{\"element\":{\"list\":{}},\"region\":{}}]}", "[[[[[[", "{\"elements\":[null]}"] {
            if r.chance(1, 4) {
                faults.push(("entries of a wrong type", p.clone(), t.as_bytes().to_vec()));
            }
        }
    }
    k.reset(warm);
    for (kind, p, b) in &faults {
        let convert = r.chance(1, 3);
        let prune = r.bool();
        let was = std::fs::read(k.w.root.join(p)).ok();
        k.w.write(p.to_str().unwrap(), b);
        k.w.settle();
        let what = kind.trim_start_matches("entries ");
        cx.input(&format!("{} {:?} {:?}\n{:?}", what, p, String::from_utf8_lossy(b), k.s.pages));
        cx.count(kind);
        cx.distinct(&format!("{} {:?}", kind, b));
        let o = k.w.run(&k.args(convert, prune), &[]);
        if bad(cx, k, &o, what) {
            return;
        }
        if o.code != Some(0) {
            return cx.fail("run with a damaged entry failed", o.show());
        }
        if !k.results(cx, convert, &o, what) || !k.sources(cx, what) || !k.cache(cx, prune, what) {
            return;
        }
        if was.as_deref() != Some(b) {
            cx.count("entries repaired");
        }
    }
    // What cannot be read, removed or written
    for kind in 0..6 {
        k.reset(warm);
        let p = k.w.root.join(&r.pick(&entries).0);
        let convert = r.bool();
        let (name, exit_free) = match kind {
            0 => {
                std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o000)).expect("scratch");
                ("entries not readable", false)
            }
            1 => {
                std::fs::remove_file(&p).expect("scratch");
                std::fs::create_dir(&p).expect("scratch");
                if r.bool() {
                    std::fs::write(p.join("x"), "x").expect("scratch");
                }
                k.w.settle();
                ("entries that are directories", false)
            }
            2 => {
                std::fs::remove_file(&p).expect("scratch");
                let _ = std::os::unix::fs::symlink("/nonexistent/entry", &p);
                ("entries that are broken links", false)
            }
            3 => {
                std::fs::write(&p, "damaged").expect("scratch");
                std::fs::set_permissions(k.w.path(CACHE), std::fs::Permissions::from_mode(0o555)).expect("scratch");
                ("cache not writable", false)
            }
            4 => {
                std::fs::remove_dir_all(k.w.path("cache")).expect("scratch");
                std::fs::write(k.w.path("cache"), "a file").expect("scratch");
                k.w.settle();
                ("cache that is a file", true)
            }
            _ => {
                std::fs::set_permissions(k.w.path(CACHE), std::fs::Permissions::from_mode(0o000)).expect("scratch");
                ("cache not accessible", true)
            }
        };
        cx.count(name);
        cx.distinct(&format!("{} {}", name, convert));
        cx.input(&format!("{} {:?}\n{:?}", name, p, k.s.pages));
        let o = k.w.run(&k.args(convert, r.bool()), &[]);
        if bad(cx, k, &o, name) || !k.sources(cx, name) {
            return;
        }
        match o.code {
            Some(0) => {
                if !k.results(cx, convert, &o, name) {
                    return;
                }
                // Files can be put in order where the directory allows for it
                if kind == 0 && is_root() && !k.cache(cx, false, name) {
                    return;
                }
            }
            Some(_) if exit_free => cx.count("runs that gave up"),
            _ => return cx.fail("run with an unusable entry failed", format!("{}: {}", name, o.show())),
        }
    }
}

/// Ends the program at, or fails, every one of its operations on files
fn crash(r: &mut Rng, cx: &mut Cx, k: &Case, start: &Snap, fail: bool) {
    let convert = r.bool();
    let prune = r.chance(3, 4);
    let a = k.args(convert, prune);
    // For kills: all it does; for failures: what it does to the cache
    let scope = if fail { k.w.path("cache") } else { k.w.root.clone() };
    let scope = scope.to_str().unwrap().to_string();
    let errno = *r.pick(&["5", "28", "13", "24"]);
    let mut todo = vec![(1, false)];
    while let Some((n, half)) = todo.pop() {
        let mut modes: Vec<(&str, String)> = vec![(if fail { "VM_FAIL" } else { "VM_KILL" }, n.to_string())];
        if half {
            modes = vec![("VM_HALF", n.to_string())];
        }
        let mut env = modes;
        env.push(("VM_SCOPE", scope.clone()));
        env.push(("VM_ERRNO", errno.to_string()));
        k.reset(start);
        let o = k.w.run(&a, &env);
        let hit = o.events.iter().find(|e| e.op == "killed" || e.op == "injected");
        let what = if fail { "a failed operation" } else { "a kill" };
        let last = o.events.iter().rev().find(|e| e.op != "killed" && e.op != "injected").map(|e| e.op.clone()).unwrap_or_default();
        cx.input(&format!("{} {:?} at {} of {:?}, after {}\n{:?}", what, a, n, hit.map(|e| &e.path), last, k.s.pages));
        if bad(cx, k, &o, what) || !k.sources(cx, what) {
            return;
        }
        let Some(hit) = hit else {
            // Past its end
            if o.code != Some(0) {
                return cx.fail("run failed by itself", o.show());
            }
            if !half {
                cx.count("complete enumerations of crash points");
            }
            continue;
        };
        if !half && n < 400 {
            todo.push((n + 1, false));
        }
        if !fail && !half && last == "write" {
            // What was done just before can also be cut in two
            todo.push((n - 1, true));
        }
        let place = hit.path.strip_prefix(&k.w.root).unwrap_or(Path::new("")).to_path_buf();
        cx.distinct(&format!("{} {} {:?} {}", fail, last, place, n));
        cx.count(if half { "runs killed within a write" } else if fail { "operations that failed" } else { "runs killed before an operation" });
        if fail {
            match o.code {
                Some(0) => {
                    if !k.results(cx, convert, &o, what) {
                        return;
                    }
                    cx.count("failures coped with");
                }
                Some(_) => cx.count("runs that gave up"),
                None => return cx.fail("killed itself", o.show()),
            }
        } else if o.signal != Some(9) {
            return cx.fail("survived a kill", o.show());
        }
        let convert = if r.chance(1, 4) { !convert } else { convert };
        let prune = r.chance(1, 2);
        let o = k.w.run(&k.args(convert, prune), &[]);
        cx.count("runs after a kill");
        let what = format!("the run after {}", what);
        if bad(cx, k, &o, &what) {
            return;
        }
        if o.code != Some(0) {
            return cx.fail(format!("failed: {}", what), o.show());
        }
        if !k.results(cx, convert, &o, &what) || !k.sources(cx, &what) || !k.cache(cx, prune, &what) {
            return;
        }
    }
}

/// Several programs share the cache at the same time
fn at_once(r: &mut Rng, cx: &mut Cx, k: &Case, start: &Snap) {
    for _ in 0..3 {
        k.reset(start);
        let kinds: Vec<(bool, bool)> = (0..r.range(2, 5)).map(|_| (false, r.bool())).collect();
        let damaged = r.bool() && !k.s.pages.is_empty();
        if damaged {
            let t = k.s.pages.values().next().unwrap();
            k.w.write(&format!("{}/{}", CACHE, sha1(t.as_bytes())), "{\"elem");
            k.w.settle();
        }
        let outs: Vec<Out> = std::thread::scope(|sc| {
            let root = &k.w.root;
            let hs: Vec<_> = kinds
                .iter()
                .enumerate()
                .map(|(i, (c, p))| {
                    let a = k.args(*c, *p);
                    sc.spawn(move || run_at(root, &format!("t{}", i), &a, &[]))
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (o, (c, _)) in outs.iter().zip(&kinds) {
            cx.count("runs at once");
            if bad(cx, k, o, "at once") || o.code != Some(0) {
                return cx.fail("run at once with others failed", o.show());
            }
            if !k.results(cx, *c, o, "running at once") {
                return;
            }
        }
        cx.distinct(&format!("{:?} {} {}", kinds, damaged, start.is_empty()));
        if !k.sources(cx, "running at once") {
            return;
        }
        let o = k.w.run(&k.args(false, true), &[]);
        if o.code != Some(0) || !k.results(cx, false, &o, "running at once") || !k.cache(cx, true, "running at once") {
            return cx.fail("run after several at once", o.show());
        }
    }
}

//! The convert command writes exactly the right HTML files.
use crate::cli::*;
use crate::engine::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::path::{Path, PathBuf};
use vimwiki::*;

pub static PROP: Prop = Prop {
    id: "C17",
    cases: (1_600, 40_000),
    run,
    rule: "each case lays out wikis in a scratch directory, runs the real program as an unprivileged user with every change of a file logged, and compares the files before and after with what the library makes of each page; non-trivial: distinct combinations of layouts and options",
    assumptions: &["no two pages share an output file", "paths given lie outside of configured wikis", "file systems and permissions behave as on Linux"],
    must_see: &[
        ("pages written", 3_000), ("runs to stdout", 150), ("runs without cache", 150), ("wikis left out", 250), ("nested wikis", 250), ("stylesheets", 150), ("paths given", 150), ("failing runs", 80), ("changes logged", 10_000), ("other files", 1_500), ("pages over old output", 100), ("templates by file", 100),
    ],
    level: "exploration",
};

pub fn allowed(p: &Path, outs: &BTreeSet<PathBuf>, cache: Option<&Path>) -> bool {
    outs.contains(p) || outs.iter().any(|o| o.starts_with(p)) || cache.map_or(false, |c| p.starts_with(c) || c.starts_with(p))
}

fn run(r: &mut Rng, cx: &mut Cx) {
    let w = World::new(&cx.scratch, cx.case);
    let c = base_config(r, &w);
    let mut s = fill(r, &w, c);
    if s.config.template.name == "own" && r.bool() {
        w.write("tpl/own.tpl", "by file never used");
    }
    let mut over = 0;
    // A template named by a page
    if r.chance(1, 5) {
        if let Some(k) = s.pages.keys().next().cloned() {
            w.write("tpl/named", "N %title% %content% N");
            let t = format!("%template named\n\n{}", "text\n");
            w.write(k.to_str().unwrap(), &t);
            s.pages.insert(k, t);
            cx.count("templates by file");
        }
    }
    // Paths given on the command line
    let mut given: Vec<PathBuf> = vec![];
    let mut loose: Vec<PathBuf> = vec![];
    if r.chance(1, 6) {
        cx.count("paths given");
        let n = r.range(1, 6);
        for i in 0..n {
            let rel = format!("loose/{}page{}.{}", r.pick(&["", "sub/", "sub/deep/", "é é/"]), i, r.pick(&["wiki", "wiki", "wiki", "md"]));
            let t = format!("{}= L{} =\n", page_text(r).replace('%', "x").replace(':', ";"), i);
            w.write(&rel, &t);
            loose.push(rel.clone().into());
            if rel.ends_with(".wiki") {
                s.pages.insert(rel.into(), t);
            }
        }
        w.dir("loose/sub");
        for _ in 0..r.range(1, 2) {
            let l = r.pick(&loose).clone();
            given.push(if r.bool() && l.extension().map_or(false, |e| e == "wiki") { l } else { r.pick(&["loose", "loose/sub"]).into() });
        }
        given.dedup();
    }
    // Arguments
    let toml = html_toml(r, &s.config);
    w.write("cfg.toml", &toml);
    let mut g: Vec<OsString> = vec![];
    g.extend(args(&["--config", w.path("cfg.toml").to_str().unwrap()]));
    g.extend(args(&["--cache", w.path("cache/c").to_str().unwrap()]));
    let no_cache = r.chance(1, 5);
    if no_cache {
        cx.count("runs without cache");
        g.push("--no-cache".into());
    }
    if r.chance(1, 6) {
        g.push("--no-prune-cache".into());
    }
    if r.chance(1, 6) {
        g.push(r.pick(&["-v", "-q", "-vvv"]).into());
    }
    let mut chosen: Vec<bool> = vec![true; s.config.wikis.len()];
    if r.chance(1, 3) {
        chosen = vec![false; chosen.len()];
        for _ in 0..r.range(1, 2) {
            let i = r.below(s.config.wikis.len() + 1);
            let name = s.config.wikis.get(i).and_then(|x| x.name.clone());
            let v = match name {
                Some(n) if r.bool() => n,
                _ if r.chance(1, 8) => "nosuch".to_string(),
                _ => i.to_string(),
            };
            for (k, x) in s.config.wikis.iter().enumerate() {
                match v.parse::<usize>() {
                    Ok(n) => chosen[k] |= n == k,
                    Err(_) => chosen[k] |= x.name.as_deref() == Some(v.as_str()),
                }
            }
            g.push("--include".into());
            g.push(v.into());
        }
    }
    let mut sub = args(&["convert"]);
    let stdout = r.chance(1, 6);
    if stdout {
        cx.count("runs to stdout");
        sub.push("--stdout".into());
    }
    let css = r.chance(1, 4);
    if css {
        sub.push("--include-vimwiki-css".into());
    }
    for p in &given {
        sub.push(if r.bool() { w.root.join(p).into() } else { Path::new("..").join(p).into() });
    }
    // --include takes all values up to the next option
    let all = {
        let (mut inc, mut rest) = (vec![], vec![]);
        let mut it = g.into_iter();
        while let Some(a) = it.next() {
            if a == "--include" {
                inc.push(a);
                inc.push(it.next().unwrap());
            } else {
                rest.push(a);
            }
        }
        if inc.is_empty() && r.bool() && given.is_empty() {
            command(sub, rest)
        } else {
            inc.extend(rest);
            command(inc, sub)
        }
    };

    // What has to come out
    let mut cfg = s.config.clone();
    for p in &given {
        let abs = w.root.join(p);
        cfg.wikis.push(HtmlWikiConfig { path: if abs.is_dir() { abs } else { abs.parent().unwrap().into() }, path_html: w.path("home/vimwiki_html"), ..HtmlWikiConfig::default() });
    }
    let mut want: BTreeMap<PathBuf, String> = BTreeMap::new();
    let mut failing = false;
    for (rel, t) in &s.pages {
        let abs = w.root.join(rel);
        let here = if given.is_empty() {
            (0..s.config.wikis.len()).any(|i| chosen[i] && page_of(&s.config.wikis[i], &abs))
        } else {
            given.iter().any(|g| rel.starts_with(g))
        };
        if !here {
            continue;
        }
        let home = innermost(&cfg, &abs);
        match expect_html(&cfg, t, &abs, home) {
            Ok(h) => {
                let o = output_of(&cfg.wikis[home.unwrap()], &abs);
                if want.insert(o, h).is_some() {
                    return;
                }
            }
            Err(_) => failing = true,
        }
    }
    // How often a page is printed when two wikis have it
    let mut printed: Vec<String> = vec![];
    for (rel, t) in &s.pages {
        let abs = w.root.join(rel);
        let times = if given.is_empty() {
            (0..s.config.wikis.len()).filter(|i| chosen[*i] && page_of(&s.config.wikis[*i], &abs)).count()
        } else {
            given.iter().filter(|g| rel.starts_with(g)).count()
        };
        if let Ok(h) = expect_html(&cfg, t, &abs, innermost(&cfg, &abs)) {
            for _ in 0..times {
                printed.push(h.clone());
            }
        }
    }
    let mut outs: BTreeSet<PathBuf> = if stdout { BTreeSet::new() } else { want.keys().cloned().collect() };
    let mut styles: Vec<PathBuf> = vec![];
    if css && !stdout {
        if given.is_empty() {
            for (i, x) in s.config.wikis.iter().enumerate() {
                if chosen[i] {
                    styles.push(x.path_html.join("style.css"));
                }
            }
        } else {
            styles.push(w.path("home/vimwiki_html/style.css"));
        }
        cx.add("stylesheets", styles.len() as u64);
        outs.extend(styles.iter().cloned());
    }
    // Old output, and files next to it
    for o in &styles {
        if r.chance(1, 4) {
            w.write(o.strip_prefix(&w.root).unwrap().to_str().unwrap(), "/* old style */\n".repeat(r.range(0, 2000)));
        }
    }
    for o in want.keys() {
        let rel = o.strip_prefix(&w.root).unwrap().to_str().unwrap().to_string();
        if r.chance(1, 8) {
            w.write(&rel, "old output that is longer than nothing".repeat(r.range(0, 400)));
            over += 1;
        }
        if r.chance(1, 8) {
            w.write(&format!("{}.bak", rel), "backup");
            w.write(&rel.replace(".html", "_old.html"), "gone page");
        }
    }
    // What goes wrong
    let mut want_code = if failing { Some(3) } else { None };
    let mut how = "";
    if r.chance(1, 8) && given.is_empty() && !failing {
        let mine: Vec<&PathBuf> = s.pages.keys().filter(|k| (0..s.config.wikis.len()).any(|i| chosen[i] && page_of(&s.config.wikis[i], &w.root.join(k)))).collect();
        match r.below(4) {
            0 if !mine.is_empty() => {
                how = "page is no text";
                want_code = Some(2);
                w.write(r.pick(&mine).to_str().unwrap(), [0x61, 0xff, 0xfe, 0x0a]);
            }
            1 => {
                how = "configuration broken";
                want_code = Some(1);
                w.write("cfg.toml", *r.pick(&["[[wikis]]\npath = 3\n", "[[wikis]\n", "[[wikis]]\npath = \"rel/path\"\n", "\u{1}"]));
            }
            2 => {
                how = "configuration missing";
                want_code = Some(1);
                std::fs::remove_file(w.path("cfg.toml")).expect("scratch");
            }
            _ if !mine.is_empty() && !stdout => {
                how = "output blocked";
                want_code = Some(3);
                let o = want.keys().nth(r.below(want.len())).unwrap().clone();
                let _ = std::fs::remove_file(&o);
                std::fs::create_dir_all(&o).expect("scratch");
                if !o.parent().unwrap().exists() || !o.is_dir() {
                    return;
                }
            }
            _ => (),
        }
    }
    w.settle();
    let desc = format!("{}\nargs {:?}\npages {:?}\nothers {:?}\n{}", toml, all, s.pages, s.others, how);
    cx.input(&desc);
    cx.distinct(&format!("{:?}{:?}{:?}{:?}{:?}{}{}{}", s.config.wikis.iter().map(|x| (x.path.strip_prefix(&w.root).unwrap().to_path_buf(), x.path_html.strip_prefix(&w.root).unwrap().to_path_buf(), x.ext.clone())).collect::<Vec<_>>(), chosen, stdout, css, no_cache, given.len(), how, want.len()));
    cx.add("other files", s.others.len() as u64);
    cx.add("pages over old output", over);
    cx.add("wikis left out", chosen.iter().filter(|x| !**x).count() as u64);
    if s.config.wikis.iter().any(|a| s.config.wikis.iter().any(|b| a.path != b.path && a.path.starts_with(&b.path))) {
        cx.count("nested wikis");
    }

    let before = w.snapshot();
    let o = w.run(&all, &[]);
    let after = w.snapshot();
    cx.count("runs");
    cx.add("changes logged", o.changes().count() as u64);

    if o.panicked() || o.signal.is_some() {
        return cx.fail("program panicked", o.show());
    }
    // Nothing else is touched, whether or not it works
    let cache = w.path("cache");
    let cache = if no_cache { None } else { Some(cache.as_path()) };
    for e in o.changes() {
        if e.path.starts_with("/tmp") || !allowed(&e.path, &outs, cache) {
            return cx.fail("changes something else", format!("{} {:?}", e.op, e.path));
        }
        let gone = ["unlink", "unlinkat", "rmdir", "rename", "truncate"].contains(&e.op.as_str()) && !cache.map_or(false, |c| e.path.starts_with(c));
        if gone && e.op != "rename" {
            return cx.fail("removes something", format!("{} {:?}", e.op, e.path));
        }
    }
    for (what, p) in changes(&before, &after) {
        if what == "removed" && !p.starts_with("cache") || !allowed(&w.root.join(&p), &outs, cache) {
            return cx.fail("something else was changed", format!("{} {:?}", what, p));
        }
    }
    if let Some(code) = want_code {
        cx.count("failing runs");
        if o.code != Some(code) {
            cx.fail("exit status of a failure", format!("wanted {} for {:?}: {}", code, how, o.show()));
        }
        if o.stderr.is_empty() && !all.iter().any(|a| a == "-q") {
            cx.fail("fails silently", o.show());
        }
        return;
    }
    if o.code != Some(0) {
        return cx.fail("exit status", o.show());
    }
    if stdout {
        let text = String::from_utf8_lossy(&o.stdout).into_owned();
        let p: Vec<&str> = printed.iter().map(|s| s.as_str()).collect();
        if !take_apart(&text, &p) {
            cx.fail("printed pages", format!("{:?} rather than {:?}", text, printed));
        }
        cx.add("pages printed", printed.len() as u64);
        return;
    }
    if !o.stdout.is_empty() {
        cx.fail("prints something", String::from_utf8_lossy(&o.stdout).into_owned());
    }
    for (p, h) in &want {
        match after.get(p.strip_prefix(&w.root).unwrap()) {
            Some(Entry::File(_, b)) if b == h.as_bytes() => cx.count("pages written"),
            x => return cx.fail("page written", format!("{:?}: {:?} rather than {:?}", p, x, h)),
        }
    }
    for p in &styles {
        match after.get(p.strip_prefix(&w.root).unwrap()) {
            Some(Entry::File(_, b)) if b.len() > 1000 && b.contains(&b'{') => (),
            x => cx.fail("stylesheet", format!("{:?}: {:?}", p, x)),
        }
    }
}

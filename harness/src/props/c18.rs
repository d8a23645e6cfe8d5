//! The format command rewrites only what it was asked to, faithfully.
use crate::cli::*;
use crate::engine::*;
use crate::props::c07;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use vimwiki::*;

pub static PROP: Prop = Prop {
    id: "C18",
    cases: (5_000, 120_000),
    run,
    rule: "each case writes a tree of files and a configuration, runs the real program as an unprivileged user with every change of a file logged, and compares the files and what is printed with what the library makes of each text; non-trivial: distinct combinations of files, arguments and configurations",
    assumptions: &["paths given do not overlap", "links of the file system within directories play no part", "a rewrite that is cut short is not looked at"],
    must_see: &[
        ("files formatted in place", 2_000), ("files printed", 800), ("files left alone", 4_000), ("second runs", 500), ("failing runs", 150), ("unreadable files", 30), ("files that are no text", 30), ("files given by name", 700), ("directories given", 700), ("own extensions", 300), ("changes logged", 2_000), ("configurations", 800),
    ],
    level: "exploration",
};

fn format(t: &str, c: &VimwikiConfig) -> Result<String, String> {
    let p: Result<Page, ParseError> = Language::from_vimwiki_str(t).parse();
    p.map_err(|e| e.to_string())?.to_vimwiki_string(c.clone()).map_err(|e| e.to_string())
}

fn run(r: &mut Rng, cx: &mut Cx) {
    let w = World::new(&cx.scratch, cx.case);
    let c = c07::config(r);
    let mut files: BTreeMap<PathBuf, Vec<u8>> = BTreeMap::new();
    for i in 0..r.range(1, 14) {
        let dir = *r.pick(&["docs/", "docs/", "docs/sub/", "docs/sub/deep/", "docs/.hidden/", "docs/x.wiki/", "other/", "other/é é/", "third/"]);
        let ext = *r.pick(&[".wiki", ".wiki", ".wiki", ".md", ".txt", "", ".wiki~", ".WIKI", ".wiki.bak"]);
        let name = match r.below(12) {
            0 => format!("{}.wiki", dir),
            1 => format!("{}.dot{}{}", dir, i, ext),
            2 => format!("{}a b é{}{}", dir, i, ext),
            3 => format!("{}-f{}{}", dir, i, ext),
            _ => format!("{}f{}{}", dir, i, ext),
        };
        let t = match r.below(30) {
            0 => vec![b'=', b' ', 0xff, 0xfe, b'\n'],
            1 => vec![],
            2 => b"\n\n\n= A =\nb\n".to_vec(),
            3 => format!("{}\r\n", page_text(r).replace('\n', "\r\n")).into_bytes(),
            _ => page_text(r).into_bytes(),
        };
        w.write(&name, &t);
        files.insert(name.into(), t);
    }
    for d in ["docs/sub", "other", "third"] {
        w.dir(d);
    }
    // What it is told to do
    let mut g: Vec<OsString> = vec![];
    let mut want_code = Some(0);
    let toml = vim_toml(r, &c);
    let mut used = VimwikiConfig::default();
    if r.chance(2, 3) {
        cx.count("configurations");
        w.write("fmt.toml", &toml);
        used = c.clone();
        g.extend(args(&["--config", w.path("fmt.toml").to_str().unwrap()]));
    }
    g.extend(args(&["--cache", w.path("cache").to_str().unwrap()]));
    let inline = r.chance(2, 3);
    let mut paths: Vec<PathBuf> = vec![];
    let mut dirs: Vec<&str> = vec!["docs", "other", "third"];
    if r.chance(1, 4) {
        dirs = vec!["docs/sub", "other"];
    }
    let keys: Vec<PathBuf> = files.keys().cloned().collect();
    for _ in 0..r.range(0, 3) {
        let p = if r.bool() { r.pick(&keys).clone() } else { PathBuf::from(*r.pick(&dirs)) };
        if !paths.iter().any(|q| q.starts_with(&p) || p.starts_with(q)) {
            cx.count(if files.contains_key(&p) { "files given by name" } else { "directories given" });
            paths.push(p);
        }
    }
    let mut exts: Vec<String> = vec!["wiki".into()];
    let mut e: Vec<OsString> = vec![];
    if r.chance(1, 3) {
        cx.count("own extensions");
        exts = (0..r.range(1, 2)).map(|_| r.pick(&["md", "txt", "wiki", "WIKI", "none"]).to_string()).collect();
        for x in &exts {
            e.push("--ext".into());
            e.push(x.into());
        }
    }
    let shown: Vec<OsString> = paths.iter().map(|p| if r.bool() { w.root.join(p).into() } else { Path::new("..").join(p).into() }).collect();
    let mut sub = args(&["format"]);
    let flag = OsString::from(r.pick(&["-i", "--inline"]));
    if r.bool() {
        sub.extend(shown);
        sub.extend(e);
        if inline {
            sub.push(flag);
        }
    } else {
        sub.extend(e);
        if inline {
            sub.push(flag);
        }
        sub.push("--".into());
        sub.extend(shown);
    }
    let all = command(g, sub);
    // Which files that means
    let chosen: Vec<PathBuf> = keys
        .iter()
        .filter(|k| {
            let name = k.file_name().unwrap().to_str().unwrap();
            let ext = name.rfind('.').filter(|i| *i > 0).map(|i| &name[i + 1..]);
            paths.iter().any(|p| p == *k || (k.starts_with(p) && ext.map_or(false, |e| exts.iter().any(|x| x == e))))
        })
        .cloned()
        .collect();
    // What goes wrong
    let mut broken: BTreeSet<PathBuf> = BTreeSet::new();
    let mut how = "";
    for k in &chosen {
        match std::str::from_utf8(&files[k]) {
            Err(_) => {
                cx.count("files that are no text");
                broken.insert(k.clone());
            }
            Ok(t) => {
                if format(t, &used).is_err() {
                    broken.insert(k.clone());
                }
            }
        }
    }
    if !broken.is_empty() {
        want_code = Some(3);
        how = "broken file";
    }
    w.settle();
    if r.chance(1, 12) && is_root() && !chosen.is_empty() {
        cx.count("unreadable files");
        let k = r.pick(&chosen).clone();
        std::fs::set_permissions(w.root.join(&k), std::fs::Permissions::from_mode(0o000)).expect("scratch");
        broken.insert(k);
        want_code = Some(3);
        how = "unreadable file";
    } else if r.chance(1, 14) {
        match r.below(3) {
            0 if w.path("fmt.toml").exists() => {
                std::fs::write(w.path("fmt.toml"), r.pick(&["[page\n", "[paragraph]\nline_wrap_column = \"a\"\n", "[table]\nno_padding = 1\n"])).expect("scratch");
                want_code = Some(1);
                how = "configuration broken";
            }
            1 if w.path("fmt.toml").exists() => {
                std::fs::remove_file(w.path("fmt.toml")).expect("scratch");
                want_code = Some(1);
                how = "configuration missing";
            }
            _ => (),
        }
    }
    let mut all = all;
    if want_code == Some(0) && r.chance(1, 14) {
        all.push(w.path("nothing.wiki").into());
        if !all.iter().any(|a| a == "--ext") || all.iter().any(|a| a == "--") {
            want_code = Some(3);
            how = "no such file";
        } else {
            all.pop();
        }
    }
    cx.input(&format!("{}\nargs {:?}\nfiles {:?}\n{}", toml, all, files.iter().map(|(k, v)| (k, String::from_utf8_lossy(v))).collect::<Vec<_>>(), how));
    cx.distinct(&format!("{:?}{:?}{:?}{}", chosen, files.keys(), exts, c07::describe(&used)));
    let before = w.snapshot();
    let o = w.run(&all, &[]);
    let after = w.snapshot();
    cx.count("runs");
    cx.add("changes logged", o.changes().count() as u64);
    if o.panicked() || o.signal.is_some() {
        return cx.fail("program panicked", o.show());
    }
    if want_code == Some(0) && o.code != Some(0) || want_code != Some(0) && o.code != want_code {
        return cx.fail("exit status", format!("wanted {:?} for {:?}: {}", want_code, how, o.show()));
    }
    // Only those files are changed, and only when asked to
    let touch: BTreeSet<PathBuf> = if inline && want_code != Some(1) { chosen.iter().filter(|k| !broken.contains(*k)).map(|k| w.root.join(k)).collect() } else { BTreeSet::new() };
    for e in o.changes() {
        if !touch.contains(&e.path) {
            return cx.fail("changes something else", format!("{} {:?}", e.op, e.path));
        }
    }
    let want = |k: &PathBuf| format(std::str::from_utf8(&files[k]).unwrap(), &used).unwrap();
    for (what, p) in changes(&before, &after) {
        if what != "modified" || !touch.contains(&w.root.join(&p)) {
            return cx.fail("something else was changed", format!("{} {:?}", what, p));
        }
    }
    for k in &keys {
        let (Some(Entry::File(m, b)), Some(Entry::File(n, a))) = (before.get(k), after.get(k)) else { return cx.fail("file is gone", format!("{:?}", k)) };
        if m != n {
            cx.fail("permissions changed", format!("{:?} {:o} {:o}", k, m, n));
        }
        if !touch.contains(&w.root.join(k)) {
            cx.count("files left alone");
        } else if a == want(k).as_bytes() {
            cx.count("files formatted in place");
        } else if want_code == Some(0) || a != b {
            return cx.fail("file formatted", format!("{:?}: {:?} rather than {:?}", k, String::from_utf8_lossy(a), want(k)));
        }
    }
    if want_code != Some(0) {
        cx.count("failing runs");
        if o.stderr.is_empty() {
            cx.fail("fails silently", o.show());
        }
        return;
    }
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    if inline {
        if !text.is_empty() {
            cx.fail("prints something", text);
        }
        if r.bool() && !chosen.is_empty() {
            cx.count("second runs");
            let o = w.run(&all, &[]);
            let last = w.snapshot();
            if o.code != Some(0) {
                return cx.fail("exit status of a second run", o.show());
            }
            for k in &chosen {
                let t = want(k);
                let again = format(&t, &used).unwrap_or_default();
                if t == again {
                    cx.count("files already formatted");
                }
                match last.get(k) {
                    Some(Entry::File(_, b)) if b == again.as_bytes() => (),
                    x => return cx.fail("file formatted again", format!("{:?} {:?}", k, x)),
                }
            }
        }
    } else {
        let v: Vec<String> = chosen.iter().map(want).collect();
        cx.add("files printed", v.len() as u64);
        let p: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
        if !take_apart(&text, &p) {
            return cx.fail("printed files", format!("{:?} rather than {:?}", text, v));
        }
    }
}

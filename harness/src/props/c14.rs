//! Pages belong to the deepest wiki around them and have a place in its output.
use crate::engine::*;
use crate::props::c11::{config_of, seg, segs, wikis, Segs};
use crate::rng::Rng;
use std::collections::HashMap;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Component, Path, PathBuf};
use vimwiki::*;

pub static PROP: Prop = Prop {
    id: "C14",
    cases: (150_000, 8_000_000),
    run,
    rule: "each case picks wikis, some within others and some whose names start alike, and many pages within, next to and outside of them; owner, output path, path within the wiki and path to its root have to be those of a model on lists of names, and output paths of a wiki's pages have to differ unless only the extension does; non-trivial: distinct layouts of wikis and pages",
    assumptions: &["paths of pages and wikis are absolute and free of . and ..", "no two wikis have the same directory", "symbolic links are not followed"],
    must_see: &[
        ("pages in a wiki", 300_000), ("pages in a wiki within a wiki", 30_000), ("pages outside of all wikis", 50_000), ("pages next to a wiki", 50_000), ("pages with dots in their name", 50_000), ("pages whose names are not UTF-8", 10_000),
        ("pairs of pages compared", 300_000), ("relative paths", 50_000), ("pages that differ by extension", 5_000),
    ],
    level: "exploration",
};

type Names = Vec<Vec<u8>>;

fn bytes(s: &Segs) -> Names {
    s.iter().map(|x| x.as_bytes().to_vec()).collect()
}

fn path_of(n: &[Vec<u8>]) -> PathBuf {
    let mut p = b"/".to_vec();
    p.extend(n.join(&b'/'));
    PathBuf::from(OsString::from_vec(p))
}

/// Name without its extension, which starts at the last dot but not at the start
fn stem(n: &[u8]) -> &[u8] {
    match n.iter().rposition(|b| *b == b'.') {
        Some(0) | None => n,
        Some(i) => &n[..i],
    }
}

fn names(p: &Path) -> Option<Names> {
    let mut v = vec![];
    for c in p.components() {
        match c {
            Component::RootDir => v.clear(),
            Component::Normal(x) => v.push(x.as_bytes().to_vec()),
            Component::ParentDir => {
                v.pop()?;
            }
            _ => (),
        }
    }
    Some(v)
}

fn run(r: &mut Rng, cx: &mut Cx) {
    let mut v = wikis(r);
    // Names that start alike
    if r.bool() && v.len() > 1 {
        let mut p = v[0].path.clone();
        let l = p.pop().unwrap();
        p.push(format!("{}{}", l, r.pick(&["x", "0", " ", ".wiki", "_html"])));
        v[1].path = p;
    }
    // The root of everything
    if r.chance(1, 20) {
        v[0].path = vec![];
    }
    let mut i = 0;
    while i < v.len() {
        if v[..i].iter().any(|w| w.path == v[i].path) {
            v.remove(i);
        } else {
            i += 1;
        }
    }
    if r.bool() {
        r.shuffle(&mut v);
    }
    let mut c = config_of(&v);
    cx.distinct(&format!("{:?}", v.iter().map(|w| &w.path).collect::<Vec<_>>()));
    let mut outs: HashMap<(usize, PathBuf), Names> = HashMap::new();
    let mut log = format!("{:?}\n", v.iter().map(|w| (&w.path, &w.html)).collect::<Vec<_>>());
    for _ in 0..r.range(2, 10) {
        let near = r.below(v.len());
        let mut p: Names = match r.below(8) {
            0 => bytes(&segs(r, 3)),
            1 => {
                let mut p = v[near].path.clone();
                p.pop();
                bytes(&p)
            }
            2 => {
                let mut p = v[near].path.clone();
                if let Some(l) = p.last_mut() {
                    l.push_str(r.pick(&["x", "0", " ", "y"]));
                }
                cx.count("pages next to a wiki");
                bytes(&p)
            }
            _ => bytes(&v[near].path),
        };
        p.extend(bytes(&segs(r, 3)));
        let mut n = seg(r).into_bytes();
        if r.chance(1, 12) {
            n.extend([0xff, 0xc3]);
            cx.count("pages whose names are not UTF-8");
        }
        n.extend(r.pick(&[".wiki", ".wiki", ".md", "", ".tar.wiki", ".x.y"]).as_bytes());
        if n.iter().filter(|b| **b == b'.').count() > 1 {
            cx.count("pages with dots in their name");
        }
        p.push(n);
        let mut all = vec![p.clone()];
        if r.chance(1, 3) {
            let mut q = p.clone();
            let l = q.pop().unwrap();
            let mut l = stem(&l).to_vec();
            l.extend(b".other");
            q.push(l);
            all.push(q);
        }
        for p in all {
            // A directory is no page
            if v.iter().any(|w| bytes(&w.path) == p) {
                continue;
            }
            let page = path_of(&p);
            log.push_str(&format!("{}\n", page.display()));
            cx.input(&log);
            page_is_right(r, cx, &v, &mut c, &p, &page, &mut outs);
        }
    }
}

fn page_is_right(r: &mut Rng, cx: &mut Cx, v: &[crate::props::c11::Wiki], c: &mut HtmlConfig, p: &Names, page: &Path, outs: &mut HashMap<(usize, PathBuf), Names>) {
    // The wiki with the longest path that the page's path starts with
    let mut owner: Option<usize> = None;
    let mut around = 0;
    for (i, w) in v.iter().enumerate() {
        let w = bytes(&w.path);
        if p.len() > w.len() && p[..w.len()] == w[..] {
            around += 1;
            if owner.map_or(true, |o| v[o].path.len() < w.len()) {
                owner = Some(i);
            }
        }
    }
    cx.count(match around {
        0 => "pages outside of all wikis",
        _ => "pages in a wiki",
    });
    if around > 1 {
        cx.count("pages in a wiki within a wiki");
    }
    let got = c.find_wiki_index_by_path(page);
    if got != owner {
        return cx.fail("owner", format!("{:?} instead of {:?}", got, owner));
    }
    if c.find_wiki_by_path(page).map(|w| &w.path) != owner.map(|o| &c.wikis[o].path) {
        return cx.fail("owner by path", "differs from its index".to_string());
    }
    c.runtime = HtmlRuntimeConfig { wiki_index: owner, page: page.to_path_buf() };
    for (i, w) in v.iter().enumerate() {
        let wp = bytes(&w.path);
        let inside = p.len() > wp.len() && p[..wp.len()] == wp[..];
        let wc = &c.wikis[i];
        let within = wc.path_within(page);
        if within.is_some() != inside || within.map_or(false, |x| names(x).as_deref() != Some(&p[wp.len()..]) || x.is_absolute()) {
            cx.fail("path within", format!("{:?} of {:?}", within, wc.path));
        }
        let root = wc.path_to_root(page);
        if root.is_some() != inside {
            cx.fail("path to root", format!("{:?} of {:?}", root, wc.path));
        }
        if let Some(x) = root {
            let back = names(&page.parent().unwrap().join(&x));
            if x.is_absolute() || back.as_ref() != Some(&wp) || x.components().any(|c| c != Component::ParentDir) {
                cx.fail("path to root", format!("{:?} leads to {:?} of {:?}", x, back, wc.path));
            }
        }
        if !inside {
            continue;
        }
        // The output, whichever way the path is given
        let rel = &p[wp.len()..];
        let mut want = bytes(&w.html);
        want.extend(rel.iter().cloned());
        let mut l = stem(&want.pop().unwrap()).to_vec();
        let ext = *r.pick(&["html", "html", "html", "xhtml"]);
        l.extend([b"."[..].to_vec(), ext.as_bytes().to_vec()].concat());
        want.push(l);
        let out = wc.make_output_path(page, ext);
        if out != path_of(&want) || !out.starts_with(&wc.path_html) {
            cx.fail("output path", format!("{:?} instead of {:?}", out, path_of(&want)));
        }
        if r.chance(1, 3) {
            cx.count("relative paths");
            let rp = PathBuf::from(OsString::from_vec(rel.join(&b'/')));
            let o = wc.make_output_path(&rp, ext);
            if o != out {
                cx.fail("output path of a relative path", format!("{:?} instead of {:?}", o, out));
            }
        }
        if ext != "html" {
            continue;
        }
        cx.count("pairs of pages compared");
        let mut key = rel.to_vec();
        let l = stem(&key.pop().unwrap()).to_vec();
        key.push(l);
        match outs.insert((i, out.clone()), key.clone()) {
            Some(k) if k != key => cx.fail("two pages, one output", format!("{:?}", out)),
            Some(_) => cx.count("pages that differ by extension"),
            None => (),
        }
    }
    // What templates are told
    let (root, within) = (c.to_active_page_path_to_wiki_root(), c.as_active_page_path_within_wiki().to_path_buf());
    let base = owner.map_or_else(|| p[..p.len() - 1].to_vec(), |o| bytes(&v[o].path));
    if names(&page.parent().unwrap().join(&root)).as_ref() != Some(&base) {
        cx.fail("path from the active page to its root", format!("{:?}", root));
    }
    if names(&within).as_deref() != Some(&p[base.len()..]) {
        cx.fail("path of the active page", format!("{:?}", within));
    }
    if c.to_current_wiki().path != path_of(&base) {
        cx.fail("current wiki", format!("{:?}", c.to_current_wiki().path));
    }
    // Wikis by name, the first one if there are more
    for w in v.iter().filter_map(|w| w.name.as_ref()) {
        let first = v.iter().position(|x| x.name.as_ref() == Some(w));
        if c.find_wiki_index_by_name(w) != first || c.find_wiki_by_name(w).map(|w| &w.path) != first.map(|i| &c.wikis[i].path) {
            cx.fail("wiki by name", w.clone());
        }
    }
}

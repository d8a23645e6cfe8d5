//! Links in HTML lead to the page, file or anchor they name.
use crate::engine::*;
use crate::html::{self, Ev};
use crate::props::c09::convert;
use crate::rng::Rng;
use std::path::PathBuf;
use vimwiki::*;

pub static PROP: Prop = Prop {
    id: "C11",
    cases: (40_000, 2_000_000),
    run,
    rule: "each case picks wikis, directories, a page and targets first and writes links to those targets in the syntaxes there are; the address found in the HTML, resolved from where the HTML of the page is, has to be the file of the target; non-trivial: distinct pairs of link syntax and layout",
    assumptions: &[
        "characters with a meaning in URIs or links are written percent-encoded in links",
        "targets are within a wiki",
        "a question mark starts a query and is not part of a page name",
    ],
    must_see: &[("relative links", 10_000), ("absolute links", 5_000), ("links to other wikis", 10_000), ("diary links", 4_000), ("directory links", 3_000), ("files", 5_000), ("anchors", 10_000), ("fragments of files", 3_000), ("external links", 4_000), ("links to unknown wikis", 300), ("names that need escaping", 10_000), ("pages outside of wikis", 500)],
    level: "exploration",
};

pub type Segs = Vec<String>;

const NAME: &[&str] = &[
    "a", "b", "page", "Index", "index", "v1.2", "my page", "two  spaces", "é", "日本 語", "a&b", "it's", "x=y", "a+b", "(c)", "c,d;e", "~t", "A_B-c", "50%", "a#b",
    "q?", "x:y", "[b]", "{c}", "p|q", "t\"u", "lt<gt>", "c^d", "a`b", "s*t", "dot.", "a.b.c", "notes", "@at", "$v$", "a,,b", "%41", "ß", "😀", "TODO", "wiki1", ".hid", "e!", "50%fest", "a%FFb %c0",
];

/// Whether a percent sign is followed by a byte that no UTF-8 text has, which
/// leaves it as it is in a link
pub fn inert(rest: &str) -> bool {
    let b = rest.as_bytes();
    b.len() > 2
        && b[0] == b'%'
        && b[1..3].iter().all(u8::is_ascii_hexdigit)
        && u8::from_str_radix(&rest[1..3], 16).map_or(false, |x| x == 0xc0 || x == 0xc1 || x > 0xf4)
}

pub fn seg(r: &mut Rng) -> String {
    if r.chance(1, 3) {
        format!("{}{}", r.pick(NAME), r.below(10))
    } else {
        r.pick(NAME).to_string()
    }
}

pub fn segs(r: &mut Rng, max: usize) -> Segs {
    (0..r.below(max + 1)).map(|_| seg(r)).collect()
}

/// As it has to be written in a link; more may be encoded
fn write_seg(r: &mut Rng, s: &str) -> String {
    let all = r.chance(1, 6);
    let mut o = String::new();
    for (i, c) in s.char_indices() {
        let must = "%#?[]{}|\\^:\"<>`".contains(c) && !(inert(&s[i..]) && r.bool());
        // These only need no encoding where they are not URIs' own
        let must = must && !("\"<>`".contains(c) && r.bool());
        if must || all && !c.is_ascii_alphanumeric() && r.bool() {
            let mut b = [0; 4];
            for x in c.encode_utf8(&mut b).bytes() {
                o.push_str(&if r.bool() { format!("%{:02X}", x) } else { format!("%{:02x}", x) });
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn write_path(r: &mut Rng, p: &[String]) -> String {
    p.iter().map(|s| if s == ".." || s == "." { s.clone() } else { write_seg(r, s) }).collect::<Vec<_>>().join("/")
}

pub struct Wiki {
    pub path: Segs,
    pub html: Segs,
    pub name: Option<String>,
    pub ext: String,
    pub diary: Segs,
}

pub fn abs(p: &[String]) -> PathBuf {
    PathBuf::from(format!("/{}", p.join("/")))
}

pub fn wikis(r: &mut Rng) -> Vec<Wiki> {
    let n = r.range(1, 4);
    let mut v: Vec<Wiki> = vec![];
    for i in 0..n {
        let mut path = match v.last() {
            // Wikis within wikis
            Some(w) if r.chance(1, 4) => w.path.clone(),
            _ => vec!["w".to_string()],
        };
        path.extend(segs(r, 2));
        path.push(format!("wiki{}", i));
        let html = if r.chance(1, 4) {
            let mut p = path.clone();
            p.push("_html".into());
            p
        } else {
            let mut p = vec!["o".to_string()];
            p.extend(segs(r, 2));
            p.push(format!("out{}", i));
            p
        };
        let name = if r.chance(2, 3) { Some(format!("{}{}", r.pick(&["name", "my wiki ", "é", "a&b", "N-", "w.x"]), i)) } else { None };
        v.push(Wiki { path, html, name, ext: r.pick(&["wiki", "wiki", "md", "txt"]).to_string(), diary: if r.chance(2, 3) { vec!["diary".into()] } else { vec!["j x".into(), "d".into()] } });
    }
    v
}

pub fn config_of(v: &[Wiki]) -> HtmlConfig {
    let mut c = HtmlConfig::default();
    c.wikis = v
        .iter()
        .map(|w| HtmlWikiConfig {
            path: abs(&w.path),
            path_html: abs(&w.html),
            name: w.name.clone(),
            ext: w.ext.clone(),
            diary_rel_path: PathBuf::from(w.diary.join("/")),
            ..Default::default()
        })
        .collect();
    c
}

#[derive(Debug)]
enum Want {
    /// A file, with a fragment
    File(Segs, Option<String>),
    Same(Option<String>),
    Text(String),
}

fn norm_id(s: &str) -> String {
    s.to_lowercase().split_whitespace().collect::<Vec<_>>().join("-")
}

fn run(r: &mut Rng, cx: &mut Cx) {
    let v = wikis(r);
    let mut c = config_of(&v);
    let s = r.below(v.len());
    let dir = segs(r, 3);
    let name = seg(r);
    let lone = r.chance(1, 30);
    let (root, base) = if lone {
        // The page is in no wiki: its directory serves as one
        let mut p = vec!["else".to_string()];
        p.extend(dir.clone());
        let d = HtmlWikiConfig::default_path_html();
        (p, d.to_string_lossy().trim_matches('/').split('/').map(String::from).collect::<Segs>())
    } else {
        (v[s].path.clone(), v[s].html.clone())
    };
    let dir = if lone { vec![] } else { dir };
    let ext = if lone { "wiki".to_string() } else { v[s].ext.clone() };
    let mut page = root.clone();
    page.extend(dir.clone());
    page.push(format!("{}.{}", name, ext));
    c.runtime = HtmlRuntimeConfig { wiki_index: if lone { None } else { Some(s) }, page: abs(&page) };
    if lone {
        cx.count("pages outside of wikis");
    }
    let mut src = base.clone();
    src.extend(dir.clone());
    let mut text = String::new();
    let mut want: Vec<(String, bool, Want)> = vec![];
    let mut unknown = false;
    let mut kinds = String::new();
    for _ in 0..r.range(1, 5) {
        // A target
        let mut td = if r.chance(1, 3) { dir.clone() } else { segs(r, 3) };
        if r.chance(1, 4) {
            td.extend(dir.iter().take(2).cloned());
        }
        let tn = seg(r);
        let anchor: Vec<String> = if r.chance(1, 3) { (0..r.range(1, 3)).map(|_| r.pick(&["Head", "two words", "É t", "a&b", "x=y", "it's", "50%", "ẞig", "tag-1", "q?"]).to_string()).collect() } else { vec![] };
        let frag = if anchor.is_empty() { None } else { Some(anchor.iter().map(|a| norm_id(a)).collect::<Vec<_>>().join("-")) };
        let mut atext = String::new();
        for a in &anchor {
            atext.push('#');
            atext.push_str(&write_seg(r, a));
        }
        if td.iter().chain([&tn, &name]).chain(&dir).any(|s| s.contains(|c: char| !c.is_ascii_alphanumeric() && c != '.')) {
            cx.count("names that need escaping");
        }
        let desc = *r.pick(&["", "", "|text", "|<b>", "|a [x] b"]);
        let out = |b: &Segs, d: &Segs, f: String| {
            let mut p = b.clone();
            p.extend(d.clone());
            p.push(f);
            p
        };
        // How the target of this wiki is written
        let rel = |r: &mut Rng, to: &[String]| -> String {
            let mut k = 0;
            while k < dir.len() && k + 1 < to.len() && dir[k] == to[k] {
                k += 1;
            }
            if r.chance(1, 8) {
                k = r.below(k + 1);
            }
            let mut p: Segs = vec!["..".to_string(); dir.len() - k];
            if p.is_empty() && r.chance(1, 6) {
                p.push(".".into());
            }
            p.extend(to[k..].to_vec());
            write_path(r, &p)
        };
        // A name with the extension of pages is the page without
        let explicit = r.chance(1, 8);
        let own_ext = |e: &str| if explicit { format!(".{}", e) } else { String::new() };
        let k = r.below(12);
        kinds.push_str(&format!("{} ", k));
        let (link, img, w) = match k {
            0..=2 => {
                cx.count("relative links");
                let mut to = td.clone();
                to.push(format!("{}{}", tn, own_ext(&ext)));
                (format!("[[{}{}{}]]", rel(r, &to), atext, desc), false, Want::File(out(&base, &td, format!("{}.html", tn)), frag))
            }
            3 => {
                cx.count("absolute links");
                let mut to = td.clone();
                to.push(format!("{}{}", tn, own_ext(&ext)));
                (format!("[[/{}{}{}]]", write_path(r, &to), atext, desc), false, Want::File(out(&base, &td, format!("{}.html", tn)), frag))
            }
            4 | 5 => {
                let extra = usize::from(r.chance(1, 10));
                let i = r.below(v.len() + extra);
                let by_name = r.bool();
                let mut to = td.clone();
                let e = v.get(i).map_or("wiki", |w| w.ext.as_str());
                to.push(format!("{}{}", tn, own_ext(e)));
                let slash = if r.chance(1, 5) { "/" } else { "" };
                let p = format!("{}{}", slash, write_path(r, &to));
                let named = v.get(i).and_then(|w| w.name.clone());
                let pre = match (named, by_name) {
                    (Some(n), true) => format!("wn.{}:", n),
                    (None, true) if i == v.len() => "wn.no such wiki:".to_string(),
                    _ => format!("wiki{}:", i),
                };
                let w = match v.get(i) {
                    Some(w) => {
                        cx.count("links to other wikis");
                        Want::File(out(&w.html, &td, format!("{}.html", tn)), frag)
                    }
                    None => {
                        cx.count("links to unknown wikis");
                        unknown = true;
                        Want::Same(None)
                    }
                };
                (format!("[[{}{}{}{}]]", pre, p, atext, desc), false, w)
            }
            6 => {
                cx.count("diary links");
                let d = format!("{}-{:02}-{:02}", r.range(1000, 9999), r.range(1, 12), r.range(1, 28));
                let diary = if lone { vec!["diary".to_string()] } else { v[s].diary.clone() };
                (format!("[[diary:{}{}{}]]", d, atext, desc), false, Want::File(out(&base, &diary, format!("{}.html", d)), frag))
            }
            7 => {
                cx.count("directory links");
                let mut to = td.clone();
                to.push(tn.clone());
                let other = r.bool();
                if other {
                    let i = r.below(v.len());
                    let w = Want::File(out(&v[i].html, &to, "index.html".into()), frag);
                    (format!("[[wiki{}:{}/{}{}]]", i, write_path(r, &to), atext, desc), false, w)
                } else {
                    let w = Want::File(out(&base, &to, "index.html".into()), frag);
                    (format!("[[{}/{}{}]]", rel(r, &to), atext, desc), false, w)
                }
            }
            8 | 9 => {
                cx.count("files");
                let f = format!("{}.{}", tn, r.pick(&["png", "txt", "html", "wiki", "tar.gz"]));
                let mut to = td.clone();
                to.push(f.clone());
                let p = if r.chance(1, 4) { format!("/{}", write_path(r, &to)) } else { rel(r, &to) };
                // What fragments of files mean is up to these files
                let (fr, ff) = *r.pick(&[("", None), ("", None), ("#page=2", Some("page=2")), ("#Two W", Some("Two W")), ("#É%20x", Some("É x"))]);
                let file = Want::File(out(&base, &td, f), ff.map(String::from));
                let p = format!("{}{}", p, fr);
                if ff.is_some() {
                    cx.count("fragments of files");
                }
                match r.below(4) {
                    0 if !p.starts_with('/') => (format!("[[file:{}{}]]", p, desc), false, file),
                    1 => (format!("[[local:{}{}]]", p, desc), false, file),
                    2 if !p.starts_with('/') => (format!("{{{{file:{}{}}}}}", p, desc), true, file),
                    _ => (format!("{{{{{}{}}}}}", p, desc), true, file),
                }
            }
            10 => {
                cx.count("external links");
                let u = *r.pick(&[
                    "https://example.com/a/b.html", "http://a.b/?x=1&y=2#f", "ftp://h/f", "mailto:a@b.c", "file:/etc/x/y.txt", "https://e.org/a%20b?c=%26#d", "https://e.org/x&copy;y",
                    "https://u@e.org:81/p;v=1/(x)", "http://e.org/it's",
                ]);
                match r.below(3) {
                    0 => (u.to_string(), false, Want::Text(u.into())),
                    1 => (format!("[[{}{}]]", u, desc), false, Want::Text(u.into())),
                    _ => (format!("{{{{{}{}}}}}", u, desc), true, Want::Text(u.into())),
                }
            }
            _ if !anchor.is_empty() => (format!("[[{}{}]]", atext, desc), false, Want::Same(frag)),
            _ => continue,
        };
        if !anchor.is_empty() && !matches!(w, Want::Text(_)) {
            cx.count("anchors");
        }
        // Within other inline elements now and then
        let embedded = r.chance(1, 12) && link.starts_with("{{");
        if embedded {
            text.push_str(&format!("start [[#x|{}]] end\n\n", link));
            want.push(("[[#x|".into(), false, Want::Same(Some("x".into()))));
        } else {
            text.push_str(&format!("start {} end\n\n", link));
        }
        want.push((link, img, w));
    }
    cx.distinct(&format!("{}{} {} {:?}", kinds, lone, dir.len(), v.iter().map(|w| w.path.len()).collect::<Vec<_>>()));
    cx.input(&format!("page {:?} in {:?} to {:?}\n{}", page, c.wikis.iter().map(|w| &w.path).collect::<Vec<_>>(), base, text));
    let h = match convert(&text, &c) {
        Ok(_) if unknown => return cx.fail("link to an unknown wiki", "converted".to_string()),
        Ok(h) => h,
        Err(_) if unknown => return,
        Err(e) => return cx.fail("not converted", e),
    };
    let ev = match html::tokenize(&h) {
        Ok(v) => v,
        Err(e) => return cx.fail("not well-formed", format!("{} in {}", e, h)),
    };
    let got: Vec<(bool, String)> = ev
        .iter()
        .filter_map(|e| match e {
            Ev::Open(t, a) if t == "a" || t == "img" => Some((t == "img", a[0].1.clone())),
            _ => None,
        })
        .collect();
    if got.len() != want.len() {
        return cx.fail("number of links", format!("{} for {} in {}", got.len(), want.len(), h));
    }
    for ((link, img, w), (i, href)) in want.iter().zip(got) {
        if *img != i {
            cx.fail("kind of link", format!("{} became {}", link, href));
        }
        if let Err(e) = leads(&href, w, &src) {
            let k = link.trim_start_matches(['[', '{']).split([':', '/']).next().unwrap_or("");
            let k = if ["file", "local", "diary", "http", "https"].contains(&k) || k.starts_with("wiki") { k } else { "page" };
            cx.fail(format!("address of {} link", k), format!("{} became {:?}: {}", link, href, e));
        }
    }
}

/// Percent-decoding that insists on valid text
pub fn unpct(s: &str) -> Result<String, String> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let x = s.get(i + 1..i + 3).and_then(|x| u8::from_str_radix(x, 16).ok()).ok_or("bad percent")?;
            o.push(x);
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(o).map_err(|e| e.to_string())
}

/// Path of a relative address from the directory it is found in
pub fn resolve(href: &str, dir: &[String]) -> Result<Segs, String> {
    let p = href.split(['?', '#']).next().unwrap();
    if p.starts_with('/') {
        return Err("absolute".into());
    }
    let first = p.split('/').next().unwrap();
    if first.contains(':') {
        return Err("has a scheme".into());
    }
    if p.contains(|c: char| c == ' ' || c.is_control() || "\"<>\\^`{|}[]".contains(c)) {
        return Err("not a URI".into());
    }
    let mut v: Segs = dir.to_vec();
    for s in p.split('/') {
        match s {
            "" | "." => (),
            ".." => {
                v.pop();
            }
            _ => v.push(unpct(s)?),
        }
    }
    Ok(v)
}

fn leads(href: &str, w: &Want, dir: &[String]) -> Result<(), String> {
    let frag = match href.split_once('#') {
        Some((_, f)) => {
            if f.contains(|c: char| c == '#' || c == ' ' || c.is_control() || "\"<>\\^`{|}[]".contains(c)) {
                return Err("fragment is not one".into());
            }
            Some(unpct(f)?)
        }
        None => None,
    };
    match w {
        Want::Text(t) if t == href => Ok(()),
        Want::Text(t) => Err(format!("expected {}", t)),
        Want::Same(f) => {
            if !href.starts_with('#') {
                return Err("not on this page".into());
            }
            if &frag != f {
                return Err(format!("fragment should be {:?}", f));
            }
            Ok(())
        }
        Want::File(p, f) => {
            let got = resolve(href, dir)?;
            if &got != p {
                return Err(format!("leads to {:?} instead of {:?}", got, p));
            }
            if &frag != f {
                return Err(format!("fragment should be {:?}", f));
            }
            if href.split('#').next().unwrap().contains('?') {
                return Err("has a query".into());
            }
            Ok(())
        }
    }
}

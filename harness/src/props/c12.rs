//! Anchors exist in HTML and links to them reach them.
use crate::engine::*;
use crate::html::{self, Ev};
use crate::props::c09::convert;
use crate::props::c11::{config_of, unpct, wikis};
use crate::rng::Rng;
use std::collections::{HashMap, HashSet};
use vimwiki::*;

pub static PROP: Prop = Prop {
    id: "C12",
    cases: (40_000, 2_000_000),
    run,
    rule: "each case writes a page of headers, bold text and tags whose texts and nesting are known, together with links to them; the HTML has to carry the ids that follow, each once, and the links' fragments have to be these ids; non-trivial: distinct sequences of element kinds, levels and repetitions",
    assumptions: &[
        "texts are words that occur once in a page or are repeated as a whole, so that ids of different texts differ",
        "pound signs separate the parts of an anchor even if they are encoded, so anchors are not linked if they contain one",
        "characters with a meaning in URIs or links are written percent-encoded in links",
        "what id a repeated text gets beyond being another one is left open unless its path is new",
    ],
    must_see: &[
        ("headers", 30_000), ("nested headers", 20_000), ("bold text", 20_000), ("tags", 20_000), ("table of contents headers", 1_000), ("links to headers", 10_000),
        ("links to nested anchors", 15_000), ("links by way of a page", 10_000), ("repeated texts", 10_000), ("texts that need escaping", 10_000), ("elements below headers", 15_000), ("repeated texts with paths of their own", 2_000),
    ],
    level: "exploration",
};

const WORD: &[&str] = &[
    "foo", "Bar", "BAZ", "é", "É", "日本", "a&b", "it's", "x<y", "q?", "50%", "a+b", "(c)", "İ", "ẞig", "Ǆ", "c;d", "a/b", "e.f", "v1.2", "-x", "x-y", "\"u\"", "a#b", "[n", "n]", "😀", "Σ", "&amp;", "ΑΣ", "%2f", "p%fe",
];

/// Texts are unique thanks to their numbers
fn text(r: &mut Rng, n: &mut usize, max: usize, avoid: &str) -> String {
    let mut s = String::new();
    for i in 0..r.range(1, max) {
        if i > 0 {
            s.push_str(r.pick(&[" ", " ", " ", "  ", "\t", "\u{a0}", " - "]));
        }
        let w = loop {
            let w = *r.pick(WORD);
            if !w.contains(|c| avoid.contains(c)) {
                break w;
            }
        };
        *n += 1;
        s.push_str(w);
        s.push_str(&format!("{}", *n));
        if r.chance(1, 8) {
            s.push_str(r.pick(&["É", "x", "é"]));
        }
    }
    s
}

fn id_of(s: &str) -> String {
    let mut o = String::new();
    for w in s.split(char::is_whitespace).filter(|w| !w.is_empty()) {
        if !o.is_empty() {
            o.push('-');
        }
        o.push_str(&w.to_lowercase());
    }
    o
}

fn in_link(r: &mut Rng, s: &str) -> String {
    let mut o = String::new();
    let s = if r.chance(1, 6) { s.to_uppercase() } else { s.to_string() };
    let mut raw = 0;
    for (i, c) in s.char_indices() {
        if i < raw {
            o.push(c);
        } else if super::c11::inert(&s[i..]) && r.bool() {
            o.push(c);
            raw = i + 3;
        } else if "%#?[]{}|\\^".contains(c) || c.is_control() || r.chance(1, 30) {
            let mut b = [0; 4];
            c.encode_utf8(&mut b).bytes().for_each(|x| o.push_str(&format!("%{:02X}", x)));
        } else {
            o.push(c);
        }
    }
    o
}

/// An anchor that links may name: its path, and the id links have to lead to
struct Target {
    path: Vec<String>,
    id: String,
    header: bool,
}

struct Doc {
    out: String,
    /// Elements with ids in the order of the HTML
    ids: Vec<(&'static str, Option<String>)>,
    targets: Vec<Target>,
    /// Last headers of each level, as written
    above: Vec<(usize, String)>,
    used: HashSet<String>,
    texts: Vec<String>,
    n: usize,
    shape: String,
}

impl Doc {
    fn text(&mut self, r: &mut Rng, cx: &mut Cx, max: usize, avoid: &str) -> String {
        let old: Vec<&String> = self.texts.iter().filter(|t| !t.contains(|c: char| avoid.contains(c)) && (max > 1 || !t.contains(char::is_whitespace))).collect();
        if !old.is_empty() && r.chance(1, 4) {
            cx.count("repeated texts");
            self.shape.push('r');
            return r.pick(&old).to_string();
        }
        let t = text(r, &mut self.n, max, avoid);
        if t.contains(|c| "&<>\"'".contains(c)) {
            cx.count("texts that need escaping");
        }
        self.texts.push(t.clone());
        t
    }

    /// The id unless something has it already
    fn take(&mut self, id: &str) -> Option<String> {
        self.used.insert(id.to_string()).then(|| id.to_string())
    }

    fn path(&self, t: &str) -> (Vec<String>, String) {
        let mut p: Vec<String> = self.above.iter().map(|(_, t)| t.clone()).collect();
        p.push(t.to_string());
        let id = p.iter().map(|t| id_of(t)).collect::<Vec<_>>().join("-");
        (p, id)
    }

    fn header(&mut self, r: &mut Rng, cx: &mut Cx, toc: &str) {
        let level = *r.pick(&[1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6]);
        let mut t = self.text(r, cx, 3, "");
        let is_toc = level == 1 && r.chance(1, 12) && !self.texts.iter().any(|t| t == toc);
        if is_toc {
            t = toc.to_string();
            self.texts.push(t.clone());
        }
        // A repeated text may be that of the table of contents
        let is_toc = level == 1 && t == toc;
        cx.count("headers");
        self.shape.push_str(&format!("h{}", level));
        let eq = "=".repeat(level);
        self.out.push_str(&format!("{}{} {} {}\n", if r.chance(1, 6) { "  " } else { "" }, eq, t, eq));
        self.above.retain(|(l, _)| *l < level);
        let (path, pid) = self.path(&t);
        let id = self.take(&id_of(&t));
        let tag = ["", "h1", "h2", "h3", "h4", "h5", "h6"][level];
        if is_toc {
            cx.count("table of contents headers");
            self.ids.push(("toc", None));
            self.ids.push((tag, id.clone()));
        } else if path.len() > 1 {
            cx.count("nested headers");
            let p = self.take(&pid);
            if id.is_none() && p.is_some() {
                cx.count("repeated texts with paths of their own");
            }
            if let Some(p) = &p {
                self.targets.push(Target { path, id: p.clone(), header: true });
            }
            self.ids.push(("div", p));
            self.ids.push((tag, id.clone()));
        } else {
            self.ids.push((tag, id.clone()));
        }
        if let Some(id) = id {
            self.targets.push(Target { path: vec![t.clone()], id, header: true });
        }
        self.above.push((level, t));
    }

    fn small(&mut self, t: &str, tag: &'static str) {
        let id = self.take(&id_of(t));
        if !self.above.is_empty() {
            let (path, pid) = self.path(t);
            let p = self.take(&pid);
            if let Some(p) = &p {
                self.targets.push(Target { path, id: p.clone(), header: false });
            }
            self.ids.push(("span", p));
        }
        if let Some(id) = &id {
            self.targets.push(Target { path: vec![t.to_string()], id: id.clone(), header: false });
        }
        self.ids.push((tag, id));
    }

    fn bold(&mut self, r: &mut Rng, cx: &mut Cx, avoid: &str) -> String {
        let t = self.text(r, cx, 3, avoid);
        cx.count("bold text");
        if !self.above.is_empty() {
            cx.count("elements below headers");
        }
        self.shape.push('b');
        self.small(&t, "strong");
        match r.below(6) {
            0 => format!("_*{}*_", t),
            1 => format!("~~*{}*~~", t),
            _ => format!("*{}*", t),
        }
    }

    fn tags(&mut self, r: &mut Rng, cx: &mut Cx, avoid: &str) -> String {
        let mut s = ":".to_string();
        for _ in 0..r.range(1, 4) {
            let t = self.text(r, cx, 1, &format!("{}: \t", avoid));
            cx.count("tags");
            self.shape.push('t');
            self.small(&t, "tag");
            s.push_str(&t);
            s.push(':');
        }
        s
    }

    fn any(&mut self, r: &mut Rng, cx: &mut Cx, avoid: &str) -> String {
        if r.bool() {
            self.bold(r, cx, avoid)
        } else {
            self.tags(r, cx, avoid)
        }
    }

    fn body(&mut self, r: &mut Rng, cx: &mut Cx) {
        self.out.push('\n');
        match r.below(5) {
            0 | 1 => {
                for _ in 0..r.range(1, 4) {
                    let a = self.any(r, cx, "");
                    let b = if r.bool() { format!(" and {}", self.any(r, cx, "")) } else { String::new() };
                    self.out.push_str(&format!("some {}{} there\n", a, b));
                }
            }
            2 => {
                self.shape.push('l');
                for _ in 0..r.range(1, 4) {
                    let a = self.any(r, cx, "");
                    let pad = if r.chance(1, 4) { "  " } else { "" };
                    self.out.push_str(&format!("{}- item {}\n", pad, a));
                }
            }
            3 => {
                self.shape.push('c');
                let a = self.any(r, cx, "|");
                let b = self.any(r, cx, "|");
                self.out.push_str(&format!("| {} | x |\n| y | z {} |\n", a, b));
            }
            _ => {
                self.shape.push('d');
                let a = self.any(r, cx, ":");
                self.out.push_str(&format!("term:: with {}\n", a));
            }
        }
        self.out.push('\n');
    }
}

fn run(r: &mut Rng, cx: &mut Cx) {
    let v = wikis(r);
    let mut c = config_of(&v);
    if r.chance(1, 3) {
        c.header.table_of_contents = r.pick(&["TOC", "Inhalt & <mehr>", "two  words"]).to_string();
    }
    let mut page = v[0].path.clone();
    page.push(format!("page.{}", v[0].ext));
    c.runtime = HtmlRuntimeConfig { wiki_index: Some(0), page: crate::props::c11::abs(&page) };
    let toc = c.header.table_of_contents.clone();
    let mut d = Doc { out: String::new(), ids: vec![], targets: vec![], above: vec![], used: HashSet::new(), texts: vec![], n: 0, shape: String::new() };
    for _ in 0..r.range(2, 9) {
        if r.chance(3, 5) {
            d.header(r, cx, &toc);
        } else {
            d.body(r, cx);
        }
    }
    let mut links = vec![];
    for _ in 0..r.range(1, 6) {
        if d.targets.is_empty() {
            break;
        }
        let t = r.pick(&d.targets);
        // Encoded or not, these separate the parts of an anchor
        if t.id.contains('#') {
            continue;
        }
        if t.header {
            cx.count("links to headers");
        }
        if t.path.len() > 1 {
            cx.count("links to nested anchors");
        }
        let p = t.path.iter().map(|p| in_link(r, p)).collect::<Vec<_>>().join("#");
        // Case does not survive everywhere
        let same = p.split('#').map(|p| id_of(&crate::walk::pct(p))).collect::<Vec<_>>().join("-") == t.id;
        if !same {
            continue;
        }
        let k = r.below(5);
        let pre = *r.pick(&["", "page", "/page", "wiki0:page", "diary:2020-02-02"]);
        if !pre.is_empty() {
            cx.count("links by way of a page");
        }
        let desc = *r.pick(&["", "|text", "|<t>"]);
        d.out.push_str(&match k {
            0 => format!("\nsee [[{}#{}{}]] there\n", pre, p, desc),
            1 => format!("\n- [[{}#{}{}]]\n", pre, p, desc),
            _ => format!("\n[[{}#{}{}]]\n", pre, p, desc),
        });
        links.push(t.id.clone());
    }
    cx.distinct(&d.shape);
    cx.input(&d.out);
    let h = match convert(&d.out, &c) {
        Ok(h) => h,
        Err(e) => return cx.fail("not converted", e),
    };
    let ev = match html::tokenize(&h) {
        Ok(v) => v,
        Err(e) => return cx.fail("not well-formed", format!("{} in {}", e, h)),
    };
    let mut got: Vec<(String, String)> = vec![];
    let mut hrefs = vec![];
    let mut head: Option<(String, String)> = None;
    let mut open = vec![];
    for e in &ev {
        match e {
            Ev::Open(t, a) => {
                let at = |n: &str| a.iter().find(|(k, _)| k == n).map(|(_, v)| v.clone());
                let class = at("class").unwrap_or_default();
                if t == "div" && class == "toc" {
                    got.push(("toc".into(), String::new()));
                }
                if let Some(id) = at("id") {
                    if t.len() == 2 && t.starts_with('h') {
                        let last = got.last().filter(|(t, _)| t == "div").map(|(_, i)| i.clone());
                        head = Some((t.clone(), last.unwrap_or_else(|| id.clone())));
                    }
                    got.push((if class == "tag" { "tag".into() } else { t.clone() }, id));
                }
                if t == "a" {
                    match (head.take(), at("href")) {
                        (Some((_, id)), Some(h)) if h == format!("#{}", id) => (),
                        (Some((t, id)), h) => cx.fail("header does not refer to itself", format!("{} {} has {:?}", t, id, h)),
                        (None, Some(h)) => hrefs.push(h),
                        (None, None) => (),
                    }
                }
                open.push(t.clone());
            }
            Ev::Close(t) => {
                if t.len() == 2 && t.starts_with('h') {
                    head = None;
                }
            }
            _ => (),
        }
    }
    let mut seen: HashMap<&str, usize> = HashMap::new();
    for (t, id) in &got {
        if t != "toc" {
            *seen.entry(id).or_default() += 1;
        }
        if t != "toc" && id.is_empty() {
            cx.fail("empty id", format!("{} in {}", t, h));
        }
    }
    if let Some((id, n)) = seen.iter().find(|(_, n)| **n > 1) {
        cx.fail("id is not unique", format!("{} occurs {} times in {}", id, n, h));
    }
    let ok = got.len() == d.ids.len() && got.iter().zip(&d.ids).all(|((t, i), (wt, wi))| t == wt && (wt == &"toc" || wi.as_ref().map_or(true, |w| w == i)));
    if !ok {
        let i = got.iter().zip(&d.ids).position(|((t, i), (wt, wi))| !(t == wt && (wt == &"toc" || wi.as_ref().map_or(true, |w| w == i)))).unwrap_or(got.len().min(d.ids.len()));
        return cx.fail(format!("id of {}", d.ids.get(i).map_or("nothing", |x| x.0)), format!("{:?} where {:?} should be, in {}", got.get(i), d.ids.get(i), h));
    }
    if hrefs.len() != links.len() {
        return cx.fail("number of links", format!("{} for {} in {}", hrefs.len(), links.len(), h));
    }
    for (href, id) in hrefs.iter().zip(&links) {
        let f = href.split_once('#').map(|(_, f)| unpct(f));
        if f.as_ref().and_then(|f| f.as_ref().ok()) != Some(id) {
            cx.fail("link misses its anchor", format!("{} for {:?} in {}", href, id, h));
        }
    }
}

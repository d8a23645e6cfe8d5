//! Pages of HTML are their template with its variables filled in.
use crate::engine::*;
use crate::props::c09::convert;
use crate::props::c11::{abs, config_of, seg, segs, wikis};
use crate::rng::Rng;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use vimwiki::*;

pub static PROP: Prop = Prop {
    id: "C13",
    cases: (30_000, 1_000_000),
    run,
    rule: "each case writes a template of literals and variables, a page with placeholders among other blocks, and picks wikis and a page's path; the HTML page has to be the literals and the expected values in order; non-trivial: distinct sequences of template pieces, placeholders and layouts",
    assumptions: &[
        "literals next to variables do not form variables with them",
        "names of files and the name of the stylesheet are used as they are",
        "the content is that of converting the page without a template, which is the subject of C09 to C12",
    ],
    must_see: &[
        ("pages with titles", 8_000), ("pages with several titles", 3_000), ("pages without title", 5_000), ("pages with dates", 6_000), ("pages without date", 5_000), ("templates by name", 1_500), ("missing templates", 250),
        ("templates that are no text", 60), ("contents that look like variables", 5_000), ("variables", 50_000), ("lookalikes of variables", 20_000), ("pages outside of wikis", 1_000), ("titles that need escaping", 5_000), ("placeholders in other elements", 5_000),
    ],
    level: "exploration",
};

const VARS: &[&str] = &["title", "date", "root_path", "wiki_path", "css", "encoding", "content"];

const LIT: &[&str] = &[
    "<p>", "</p>\n", "\r\n", "é ", " and ", "<a href=\"", "\">", "", "日本", "\\1", "$0", "{}", "{0}", "|", "<!-- x -->", "\n\n", "\t", "&amp;", "title", "content ", "_path",
];

const LOOK: &[&str] = &["%", "%%", "100%", "%titl%", "%Title%", "% title%", "%unknown%", "%root%path%", "%é%", "%title %", "%title\n%", "%TITLE%", "%wiki-path%", "%encodin"];

const TITLE: &[&str] = &[
    "A title", "<b>bold</b>", "a & b", "\"quoted\" 'text'", "%content%", "%title%", "%date% and %root_path%", "é 日本", "*no bold*", "[[no link]]", "trailing", "a % b", "$1 \\1", "</title><script>", "%wiki_path%", "= A =", "&lt;",
];

static N: AtomicU64 = AtomicU64::new(0);

/// What follows an escaped text, however it is escaped
fn past_escaped<'a>(mut rest: &'a str, s: &str) -> Option<&'a str> {
    for c in s.chars() {
        if rest.starts_with('&') {
            let n = rest.find(';')? + 1;
            let d = crate::html::decode(&rest[..n]).ok()?;
            if d != c.to_string() {
                return None;
            }
            rest = &rest[n..];
        } else if "<>&\"'".contains(c) {
            return None;
        } else {
            rest = rest.strip_prefix(c)?;
        }
    }
    Some(rest)
}

/// Undoes the escapes any writer of HTML may choose
fn unescape(s: &str) -> Option<String> {
    (!s.contains(['<', '>'])).then(|| crate::html::decode(s).ok()).flatten()
}

struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Self {
        let p = std::env::temp_dir().join(format!("vwmon-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn template(r: &mut Rng, cx: &mut Cx) -> (String, Vec<Result<&'static str, String>>) {
    let mut v: Vec<Result<&'static str, String>> = vec![];
    for _ in 0..r.range(0, 12) {
        match r.below(5) {
            0 | 1 => {
                cx.count("variables");
                v.push(Ok(*r.pick(VARS)));
            }
            2 => {
                cx.count("lookalikes of variables");
                v.push(Err(format!(" {} ", r.pick(LOOK))));
            }
            _ => v.push(Err(r.pick(LIT).to_string())),
        }
        // A literal must not go on with what a variable ends with
        if matches!(v.as_slice(), [.., Ok(_), Err(_)]) {
            let l = v.pop().unwrap().unwrap_err();
            v.push(Err(format!("{}{}", r.pick(&["\n", " ", "\""]), l)));
        }
    }
    let s = v.iter().map(|x| match x {
        Ok(n) => format!("%{}%", n),
        Err(l) => l.clone(),
    });
    (s.collect(), v)
}

fn run(r: &mut Rng, cx: &mut Cx) {
    let v = wikis(r);
    let mut c = config_of(&v);
    for (i, w) in c.wikis.iter_mut().enumerate() {
        w.css_name = format!("{}{}.css", r.pick(&["style", "a b", "sub/x", "%title%", "é"]), i);
    }
    let s = r.below(v.len());
    let lone = r.chance(1, 10);
    let name = seg(r);
    let deep = if r.chance(1, 20) { 20 } else { 4 };
    let dir = if lone { vec![] } else { segs(r, deep) };
    let mut page = if lone { vec!["else".to_string()] } else { v[s].path.clone() };
    page.extend(dir.clone());
    let file = format!("{}.{}", name, v[s].ext);
    page.push(file.clone());
    c.runtime = HtmlRuntimeConfig { wiki_index: if lone { None } else { Some(s) }, page: abs(&page) };
    if lone {
        cx.count("pages outside of wikis");
    }

    let (text, own) = template(r, cx);
    c.template.text = text;
    let (other_text, other) = template(r, cx);
    let mut shape = own.iter().map(|x| x.as_ref().map_or("l", |n| n)).collect::<Vec<_>>().join(",");

    // The page
    let mut titles = vec![];
    let mut dates = vec![];
    let mut named: Option<(String, u8)> = None;
    let mut page_text = String::new();
    let want_template = r.chance(1, 2);
    for _ in 0..r.range(0, 7) {
        match r.below(9) {
            0 | 1 | 2 => {
                let t = r.pick(TITLE).to_string();
                if unescape(&t).as_ref() != Some(&t) {
                    cx.count("titles that need escaping");
                }
                page_text.push_str(&format!("%title{}{}\n", r.pick(&[" ", "\t", "  "]), t));
                titles.push(t);
                shape.push('T');
            }
            3 | 4 => {
                let d = format!("{}-{:02}-{:02}", r.range(1, 9999), r.range(1, 12), r.range(1, 28));
                let d = format!("{:0>10}", d);
                page_text.push_str(&format!("%date {}\n", d));
                dates.push(d);
                shape.push('D');
            }
            5 if want_template => {
                let n = r.pick(&["other", "a.tpl", "with space.html", "é", "sub/x.html", "%title%"]).to_string();
                let k = r.below(6) as u8;
                page_text.push_str(&format!("%template {}\n", n));
                named = Some((n, k));
                shape.push('N');
            }
            6 => {
                page_text.push_str(*r.pick(&["%nohtml\n", "%other thing\n", "%x %title%\n"]));
            }
            7 => {
                cx.count("placeholders in other elements");
                page_text.push_str(*r.pick(&[
                    "\n{{{\n%title code\n%date 2001-02-03\n}}}\n\n", "\n%%+\n%title comment\n+%%\n\n", "\n> %title quote\n\n", "\n- %title item\n\n", "\n| %title cell |\n\n", "\n{{$\n%template math\n}}$\n\n", "\n%date no date\n\n",
                    "\n%titles are text\n\n", "\n %title indented\n\n", "\nterm:: %title def\n\n", "\n= %title head =\n\n", "\n%title\n\n", "\n%% %title x\n\n",
                ]));
            }
            _ => {
                cx.count("contents that look like variables");
                page_text.push_str(&format!("\nsee %{}% here %css%\n\n", r.pick(VARS)));
            }
        }
    }
    cx.count(match titles.len() {
        0 => "pages without title",
        1 => "pages with titles",
        _ => "pages with several titles",
    });
    cx.count(if dates.is_empty() { "pages without date" } else { "pages with dates" });
    shape.push_str(&format!("{}{}", lone, dir.len()));
    cx.distinct(&shape);

    let scratch = named.as_ref().map(|(n, k)| {
        let s = Scratch::new();
        let p = s.0.join(n);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        match k {
            0 => cx.count("missing templates"),
            1 if r.chance(1, 4) => {
                cx.count("templates that are no text");
                std::fs::write(&p, b"\xff\xfe%title%").unwrap();
            }
            _ => {
                cx.count("templates by name");
                std::fs::write(&p, &other_text).unwrap();
            }
        }
        c.template.dir = s.0.clone();
        s
    });
    let bad = scratch.as_ref().map_or(false, |s| std::fs::read_to_string(s.0.join(&named.as_ref().unwrap().0)).is_err());
    cx.input(&format!("{}\n--- page {:?}, named {:?}\n{}", if named.is_some() { &other_text } else { &c.template.text }, page, named, page_text));

    let content = match convert(&page_text, &c) {
        Ok(h) => h,
        Err(e) => return cx.fail("not converted", e),
    };
    let lang = Language::from_vimwiki_str(&page_text);
    let Ok(parsed) = lang.parse::<Page>() else { return cx.fail("not parsed", String::new()) };
    let before = chrono::Local::now().date_naive().format("%Y-%m-%d").to_string();
    let res = parsed.to_html_page(c.clone());
    let after = chrono::Local::now().date_naive().format("%Y-%m-%d").to_string();
    let h = match (res, bad) {
        (Ok(_), true) => return cx.fail("made do without the template", String::new()),
        (Err(_), true) => return,
        (Err(e), false) => return cx.fail("no page", e.to_string()),
        (Ok(h), false) => h,
    };
    let pieces = if named.is_some() { &other } else { &own };
    let title = titles.last().cloned().unwrap_or_else(|| name.clone());
    let css = if lone { "style.css".to_string() } else { c.wikis[s].css_name.clone() };
    let root = "../".repeat(dir.len());
    let mut wp = dir.clone();
    wp.push(file);
    let wp = wp.join("/");
    let mut rest = h.as_str();
    for (i, p) in pieces.iter().enumerate() {
        let ok = match p {
            Err(l) => rest.strip_prefix(l.as_str()).map(|x| rest = x).is_some(),
            Ok("title") => past_escaped(rest, &title).map(|x| rest = x).is_some(),
            Ok("date") => match dates.last() {
                Some(d) => rest.strip_prefix(d.as_str()).map(|x| rest = x).is_some(),
                None => rest.strip_prefix(before.as_str()).or_else(|| rest.strip_prefix(after.as_str())).map(|x| rest = x).is_some(),
            },
            Ok("root_path") => rest.strip_prefix(root.as_str()).map(|x| rest = x).is_some(),
            Ok("wiki_path") => rest.strip_prefix(wp.as_str()).map(|x| rest = x).is_some(),
            Ok("css") => rest.strip_prefix(css.as_str()).map(|x| rest = x).is_some(),
            Ok("encoding") => rest.strip_prefix("utf-8").map(|x| rest = x).is_some(),
            Ok(_) => rest.strip_prefix(content.as_str()).map(|x| rest = x).is_some(),
        };
        if !ok {
            return cx.fail(
                format!("value of {}", p.as_ref().map_or("literal", |n| n)),
                format!("piece {} {:?} not at {:?}; title {:?} dates {:?} root {:?} path {:?} css {:?}", i, p, rest.chars().take(80).collect::<String>(), title, dates.last(), root, wp, css),
            );
        }
    }
    if !rest.is_empty() {
        cx.fail("text after the template", format!("{:?}", rest));
    }
}


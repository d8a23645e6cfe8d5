//! HTML is well-nested and user text cannot inject markup.
use crate::engine::*;
use crate::gen::{Opts, G};
use crate::html::{self, Ev};
use crate::props::c03::parse;
use crate::rng::Rng;
use crate::walk::Node;
use crate::fuzz;
use std::collections::BTreeSet;
use std::path::PathBuf;
use vimwiki::*;

pub static PROP: Prop = Prop {
    id: "C09",
    cases: (28_000, 1_400_000),
    run,
    rule: "each case is a generated or hostile page sprinkled with text that means something to HTML, converted under a random configuration; the output is read by a strict tokenizer that allows only the documented tags and attributes, each with its place; non-trivial: distinct sequences of tags",
    assumptions: &[
        "attributes the user sets on purpose (code metadata, link properties) are allowed with the names written",
        "a template and its file names are trusted",
        "links within headers nest in the anchor of the header",
    ],
    must_see: &[("pages with markup in them", 8_000), ("tags", 100_000), ("escaped characters", 50_000), ("highlighted by the server", 80), ("comments", 500), ("user attributes", 500)],
    level: "exploration",
};

const EVIL: &[&str] = &[
    "<script>", "</p>", "</li></ul>", "<!--", "-->", "--!>", "<b a=\"1\">", "\"", "'", "` onload=x", "\" onclick=\"x", "&", "&lt;", "&amp;", "&#60;", ">",
    "<", "<img src=x>", "</code></pre>", "]]>", "<![CDATA[", "<?x?>", "</strong>", "\"><x>", "%content%", "&quot;", "</table>", "</h1>", "'>", "{{x|y|src=\"z\" Alt=\"v\"}}", "[[x|y|HREF=\"javascript:\" href=\"z\"]]", "\n{{{x class=\"y\"\nz\n}}}\n",
];

pub fn sprinkle(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<String> = t.chars().map(|c| c.to_string()).collect();
    for _ in 0..r.range(1, 6) {
        let i = r.below(c.len() + 1);
        c.insert(i, r.pick(EVIL).to_string());
    }
    c.concat()
}

/// Wikis by index and name as a page needs them
pub fn wikis_for(n: &Node) -> Vec<HtmlWikiConfig> {
    let mut names = BTreeSet::new();
    let mut most = 1;
    n.walk(&mut |k| {
        if let Some(x) = k.get("name") {
            if k.kind == "link" {
                names.insert(x.to_string());
            }
        }
        if let Some(i) = k.get("index").and_then(|i| i.parse::<usize>().ok()) {
            if i < 50 {
                most = most.max(i + 1);
            }
        }
    });
    let w = |i: usize, name: Option<String>| HtmlWikiConfig {
        path: PathBuf::from(format!("/w/wiki{}", i)),
        path_html: PathBuf::from(format!("/w/out{}", i)),
        name,
        ..Default::default()
    };
    let mut v: Vec<HtmlWikiConfig> = (0..most).map(|i| w(i, None)).collect();
    for x in names {
        v.push(w(v.len(), Some(x)));
    }
    v
}

pub fn config(r: &mut Rng, n: &Node) -> HtmlConfig {
    let mut c = HtmlConfig::default();
    c.wikis = wikis_for(n);
    let i = r.below(c.wikis.len());
    let dir = *r.pick(&["", "a/", "a/b/", "a b/c/"]);
    c.runtime = HtmlRuntimeConfig { wiki_index: Some(i), page: PathBuf::from(format!("/w/wiki{}/{}page.wiki", i, dir)) };
    if r.chance(1, 30) {
        // Pages outside of any wiki, down to paths without a file or directory
        c.runtime = HtmlRuntimeConfig { wiki_index: None, page: PathBuf::from(*r.pick(&["/elsewhere/page.wiki", "page.wiki", "/page.wiki", "/", ""])) };
    }
    c.list.ignore_newline = r.bool();
    c.paragraph.ignore_newline = r.bool();
    c.comment.include = r.bool();
    c.code.server_side = r.chance(1, 40);
    c.code.theme = r.pick(&["InspiredGitHub", "base16-ocean.dark", "Solarized (light)"]).to_string();
    c.link.canonicalize = r.bool();
    c.link.use_ugly_urls = r.bool();
    c
}

/// Whether links of the page lead to wikis there are not
pub fn unknown_wiki(n: &Node, c: &HtmlConfig) -> bool {
    let mut bad = false;
    n.walk(&mut |k| {
        if k.kind == "link" {
            if let Some(i) = k.get("index") {
                bad |= i.parse::<usize>().map_or(true, |i| i >= c.wikis.len());
            }
            if let Some(x) = k.get("name") {
                bad |= !c.wikis.iter().any(|w| w.name.as_deref() == Some(x));
            }
        }
    });
    bad
}

pub fn convert(t: &str, c: &HtmlConfig) -> Result<String, String> {
    match guard(|| {
        let p: Result<Page, ParseError> = Language::from_vimwiki_str(t).parse();
        match p {
            Ok(p) => p.to_html_string(c.clone()).map_err(|e| format!("{}", e)),
            Err(e) => Err(format!("{}", e)),
        }
    }) {
        Ok(x) => x,
        Err(e) => Err(panic_sig(&e)),
    }
}

pub fn text(r: &mut Rng) -> String {
    let t = if r.chance(2, 3) {
        let mut o = Opts::any(r);
        o.meta = r.chance(3, 4);
        G::new(r, o).page().text
    } else {
        fuzz::any(r)
    };
    if r.chance(2, 3) {
        sprinkle(r, &t)
    } else {
        t
    }
}

fn run(r: &mut Rng, cx: &mut Cx) {
    let t = text(r);
    cx.input(&t);
    let n = match parse(&t) {
        Ok(n) => n,
        Err(e) => return cx.fail("page not parsed", e),
    };
    let c = config(r, &n);
    let h = match convert(&t, &c) {
        Ok(h) => h,
        Err(_) if unknown_wiki(&n, &c) => return cx.count("links to unknown wikis"),
        Err(e) => return cx.fail("not converted", e),
    };
    if t.contains(['<', '>', '&', '"', '\'', '`']) {
        cx.count("pages with markup in them");
    }
    if c.code.server_side && h.contains("<pre style") {
        cx.count("highlighted by the server");
    }
    check(&h, &n, c.code.server_side, cx);
    // The title of a page is put into templates
    let mut c = c;
    c.template.text = "<p>%title%</p>".into();
    let title = guard(|| {
        let p: Page = Language::from_vimwiki_str(&t).parse().unwrap();
        p.to_html_page(c.clone()).map_err(|e| format!("{}", e))
    });
    match title {
        Ok(Ok(h)) => {
            if let Err(e) = html::tokenize(&h).and_then(|v| match v.as_slice() {
                [Ev::Open(..), Ev::Text(_), Ev::Close(_)] | [Ev::Open(..), Ev::Close(_)] => Ok(()),
                _ => Err("more than text".to_string()),
            }) {
                cx.fail("markup in the title", format!("{}: {}", e, h));
            }
        }
        // The page may ask for a template that is not there
        Ok(Err(e)) if t.contains("%template") => {
            let _ = e;
        }
        Ok(Err(e)) => cx.fail("not converted with template", e),
        Err(e) => cx.fail(panic_sig(&e), e),
    }
}

fn check(h: &str, n: &Node, server: bool, cx: &mut Cx) {
    let v = match html::tokenize(h) {
        Ok(v) => v,
        Err(e) => {
            let k: String = e.split(['"', '\'']).next().unwrap_or("").trim().to_string();
            return cx.fail(format!("not well-formed: {}", k), format!("{}\nin {}", e, h));
        }
    };
    if let Err(e) = html::nested(&v) {
        cx.fail(format!("nesting: {}", e), h.to_string());
    }
    // Names the user wrote
    let mut names: BTreeSet<String> = Default::default();
    n.walk(&mut |k| {
        for a in ["meta", "props"] {
            if let Some(s) = k.get(a) {
                names.extend(html::attrs(s).into_iter().map(|x| x.0));
            }
        }
    });
    let mut shape = String::new();
    let mut pre = 0;
    for e in &v {
        match e {
            Ev::Open(t, a) => {
                cx.count("tags");
                if !html::BLOCK.contains(&t.as_str()) && !html::INLINE.contains(&t.as_str()) {
                    cx.fail("tag not documented", format!("{} in {}", t, h));
                }
                shape.push_str(t);
                shape.push(' ');
                if t == "pre" {
                    pre += 1;
                }
                for (i, (k, x)) in a.iter().enumerate() {
                    let ok = match (t.as_str(), k.as_str()) {
                        ("table", "class") => x == "center",
                        ("a", "href") | ("img", "src") => i == 0,
                        ("img", "alt") => true,
                        ("code", "class") => true,
                        ("strong" | "h1" | "h2" | "h3" | "h4" | "h5" | "h6", "id") => true,
                        ("h1" | "h2" | "h3" | "h4" | "h5" | "h6", "class") => x == "header",
                        ("div", "class") => x == "toc",
                        ("div" | "span", "id") => true,
                        ("span", "class") => x == "tag" || x == "todo",
                        ("li", "class") => ["done0", "done1", "done2", "done3", "done4", "rejected"].contains(&x.as_str()),
                        ("td" | "th", "rowspan" | "colspan") => x.parse::<usize>().map_or(false, |n| n > 1),
                        ("pre" | "span", "style") => server && pre > 0,
                        _ => false,
                    };
                    if !ok {
                        if ["a", "img", "code"].contains(&t.as_str()) && names.contains(k) {
                            cx.count("user attributes");
                        } else {
                            cx.fail("attribute not documented", format!("{}=\"{}\" of {} in {}", k, x, t, h));
                        }
                    }
                }
            }
            Ev::Close(t) if t == "pre" => pre -= 1,
            Ev::Close(_) => shape.push('/'),
            Ev::Comment(_) => cx.count("comments"),
            Ev::Text(t) => {
                let k = t.matches(['<', '>', '&', '"', '\'']).count();
                if k > 0 {
                    cx.add("escaped characters", k as u64);
                }
            }
        }
    }
    cx.distinct(&shape);
}

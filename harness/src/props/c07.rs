//! Formatting a page never changes what it means.
use crate::engine::*;
use crate::gen::{Opts, G};
use crate::props::c03::parse;
use crate::rng::Rng;
use crate::walk::{self, Node};
use crate::{fuzz, gen};
use vimwiki::*;

pub static PROP: Prop = Prop {
    id: "C07",
    cases: (24_000, 1_200_000),
    run,
    rule: "each case is a page generated from a model, or a hostile text, formatted under a random configuration; the tree of the formatted text has to equal the tree of the text; non-trivial: distinct tree shapes with their configuration",
    assumptions: &[
        "whitespace at the edges of lines, cells, terms, definitions and comments is not compared, nor are the lengths of indentation",
        "to-do characters stay the default ones, as others are not read back",
        "indentation is some spaces or tabs",
    ],
    must_see: &[("pages compared", 10_000), ("pages changed by formatting", 5_000), ("hostile pages", 1_000), ("links", 2_000), ("sublists", 500), ("long lists", 3)],
    level: "exploration",
};

pub fn config(r: &mut Rng) -> VimwikiConfig {
    let mut c = VimwikiConfig::default();
    if r.chance(1, 4) {
        return c;
    }
    c.page.indent_str = r.pick(&["    ", "    ", "  ", " ", "\t", "   "]).to_string();
    c.page.separate_block_elements = r.chance(2, 3);
    c.blockquote.prefer_indented_blockquote = r.bool();
    c.blockquote.trim_lines = r.bool();
    c.comment.no_padding = r.bool();
    c.comment.trim_content = r.bool();
    c.definition_list.term_on_line_by_itself = r.bool();
    c.definition_list.trim_terms = r.bool();
    c.definition_list.trim_definitions = r.bool();
    c.header.no_padding = r.bool();
    c.header.trim_content = r.bool();
    c.paragraph.trim_lines = r.bool();
    c.paragraph.no_line_wrap = r.bool();
    c.paragraph.line_wrap_column = r.range(1, 100);
    c.table.no_padding = r.bool();
    c
}

pub fn describe(c: &VimwikiConfig) -> String {
    serde_json::to_string(c).unwrap()
}

pub fn format(t: &str, c: &VimwikiConfig) -> Result<String, String> {
    match guard(|| {
        let p: Result<Page, ParseError> = Language::from_vimwiki_str(t).parse();
        match p {
            Ok(p) => p.to_vimwiki_string(c.clone()).map_err(|e| format!("{}", e)),
            Err(e) => Err(format!("{}", e)),
        }
    }) {
        Ok(Ok(n)) => Ok(n),
        Ok(Err(e)) => Err(e),
        Err(e) => Err(e),
    }
}

/// Drops what formatting normalises
pub fn norm(mut n: Node, c: &VimwikiConfig) -> Node {
    let trim_quotes = c.blockquote.trim_lines;
    n.walk_mut(&mut |n| {
        n.region = None;
        match n.kind {
            "line" | "header" | "cell" | "term" | "def" => edges(&mut n.kids),
            // Without their whitespace, these are no lines anymore
            "mcomment" => {
                while n.kids.last().map_or(false, |k| k.text().trim().is_empty()) {
                    n.kids.pop();
                }
            }
            "comment" | "mcline" => {
                let t = n.attrs[0].1.trim().to_string();
                n.attrs[0].1 = t;
            }
            "qline" if trim_quotes => {
                let t = n.attrs[0].1.trim().to_string();
                n.attrs[0].1 = t;
            }
            _ => (),
        }
    });
    n
}

/// Trims the first and last text
pub fn edges(v: &mut Vec<Node>) {
    if let Some(f) = v.first_mut() {
        if f.kind == "text" {
            let t = f.text().trim_start().to_string();
            f.attrs[0].1 = t;
        }
    }
    if let Some(f) = v.last_mut() {
        if f.kind == "text" {
            let t = f.text().trim_end().to_string();
            f.attrs[0].1 = t;
        }
    }
    v.retain(|n| n.kind != "text" || !n.text().is_empty());
}

pub fn shape(n: &Node) -> String {
    let mut s = String::new();
    n.walk(&mut |k| {
        s.push_str(k.kind);
        s.push(' ');
    });
    s
}

/// What quotes in a row become that are all written in the traditional style
pub fn merge_quotes(n: &Node, c: &VimwikiConfig) -> Node {
    let mut n = n.clone();
    let prefer = c.blockquote.prefer_indented_blockquote;
    let arrow = |q: &Node| q.kind == "quote" && (!prefer || q.kids.iter().any(|l| l.text().trim().is_empty()));
    let mut out: Vec<Node> = vec![];
    for k in n.kids {
        match out.last_mut() {
            Some(l) if arrow(l) && arrow(&k) => {
                l.kids.push(Node::leaf("qline", ""));
                l.kids.extend(k.kids);
            }
            _ => out.push(k),
        }
    }
    n.kids = out;
    n
}

/// Unique words of the generators, which no notation contains
fn words(s: &str) -> Vec<&str> {
    s.split(|c: char| !c.is_ascii_lowercase())
        .filter(|w| w.len() == 6 && w.bytes().enumerate().all(|(i, c)| b"aeou".contains(&c) == (i % 2 == 1)))
        .collect()
}

pub fn text(r: &mut Rng) -> (String, bool) {
    if r.chance(3, 4) {
        let o = Opts::any(r);
        (G::new(r, o).page().text, false)
    } else if r.bool() {
        (fuzz::any(r), true)
    } else {
        let t = gen::any_doc(r).text;
        { let o = gen::any_doc(r).text; (fuzz::mutate(r, &t, &o), true) }
    }
}

fn run(r: &mut Rng, cx: &mut Cx) {
    let mut c = config(r);
    let (mut t, mut hostile) = text(r);
    if cx.case == 0 {
        // A case that is always there
        c = VimwikiConfig::default();
        t = "    a quote\n\n> another quote\n".to_string();
        hostile = false;
    } else if let 1..=3 = cx.case {
        // Lists that are longer than any generated one
        let (upper, lower, items) = [("II. ", "i) ", 33_000), ("B. ", "a) ", 19_000), ("2) ", "1. ", 12_000)][cx.case as usize - 1];
        let marker = if cx.seed % 2 == 0 { upper } else { lower };
        c = VimwikiConfig::default();
        t = format!("{}wert\n", marker).repeat(items);
        hostile = false;
        cx.count("long lists");
    }
    cx.input(&format!("{}\n{}", describe(&c), t));
    let a = match parse(&t) {
        Ok(n) => n,
        Err(e) => return cx.fail("page not parsed", e),
    };
    let f = match format(&t, &c) {
        Ok(f) => f,
        Err(e) => return cx.fail("page not formatted", e),
    };
    let b = match parse(&f) {
        Ok(n) => n,
        Err(e) => return cx.fail("formatted page not parsed", e),
    };
    cx.count("pages compared");
    if f != t {
        cx.count("pages changed by formatting");
    }
    if hostile {
        cx.count("hostile pages");
    }
    a.walk(&mut |n| {
        if n.kind == "link" {
            cx.count("links")
        }
        if n.kind == "item" && n.kids.iter().any(|k| k.kind == "list") {
            cx.count("sublists")
        }
    });
    cx.distinct(&format!("{}{}", shape(&a), describe(&c)));
    if hostile {
        // What looks like markup by accident may be read back differently once
        // whitespace is normalised, but nothing may be lost
        let mut all = String::new();
        crate::props::c04::gather(&a, &mut all);
        let (x, y) = (words(&all), words(&f));
        cx.add("hostile words", x.len() as u64);
        if x != y {
            let i = x.iter().zip(&y).take_while(|(a, b)| a == b).count();
            cx.fail("hostile: words differ", format!("word {}: expected {:?} but got {:?}\nformatted: {:?}", i, x.get(i), y.get(i), f));
        }
        let (a, b) = (norm(a, &c).canon(), norm(b, &c).canon());
        cx.count(if a == b { "hostile pages read back equal" } else { "hostile pages read back differently (not judged)" });
        return;
    }
    let a = norm(a, &c);
    let merged = merge_quotes(&a, &c).canon();
    let (a, b) = (a.canon(), norm(b, &c).canon());
    if a != b && merged == b {
        return cx.fail("adjacent blockquotes become one", format!("formatted: {:?}", f));
    }
    if let Some(x) = walk::diff(&a, &b) {
        cx.fail(walk::diff_kinds(&a, &b), format!("{}\nformatted: {:?}", x, f));
    }
}

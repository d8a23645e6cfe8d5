//! Inline markup is parsed as written and nothing of a line is lost.
use crate::engine::*;
use crate::gen::{Opts, G};
use crate::props::c03::parse;
use crate::rng::Rng;
use crate::walk::{self, Node};

pub static PROP: Prop = Prop {
    id: "C04",
    cases: (40_000, 2_000_000),
    run,
    rule: "either lines generated from an inline model within a paragraph, header, list item, table cell or definition, compared with the tree of the model, or punctuation-heavy lines of unique words of which each has to be found in the tree exactly once and in order; non-trivial: distinct sequences of inline kinds",
    assumptions: &[
        "what follows the properties of a link within its brackets is ignored by design",
        "text that the grammar reads in more than one way is not generated by the model, only by the conservation part",
    ],
    must_see: &[("model lines", 5_000), ("conservation lines", 5_000), ("words conserved", 20_000)],
    level: "exploration",
};

fn run(r: &mut Rng, cx: &mut Cx) {
    if r.chance(3, 5) {
        model(r, cx)
    } else {
        conserve(r, cx)
    }
}

fn model(r: &mut Rng, cx: &mut Cx) {
    let mut o = Opts::any(r);
    o.inline = true;
    o.links = true;
    o.comments = true;
    o.blocks = (1, 2);
    o.list_depth = 1;
    o.kinds = vec!["para", "para", "header", "list", "table", "deflist"];
    let d = G::new(r, o).page();
    cx.input(&d.text);
    let n = match parse(&d.text) {
        Ok(n) => n,
        Err(e) => return cx.fail("page not parsed", e),
    };
    let (a, b) = (d.page.canon(), n.canon());
    if let Some(x) = walk::diff(&a, &b) {
        cx.fail(format!("tree differs at {}", walk::diff_kinds(&a, &b)), x);
    }
    seqs(&d.page, cx);
}

/// Sequences of kinds within containers
fn seqs(n: &Node, cx: &mut Cx) {
    if matches!(n.kind, "line" | "header" | "cell" | "term" | "def" | "bold" | "italic" | "strike" | "sup" | "sub") {
        cx.count("model lines");
        let ks: Vec<String> =
            n.kids.iter().map(|k| format!("{}{}", k.kind, k.get("type").unwrap_or(""))).collect();
        cx.distinct(&format!("{}: {}", n.kind, ks.join(" ")));
    }
    for k in &n.kids {
        seqs(k, cx);
    }
}

const PUNCT: &[&str] = &[
    "*", "_", "~~", "^", ",,", "`", "$", ":", "[[", "]]", "{{", "}}", "[", "]", "{", "}", "%%", "%%+", "+%%", "#", "/", "|", "<", ">", "&",
    "\"", "'", "=", "-", "+", ".", "!", "?", "(", ")", ";", "@", "~", ",", "\\", "http://", "file:", "wn.", "diary:", "wiki1:", "//", "TODO",
    "XXX", "DONE", "::",
];

fn conserve(r: &mut Rng, cx: &mut Cx) {
    let mut o = Opts::any(r);
    o.unicode = r.chance(1, 3);
    let sub: Vec<&str> = (0..r.range(2, 6)).map(|_| *r.pick(PUNCT)).collect();
    let n = r.range(3, 14);
    let mut bars = 0;
    let mut words = vec![];
    let mut s = String::new();
    let wrap = r.below(5);
    {
        let mut g = G::new(r, o);
        let w = g.word();
        s.push_str(&w);
        words.push(w);
        for _ in 0..n {
            for _ in 0..g.r.range(0, 2) {
                let p = if g.r.chance(3, 4) { *g.r.pick(&sub) } else { *g.r.pick(PUNCT) };
                if p == "|" {
                    // With a second one, properties follow; cells end there
                    bars += 1;
                    if bars > 1 || wrap == 3 {
                        continue;
                    }
                }
                if g.r.chance(1, 3) {
                    s.push(' ');
                }
                s.push_str(p);
            }
            if g.r.chance(1, 3) {
                s.push(' ');
            }
            let w = g.word();
            s.push_str(&w);
            words.push(w);
        }
    }
    let s = match wrap {
        0 | 1 => s,
        2 => format!("- {}", s),
        3 => format!("| {} |", s),
        _ => format!("== {} ==", s),
    };
    cx.input(&s);
    let n = match parse(&s) {
        Ok(n) => n,
        Err(e) => return cx.fail("page not parsed", e),
    };
    cx.count("conservation lines");
    let mut all = String::new();
    gather(&n, &mut all);
    cx.distinct(&shape(&n));
    let mut at = 0;
    for w in &words {
        match all[at..].find(w.as_str()) {
            Some(i) => {
                cx.count("words conserved");
                at += i + w.len();
            }
            None => return cx.fail("word lost or moved", format!("{:?} in {:?}\n{}", w, all, n.canon())),
        }
    }
    for w in &words {
        if all.matches(w.as_str()).count() != 1 {
            return cx.fail("word duplicated", format!("{:?} in {:?}\n{}", w, all, n.canon()));
        }
    }
}

fn shape(n: &Node) -> String {
    let mut s = String::new();
    n.walk(&mut |k| {
        s.push_str(k.kind);
        s.push(' ');
    });
    s
}

/// All texts of a tree in the order of the source
pub fn gather(n: &Node, s: &mut String) {
    for k in ["text", "name", "key", "value", "lang", "env", "meta", "index", "uri", "desc"] {
        if k == "name" && n.kind != "link" {
            continue;
        }
        if let Some(v) = n.get(k) {
            s.push_str(v);
            s.push(' ');
        }
    }
    for k in &n.kids {
        gather(k, s);
    }
    if let Some(v) = n.get("props") {
        s.push_str(v);
        s.push(' ');
    }
}

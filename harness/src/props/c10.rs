//! HTML shows exactly the content of the page, in order.
use crate::engine::*;
use crate::gen::{Opts, G};
use crate::html::{self, Ev, Opt};
use crate::props::c03::parse;
use crate::props::c09::{config, convert, sprinkle, unknown_wiki};
use crate::props::c07::shape;
use crate::rng::Rng;
use crate::{fuzz, walk::Node};

pub static PROP: Prop = Prop {
    id: "C10",
    cases: (40_000, 2_000_000),
    run,
    rule: "each case is a page, generated together with its tree or hostile, converted under a random configuration; the events of the HTML have to equal those an independent renderer makes from the tree; non-trivial: distinct tree shapes with their options",
    assumptions: &[
        "values of ids and addresses of links are left to C11 and C12",
        "whitespace that HTML does not show is not compared; texts are compared with percent-encoding decoded",
        "for hostile pages the tree is the parsed one",
        "the colors given to code by the server are not checked, its text is",
    ],
    must_see: &[("events compared", 500_000), ("hostile pages", 5_000), ("tables of contents", 100), ("comments", 500), ("line breaks kept", 500), ("highlighted by the server", 100)],
    level: "exploration",
};

fn run(r: &mut Rng, cx: &mut Cx) {
    let (t, n) = if r.chance(2, 3) {
        let o = Opts::any(r);
        let d = G::new(r, o).page();
        cx.input(&d.text);
        (d.text, d.page)
    } else {
        let t = fuzz::any(r);
        let t = if r.bool() { sprinkle(r, &t) } else { t };
        cx.input(&t);
        cx.count("hostile pages");
        match parse(&t) {
            Ok(n) => (t, n),
            Err(e) => return cx.fail("page not parsed", e),
        }
    };
    let mut c = config(r, &n);
    if let Some(h) = toc(&n, r) {
        c.header.table_of_contents = h;
    }
    let h = match convert(&t, &c) {
        Ok(h) => h,
        Err(_) if unknown_wiki(&n, &c) => return cx.count("links to unknown wikis"),
        Err(e) => return cx.fail("not converted", e),
    };
    let o = Opt { ignore_newline: c.paragraph.ignore_newline, comments: c.comment.include, toc: c.header.table_of_contents.clone() };
    cx.distinct(&format!("{}{}{}{}", shape(&n), o.ignore_newline, o.comments, c.code.server_side));
    let v = match html::tokenize(&h) {
        Ok(v) => v,
        Err(e) => return cx.fail("not well-formed", e),
    };
    let mut e = html::expect(&n, &o);
    let mut v = v;
    if c.code.server_side {
        v = without_colors(v, true);
        e = without_colors(e, false);
        if h.contains("<pre style") {
            cx.count("highlighted by the server");
        }
    }
    let (e, v) = (html::blank(html::normal(e)), html::blank(html::normal(v)));
    cx.add("events compared", v.len() as u64);
    if h.contains("<div class=\"toc\">") {
        cx.count("tables of contents");
    }
    if h.contains("<!--") {
        cx.count("comments");
    }
    if h.contains("<br />") {
        cx.count("line breaks kept");
    }
    if let Some((s, m)) = html::differ(&e, &v) {
        cx.fail(s, format!("{}\nin {}", m, h));
    }
}

/// The text of some header without markup
fn toc(n: &Node, r: &mut Rng) -> Option<String> {
    let v: Vec<String> = n
        .kids
        .iter()
        .filter(|k| k.kind == "header" && k.kids.len() == 1 && k.kids[0].kind == "text")
        .map(|k| k.kids[0].text().trim().to_string())
        .collect();
    if v.is_empty() || !r.chance(1, 3) {
        None
    } else {
        Some(r.pick(&v).clone())
    }
}

/// Text of code only, as what surrounds it is for colors
fn without_colors(v: Vec<Ev>, edges: bool) -> Vec<Ev> {
    let mut out: Vec<Ev> = vec![];
    let mut pre = false;
    let mut text = String::new();
    for e in v {
        match &e {
            Ev::Open(n, _) if n == "pre" => {
                pre = true;
                out.push(Ev::Open("pre".into(), vec![]));
            }
            Ev::Close(n) if n == "pre" => {
                pre = false;
                let t = std::mem::take(&mut text);
                let t = if edges { t.strip_prefix('\n').unwrap_or(&t) } else { &t };
                let t = if edges { t.strip_suffix('\n').unwrap_or(t) } else { t };
                if !t.is_empty() {
                    out.push(Ev::Text(t.to_string()));
                }
                out.push(e);
            }
            Ev::Text(t) if pre => text.push_str(t),
            _ if pre => (),
            _ => out.push(e),
        }
    }
    out
}

//! Regions of elements are exact, nested and ordered.
use crate::engine::*;
use crate::gen::{Opts, G};
use crate::rng::Rng;
use crate::walk::{self, Node};
use crate::{fuzz, props::c03::parse};
use vimwiki::*;

pub static PROP: Prop = Prop {
    id: "C02",
    cases: (30_000, 1_500_000),
    run,
    rule: "each case is a generated page with known positions of inline elements, or a hostile text; every region of the parsed page is checked for bounds, nesting, order, coverage and by parsing the text it cuts out; non-trivial: distinct (kind, parent kind, multi-byte text before it) combinations and tree shapes",
    assumptions: &["lines and rows have no region of their own and are looked through"],
    must_see: &[("regions", 20_000), ("known positions", 10_000), ("parsed again", 10_000), ("regions after multi-byte text", 2_000)],
    level: "exploration",
};

fn run(r: &mut Rng, cx: &mut Cx) {
    let (text, model) = if r.chance(2, 3) {
        let mut o = Opts::any(r);
        o.unicode |= r.bool();
        let d = G::new(r, o).page();
        (d.text, Some(d.page))
    } else {
        (fuzz::any(r), None)
    };
    cx.input(&text);
    let tree = match parse(&text) {
        Ok(n) => n,
        Err(e) => return cx.fail("page not parsed", e),
    };
    let mut v = V { t: &text, cx };
    let mut shape = String::new();
    tree.walk(&mut |n| shape.push_str(n.kind));
    v.cx.distinct(&shape);
    v.tree(&tree, None);
    v.cover(&tree);
    if let Some(m) = &model {
        v.known(m, &tree);
    }
    v.again(&tree);
}

struct V<'a, 'b> {
    t: &'a str,
    cx: &'b mut Cx,
}

/// Nearest descendants that have a region
fn located<'a>(n: &'a Node, out: &mut Vec<&'a Node>) {
    for k in &n.kids {
        if k.region.is_some() {
            out.push(k)
        } else {
            located(k, out)
        }
    }
}

impl V<'_, '_> {
    fn tree(&mut self, n: &Node, outer: Option<(usize, usize)>) {
        let mut kids = vec![];
        located(n, &mut kids);
        let mut last = outer.map(|x| x.0).unwrap_or(0);
        for k in kids {
            let (o, l) = k.region.unwrap();
            self.cx.count("regions");
            let end = match o.checked_add(l) {
                Some(e) if e <= self.t.len() => e,
                _ => {
                    self.cx.fail(format!("{} outside of text", k.kind), format!("{}+{} of {}", o, l, self.t.len()));
                    continue;
                }
            };
            if !self.t.is_char_boundary(o) || !self.t.is_char_boundary(end) {
                self.cx.fail(format!("{} cuts character", k.kind), format!("{}..{}", o, end));
                continue;
            }
            if !self.t[..o].is_ascii() {
                self.cx.count("regions after multi-byte text");
            }
            self.cx.distinct(&format!("{} in {} {}", k.kind, n.kind, self.t[..o].is_ascii()));
            if o < last {
                self.cx.fail(
                    format!("{} in {} before its place", k.kind, n.kind),
                    format!("starts at {} but what is before it ends at {}: {:?}", o, last, &self.t[o..end]),
                );
            }
            if let Some((po, pl)) = outer {
                if o < po || end > po + pl {
                    self.cx.fail(
                        format!("{} not within {}", k.kind, n.kind),
                        format!("{}..{} is not within {}..{}", o, end, po, po + pl),
                    );
                }
            }
            last = end;
            self.tree(k, k.region);
            if k.kind == "text" && k.text() != &self.t[o..end] {
                self.cx.fail("text not at its region", format!("{:?} but region has {:?}", k.text(), &self.t[o..end]));
            }
        }
    }

    fn cover(&mut self, page: &Node) {
        let mut at = 0;
        let gap = |a: usize, b: usize, cx: &mut Cx| {
            if a < b {
                cx.count("gaps");
                if let Some(g) = self.t.get(a..b) {
                    if !g.trim().is_empty() {
                        cx.fail("text outside of blocks", format!("{}..{} {:?}", a, b, g));
                    }
                }
            }
        };
        for k in &page.kids {
            if let Some((o, l)) = k.region {
                gap(at, o, self.cx);
                at = o + l;
            }
        }
        gap(at, self.t.len(), self.cx);
    }

    /// Same inline elements at the positions they were written at
    fn known(&mut self, m: &Node, n: &Node) {
        if m.kind != n.kind || m.kids.len() != n.kids.len() {
            return; // A different tree is for other properties
        }
        if let (Some(a), Some(b)) = (m.region, n.region) {
            self.cx.count("known positions");
            if a != b {
                self.cx.fail(
                    format!("{} not where written", m.kind),
                    format!("written at {:?} but region is {:?} ({:?})", a, b, self.t.get(a.0..a.0 + a.1)),
                );
            }
        }
        for (a, b) in m.kids.iter().zip(&n.kids) {
            self.known(a, b);
        }
    }

    /// What a region cuts out parses to the same element
    fn again(&mut self, page: &Node) {
        for k in &page.kids {
            let s = match k.region.and_then(|(o, l)| self.t.get(o..o + l)) {
                Some(s) => s,
                None => continue,
            };
            if let Ok(p) = parse(s) {
                self.cx.count("parsed again");
                let want = Node::new("page").k(vec![k.clone()]).canon();
                let got = p.canon();
                if let Some(d) = walk::diff(&want, &got) {
                    self.cx.fail(format!("{} differs on its own", k.kind), format!("{} for {:?}", d, s));
                }
            }
        }
        let t = self.t;
        let mut todo: Vec<(&'static str, String, &str)> = vec![];
        page.walk(&mut |n| {
            if matches!(
                n.kind,
                "link" | "icode" | "imath" | "tags" | "comment" | "mcomment" | "keyword" | "bold" | "italic" | "strike" | "sup" | "sub"
            ) {
                if let Some(s) = n.region.and_then(|(o, l)| t.get(o..o + l)) {
                    todo.push((n.kind, n.canon(), s));
                }
            }
        });
        for (kind, want, s) in todo {
            let got = guard(|| {
                let e: Result<Located<InlineElement>, ParseError> = Language::from_vimwiki_str(s).parse();
                e.map(|e| walk::inline(e.as_inner()).canon()).unwrap_or_else(|_| "rejected".into())
            });
            self.cx.count("parsed again");
            match got {
                Ok(g) => {
                    if let Some(d) = walk::diff(&want, &g) {
                        self.cx.fail(format!("{} differs on its own", kind), format!("{} for {:?}", d, s));
                    }
                }
                Err(e) => self.cx.fail(panic_sig(&e), e),
            }
        }
    }
}

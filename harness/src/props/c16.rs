//! Copies are the same, equality means what it says, and children are complete.
use crate::engine::*;
use crate::props::c15::same;
use crate::props::{c07, c09};
use crate::rng::Rng;
use crate::walk::{self, Node};
use crate::{fuzz, gen};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use serde_json::{json, Value};
use vimwiki::*;

pub static PROP: Prop = Prop {
    id: "C16",
    cases: (10_000, 500_000),
    run,
    rule: "each case takes the page of a generated or hostile text, compares its copies with it, compares it and its elements with those of the same text elsewhere and of a text changed a little, with an independent tree as the judge of sameness, and decomposes every element; non-trivial: distinct tree shapes",
    assumptions: &["terms and definitions are compared by their text", "addresses that differ only in case or in what is percent-encoded may be equal", "neighbouring texts are looked at as one"],
    must_see: &[
        ("owned pages whose text is gone", 8_000), ("pages moved", 5_000), ("pages changed", 5_000), ("equal elements", 50_000), ("different elements", 50_000), ("hashes compared", 50_000), ("elements decomposed", 100_000), ("tables decomposed", 1_000), ("definition lists decomposed", 500), ("list items decomposed", 5_000), ("decorated text decomposed", 3_000),
        ("addresses written differently", 3_000), ("blocks compared", 10_000), ("regions changed", 10_000), ("leaves changed", 5_000), ("pairs of tables", 10_000),
    ],
    level: "exploration",
};

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// What has to be told apart by equality
fn sense(n: &Node) -> String {
    let mut n = n.clone().plain();
    n.walk_mut(&mut |n| {
        if n.kind == "term" || n.kind == "def" {
            n.kids = vec![Node::leaf("text", words(n))];
        }
        for (k, v) in &mut n.attrs {
            if *k == "uri" {
                *v = v.to_lowercase();
            }
        }
    });
    n.canon()
}

/// Schemes and hosts are the same in any case
fn cased(n: &Node) -> Node {
    let mut n = n.clone();
    n.walk_mut(&mut |n| {
        for (k, v) in &mut n.attrs {
            if *k == "uri" {
                *v = v.to_lowercase();
            }
        }
    });
    n
}

fn words(n: &Node) -> String {
    let mut s = String::new();
    // Only what both of two equal values surely show
    n.walk(&mut |n| {
        if ["text", "icode", "imath", "tag", "keyword"].contains(&n.kind) {
            s.push_str(n.text());
        }
    });
    s
}

fn parse_owned(t: &str) -> Option<Page<'static>> {
    let s = t.to_string();
    let p = guard(|| Language::from_vimwiki_str(&s).parse::<Page>().ok().map(|p| p.into_owned())).ok()??;
    // Whatever still refers to the text shows
    let mut b = s.into_bytes();
    b.iter_mut().for_each(|b| *b = b'#');
    std::hint::black_box(&b);
    Some(p)
}

fn sames(cx: &mut Cx, a: &Page, b: &Page, what: &str, c: &VimwikiConfig, hc: &HtmlConfig) {
    if !same(a, b, what, cx) {
        return;
    }
    let f = |p: &Page| guard(|| p.to_vimwiki_string(c.clone()).map_err(|e| e.to_string())).unwrap_or_else(|e| Err(panic_sig(&e)));
    if f(a) != f(b) {
        cx.fail(format!("{}: formatted differently", what), format!("{:?} {:?}", f(a), f(b)));
    }
    let h = |p: &Page| guard(|| p.to_html_string(hc.clone()).map_err(|e| e.to_string())).unwrap_or_else(|e| Err(panic_sig(&e)));
    if h(a) != h(b) {
        cx.fail(format!("{}: converted differently", what), format!("{:?} {:?}", h(a), h(b)));
    }
}

/// Kind, position and tree of each child, from public data
type Kid = (Node, Region);

fn conts<'a>(v: impl IntoIterator<Item = &'a InlineElementContainer<'a>>) -> Vec<Kid> {
    v.into_iter().flat_map(|c| c.iter().map(|e| (walk::inline(e.as_inner()), e.region()))).collect()
}

fn kids_of_block(b: &BlockElement) -> Vec<Kid> {
    match b {
        BlockElement::Header(h) => conts([&h.content]),
        BlockElement::Paragraph(p) => conts(p.lines.iter()),
        BlockElement::List(l) => l.items.iter().map(|i| (walk::item(i.as_inner()), i.region())).collect(),
        BlockElement::DefinitionList(d) => {
            let mut v = vec![];
            for i in &d.items {
                let t = &i.as_inner().term;
                v.push((Node::new("term").k(walk::container(t.as_inner().as_inner())), t.region()));
                for d in i.as_inner().definitions.as_inner().iter() {
                    v.push((Node::new("def").k(walk::container(d.as_inner().as_inner())), d.region()));
                }
            }
            v
        }
        BlockElement::Table(t) => {
            let mut v: Vec<_> = t.as_data().iter().collect();
            v.sort_by_key(|(p, _)| (p.row, p.col));
            v.into_iter()
                .flat_map(|(_, c)| match c.as_inner() {
                    Cell::Content(x) => conts([x]),
                    _ => vec![],
                })
                .collect()
        }
        _ => vec![],
    }
}

fn kids_of(e: &Element) -> Vec<Kid> {
    match e {
        Element::Block(b) => kids_of_block(b),
        Element::InlineBlock(InlineBlockElement::ListItem(i)) => (&i.contents).into_iter().map(|b| (walk::block(b.as_inner()), b.region())).collect(),
        Element::InlineBlock(InlineBlockElement::Term(t)) => conts([t.as_inner()]),
        Element::InlineBlock(InlineBlockElement::Definition(t)) => conts([t.as_inner()]),
        Element::Inline(InlineElement::DecoratedText(d)) => {
            let v = match d {
                DecoratedText::Bold(v) | DecoratedText::Italic(v) | DecoratedText::Strikeout(v) | DecoratedText::Superscript(v) | DecoratedText::Subscript(v) => v,
            };
            v.iter()
                .map(|c| {
                    let n = match c.as_inner() {
                        DecoratedTextContent::Text(t) => walk::inline(&InlineElement::Text(t.clone())),
                        DecoratedTextContent::DecoratedText(d) => walk::decorated(d),
                        DecoratedTextContent::Keyword(k) => walk::inline(&InlineElement::Keyword(*k)),
                        DecoratedTextContent::Link(l) => walk::link(l),
                    };
                    (n, c.region())
                })
                .collect()
        }
        _ => vec![],
    }
}

fn node_of(e: &Element) -> Node {
    match e {
        Element::Block(b) => walk::block(b),
        Element::Inline(i) => walk::inline(i),
        Element::InlineBlock(InlineBlockElement::ListItem(i)) => walk::item(i),
        Element::InlineBlock(InlineBlockElement::Term(t)) => Node::new("term").k(walk::container(t.as_inner())),
        Element::InlineBlock(InlineBlockElement::Definition(t)) => Node::new("def").k(walk::container(t.as_inner())),
    }
}

fn decompose(cx: &mut Cx, e: &Element) {
    let want = kids_of(e);
    let name = node_of(e).kind;
    cx.count("elements decomposed");
    match name {
        "table" => cx.count("tables decomposed"),
        "deflist" => cx.count("definition lists decomposed"),
        "item" => cx.count("list items decomposed"),
        "bold" | "italic" | "strike" | "sup" | "sub" => cx.count("decorated text decomposed"),
        _ => (),
    }
    let got = e.clone().into_children();
    let g: Vec<Kid> = got.iter().map(|c| (node_of(c.as_inner()), c.region())).collect();
    if g != want {
        let i = g.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(g.len().min(want.len()));
        return cx.fail(format!("children of {}", name), format!("{} instead of {}; at {}: {:?} instead of {:?}", g.len(), want.len(), i, g.get(i), want.get(i)));
    }
    if let Some(w) = g.windows(2).find(|w| w[0].1.offset() + w[0].1.len() > w[1].1.offset()) {
        cx.fail(format!("children of {} out of order", name), format!("{:?}", w));
    }
    // The other ways to get there
    match e {
        Element::Block(BlockElement::List(l)) => {
            let mut m = l.clone();
            if l.as_children_slice().len() != l.items.len() || l.as_children_slice().iter().zip(&l.items).any(|(a, b)| !std::ptr::eq(a, b)) {
                cx.fail("slice of a list", String::new());
            }
            let n: Vec<Kid> = m.as_children_mut_slice().iter().map(|i| (walk::item(i.as_inner()), i.region())).collect();
            if n != want {
                cx.fail("mutable slice of a list", String::new());
            }
            if l.clone().into_children().len() != want.len() {
                cx.fail("children of a list by type", String::new());
            }
        }
        Element::InlineBlock(InlineBlockElement::ListItem(i)) => {
            let s: Vec<Region> = i.contents.as_children_slice().iter().map(|x| x.region()).collect();
            let c: Vec<Region> = i.contents.clone().into_children().iter().map(|x| x.region()).collect();
            let w: Vec<Region> = want.iter().map(|x| x.1).collect();
            if s != w || c != w {
                cx.fail("slice of a list item", format!("{:?} {:?} {:?}", s, c, w));
            }
        }
        Element::Inline(InlineElement::DecoratedText(d)) => {
            let mut m = d.clone();
            let w: Vec<Region> = want.iter().map(|x| x.1).collect();
            let s: Vec<Region> = d.as_children_slice().iter().map(|x| x.region()).collect();
            let c: Vec<Region> = m.as_children_mut_slice().iter().map(|x| x.region()).collect();
            if s != w || c != w {
                cx.fail("slice of decorated text", format!("{:?} {:?} {:?}", s, c, w));
            }
        }
        _ => (),
    }
    for c in got {
        decompose(cx, c.as_inner());
    }
}

fn inlines<'a>(e: &Element<'a>, out: &mut Vec<Located<InlineElement<'a>>>) {
    for c in e.clone().into_children() {
        if let Element::Inline(i) = c.as_inner() {
            out.push(Located::new(i.clone(), c.region()));
        }
        inlines(c.as_inner(), out);
    }
}

fn pool<'a>(p: &Page<'a>) -> Vec<Located<InlineElement<'a>>> {
    let mut v = vec![];
    for e in &p.elements {
        inlines(&Element::from(e.as_inner().clone()), &mut v);
    }
    v
}

fn inline_pair(cx: &mut Cx, a: &Located<InlineElement>, b: &Located<InlineElement>) {
    let (x, y) = (a.as_inner(), b.as_inner());
    let eq = x == y;
    let (n, m) = (walk::inline(x), walk::inline(y));
    cx.count(if eq { "equal elements" } else { "different elements" });
    if eq != (y == x) || eq != (a == b) || (eq && sense(&n) != sense(&m)) {
        cx.fail(format!("equality of {}", n.kind), format!("{:?} {:?}", x, y));
    }
    if !eq && n.clone().plain() == m.clone().plain() && format!("{:?}", x) == format!("{:?}", y) {
        cx.fail(format!("inequality of {}", n.kind), format!("{:?} {:?}", x, y));
    }
    if x.strict_eq(y) && (!eq || cased(&n) != cased(&m)) || x.strict_eq(y) != y.strict_eq(x) {
        cx.fail(format!("strict equality of {}", n.kind), format!("{:?} {:?}", x, y));
    }
    if a.strict_eq(b) && (a.region() != b.region() || !x.strict_eq(y)) {
        cx.fail(format!("strict equality of located {}", n.kind), format!("{:?} {:?}", a, b));
    }
    if eq {
        cx.count("hashes compared");
        if hash(x) != hash(y) || hash(a) != hash(b) {
            cx.fail(format!("hash of {}", n.kind), format!("{:?} {:?}", x, y));
        }
        if let (InlineElement::Link(l), InlineElement::Link(k)) = (x, y) {
            if hash(l) != hash(k) || hash(l.data()) != hash(k.data()) || l.data() != k.data() {
                cx.fail("hash of link data", format!("{:?} {:?}", x, y));
            }
        }
    }
}

fn block_pair(cx: &mut Cx, a: &Located<BlockElement>, b: &Located<BlockElement>) {
    let (x, y) = (a.as_inner(), b.as_inner());
    let eq = x == y;
    cx.count("blocks compared");
    let (n, m) = (walk::block(x), walk::block(y));
    if eq != (y == x) || (eq && sense(&n) != sense(&m)) {
        cx.fail(format!("equality of {}", n.kind), format!("{:?} {:?}", x, y));
    }
    if x.strict_eq(y) && (!eq || cased(&n) != cased(&m)) || x.strict_eq(y) != y.strict_eq(x) {
        cx.fail(format!("strict equality of {}", n.kind), format!("{:?} {:?}", x, y));
    }
    if a.strict_eq(b) && a.region() != b.region() {
        cx.fail(format!("strict equality of located {}", n.kind), format!("{:?} {:?}", a, b));
    }
    if !eq {
        return;
    }
    let same = match (x, y) {
        (BlockElement::Header(p), BlockElement::Header(q)) => hash(p) == hash(q) && hash(&p.content) == hash(&q.content),
        (BlockElement::Blockquote(p), BlockElement::Blockquote(q)) => hash(p) == hash(q),
        (BlockElement::MathBlock(p), BlockElement::MathBlock(q)) => hash(p) == hash(q),
        (BlockElement::Placeholder(p), BlockElement::Placeholder(q)) => hash(p) == hash(q),
        (BlockElement::Divider(p), BlockElement::Divider(q)) => hash(p) == hash(q),
        (BlockElement::Paragraph(p), BlockElement::Paragraph(q)) => p.lines.len() == q.lines.len() && p.lines.iter().zip(&q.lines).all(|(p, q)| p == q && hash(p) == hash(q)),
        (BlockElement::DefinitionList(p), BlockElement::DefinitionList(q)) => {
            p.items.len() == q.items.len() && p.items.iter().zip(&q.items).all(|(p, q)| hash(p.as_inner().term.as_inner()) == hash(q.as_inner().term.as_inner()))
        }
        (BlockElement::Table(p), BlockElement::Table(q)) => p.as_data().iter().all(|(k, c)| q.as_data().get(k).map_or(false, |d| c == d && hash(c) == hash(d))),
        _ => return,
    };
    cx.count("hashes compared");
    if !same {
        cx.fail(format!("hash of {}", n.kind), format!("{:?} {:?}", x, y));
    }
}

fn run(r: &mut Rng, cx: &mut Cx) {
    let mut t = match r.below(3) {
        0 => fuzz::any(r),
        1 => c09::text(r),
        _ => gen::any_doc(r).text,
    };
    if r.chance(1, 3) {
        cx.count("addresses written differently");
        let v = [
            "[[HTTP://A.b/x]]", "[[http://a.b/x]]", "[[a%2fb]]", "[[a%2Fb]]", "[[%61b]]", "[[ab]]", "[[AB]]", "[[http://a.b]]", "[[http://a.b/]]", "[[a/./b]]", "[[a/b]]", "{{x.png|d|a=\"1\"|b=\"2\"}}", "{{x.png|d|b=\"2\"|a=\"1\"}}", "{{x.png|d|a=\"2\"|b=\"1\"}}",
            "[[/a]]", "[[a]]", "[[/a/b]]", "[[//b]]", "{{/x.png}}", "{{x.png}}", "file:/x", "file:x", "[[a#B]]", "[[a#b]]", "[[file:x]]", "[[local:x]]", "[[LOCAL:x]]", "[[x|d]]", "[[x|{{d}}]]", "[[wiki1:x]]", "[[wn.x:x]]", "[[é]]", "[[%C3%A9]]", "[[%c3%a9]]", "[[diary:2020-01-01]]", "[[diary:2020-01-02]]", "[[diary:2020-01-01#x]]",
        ];
        t.push_str("\n\n");
        for _ in 0..r.range(2, 6) {
            t.push_str(&format!("{} ", r.pick(&v)));
        }
        t.push('\n');
    }
    cx.input(&t);
    let l = Language::from_vimwiki_str(&t);
    let p: Page = match guard(|| l.parse::<Page>()) {
        Ok(Ok(p)) => p,
        _ => return cx.fail("page not parsed", String::new()),
    };
    let n = walk::page(&p);
    let mut shape = String::new();
    n.walk(&mut |n| shape.push_str(n.kind));
    cx.distinct(&shape);
    let c = c07::config(r);
    let hc = c09::config(r, &n);

    // Copies
    sames(cx, &p, &p.clone(), "clone", &c, &hc);
    sames(cx, &p, &p.to_borrowed(), "borrowed", &c, &hc);
    sames(cx, &p, &p.to_borrowed().into_owned(), "owned from borrowed", &c, &hc);
    match parse_owned(&t) {
        Some(o) => {
            cx.count("owned pages whose text is gone");
            sames(cx, &p, &o, "owned", &c, &hc);
            let again = o.clone();
            drop(o);
            sames(cx, &p, &again, "clone of owned", &c, &hc);
        }
        None => cx.fail("page not parsed", String::new()),
    }
    for e in &p.elements {
        decompose(cx, &Element::from(e.as_inner().clone()));
        let o = Element::from(e.as_inner().clone());
        if !o.to_borrowed().strict_eq(&o) || node_of(&o.to_borrowed()) != node_of(&o) || !o.clone().into_owned().strict_eq(&o) || node_of(&o.clone().into_owned()) != node_of(&o) {
            cx.fail("copy of an element", format!("{:?}", o));
        }
    }

    // The same elsewhere
    let moved = format!("{}{}", "\n".repeat(r.range(1, 3)), t);
    let Some(q) = parse_owned(&moved) else { return cx.fail("page not parsed", String::new()) };
    let mine = pool(&p);
    if walk::page(&q).plain() == n.clone().plain() {
        cx.count("pages moved");
        if p != q || q != p {
            cx.fail("same page elsewhere is another", String::new());
        }
        if !p.elements.is_empty() && (p.strict_eq(&q) || q.strict_eq(&p)) {
            cx.fail("strictly equal in another place", String::new());
        }
        let theirs = pool(&q);
        for (a, b) in mine.iter().zip(&theirs).take(60) {
            inline_pair(cx, a, b);
            if a != b {
                cx.fail("same element elsewhere is another", format!("{:?} {:?}", a, b));
            }
        }
        for (a, b) in p.elements.iter().zip(&q.elements) {
            block_pair(cx, a, b);
        }
    }
    // Something similar
    let other = fuzz::mutate(r, &t, "");
    if let Some(q) = parse_owned(&other) {
        cx.count("pages changed");
        let m = walk::page(&q);
        if p == q && sense(&m) != sense(&n) {
            cx.fail("different pages are equal", walk::diff(&sense(&n), &sense(&m)).unwrap_or_default());
        }
        if p.strict_eq(&q) && (cased(&m) != cased(&n) || p != q) {
            cx.fail("different pages are strictly equal", other.clone());
        }
        for (a, b) in p.elements.iter().zip(&q.elements) {
            block_pair(cx, a, b);
        }
        for (a, b) in mine.iter().zip(&pool(&q)).take(40) {
            inline_pair(cx, a, b);
        }
    }
    perturbed(r, cx, &p, &n);
    tables(r, cx);
    for _ in 0..30 {
        if mine.len() > 1 {
            inline_pair(cx, r.pick(&mine), r.pick(&mine));
        }
    }
    let k = mine.len().saturating_sub(12);
    for i in k..mine.len() {
        for j in i + 1..mine.len() {
            inline_pair(cx, &mine[i], &mine[j]);
        }
    }
}

/// Pointers to the leaves of a value: regions, and other strings, numbers and switches
fn leaves(v: &Value, at: &str, region: bool, out: &mut Vec<(String, bool)>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                // Other ways to say the same are no change of an address; counts follow from cells
                if matches!(k.as_str(), "uri_ref" | "type" | "row" | "col" | "row_cnt" | "col_cnt") {
                    continue;
                }
                leaves(x, &format!("{}/{}", at, k.replace('~', "~0").replace('/', "~1")), region || k == "region", out);
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                leaves(x, &format!("{}/{}", at, i), region, out);
            }
        }
        Value::Null => (),
        _ => out.push((at.to_string(), region)),
    }
}

/// One leaf of the page changed, wherever it is
fn perturbed(r: &mut Rng, cx: &mut Cx, p: &Page, n: &Node) {
    let Ok(Value::Object(mut page)) = serde_json::to_value(p) else { return };
    let Some(Value::Array(elements)) = page.remove("elements") else { return };
    // The smaller the page, the more of it can be visited
    let mut small: Vec<usize> = (0..elements.len()).collect();
    if small.len() > 4 {
        let from = r.below(small.len() - 3);
        small = (from..from + 4).collect();
    }
    let p = Page::new(small.iter().map(|i| p.elements[*i].clone()).collect());
    let n = if small.len() == elements.len() { n.clone() } else { walk::page(&p) };
    let v = json!({ "elements": small.iter().map(|i| elements[*i].clone()).collect::<Vec<_>>() });
    let mut all = vec![];
    leaves(&v, "", false, &mut all);
    for _ in 0..6.min(all.len()) {
        let (at, region) = r.pick(&all).clone();
        let mut w = v.clone();
        let x = w.pointer_mut(&at).unwrap();
        *x = match &*x {
            Value::String(s) => json!(if r.bool() || s.is_empty() { format!("{}x", s) } else { s.chars().skip(1).collect() }),
            Value::Number(k) => json!(k.as_u64().unwrap_or(0) + 1),
            Value::Bool(b) => json!(!b),
            x => x.clone(),
        };
        let Ok(q) = serde_json::from_value::<Page>(w) else { continue };
        cx.count(if region { "regions changed" } else { "leaves changed" });
        let m = walk::page(&q);
        let kind = at.split('/').filter(|x| x.parse::<usize>().is_err()).collect::<Vec<_>>().join("/");
        if p.strict_eq(&q) || q.strict_eq(&p) {
            cx.fail(format!("strictly equal with another {}", kind), at.clone());
        }
        if region && (p != q || q != p) {
            cx.fail(format!("different for another {}", kind), at.clone());
        }
        if sense(&m) != sense(&n) && (p == q || q == p) {
            cx.fail(format!("equal with another {}", kind), at.clone());
        }
    }
}

/// Tables made of few cells
fn tables(r: &mut Rng, cx: &mut Cx) {
    let mut make = |c: bool| {
        let cells: std::collections::BTreeMap<(usize, usize), u8> =
            (0..r.range(1, 4)).map(|_| ((r.below(3), r.below(3)), r.below(5) as u8)).collect();
        let t = Table::new(
            cells.iter().map(|((row, col), x)| {
                let cell = match x {
                    0 | 1 => Cell::Content(InlineElementContainer::new(vec![Located::from(InlineElement::Text(Text::from(["a", "b"][*x as usize])))])),
                    2 => Cell::Span(CellSpan::FromLeft),
                    3 => Cell::Span(CellSpan::FromAbove),
                    _ => Cell::Align(ColumnAlign::Left),
                };
                (CellPos { row: *row, col: *col }, Located::from(cell))
            }),
            c,
        );
        (cells, c, t)
    };
    for c in [false, true, true] {
        let (x, y) = (make(true), make(c));
        cx.count("pairs of tables");
        let same = (&x.0, x.1) == (&y.0, y.1);
        for (x, y) in [(&x.2, &y.2), (&y.2, &x.2)] {
            if (x == y) != same || x.strict_eq(y) != same {
                cx.fail("equality of tables", format!("{:?} {:?}", x, y));
            }
        }
    }
}

//! The bindings for JavaScript: what is seen through them is the page that the
//! library parses, and what is built through them is what the arguments say.
use js_sys::{Array, Date, Object};
use std::collections::HashMap;
use vimwiki::{self as v, IntoChildren, ToHtmlString, vendor::chrono::Datelike};
use vimwiki_wasm as w;
use vwmon::engine::*;
use vwmon::rng::Rng;
use vwmon::walk::{self, merge_text, pct, props, Node};
use vwmon::{fuzz, gen};
use vwmon::props::{c05, c07, c09};
use wasm_bindgen::JsValue;

pub static PROP: Prop = Prop {
    id: "C26",
    cases: (12_000, 600_000),
    run,
    rule: "each case parses a generated or hostile page through the bindings, run against a stand-in for JavaScript's values, rebuilds its tree from accessors only and compares it with the library's page; every conversion (kind, HTML under a configuration object, JS, children, descendants) is compared as well, and elements are built by constructors; non-trivial: distinct tree shapes",
    assumptions: &[
        "the stand-in for the engine behaves as JavaScript does, in the time zone UTC",
        "dates are of the years 100 to 9999",
        "descriptions given to constructors have spaces (text) or are addresses with a scheme (images)",
    ],
    must_see: &[
        ("elements", 100_000),
        ("conversions to another kind", 100_000),
        ("HTML compared", 50_000),
        ("HTML under a configuration object", 5_000),
        ("configurations rejected", 500),
        ("children compared", 20_000),
        ("descendants compared", 5_000),
        ("dates", 500),
        ("constructed", 20_000),
        ("metadata or properties", 500),
    ],
    level: "exploration",
};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::process::exit(run_main(&a, |id| (id == PROP.id).then_some(&PROP)));
}

/// What is compared for every element besides its own accessors
struct Look<'a> {
    cx: &'a mut Cx,
    config: v::HtmlConfig,
    js: JsValue,
}

type Pairs = Vec<(String, String)>;

fn entries(o: Option<Object>) -> Option<Pairs> {
    let o = o?;
    let mut out = vec![];
    for e in Object::entries(&o).iter() {
        let e: Array = Array::try_from(e).ok()?;
        out.push((e.get(0).as_string()?, e.get(1).as_string()?));
    }
    Some(out)
}

/// Elements of an array of JavaScript
fn elements(a: Array) -> Vec<w::Element> {
    use wasm_bindgen::convert::FromWasmAbi;
    a.iter()
        .map(|x| match x {
            JsValue::Export("Element", p) => unsafe { w::Element::from_abi(p) },
            x => panic!("not an element: {:?}", x),
        })
        .collect()
}

fn err<T>(x: Result<T, JsValue>) -> Result<T, String> {
    x.map_err(|e| e.as_string().unwrap_or_else(|| format!("{:?}", e)))
}

fn reg(r: v::Region) -> (usize, usize, u16) {
    (r.offset(), r.len(), r.depth())
}
fn wreg(r: w::Region) -> (usize, usize, u16) {
    (r.offset(), r.len(), r.depth())
}

/// Compares conversions of `$w` with those of the library's `$l`, at a region if there is one
macro_rules! common {
    ($k:expr, $name:expr, $w:expr, $l:expr) => {{
        let lv = $l;
        common!(@ $k, $name, $w, lv, lv.json())
    }};
    ($k:expr, $name:expr, $w:expr, $l:expr, $r:expr) => {{
        let lv = v::Located::new(($l).clone(), $r);
        // What has no fields of its own cannot have a region beside them
        let json = serde_json::to_value(&lv).map(canon).unwrap_or_else(|_| lv.as_inner().json());
        common!(@ $k, $name, $w, lv, json)
    }};
    (@ $k:expr, $name:expr, $w:expr, $l:expr, $json:expr) => {{
        let (wv, lv) = (&$w, &$l);
        match guard(std::panic::AssertUnwindSafe(|| wv.to_js().__json().map(canon).unwrap_or_default())) {
            Ok(j) => $k.same(concat!("JS of ", $name), &$json, &j),
            Err(e) => $k.cx.fail(concat!("JS of ", $name, ": panic"), e),
        }
        $k.same(concat!("debug text of ", $name), &unordered(&format!("{:?}", lv)), &unordered(&wv.to_debug_str()));
        let html = |c: v::HtmlConfig| lv.to_html_string(c).map_err(|e| e.to_string());
        $k.cx.count("HTML compared");
        let got = err(wv.to_html_str(&JsValue::UNDEFINED));
        $k.same(concat!("HTML of ", $name), &format!("{:?}", html(Default::default())), &format!("{:?}", got));
        if $k.cx.counters.values().sum::<u64>() % 5 == 0 {
            let got = err(wv.to_html_str(&$k.js));
            $k.cx.count("HTML under a configuration object");
            $k.same(concat!("HTML under a configuration of ", $name), &format!("{:?}", html($k.config.clone())), &format!("{:?}", got));
        }
    }};
}
macro_rules! region {
    ($k:expr, $name:expr, $w:expr, $l:expr) => {
        $k.same(concat!("region of ", $name), &format!("{:?}", reg($l)), &format!("{:?}", wreg($w.region())))
    };
}
macro_rules! children {
    ($k:expr, $name:expr, $w:expr, $l:expr) => {{
        let expected: Vec<v::Located<v::Element>> =
            $l.into_children().into_iter().map(|x| x.map(v::Element::from)).collect();
        let show = |x: &v::Located<v::Element>| unordered(&format!("{:?} {:?}", reg(x.region()), x));
        let got = elements($w.children());
        $k.cx.count("children compared");
        $k.same(
            concat!("children of ", $name),
            &expected.iter().map(show).collect::<Vec<_>>().join("\n"),
            &got.iter().map(|x| unordered(&format!("{:?} {}", wreg(x.region()), x.to_debug_str()))).collect::<Vec<_>>().join("\n"),
        );
        // In the order of their distance from the root
        let mut all = vec![];
        let mut level = expected;
        if level.len() < 60 {
            let mut queue: std::collections::VecDeque<_> = level.drain(..).collect();
            while let Some(x) = queue.pop_front() {
                queue.extend(x.as_inner().clone().into_children());
                all.push(show(&x));
            }
            let got = elements($w.descendants());
            $k.cx.count("descendants compared");
            $k.same(
                concat!("descendants of ", $name),
                &all.join("\n"),
                &got.iter().map(|x| unordered(&format!("{:?} {}", wreg(x.region()), x.to_debug_str()))).collect::<Vec<_>>().join("\n"),
            );
        }
    }};
}

/// Debug text without the order of its pieces, as maps have none
fn unordered(s: &str) -> String {
    let mut v: Vec<&str> = s.split([' ', ',', '{', '}', '(', ')']).collect();
    v.sort_unstable();
    v.join(" ")
}

fn canon(v: serde_json::Value) -> String {
    use serde_json::Value::*;
    match v {
        Array(a) => format!("[{}]", a.into_iter().map(canon).collect::<Vec<_>>().join(",")),
        Object(o) => {
            let one = |(k, v)| match (k, v) {
                // A map whose keys are no text
                (k, Array(a)) if k == "cells" => {
                    let mut a: Vec<std::string::String> = a.into_iter().map(canon).collect();
                    a.sort();
                    format!("cells:[{}]", a.join(","))
                }
                (k, v) => format!("{:?}:{}", k, canon(v)),
            };
            let mut e: Vec<std::string::String> = o.into_iter().map(one).collect();
            e.sort();
            format!("{{{}}}", e.join(","))
        }
        x => x.to_string(),
    }
}

trait Json {
    fn json(&self) -> String;
}
impl<T: serde::Serialize> Json for T {
    fn json(&self) -> String {
        canon(serde_json::to_value(self).expect("page as JSON"))
    }
}

impl Look<'_> {
    fn same(&mut self, what: &str, expected: &str, got: &str) {
        if expected != got {
            let at = expected.bytes().zip(got.bytes()).take_while(|x| x.0 == x.1).count();
            let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(40).min(s.len())..(at + 160).min(s.len())]).into_owned();
            self.cx.fail(what.to_string(), format!("expected {:?} but got {:?}", cut(expected), cut(got)));
        }
    }
    fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, expected: T, got: T) {
        if expected != got {
            self.cx.fail(what.to_string(), format!("expected {:?} but got {:?}", expected, got));
        }
    }

    fn page(&mut self, p: &w::Page, l: &v::Page) -> Node {
        common!(self, "pages", p, l);
        children!(self, "pages", p, l.clone());
        self.eq("elements past the end", true, p.element_at(p.element_cnt()).is_none() && p.element_at(usize::MAX).is_none());
        self.eq("number of elements", l.elements.len(), p.element_cnt());
        let n = p.element_cnt().min(l.elements.len());
        Node::new("page").k((0..n).map(|i| self.block(&|| p.element_at(i).expect("element"), &l.elements[i])).collect())
    }

    fn container(&mut self, c: &w::InlineElementContainer, l: &v::InlineElementContainer) -> Vec<Node> {
        common!(self, "containers", c, l);
        children!(self, "containers", c, l.clone());
        self.same("text of a container", &l.to_string(), &c.to_str());
        self.eq("elements past the end of a line", true, c.element_at(c.element_cnt()).is_none());
        self.eq("number of elements of a line", l.len(), c.element_cnt());
        let n = c.element_cnt().min(l.len());
        merge_text((0..n).map(|i| self.inline(&|| c.element_at(i).expect("element"), &l[i])).collect())
    }

    fn block(&mut self, get: &dyn Fn() -> w::BlockElement, l: &v::Located<v::BlockElement>) -> Node {
        self.cx.count("elements");
        let e = get();
        common!(self, "block elements", e, l.as_inner(), l.region());
        region!(self, "block elements", e, l.region());
        if self.cx.case % 4 == 0 {
            children!(self, "block elements", e, l.as_inner().clone());
        }
        let is = [
            ("quote", e.is_blockquote(), get().into_blockquote().is_some()),
            ("code", e.is_code_block(), get().into_code_block().is_some()),
            ("math", e.is_math(), get().into_math_block().is_some()),
            ("deflist", e.is_definition_list(), get().into_definition_list().is_some()),
            ("divider", e.is_divider(), get().into_divider().is_some()),
            ("header", e.is_header(), get().into_header().is_some()),
            ("list", e.is_list(), get().into_list().is_some()),
            ("para", e.is_paragraph(), get().into_paragraph().is_some()),
            ("placeholder", e.is_placeholder(), get().into_placeholder().is_some()),
            ("table", e.is_table(), get().into_table().is_some()),
        ];
        let kind = self.kind(&is);
        let r = l.region();
        let n = match (kind, l.as_inner()) {
            ("quote", v::BlockElement::Blockquote(b)) => {
                let x = get().into_blockquote().unwrap();
                common!(self, "blockquotes", x, b, r);
                region!(self, "blockquotes", x, r);
                self.eq("lines past the end", None, x.line_at(x.line_cnt()));
                Node::new("quote").k((0..x.line_cnt()).map(|i| Node::leaf("qline", x.line_at(i).unwrap_or_default())).collect())
            }
            ("code", v::BlockElement::CodeBlock(b)) => {
                let x = get().into_code_block().unwrap();
                common!(self, "code blocks", x, b, r);
                region!(self, "code blocks", x, r);
                self.eq("lines past the end", None, x.line_at(x.line_cnt()));
                let mut n = Node::new("code");
                if let Some(l) = x.language() {
                    n = n.a("lang", l);
                }
                let m = entries(x.metadata());
                self.eq("metadata is an object", true, m.is_some());
                let m = m.unwrap_or_default();
                if !m.is_empty() {
                    self.cx.count("metadata or properties");
                }
                n.a("meta", props(m)).k((0..x.line_cnt()).map(|i| Node::leaf("cline", x.line_at(i).unwrap_or_default())).collect())
            }
            ("math", v::BlockElement::MathBlock(b)) => {
                let x = get().into_math_block().unwrap();
                common!(self, "math blocks", x, b, r);
                region!(self, "math blocks", x, r);
                self.eq("lines past the end", None, x.line_at(x.line_cnt()));
                let mut n = Node::new("math");
                if let Some(e) = x.environment() {
                    n = n.a("env", e);
                }
                n.k((0..x.line_cnt()).map(|i| Node::leaf("mline", x.line_at(i).unwrap_or_default())).collect())
            }
            ("deflist", v::BlockElement::DefinitionList(b)) => self.deflist(&get().into_definition_list().unwrap(), b, r),
            ("divider", v::BlockElement::Divider(b)) => {
                let x = get().into_divider().unwrap();
                common!(self, "dividers", x, b, r);
                region!(self, "dividers", x, r);
                Node::new("divider")
            }
            ("header", v::BlockElement::Header(b)) => {
                let x = get().into_header().unwrap();
                common!(self, "headers", x, b, r);
                region!(self, "headers", x, r);
                children!(self, "headers", x, b.clone());
                self.same("text of a header", &b.content.to_string(), &x.to_str());
                Node::new("header")
                    .a("level", x.level().to_string())
                    .a("centered", x.centered().to_string())
                    .k(self.container(&x.content(), &b.content))
            }
            ("list", v::BlockElement::List(b)) => {
                let x = get().into_list().unwrap();
                common!(self, "lists", x, b, r);
                region!(self, "lists", x, r);
                children!(self, "lists", x, b.clone());
                self.eq("number of items", b.items.len(), x.item_cnt());
                self.eq("items past the end", true, x.item_at(x.item_cnt()).is_none());
                let n = x.item_cnt().min(b.items.len());
                Node::new("list").k((0..n).map(|i| self.item(&x.item_at(i).expect("item"), &b.items[i])).collect())
            }
            ("para", v::BlockElement::Paragraph(b)) => {
                let x = get().into_paragraph().unwrap();
                common!(self, "paragraphs", x, b, r);
                region!(self, "paragraphs", x, r);
                children!(self, "paragraphs", x, b.clone());
                let t: Vec<String> = b.lines.iter().map(|l| l.to_string()).collect();
                self.same("text of a paragraph", &t.join("\n"), &x.to_str());
                self.eq("number of lines", b.lines.len(), x.line_cnt());
                self.eq("lines past the end of a paragraph", true, x.line_at(x.line_cnt()).is_none());
                let n = x.line_cnt().min(b.lines.len());
                Node::new("para").k((0..n)
                    .map(|i| Node::new("line").k(self.container(&x.line_at(i).expect("line"), &b.lines[i])))
                    .collect())
            }
            ("placeholder", v::BlockElement::Placeholder(b)) => {
                let x = get().into_placeholder().unwrap();
                common!(self, "placeholders", x, b, r);
                region!(self, "placeholders", x, r);
                let mut n = Node::new("placeholder");
                if let Some(t) = x.title() {
                    n = n.a("name", "title").a("value", t);
                }
                if x.is_no_html() {
                    n = n.a("name", "nohtml");
                }
                if let Some(t) = x.template() {
                    n = n.a("name", "template").a("value", t);
                }
                let far = matches!(b, v::Placeholder::Date(d) if d.year() < 100 || d.year() > 9999);
                if far {
                    return walk::block(l.as_inner()).at(r);
                }
                if let Some(d) = x.date() {
                    self.cx.count("dates");
                    let t = format!("{:04}-{:02}-{:02}", d.get_full_year(), d.get_month() + 1, d.get_date());
                    n = n.a("name", "date").a("value", t);
                }
                match (x.other_name(), x.other_value()) {
                    (Some(k), Some(val)) => n = n.a("name", "other").a("key", k).a("value", val),
                    (None, None) => (),
                    (k, val) => self.cx.fail("other placeholder", format!("{:?} {:?}", k, val)),
                }
                n
            }
            ("table", v::BlockElement::Table(b)) => self.table(&get().into_table().unwrap(), b, r),
            _ => Node::new("unknown"),
        };
        n.at(r)
    }

    /// Exactly one kind, and conversions to others give nothing
    fn kind(&mut self, is: &[(&'static str, bool, bool)]) -> &'static str {
        self.cx.add("conversions to another kind", is.len() as u64 - 1);
        let mut kinds = is.iter().filter(|x| x.1);
        let k = kinds.next().map(|x| x.0).unwrap_or("none");
        if kinds.next().is_some() || is.iter().any(|x| x.1 != x.2) {
            self.cx.fail("kinds of an element", format!("{:?}", is.iter().filter(|x| x.1 || x.2).collect::<Vec<_>>()));
        }
        k
    }

    fn deflist(&mut self, x: &w::DefinitionList, b: &v::DefinitionList, r: v::Region) -> Node {
        common!(self, "definition lists", x, b, r);
        region!(self, "definition lists", x, r);
        children!(self, "definition lists", x, b.clone());
        let terms: Vec<Option<String>> = x.terms().iter().map(|t| t.as_string()).collect();
        let expected: Vec<Option<String>> = b.items.iter().map(|i| Some(i.term.to_string())).collect();
        self.eq("terms", expected.clone(), terms);
        self.eq("number of terms", b.items.len(), x.term_cnt());
        self.eq("number of definitions", b.items.iter().map(|i| i.definitions.len()).sum::<usize>(), x.def_cnt());
        self.eq("definition of an unknown term", true, x.get_def("no such term\u{1}").is_none());
        for t in expected.iter().flatten() {
            let first = b.items.iter().find(|i| i.term.to_string() == *t).unwrap();
            match x.get_def(t) {
                None => self.cx.fail("definition missing", format!("{:?}", t)),
                Some(d) => {
                    let all: Vec<_> = first.definitions.iter().flat_map(|d| d.as_inner().as_inner().iter().cloned()).collect();
                    let all = v::InlineElementContainer::new(all);
                    let n = self.container(&d, &all);
                    self.same("definitions of a term", &shown(Node::new("d").k(walk::container(&all))).canon(), &Node::new("d").k(n).canon());
                }
            }
        }
        // Its tree by way of the children
        let mut entries: Vec<Node> = vec![];
        for e in elements(x.children()) {
            self.cx.count("elements");
            self.eq("kind of a child of a definition list", (false, true, false), (e.is_block(), e.is_inline_block(), e.is_inline()));
            let i = match e.into_inline_block() {
                Some(i) => i,
                None => continue,
            };
            let (t, d, li) = (i.is_term(), i.is_definition(), i.is_list_item());
            self.eq("kind of an inline block", true, (t ^ d) && !li);
            let c = if t { i.into_term() } else { i.into_definition() };
            let n = match c {
                Some(c) => {
                    let mut kids = vec![];
                    for j in 0..c.element_cnt() {
                        kids.push(self.inline_only(&|| c.element_at(j).expect("element")));
                    }
                    merge_text(kids)
                }
                None => {
                    self.cx.fail("inline block not converted", "");
                    vec![]
                }
            };
            if t {
                entries.push(Node::new("entry").k(vec![Node::new("term").k(n), Node::new("defs")]));
            } else if let Some(last) = entries.last_mut() {
                last.kids[1].kids.push(Node::new("def").k(n));
            }
        }
        Node::new("deflist").k(entries)
    }

    fn item(&mut self, x: &w::ListItem, l: &v::Located<v::ListItem>) -> Node {
        self.cx.count("elements");
        let b = l.as_inner();
        common!(self, "items", x, b, l.region());
        region!(self, "items", x, l.region());
        children!(self, "items", x, b.clone());
        self.same("prefix of an item", &b.ty.to_prefix(b.pos, b.suffix), &x.prefix());
        self.eq("kind of an item", (matches!(b.ty, v::ListItemType::Ordered(_)), matches!(b.ty, v::ListItemType::Unordered(_))), (x.is_ordered(), x.is_unordered()));
        let (s, s2) = (x.suffix().__js(), x.suffix().to_vimwiki());
        self.eq("suffix back", Some(b.suffix), s2);
        let mut n = Node::new("item")
            .a("type", walk::item_type(&b.ty))
            .a("suffix", match s {
                "period" => ".",
                "paren" => ")",
                "none" => "",
                _ => "?",
            })
            .a("pos", x.pos().to_string());
        let a = x.attributes();
        let is = [
            (" ", "incomplete", a.is_todo_incomplete()),
            (".", "partially_complete_1", a.is_todo_partially_complete_1()),
            ("o", "partially_complete_2", a.is_todo_partially_complete_2()),
            ("O", "partially_complete_3", a.is_todo_partially_complete_3()),
            ("X", "complete", a.is_todo_complete()),
            ("-", "rejected", a.is_todo_rejected()),
        ];
        let by_status = a.todo_status().map(|t| t.__js());
        self.eq("to-do status back", b.attributes.todo_status, a.todo_status().and_then(|t| t.to_vimwiki()));
        let by_flags: Vec<_> = is.iter().filter(|x| x.2).collect();
        self.eq("to-do states", by_status.into_iter().collect::<Vec<_>>(), by_flags.iter().map(|x| x.1).collect());
        if let Some(t) = by_flags.first() {
            n = n.a("todo", t.0);
        }
        let c = x.contents();
        self.eq("number of contents", b.contents.len(), c.content_cnt());
        self.eq("contents past the end", true, c.content_at(c.content_cnt()).is_none());
        let k = c.content_cnt().min(b.contents.len());
        n.k((0..k).map(|i| self.block(&|| c.content_at(i).expect("content"), &b.contents[i])).collect()).at(l.region())
    }

    fn table(&mut self, x: &w::Table, b: &v::Table, r: v::Region) -> Node {
        common!(self, "tables", x, b, r);
        region!(self, "tables", x, r);
        children!(self, "tables", x, b.clone());
        let (rows, cols) = b.as_data().keys().fold((0, 0), |m, p| (m.0.max(p.row + 1), m.1.max(p.col + 1)));
        self.eq("size of a table", (rows, cols), (x.row_cnt(), x.col_cnt()));
        self.eq("cells past the end", true, x.cell_at(x.row_cnt(), 0).is_none() && x.cell_at(0, x.col_cnt()).is_none());
        let mut out = vec![];
        for row in 0..x.row_cnt().min(1000) {
            let mut kids = vec![];
            for col in 0..x.col_cnt().min(1000) {
                let here = b.as_data().get(&v::CellPos { row, col });
                let (c, l) = match (x.cell_at(row, col), here) {
                    (None, None) => continue,
                    (Some(c), Some(l)) => (c, l),
                    (c, _) => {
                        self.cx.fail("cell missing or too many", format!("{} {} {}", row, col, c.is_some()));
                        continue;
                    }
                };
                self.cx.count("elements");
                let has = c.content().is_some();
                self.eq("kinds of a cell", 1, has as u8 + c.is_span() as u8 + c.is_align() as u8);
                self.eq("kinds of a span", c.is_span() as u8, c.is_span_from_left() as u8 + c.is_span_from_above() as u8);
                let mut n = if let Some(i) = c.content() {
                    match l.as_inner() {
                        v::Cell::Content(li) => {
                            self.eq("text of a cell", Some(li.to_string()), c.to_str());
                            Node::new("cell").k(self.container(&i, li))
                        }
                        _ => Node::new("cell"),
                    }
                } else if c.is_span() {
                    Node::new("span").a("from", if c.is_span_from_left() { "left" } else { "above" })
                } else {
                    let a = (c.is_align_left(), c.is_align_centered(), c.is_align_right());
                    Node::new("align").a(
                        "to",
                        match a {
                            (true, false, false) => "left",
                            (false, true, false) => "center",
                            (false, false, true) => "right",
                            (false, false, false) => "none",
                            _ => "several",
                        },
                    )
                };
                n = n.at(l.region());
                n.attrs.insert(0, ("col", col.to_string()));
                kids.push(n);
            }
            if !kids.is_empty() {
                out.push(Node::new("row").a("row", row.to_string()).k(kids));
            }
        }
        Node::new("table").a("centered", x.centered().to_string()).k(out)
    }

    fn inline(&mut self, get: &dyn Fn() -> w::InlineElement, l: &v::Located<v::InlineElement>) -> Node {
        let e = get();
        common!(self, "inline elements", e, l.as_inner(), l.region());
        region!(self, "inline elements", e, l.region());
        children!(self, "inline elements", e, l.as_inner().clone());
        let r = l.region();
        match l.as_inner() {
            v::InlineElement::Text(b) => {
                if let Some(x) = get().into_text() {
                    common!(self, "texts", x, b, r);
                    region!(self, "texts", x, r);
                }
            }
            v::InlineElement::DecoratedText(b) => {
                if let Some(x) = get().into_decorated_text() {
                    common!(self, "decorated texts", x, b, r);
                    region!(self, "decorated texts", x, r);
                    children!(self, "decorated texts", x, b.clone());
                    self.same("decorated text", &b.to_string(), &x.to_str());
                    let c = x.contents();
                    let b: Vec<_> = b.into_iter().collect();
                    self.eq("number of contents of text", (b.len(), b.is_empty()), (c.len(), c.is_empty()));
                    self.eq("contents of text past the end", true, c.get(c.len()).is_none());
                    for i in 0..b.len().min(c.len()) {
                        if let Some(y) = c.get(i) {
                            common!(self, "contents of text", y, b[i].as_inner(), b[i].region());
                            region!(self, "contents of text", y, b[i].region());
                            self.same("content of text", &b[i].to_string(), &y.to_str());
                        }
                    }
                }
            }
            v::InlineElement::Link(b) => {
                if let Some(x) = get().into_link() {
                    common!(self, "links", x, b, r);
                    region!(self, "links", x, r);
                    self.eq("address of a link", b.data().uri_ref.to_string(), x.uri());
                    self.eq("scheme of a link", b.data().uri_ref.scheme().map(|s| s.to_string()), x.scheme());
                }
            }
            v::InlineElement::Tags(b) => {
                if let Some(x) = get().into_tags() {
                    common!(self, "tags", x, b, r);
                    region!(self, "tags", x, r);
                    self.same("text of tags", &b.to_string(), &x.to_str());
                    self.eq("tags past the end", true, x.tag_at(x.tag_cnt()).is_none());
                }
            }
            v::InlineElement::Code(b) => {
                if let Some(x) = get().into_inline_code() {
                    common!(self, "inline code", x, b, r);
                    region!(self, "inline code", x, r);
                }
            }
            v::InlineElement::Math(b) => {
                if let Some(x) = get().into_inline_math() {
                    common!(self, "inline math", x, b, r);
                    region!(self, "inline math", x, r);
                }
            }
            v::InlineElement::Comment(b) => {
                if let Some(x) = get().into_comment() {
                    common!(self, "comments", x, b, r);
                    region!(self, "comments", x, r);
                    self.same("text of a comment", &b.to_string(), &x.to_str());
                    self.eq("lines past the end of a comment", None, x.line_at(x.line_cnt()));
                }
            }
            v::InlineElement::Keyword(b) => {
                self.eq("keyword back", Some(*b), get().into_keyword().and_then(|k| k.to_vimwiki()));
            }
        }
        self.inline_only(get).at(r)
    }

    /// The tree of an element by its accessors alone
    fn inline_only(&mut self, get: &dyn Fn() -> w::InlineElement) -> Node {
        self.cx.count("elements");
        let e = get();
        let is = [
            ("text", e.is_text(), get().into_text().is_some()),
            ("decorated", e.is_decorated_text(), get().into_decorated_text().is_some()),
            ("keyword", e.is_keyword(), get().into_keyword().is_some()),
            ("link", e.is_link(), get().into_link().is_some()),
            ("tags", e.is_tags(), get().into_tags().is_some()),
            ("icode", e.is_inline_code(), get().into_inline_code().is_some()),
            ("imath", e.is_inline_math(), get().into_inline_math().is_some()),
            ("comment", e.is_comment(), get().into_comment().is_some()),
        ];
        let kind = self.kind(&is);
        let (o, n, _) = wreg(e.region());
        let mut node = match kind {
            "text" => Node::leaf("text", get().into_text().unwrap().to_str()),
            "keyword" => Node::leaf("keyword", get().into_keyword().unwrap().__js()),
            "icode" => Node::leaf("icode", get().into_inline_code().unwrap().to_str()),
            "imath" => Node::leaf("imath", get().into_inline_math().unwrap().to_str()),
            "tags" => {
                let t = get().into_tags().unwrap();
                Node::new("tags").k((0..t.tag_cnt()).map(|i| Node::leaf("tag", t.tag_at(i).expect("tag").to_str())).collect())
            }
            "comment" => {
                let c = get().into_comment().unwrap();
                let lines: Vec<String> = (0..c.line_cnt()).map(|i| c.line_at(i).unwrap_or_else(|| "?".into())).collect();
                Node::new("acomment").k(lines.into_iter().map(|l| Node::leaf("aline", l)).collect())
            }
            "decorated" => {
                let d = get().into_decorated_text().unwrap();
                let is = [
                    ("bold", d.is_bold()),
                    ("italic", d.is_italic()),
                    ("strike", d.is_strikeout()),
                    ("sup", d.is_superscript()),
                    ("sub", d.is_subscript()),
                ];
                self.eq("kinds of decorated text", 1, is.iter().filter(|x| x.1).count());
                let k = is.iter().find(|x| x.1).map(|x| x.0).unwrap_or("none");
                let mut kids = vec![];
                let n = elements(d.children()).len();
                for i in 0..n {
                    let one = || {
                        elements(d.children()).into_iter().nth(i).and_then(|e| e.into_inline()).expect("inline element")
                    };
                    kids.push(self.inline_only(&one));
                }
                Node::new(k).k(merge_text(kids))
            }
            "link" => {
                let l = get().into_link().unwrap();
                let mut n = Node::new("link");
                if let Some(i) = l.wiki_index() {
                    n = n.a("index", i.to_string());
                }
                if let Some(i) = l.wiki_name() {
                    n = n.a("name", i);
                }
                if let Some(i) = l.date() {
                    n = n.a("date", i);
                }
                n = n.a("uri", pct(&l.uri()));
                if let Some(d) = l.description() {
                    n = n.a("desc", pct(&d));
                }
                let p = entries(l.properties());
                if let Some(p) = p {
                    self.cx.count("metadata or properties");
                    for (k, val) in &p {
                        self.eq("property by name", Some(val.clone()), l.get_property(k));
                    }
                    n = n.a("props", props(p));
                }
                self.eq("unknown property", None, l.get_property("no such property"));
                n
            }
            _ => Node::new("unknown"),
        };
        node.region = Some((o, n));
        node
    }
}

/// The library's tree as far as the bindings show it
fn shown(mut n: Node) -> Node {
    n.walk_mut(&mut |n| {
        if n.kind == "link" {
            n.attrs.retain(|a| a.0 != "type");
            for k in n.kids.drain(..).collect::<Vec<_>>() {
                if k.kind == "embed" {
                    // Shown by its own description or its address
                    let d = flat(&k);
                    let at = n.attrs.iter().position(|a| a.0 == "uri").map(|i| i + 1).unwrap_or(0);
                    n.attrs.insert(at, ("desc", d));
                }
            }
            for a in &mut n.attrs {
                if a.0 == "desc" {
                    a.1 = pct(&a.1);
                }
            }
        }
        if n.kind == "comment" {
            // Shown trimmed
            let t = n.text().trim().to_string();
            *n = Node { kind: "acomment", attrs: vec![], region: n.region, kids: vec![Node::leaf("aline", t)] };
        }
        if n.kind == "mcomment" {
            n.kind = "acomment";
            for k in &mut n.kids {
                k.kind = "aline";
            }
        }
    });
    n
}

fn flat(n: &Node) -> String {
    if let Some(d) = n.get("desc") {
        return d.to_string();
    }
    match n.kids.iter().find(|k| k.kind == "embed") {
        Some(k) => flat(k),
        None => n.get("uri").unwrap_or("").to_string(),
    }
}

fn run(r: &mut Rng, cx: &mut Cx) {
    wasm_bindgen::forget();
    let t = match r.below(6) {
        0 | 1 => gen::any_doc(r).text,
        2 => fuzz::any(r),
        3 => c09::text(r),
        4 => c07::text(r).0,
        _ => {
            let _ = &c05::PROP;
            let d = format!("%date {:04}-{:02}-{:02}\n\n", r.range(100, 9999), r.range(1, 12), r.range(1, 28));
            d + &fuzz::composite(r)
        }
    };
    // Pages are converted many times
    let t: String = t.chars().take(1200).collect();
    cx.input(&t);
    let l: v::Page = match v::Language::from_vimwiki_str(&t).parse() {
        Ok(p) => p,
        Err(e) => {
            let e: v::ParseError = e;
            return cx.fail("page not parsed", e.to_string());
        }
    };
    let tree = walk::page(&l);
    let mut config = c09::config(r, &tree);
    config.code.server_side = false;
    // Not part of what is read and written
    config.runtime = Default::default();
    let js = JsValue::from_serde(&config).expect("configuration");
    let got = guard(|| err(w::parse_vimwiki_str(&t)));
    let p = match got {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return cx.fail("page not parsed by the bindings", e),
        Err(e) => return cx.fail(panic_sig(&e), e),
    };
    let case = cx.case;
    let mut k = Look { cx: &mut *cx, config, js };
    let got = guard(std::panic::AssertUnwindSafe(|| k.page(&p, &l)));
    match got {
        Err(e) => cx.fail(panic_sig(&e), e),
        Ok(n) => {
            let (a, b) = (shown(tree.clone()), n);
            let (a, b) = (a.canon(), b.canon());
            if let Some(d) = walk::diff(&a, &b) {
                cx.fail(format!("tree: {}", walk::diff_kinds(&a, &b)), d);
            }
            cx.distinct(&c07::shape(&tree));
        }
    }
    if case % 8 == 0 {
        for bad in [JsValue::from(5.0), JsValue::from("x"), JsValue::from(true), JsValue::from_serde(&serde_json::json!({"wikis": "none"})).unwrap(), JsValue::from_serde(&serde_json::json!({"list": 5})).unwrap()] {
            match guard(|| err(p.to_html_str(&bad))) {
                Ok(Err(_)) => cx.count("configurations rejected"),
                Ok(Ok(_)) => cx.fail("configuration not rejected", format!("{:?}", bad)),
                Err(e) => cx.fail(panic_sig(&e), e),
            }
        }
        match guard(|| err(p.to_html_str(&JsValue::NULL))) {
            Ok(x) if x == l.to_html_string(Default::default()).map_err(|e| e.to_string()) => (),
            x => cx.fail("null as configuration", format!("{:?}", x)),
        }
    }
    build(r, cx);
    cx.sample(serde_json::json!({"case": case, "input": t.chars().take(200).collect::<String>()}));
}

const WORDS: &[&str] = &["a", "two words", "é日", "x*y*", "{{z}}", "", "a\nb", " padded ", "<b>", "\\", "[[l]]", "a\n\nb\n"];

/// Elements built by constructors are those of the library
fn build(r: &mut Rng, cx: &mut Cx) {
    let text = r.pick(WORDS).to_string();
    let (o, n, d) = (r.below(500), r.below(100), r.below(5) as u16);
    let given = r.chance(3, 4);
    let region = || given.then(|| w::Region::new(o, n, d));
    let expected = if given { (o, n, d) } else { (0, 0, 0) };
    cx.input(&format!("constructors with {:?} at {:?}", text, expected));
    let rg = w::Region::new(o, n, d);
    let mut bad: Vec<String> = vec![];
    let mut check = |what: &str, e: String, g: String, gr: Option<(usize, usize, u16)>| {
        if e != g {
            bad.push(format!("{}: expected {} but got {}", what, e, g));
        }
        if gr.map(|x| x != expected).unwrap_or(false) {
            bad.push(format!("{}: region {:?} rather than {:?}", what, gr, expected));
        }
    };
    check("region", format!("{:?}", (o, n, d, n == 0)), format!("{:?}", (rg.offset(), rg.len(), rg.depth(), rg.is_empty())), None);
    macro_rules! js {
        ($x:expr) => {
            // The region beside the fields is compared by itself
            match $x.to_js().__json() {
                Some(serde_json::Value::Object(mut o)) => {
                    o.remove("region");
                    canon(serde_json::Value::Object(o))
                }
                x => x.map(canon).unwrap_or_default(),
            }
        };
    }
    let res = guard(std::panic::AssertUnwindSafe(|| {
        let x = w::Text::new(&text, region());
        check("text", v::Text::from(text.as_str()).json(), js!(x), Some(wreg(x.region())));
        let x = w::CodeInline::new(&text, region());
        check("code", v::CodeInline::from(text.as_str()).json(), js!(x), Some(wreg(x.region())));
        let x = w::MathInline::new(&text, region());
        check("math", v::MathInline::from(text.as_str()).json(), js!(x), Some(wreg(x.region())));
        let x = w::Comment::new(&text, false, region());
        check("comment", v::Comment::from(v::LineComment::from(text.as_str())).json(), js!(x), Some(wreg(x.region())));
        let x = w::Comment::new(&text, true, region());
        let lines: v::MultiLineComment = text.split('\n').collect();
        check("multi-line comment", v::Comment::from(lines).json(), js!(x), Some(wreg(x.region())));
        let x = w::Tag::new(&text);
        check("tag", text.clone(), x.to_str(), None);
        let some: Vec<&str> = (0..r.below(4)).map(|_| *r.pick(WORDS)).collect();
        let arr: Box<[JsValue]> = some.iter().map(|s| JsValue::from_str(s)).chain([JsValue::NULL, JsValue::from(5.0)]).collect();
        let x = err(w::Tags::new(arr, region())).expect("tags");
        let tags: v::Tags = some.iter().copied().collect();
        check("tags", tags.json(), js!(x), Some(wreg(x.region())));
        let content = || vec![v::Located::from(v::DecoratedTextContent::Text(v::Text::from(text.as_str())))];
        for (name, x, l) in [
            ("bold", w::DecoratedText::new_bold_text(&text, region()), v::DecoratedText::Bold(content())),
            ("italic", w::DecoratedText::new_italic_text(&text, region()), v::DecoratedText::Italic(content())),
            ("strikeout", w::DecoratedText::new_strikeout_text(&text, region()), v::DecoratedText::Strikeout(content())),
            ("superscript", w::DecoratedText::new_superscript_text(&text, region()), v::DecoratedText::Superscript(content())),
            ("subscript", w::DecoratedText::new_subscript_text(&text, region()), v::DecoratedText::Subscript(content())),
        ] {
            check(name, l.json(), js!(x), Some(wreg(x.region())));
        }
        // Links
        let (desc, img) = match r.below(3) {
            0 => ("two words", false),
            1 => ("http://example.com/a.png", true),
            _ => ("é and [x]", false),
        };
        let describe = |v: Option<&v::Description>| match v {
            Some(v::Description::Text(t)) => format!("text {}", t),
            Some(v::Description::TransclusionLink(d)) => format!("image {}", d.uri_ref),
            None => "none".into(),
        };
        let wanted = format!("{} {}", if img { "image" } else { "text" }, desc);
        let uri = *r.pick(&["page", "dir/page#Anchor", "a%20b", "/root", "http://x.org/y?z=1", ""]);
        let idx = r.below(100) as u32;
        let back = |j: &JsValue| -> Option<v::Link<'static>> {
            let t = j.__json()?.to_string();
            let l: v::Link = serde_json::from_str(&t).ok()?;
            Some(l.into_owned())
        };
        let mut links: Vec<(&str, w::Link, Option<u32>, Option<&str>, bool)> = vec![
            ("wiki link", err(w::Link::new_wiki_link(uri, desc, region())).expect("link"), None, None, true),
            ("indexed link", err(w::Link::new_indexed_interwiki_link(idx, uri, desc, region())).expect("link"), Some(idx), None, true),
            ("named link", err(w::Link::new_named_interwiki_link("na me", uri, desc, region())).expect("link"), None, Some("na me"), true),
            ("raw link", err(w::Link::new_raw_link(uri, region())).expect("link"), None, None, false),
        ];
        let o2 = Object::from_entries(&{
            let a = Array::new();
            for (k, val) in [("a", JsValue::from("1")), ("b c", JsValue::from("")), ("n", JsValue::from(5.0))] {
                let e = Array::new();
                e.push(&JsValue::from(k));
                e.push(&val);
                a.push(&e);
            }
            JsValue::from(a)
        })
        .expect("object");
        links.push(("transclusion", err(w::Link::new_transclusion_link(uri, desc, &o2, region())).expect("link"), None, None, true));
        for (name, x, index, wname, described) in &links {
            let l = back(&x.to_js());
            let ty = match &l {
                Some(v::Link::Wiki { .. }) => "wiki link",
                Some(v::Link::IndexedInterWiki { .. }) => "indexed link",
                Some(v::Link::NamedInterWiki { .. }) => "named link",
                Some(v::Link::Raw { .. }) => "raw link",
                Some(v::Link::Transclusion { .. }) => "transclusion",
                _ => "other",
            };
            check(name, name.to_string(), ty.to_string(), Some(wreg(x.region())));
            check(name, format!("{:?}", (uri, index, wname)), format!("{:?}", (x.uri().as_str(), &x.wiki_index(), &x.wiki_name().as_deref())), None);
            let g = describe(l.as_ref().and_then(|l| l.description()));
            check(name, if *described { wanted.clone() } else { "none".into() }, g, None);
            if *name == "transclusion" {
                let m: HashMap<String, String> = entries(x.properties()).unwrap_or_default().into_iter().collect();
                check("properties", "1,,2".into(), format!("{},{},{}", m.get("a").cloned().unwrap_or_default(), m.get("b c").cloned().unwrap_or("?".into()), m.len()), None);
            }
        }
        for bad in ["http://[", "a b", "%zz"] {
            let e = [w::Link::new_wiki_link(bad, desc, None).is_err(), w::Link::new_raw_link(bad, None).is_err(), w::Link::new_named_interwiki_link("x", bad, desc, None).is_err(), w::Link::new_indexed_interwiki_link(0, bad, desc, None).is_err(), w::Link::new_transclusion_link(bad, desc, &o2, None).is_err()];
            check("links to no address", "[true, true, true, true, true]".into(), format!("{:?}", e), None);
        }
        let (y, m, dd) = (r.range(100, 9999) as u32, r.range(1, 12) as i32, r.range(1, 31) as i32);
        let date = Date::new_with_year_month_day(y, m - 1, dd);
        let (y, m, dd) = (date.get_utc_full_year(), date.get_utc_month() + 1, date.get_utc_date());
        let x = w::Link::new_diary_link(date, desc, "#One#Two", region());
        check("diary link", format!("{:04}-{:02}-{:02}", y, m, dd), x.date().unwrap_or_default(), Some(wreg(x.region())));
        check("anchor of a diary link", "#One%23Two".into(), x.uri(), None);
        check("description of a diary link", wanted, describe(back(&x.to_js()).as_ref().and_then(|l| l.description())), None);
        // Tables
        let size: Vec<usize> = (0..r.below(4)).map(|_| r.below(4)).collect();
        let rows = Array::new();
        for (i, n) in size.iter().enumerate() {
            let row = Array::new();
            for j in 0..*n {
                let c = err(w::Cell::new(&format!("c {} {} {}", i, j, text), Some(w::Region::new(i, j, 0)))).expect("cell");
                check("cell", format!("{:?}", Some(format!("c {} {} {}", i, j, text))), format!("{:?}", c.to_str()), None);
                row.push(&JsValue::from(c));
            }
            rows.push(&row);
        }
        let centered = r.bool();
        let x = err(w::Table::new(rows, centered, region())).expect("table");
        let l = v::Table::new(
            size.iter().enumerate().flat_map(|(i, n)| (0..*n).map(move |j| (i, j))).map(|(row, col)| {
                let t = format!("c {} {} {}", row, col, text);
                let c = v::Cell::Content(v::InlineElementContainer::new(vec![v::Located::from(v::InlineElement::Text(v::Text::from(t)))]));
                (v::CellPos { row, col }, v::Located::new(c, v::Region::new(row, col)))
            }),
            centered,
        );
        check("table", l.json(), js!(x), Some(wreg(x.region())));
        19 + links.len() + size.iter().sum::<usize>()
    }));
    match res {
        Ok(n) => cx.add("constructed", n as u64),
        Err(e) => cx.fail(panic_sig(&e), e),
    }
    for b in bad {
        cx.fail(format!("constructor: {}", b.split(':').next().unwrap_or("")), b);
    }
}

//! Everything an element says about itself agrees with the element.
use crate::engine::*;
use crate::props::c09;
use crate::rng::Rng;
use crate::walk;
use crate::{fuzz, gen};
use std::borrow::Cow;
use std::collections::BTreeMap;
use vimwiki::*;

pub static PROP: Prop = Prop {
    id: "C28",
    cases: (20_000, 1_000_000),
    run,
    rule: "each case parses a generated or hostile text and asks every element of the page for all its views (its kind, conversions, iterators, lookups, counts, texts), which are compared with its plain fields; now and then elements are built from random parts instead; non-trivial: distinct tree shapes",
    assumptions: &["a link's text is judged by C27", "that a view can be changed is judged by changing it to something else and looking for this in the fields"],
    must_see: &[
        ("blocks", 60_000), ("inline elements", 200_000), ("lists", 10_000), ("list items", 25_000), ("sublists", 6_000), ("blockquotes", 5_000), ("groups of lines", 6_000), ("paragraphs", 30_000), ("blank paragraphs", 800),
        ("definition lists", 4_000), ("terms found", 8_000), ("headers", 1_000), ("code blocks", 4_000), ("math blocks", 4_000), ("tables", 2_500), ("placeholders", 800), ("decorated text", 30_000), ("tags", 12_000), ("comments", 9_000), ("elements built", 2_500), ("regions", 2_500),
    ],
    level: "exploration",
};

type Bad = Vec<(String, String)>;

struct See {
    bad: Bad,
    n: BTreeMap<&'static str, u64>,
}

impl See {
    fn ck(&mut self, what: &str, ok: bool, m: impl FnOnce() -> String) {
        if !ok {
            self.bad.push((what.to_string(), m()));
        }
    }
    fn count(&mut self, k: &'static str) {
        *self.n.entry(k).or_default() += 1;
    }

    fn page(&mut self, p: &Page) {
        let els = p.elements();
        self.ck("elements of a page", els.len() == p.elements.len() && els.iter().zip(&p.elements).all(|(a, b)| std::ptr::eq(a, b)), String::new);
        let n = p.elements.len();
        let it: Vec<_> = p.into_iter().map(|x| x as *const _).collect();
        self.ck("iterating a page", it == p.elements.iter().map(|x| x as *const _).collect::<Vec<_>>(), || format!("{} of {}", it.len(), n));
        let again: Page = p.clone().into_iter().collect();
        self.ck("page collected", again.strict_eq(p) && p.strict_eq(&again), String::new);
        let v = p.clone().into_elements();
        self.ck("elements taken", Page::new(v).strict_eq(p), String::new);
        for (i, b) in p.elements.iter().enumerate() {
            self.ck("index of a page", std::ptr::eq(&p[i], b), || i.to_string());
            self.located(b);
            self.block(b.as_inner());
        }
    }

    fn located(&mut self, b: &Located<BlockElement>) {
        let r = b.region();
        self.ck("depth", b.depth() == r.depth(), || format!("{} {:?}", b.depth(), r));
        self.ck("reference", std::ptr::eq(*b.as_ref().as_inner(), b.as_inner()) && b.as_ref().region() == r, String::new);
        let mut c = b.clone();
        let at = c.as_inner() as *const _;
        self.ck("mutable reference", std::ptr::eq(*c.as_mut().as_inner() as *const _, at) && c.as_mut().region() == r && std::ptr::eq(c.as_mut_inner() as *const _, at), String::new);
        let m = b.clone().map(Element::from);
        self.ck("mapped", m.region() == r && m.as_inner().as_block_element() == Some(b.as_inner()), String::new);
        let o = Region::new_at_depth(r.offset() + 1, r.len() + 2, r.depth() + 3);
        let w = b.clone().take_with_region(o);
        self.ck("moved", w.region() == o && w.as_inner() == b.as_inner(), String::new);
        self.ck("taken", &b.clone().into_inner() == b.as_inner(), String::new);
        let t = Located::new(Some(b.as_inner().clone()), r).transpose();
        self.ck("transposed", t.as_ref().map_or(false, |t| t.strict_eq(b)), String::new);
        self.ck("nothing transposed", Located::new(None::<BlockElement>, r).transpose().is_none(), String::new);
    }

    fn block(&mut self, b: &BlockElement) {
        self.count("blocks");
        let is = [b.is_blockquote(), b.is_code_block(), b.is_definition_list(), b.is_divider(), b.is_header(), b.is_list(), b.is_math_block(), b.is_paragraph(), b.is_placeholder(), b.is_table()];
        let want: [bool; 10] = [
            matches!(b, BlockElement::Blockquote(_)), matches!(b, BlockElement::CodeBlock(_)), matches!(b, BlockElement::DefinitionList(_)), matches!(b, BlockElement::Divider(_)), matches!(b, BlockElement::Header(_)),
            matches!(b, BlockElement::List(_)), matches!(b, BlockElement::MathBlock(_)), matches!(b, BlockElement::Paragraph(_)), matches!(b, BlockElement::Placeholder(_)), matches!(b, BlockElement::Table(_)),
        ];
        self.ck("kind", is == want, || format!("{:?} {:?}", is, b));
        let mut m = b.clone();
        macro_rules! conv {
            ($v:ident, $as:ident, $mut:ident, $into:ident) => {{
                let want = if let BlockElement::$v(x) = b { Some(x as *const _) } else { None };
                let got = b.$as().map(|x| x as *const _);
                self.ck(stringify!($as), got == want, || format!("{:?}", b));
                let at = if let BlockElement::$v(x) = &m { Some(x as *const _) } else { None };
                let got = m.$mut().map(|x| x as *const _);
                self.ck(stringify!($mut), got == at, || format!("{:?}", b));
                let got = b.clone().$into().map(|x| BlockElement::from(x));
                self.ck(stringify!($into), got.as_ref() == want.map(|_| b), || format!("{:?}", b));
                if let BlockElement::$v(x) = b {
                    let r = Region::new(3, 4);
                    let l: Located<BlockElement> = Located::new(x.clone(), r).into();
                    self.ck(concat!("located ", stringify!($as)), l.region() == r && l.as_inner() == b, || format!("{:?}", b));
                    let e = Element::from(x.clone());
                    self.ck(concat!("element ", stringify!($as)), e.as_block_element() == Some(b), || format!("{:?}", b));
                }
            }};
        }
        conv!(Blockquote, as_blockquote, as_mut_blockquote, into_blockquote);
        conv!(CodeBlock, as_code_block, as_mut_code_block, into_code_block);
        conv!(DefinitionList, as_definition_list, as_mut_definition_list, into_definition_list);
        conv!(Divider, as_divider, as_mut_divider, into_divider);
        conv!(Header, as_header, as_mut_header, into_header);
        conv!(List, as_list, as_mut_list, into_list);
        conv!(MathBlock, as_math_block, as_mut_math_block, into_math_block);
        conv!(Paragraph, as_paragraph, as_mut_paragraph, into_paragraph);
        conv!(Placeholder, as_placeholder, as_mut_placeholder, into_placeholder);
        conv!(Table, as_table, as_mut_table, into_table);
        self.element(&Element::Block(b.clone()), 0);
        match b {
            BlockElement::Blockquote(x) => self.quote(x),
            BlockElement::CodeBlock(x) => {
                self.count("code blocks");
                let want = join(&x.lines);
                self.ck("text of a code block", x.to_string() == want, || x.to_string());
                let l: Vec<&str> = x.into_iter().map(|l| l.as_ref()).collect();
                self.ck("lines of a code block", l == strs(&x.lines), || format!("{:?}", l));
                let a = CodeBlock::from_lines(x.lines.clone());
                let b: CodeBlock = x.lines.iter().map(|l| l.as_ref()).collect();
                let c: CodeBlock = x.lines.iter().map(|l| l.to_string()).collect();
                let d: CodeBlock = x.lines.iter().cloned().collect();
                let e = CodeBlock::new(None, Default::default(), x.lines.clone());
                self.ck("code block of lines", a.lines == x.lines && a.language.is_none() && a.metadata.is_empty() && a == b && a == c && a == d && a == e, || format!("{:?}", a));
            }
            BlockElement::MathBlock(x) => {
                self.count("math blocks");
                let want = join(&x.lines);
                self.ck("text of a math block", x.to_string() == want, || x.to_string());
                let l: Vec<&str> = x.into_iter().map(|l| l.as_ref()).collect();
                self.ck("lines of a math block", l == strs(&x.lines), || format!("{:?}", l));
                let a = MathBlock::from_lines(x.lines.clone());
                let b: MathBlock = x.lines.iter().map(|l| l.as_ref()).collect();
                let c: MathBlock = x.lines.iter().map(|l| l.to_string()).collect();
                let d: MathBlock = x.lines.iter().cloned().collect();
                self.ck("math block of lines", a.lines == x.lines && a.environment.is_none() && a == b && a == c && a == d, || format!("{:?}", a));
            }
            BlockElement::DefinitionList(x) => self.definitions(x),
            BlockElement::Divider(_) => (),
            BlockElement::Header(x) => {
                self.count("headers");
                let want = content(&x.content);
                self.ck("text of a header", x.to_string() == want, || format!("{:?} but {:?}", want, x.to_string()));
                self.ck("level of a header", (Header::MIN_LEVEL..=Header::MAX_LEVEL).contains(&x.level), || x.level.to_string());
                self.container(&x.content);
            }
            BlockElement::List(x) => self.list(x),
            BlockElement::Paragraph(x) => self.paragraph(x),
            BlockElement::Placeholder(x) => {
                self.count("placeholders");
                let y = match x {
                    Placeholder::Title(t) => Some((Placeholder::title_from_str(t), Placeholder::title_from_string(t.to_string()))),
                    Placeholder::Template(t) => Some((Placeholder::template_from_str(t), Placeholder::template_from_string(t.to_string()))),
                    Placeholder::Other { name, value } => Some((Placeholder::other_from_str(name, value), Placeholder::other_from_string(name.to_string(), value.to_string()))),
                    _ => None,
                };
                if let Some((a, b)) = y {
                    self.ck("placeholder built", &a == x && &b == x, || format!("{:?} {:?} {:?}", x, a, b));
                }
            }
            BlockElement::Table(t) => {
                self.count("tables");
                let mut n = 0;
                for (p, c) in t {
                    n += 1;
                    self.ck("cell of a table", t.get_cell(p.row, p.col).map_or(false, |d| std::ptr::eq(c, d)), || p.to_string());
                    if let Cell::Content(x) = c.as_inner() {
                        self.container(x);
                    }
                }
                self.ck("cells of a table", n == t.len() && n == t.as_data().len() && t.is_empty() == (n == 0), || n.to_string());
            }
        }
    }

    fn element(&mut self, e: &Element, depth: usize) {
        let (b, i, ib) = match e {
            Element::Block(x) => (Some(x), None, None),
            Element::Inline(x) => (None, Some(x), None),
            Element::InlineBlock(x) => (None, None, Some(x)),
        };
        self.ck("element as a block", e.as_block_element() == b && e.clone().into_block_element().as_ref() == b, || format!("{:?}", e));
        self.ck("element as inline", e.as_inline_element() == i && e.clone().into_inline_element().as_ref() == i, || format!("{:?}", e));
        self.ck("element as one of a list", e.as_inline_block_element() == ib && e.clone().into_inline_block_element().as_ref() == ib, || format!("{:?}", e));
        // The deeper ones come by themselves
        if depth < 2 {
            for c in e.clone().into_children() {
                self.element(c.as_inner(), depth + 1);
            }
        }
    }

    fn quote(&mut self, x: &Blockquote) {
        self.count("blockquotes");
        let l: Vec<&str> = x.into_iter().map(|l| l.as_ref()).collect();
        self.ck("lines of a quote", l == strs(&x.lines), || format!("{:?}", l));
        let mut groups: Vec<Vec<&str>> = vec![];
        let mut open = false;
        for l in &x.lines {
            if l.is_empty() {
                open = false;
                continue;
            }
            if !open {
                groups.push(vec![]);
                open = true;
            }
            groups.last_mut().unwrap().push(l);
        }
        *self.n.entry("groups of lines").or_default() += groups.len() as u64;
        let got: Vec<Vec<&str>> = x.line_groups().map(|g| strs(g)).collect();
        let got2: Vec<Vec<&str>> = x.mut_line_groups().map(|g| strs(g)).collect();
        self.ck("groups of lines", got == groups && got2 == groups, || format!("{:?} but {:?} and {:?}", groups, got, got2));
        self.ck("number of groups", x.line_group_cnt() == groups.len(), || x.line_group_cnt().to_string());
        let want: String = x.lines.iter().map(|l| format!("{}\n", l)).collect();
        self.ck("text of a quote", x.to_string() == want, || x.to_string());
        let a: Blockquote = x.lines.iter().map(|l| l.as_ref()).collect();
        let b: Blockquote = x.lines.iter().map(|l| l.to_string()).collect();
        let c: Blockquote = x.lines.iter().cloned().collect();
        self.ck("quote of lines", &a == x && &b == x && &c == x, || format!("{:?} {:?} {:?}", a, b, c));
    }

    fn paragraph(&mut self, x: &Paragraph) {
        self.count("paragraphs");
        let filled: Vec<*const InlineElementContainer> = x
            .lines
            .iter()
            .filter(|l| l.iter().any(|e| !matches!(e.as_inner(), InlineElement::Comment(_))))
            .map(|l| l as *const _)
            .collect();
        let got: Vec<*const InlineElementContainer> = x.nonblank_lines().map(|l| l as *const _).collect();
        self.ck("lines not blank", got == filled, || format!("{} but {}", filled.len(), got.len()));
        self.ck("blank paragraph", x.is_blank() == filled.is_empty(), || x.is_blank().to_string());
        if filled.is_empty() {
            self.count("blank paragraphs");
        }
        let want = x.lines.iter().map(content).collect::<Vec<_>>().join("\n");
        self.ck("text of a paragraph", x.to_string() == want, || format!("{:?} but {:?}", want, x.to_string()));
        let y: Paragraph = x.clone().into_iter().collect();
        self.ck("paragraph of lines", &y == x, || format!("{:?}", y));
        for l in x {
            self.container(l);
        }
    }

    fn definitions(&mut self, x: &DefinitionList) {
        self.count("definition lists");
        let at: Vec<*const _> = x.items.iter().map(|i| i as *const _).collect();
        self.ck("items of definitions", x.iter().map(|i| i as *const _).collect::<Vec<_>>() == at && x.into_iter().map(|i| i as *const _).collect::<Vec<_>>() == at, String::new);
        let t: Vec<*const _> = x.items.iter().map(|i| &i.as_inner().term as *const _).collect();
        self.ck("terms", x.terms().map(|i| i as *const _).collect::<Vec<_>>() == t, String::new);
        let d: Vec<Located<Definition>> = x.items.iter().flat_map(|i| i.as_inner().definitions.as_inner().clone().into_definitions()).collect();
        let got: Vec<Located<Definition>> = x.definitions().cloned().collect();
        self.ck("definitions", got.len() == d.len() && got.iter().zip(&d).all(|(a, b)| a.strict_eq(b)), || format!("{} but {}", d.len(), got.len()));
        for i in &x.items {
            let term = &i.as_inner().term;
            let text = content(term.as_inner().as_inner());
            self.ck("text of a term", term.to_string() == text && term.as_inner() == &text.as_str() && term.as_inner() == &text, || format!("{:?} but {:?}", text, term.to_string()));
            self.ck("term as it is", term.as_inner().clone().into_inner().strict_eq(term.as_inner().as_inner()), String::new);
            // The first of that name
            let want = x.items.iter().find(|j| content(j.as_inner().term.as_inner().as_inner()) == text).map(|j| &j.as_inner().definitions as *const _);
            let got = x.get(&text).map(|d| d as *const _);
            self.ck("definitions of a term", got == want, || text.clone());
            self.count("terms found");
            let other = format!("{}x", text);
            let there = x.items.iter().any(|j| content(j.as_inner().term.as_inner().as_inner()) == other);
            self.ck("definitions of no term", x.get(&other).is_some() == there, || other.clone());
            self.container(term.as_inner().as_inner());
            let b = i.as_inner().definitions.as_inner();
            let v = b.clone().into_definitions();
            let same = |a: &[Located<Definition>]| a.len() == v.len() && a.iter().zip(&v).all(|(a, b)| a.strict_eq(b));
            self.ck("bundle", b.len() == v.len() && b.is_empty() == v.is_empty() && b.get(v.len()).is_none(), || format!("{} but {}", v.len(), b.len()));
            let got: Vec<_> = (0..v.len()).filter_map(|i| b.get(i).cloned()).collect();
            self.ck("bundle by number", same(&got), String::new);
            let got: Vec<_> = b.iter().cloned().collect();
            self.ck("bundle in order", same(&got), String::new);
            let mut m = b.clone();
            let got: Vec<_> = m.iter_mut().map(|x| x.clone()).collect();
            self.ck("bundle to be changed", same(&got), String::new);
            let text: String = v.iter().map(|d| content(d.as_inner().as_inner())).collect();
            self.ck("text of a bundle", b.to_string() == text, || b.to_string());
            for d in &v {
                self.container(d.as_inner().as_inner());
            }
        }
        let y: DefinitionList = x.items.iter().map(|i| (i.as_inner().term.clone(), i.as_inner().definitions.clone())).collect();
        self.ck("definitions collected", &y == x && y.items.iter().zip(&x.items).all(|(a, b)| a.as_inner().strict_eq(b.as_inner())), || format!("{:?}", y));
    }

    fn list(&mut self, x: &List) {
        self.count("lists");
        let at: Vec<*const _> = x.items.iter().map(|i| i as *const _).collect();
        self.ck("items", x.iter().map(|i| i as *const _).collect::<Vec<_>>() == at && x.len() == at.len() && x.is_empty() == at.is_empty(), || format!("{} {}", x.len(), at.len()));
        let mut m = x.clone();
        let at: Vec<*const _> = m.items.iter().map(|i| i as *const _).collect();
        self.ck("items to be changed", m.iter_mut().map(|i| i as *const _).collect::<Vec<_>>() == at, String::new);
        let y: List = x.clone().into_iter().collect();
        self.ck("list of items", y.strict_eq(x), String::new);
        let first = x.items.first().map(|i| matches!(i.ty, ListItemType::Ordered(_)));
        self.ck("order", x.is_ordered() == (first == Some(true)) && x.is_unordered() == (first == Some(false)), || format!("{} {}", x.is_ordered(), x.is_unordered()));
        for i in &x.items {
            self.item(i.as_inner());
        }
    }

    fn item(&mut self, i: &ListItem) {
        self.count("list items");
        let o = matches!(i.ty, ListItemType::Ordered(_));
        self.ck("order of an item", i.is_ordered() == o && i.is_unordered() != o && i.ty.is_ordered() == o && i.ty.is_unordered() != o, String::new);
        self.ck("prefix of an item", i.to_prefix() == gen::marker(&walk::item_type(&i.ty), i.pos) + &suffix(i), || format!("{:?} for {:?} {} {:?}", i.to_prefix(), i.ty, i.pos, i.suffix));
        let s = i.attributes.todo_status;
        let got = [i.is_todo_incomplete(), i.is_todo_partially_complete_1(), i.is_todo_partially_complete_2(), i.is_todo_partially_complete_3(), i.is_todo_complete(), i.is_todo_rejected()];
        use ListItemTodoStatus::*;
        let want = [Incomplete, PartiallyComplete1, PartiallyComplete2, PartiallyComplete3, Complete, Rejected].map(|x| s == Some(x));
        self.ck("state of an item", got == want && i.is_todo() == s.is_some() && i.is_todo_partially_complete() == want[1..4].iter().any(|x| *x), || format!("{:?} {:?}", s, got));
        let c = &i.contents;
        let all: Vec<&BlockElement> = c.as_children_slice().iter().map(|b| b.as_inner()).collect();
        let subs: Vec<*const List> = all.iter().filter_map(|b| if let BlockElement::List(l) = b { Some(l as *const _) } else { None }).collect();
        let rest: Vec<*const BlockElement> = all.iter().filter(|b| !matches!(b, BlockElement::List(_))).map(|b| *b as *const _).collect();
        *self.n.entry("sublists").or_default() += subs.len() as u64;
        self.ck("sublists", c.sublist_iter().map(|l| l as *const _ as *const u8).eq(subs.iter().map(|l| *l as *const u8)), || format!("{} but {}", subs.len(), c.sublist_iter().count()));
        self.ck("all but sublists", c.non_sublist_iter().map(|l| l as *const _ as *const u8).eq(rest.iter().map(|l| *l as *const u8)), || format!("{} but {}", rest.len(), c.non_sublist_iter().count()));
        // Changing them changes just them
        let mut m = c.clone();
        for l in m.sublist_iter_mut() {
            l.items.clear();
        }
        let ok = m.as_children_slice().iter().zip(&all).all(|(a, b)| match (a.as_inner(), b) {
            (BlockElement::List(l), BlockElement::List(_)) => l.is_empty(),
            (a, b) => a == *b,
        });
        self.ck("sublists changed", ok && m.as_children_slice().len() == all.len(), String::new);
        let mut m = c.clone();
        for b in m.non_sublist_iter_mut() {
            *b = BlockElement::from(Divider);
        }
        let ok = m.as_children_slice().iter().zip(&all).all(|(a, b)| match b {
            BlockElement::List(_) => a.as_inner() == *b,
            _ => a.as_inner().is_divider(),
        });
        self.ck("all but sublists changed", ok && m.as_children_slice().len() == all.len(), String::new);
        let y: ListItemContents = c.clone().into_iter().collect();
        self.ck("contents collected", y.strict_eq(c), String::new);
        for b in all {
            self.block(b);
        }
    }

    fn container(&mut self, c: &InlineElementContainer) {
        let v: Vec<Located<InlineElement>> = c.clone().into();
        let n = v.len();
        self.ck("number of inline elements", c.len() == n && c.is_empty() == (n == 0) && c.get(n).is_none(), || format!("{} but {}", n, c.len()));
        let same = |a: &[Located<InlineElement>]| a.len() == v.len() && a.iter().zip(&v).all(|(a, b)| a.strict_eq(b));
        let a: Vec<_> = c.iter().cloned().collect();
        let b: Vec<_> = (0..n).filter_map(|i| c.get(i).cloned()).collect();
        let d: Vec<_> = (0..n).map(|i| c[i].clone()).collect();
        let mut m = c.clone();
        let e: Vec<_> = m.iter_mut().map(|x| x.clone()).collect();
        self.ck("inline elements", same(&a) && same(&b) && same(&d) && same(&e), String::new);
        let f: InlineElementContainer = v.iter().cloned().collect();
        self.ck("inline elements collected", f.strict_eq(c), String::new);
        let half = n / 2;
        let g: InlineElementContainer = [InlineElementContainer::new(v[..half].to_vec()), InlineElementContainer::new(v[half..].to_vec())].iter().cloned().collect();
        self.ck("containers joined", g.strict_eq(c), String::new);
        let want = content(c);
        self.ck("text of inline elements", c.to_string() == want, || format!("{:?} but {:?}", want, c.to_string()));
        for x in &v {
            self.inline(x.as_inner());
        }
    }

    fn inline(&mut self, e: &InlineElement) {
        self.count("inline elements");
        let want = text(e);
        self.ck("text of an inline element", e.to_string() == want, || format!("{:?} but {:?}", want, e.to_string()));
        match e {
            InlineElement::DecoratedText(d) => self.decorated(d),
            InlineElement::Tags(t) => {
                self.count("tags");
                let v: Vec<Tag> = t.clone().into();
                let s: Vec<&str> = v.iter().map(|t| t.as_str()).collect();
                self.ck("tags", t.into_iter().map(|t| t.as_str()).eq(s.iter().copied()), || format!("{:?}", t));
                let a: Tags = s.iter().copied().collect();
                let b: Tags = s.iter().map(|s| s.to_string()).collect();
                let c: Tags = s.iter().map(|s| Cow::Borrowed(*s)).collect();
                let d: Tags = v.iter().cloned().collect();
                self.ck("tags of texts", &a == t && &b == t && &c == t && &d == t, || format!("{:?} {:?} {:?} {:?}", a, b, c, d));
                if let [one] = &s[..] {
                    self.ck("one tag", &Tags::from(*one) == t && &Tags::from(one.to_string()) == t && &Tags::from(Tag::from(*one)) == t, || one.to_string());
                }
            }
            InlineElement::Comment(c) => {
                self.count("comments");
                let (a, b) = (matches!(c, Comment::Line(_)), matches!(c, Comment::MultiLine(_)));
                self.ck("kind of comment", c.is_line() == a && c.is_multi_line() == b, || format!("{:?}", c));
                match c {
                    Comment::Line(l) => {
                        self.ck("text of a comment", c.to_string() == l.as_str().trim() && l.to_string() == l.as_str().trim(), || c.to_string());
                        self.ck("comment of a text", &LineComment::from(l.as_str()) == l && &LineComment::from(l.as_str().to_string()) == l, || format!("{:?}", l));
                    }
                    Comment::MultiLine(l) => {
                        let v: Vec<&str> = l.into_iter().map(|x| x.as_ref()).collect();
                        self.ck("text of a comment", c.to_string() == v.join("\n") && l.to_string() == v.join("\n"), || c.to_string());
                        let a: MultiLineComment = v.iter().copied().collect();
                        let b: MultiLineComment = v.iter().map(|x| x.to_string()).collect();
                        self.ck("comment of lines", &a == l && &b == l, || format!("{:?}", l));
                        if let [one] = &v[..] {
                            self.ck("comment of one line", &MultiLineComment::from(*one) == l && &MultiLineComment::from(one.to_string()) == l, || one.to_string());
                        }
                    }
                }
            }
            InlineElement::Text(t) => self.ck("text", &Text::from(t.as_str()) == t && &Text::from(t.as_str().to_string()) == t, || format!("{:?}", t)),
            InlineElement::Code(t) => self.ck("code", &CodeInline::from(t.as_str()) == t && &CodeInline::from(t.as_str().to_string()) == t, || format!("{:?}", t)),
            InlineElement::Math(t) => self.ck("math", &MathInline::from(t.as_str()) == t && &MathInline::from(t.as_str().to_string()) == t, || format!("{:?}", t)),
            _ => (),
        }
    }

    fn decorated(&mut self, d: &DecoratedText) {
        self.count("decorated text");
        let is = [d.is_bold(), d.is_italic(), d.is_strikeout(), d.is_superscript(), d.is_subscript()];
        let want = [matches!(d, DecoratedText::Bold(_)), matches!(d, DecoratedText::Italic(_)), matches!(d, DecoratedText::Strikeout(_)), matches!(d, DecoratedText::Superscript(_)), matches!(d, DecoratedText::Subscript(_))];
        self.ck("decoration", is == want, || format!("{:?}", d));
        let v = inside(d);
        let at: Vec<*const _> = v.iter().map(|x| x as *const _).collect();
        self.ck("decorated content", d.iter().map(|x| x as *const _).eq(at.iter().copied()) && d.into_iter().map(|x| x as *const _).eq(at.iter().copied()) && d.as_contents_slice().iter().map(|x| x as *const _).eq(at.iter().copied()), String::new);
        let own: Vec<_> = d.clone().into_iter().collect();
        self.ck("decorated content taken", own.len() == v.len() && own.iter().zip(v).all(|(a, b)| a.strict_eq(b)), String::new);
        let mut m = d.clone();
        for x in m.iter_mut() {
            let r = x.region();
            *x = Located::new(DecoratedTextContent::Keyword(Keyword::Xxx), r);
        }
        let ok = inside(&m).len() == v.len() && inside(&m).iter().all(|x| matches!(x.as_inner(), DecoratedTextContent::Keyword(Keyword::Xxx)));
        self.ck("decorated content changed", ok, || format!("{:?}", m));
        let mut m = d.clone();
        let n = (&mut m).into_iter().count();
        self.ck("decorated content to be changed", n == v.len(), || n.to_string());
        for c in v {
            let c = c.as_inner();
            let want = match c {
                DecoratedTextContent::Text(t) => InlineElement::Text(t.clone()),
                DecoratedTextContent::DecoratedText(t) => InlineElement::DecoratedText(t.clone()),
                DecoratedTextContent::Keyword(t) => InlineElement::Keyword(*t),
                DecoratedTextContent::Link(t) => InlineElement::Link(t.clone()),
            };
            let is = [c.is_text(), c.is_decorated_text(), c.is_keyword(), c.is_link()];
            let w = [matches!(want, InlineElement::Text(_)), matches!(want, InlineElement::DecoratedText(_)), matches!(want, InlineElement::Keyword(_)), matches!(want, InlineElement::Link(_))];
            self.ck("kind of decorated content", is == w, || format!("{:?}", c));
            self.ck("decorated content as inline element", c.to_inline_element().strict_eq(&want) && c.clone().into_inline_element().strict_eq(&want), || format!("{:?}", c));
            self.ck("text of decorated content", c.to_string() == text(&want), || c.to_string());
            if let DecoratedTextContent::DecoratedText(t) = c {
                self.decorated(t);
            }
        }
    }
}

fn suffix(i: &ListItem) -> String {
    let c = match i.suffix {
        ListItemSuffix::None => None,
        ListItemSuffix::Period => Some('.'),
        ListItemSuffix::Paren => Some(')'),
    };
    c.filter(|_| i.suffix.as_char() == c).map(|c| c.to_string()).unwrap_or_default()
}

fn inside<'a, 'b>(d: &'b DecoratedText<'a>) -> &'b Vec<Located<DecoratedTextContent<'a>>> {
    match d {
        DecoratedText::Bold(v) | DecoratedText::Italic(v) | DecoratedText::Strikeout(v) | DecoratedText::Superscript(v) | DecoratedText::Subscript(v) => v,
    }
}

fn strs<'a>(v: &'a [Cow<str>]) -> Vec<&'a str> {
    v.iter().map(|l| l.as_ref()).collect()
}

fn join(v: &[Cow<str>]) -> String {
    strs(v).join("\n")
}

fn content(c: &InlineElementContainer) -> String {
    let v: Vec<Located<InlineElement>> = c.clone().into();
    v.iter().map(|e| text(e.as_inner())).collect()
}

/// What is read: no decoration, no comments
fn text(e: &InlineElement) -> String {
    match e {
        InlineElement::Text(t) => t.as_str().to_string(),
        InlineElement::DecoratedText(d) => inside(d)
            .iter()
            .map(|c| match c.as_inner() {
                DecoratedTextContent::Text(t) => t.as_str().to_string(),
                DecoratedTextContent::DecoratedText(t) => text(&InlineElement::DecoratedText(t.clone())),
                DecoratedTextContent::Keyword(t) => word(*t).to_string(),
                DecoratedTextContent::Link(t) => t.to_string(),
            })
            .collect(),
        InlineElement::Keyword(k) => word(*k).to_string(),
        InlineElement::Link(l) => l.to_string(),
        InlineElement::Tags(t) => {
            let v: Vec<Tag> = t.clone().into();
            v.iter().map(|t| format!(":{}", t.as_str())).collect::<String>() + ":"
        }
        InlineElement::Code(c) => c.as_str().to_string(),
        InlineElement::Math(c) => c.as_str().to_string(),
        InlineElement::Comment(_) => String::new(),
    }
}

fn word(k: Keyword) -> &'static str {
    match k {
        Keyword::Todo => "TODO",
        Keyword::Done => "DONE",
        Keyword::Started => "STARTED",
        Keyword::Fixme => "FIXME",
        Keyword::Fixed => "FIXED",
        Keyword::Xxx => "XXX",
    }
}

fn run(r: &mut Rng, cx: &mut Cx) {
    match r.below(5) {
        0 => return built(r, cx),
        1 => return regions(r, cx),
        _ => (),
    }
    let t = match r.below(3) {
        0 => fuzz::any(r),
        1 => c09::text(r),
        _ => gen::any_doc(r).text,
    };
    cx.input(&t);
    let res = guard(|| {
        let p: Page = Language::from_vimwiki_str(&t).parse().map_err(|e: ParseError| e.to_string())?;
        let mut s = See { bad: vec![], n: BTreeMap::new() };
        s.page(&p);
        Ok::<_, String>((s, walk::page(&p).plain().canon()))
    });
    match res {
        Err(e) => cx.fail(panic_sig(&e), e),
        Ok(Err(e)) => cx.fail("page not parsed", e),
        Ok(Ok((s, shape))) => {
            cx.distinct(&shape);
            done(s, cx);
        }
    }
}

fn done(s: See, cx: &mut Cx) {
    for (k, n) in s.n {
        cx.add(k, n);
    }
    for (k, m) in s.bad {
        cx.fail(k, m);
    }
}

/// Elements that no text gives
fn built(r: &mut Rng, cx: &mut Cx) {
    let mut lines = || -> Vec<String> { (0..r.range(0, 6)).map(|_| r.pick(&["", "", " ", "a", "b c", "é", "\t"]).to_string()).collect() };
    let (a, b, c) = (lines(), lines(), lines());
    let comments = r.range(0, 3);
    let what = format!("quote {:?} code {:?} math {:?} comments {}", a, b, c, comments);
    cx.input(&what);
    cx.distinct(&what);
    cx.count("elements built");
    let comment = || Located::from(InlineElement::Comment(Comment::from(LineComment::from(" x "))));
    let mut para: Vec<InlineElementContainer> = vec![];
    for _ in 0..r.range(0, 4) {
        let mut v = vec![];
        for _ in 0..r.range(0, 3) {
            v.push(if r.bool() { comment() } else { Located::from(InlineElement::Text(Text::from(*r.pick(&["", " ", "x"])))) });
        }
        para.push(InlineElementContainer::new(v));
    }
    let terms: Vec<(&str, usize)> = (0..r.range(0, 4)).map(|_| (*r.pick(&["a", "b", "", "a b"]), r.range(0, 3))).collect();
    let items: Vec<(usize, usize)> = (0..r.range(0, 3)).map(|_| (r.below(7), r.below(3))).collect();
    let res = guard(|| {
        let dl: DefinitionList = terms
            .iter()
            .enumerate()
            .map(|(i, (t, n))| (Located::new(Term::from(*t), Region::new(10 * i, 1)), Located::new(DefinitionBundle::new((0..*n).map(|k| Located::from(Definition::new(InlineElementContainer::new(vec![Located::from(InlineElement::Text(Text::from(k.to_string())))])))).collect()), Region::new(10 * i + 2, 3))))
            .collect();
        let list = List::new(
            items
                .iter()
                .enumerate()
                .map(|(i, (s, n))| {
                    use ListItemTodoStatus::*;
                    let todo_status = [None, Some(Incomplete), Some(PartiallyComplete1), Some(PartiallyComplete2), Some(PartiallyComplete3), Some(Complete), Some(Rejected)][*s];
                    let contents: ListItemContents = (0..*n).map(|k| Located::from(if k % 2 == 0 { BlockElement::from(List::new(vec![])) } else { BlockElement::from(Divider) })).collect();
                    let (ty, suffix) = if i % 2 == 0 { (ListItemType::default(), ListItemSuffix::None) } else { (ListItemType::Ordered(OrderedListItemType::Number), ListItemSuffix::Paren) };
                    Located::from(ListItem::new(ty, suffix, i, contents, ListItemAttributes { todo_status }))
                })
                .collect(),
        );
        let page: Page = vec![
            BlockElement::from(Blockquote::from_iter(a.clone())),
            BlockElement::from(CodeBlock::from_lines(b.clone())),
            BlockElement::from(MathBlock::from_lines(c.clone())),
            BlockElement::from(Paragraph::new(para)),
            BlockElement::from(dl.clone()),
            BlockElement::from(list),
        ]
        .into_iter()
        .map(Located::from)
        .collect();
        let mut s = See { bad: vec![], n: BTreeMap::new() };
        s.page(&page);
        s.ck("lines kept", strs(&page.elements[0].as_blockquote().unwrap().lines) == a && strs(&page.elements[1].as_code_block().unwrap().lines) == b && strs(&page.elements[2].as_math_block().unwrap().lines) == c, String::new);
        for (i, x) in dl.items.iter().enumerate() {
            s.ck("region of a term with definitions", x.region() == Region::new(10 * i, 5), || format!("{:?}", x.region()));
        }
        s.ck("number of terms", dl.items.len() == terms.len(), String::new);
        s
    });
    match res {
        Err(e) => cx.fail(panic_sig(&e), e),
        Ok(s) => done(s, cx),
    }
}

/// Regions and positions of cells
fn regions(r: &mut Rng, cx: &mut Cx) {
    let (a, n, d) = (r.below(20), r.below(10), r.below(5) as u16);
    let (x, y) = (r.below(30), r.below(12));
    let s: String = (0..r.range(0, 5)).map(|_| *r.pick(&["1", "0", ",", " ", "23", "-", "x", "+4", "\t", "99999999999999999999", "é"])).collect();
    cx.input(&format!("region {} {} {} {} {} {:?}", a, n, d, x, y, s));
    cx.distinct(&format!("{:?} {}", s, n == 0));
    cx.count("regions");
    let res = guard(|| {
        let mut v = See { bad: vec![], n: BTreeMap::new() };
        let g = Region::new_at_depth(a, n, d);
        let all = |g: &Region| (g.offset(), g.len(), g.depth(), g.is_empty());
        v.ck("region", all(&g) == (a, n, d, n == 0), || format!("{:?}", g));
        v.ck("region without depth", all(&Region::new(a, n)) == (a, n, 0, n == 0), String::new);
        v.ck("region at another depth", all(&g.with_depth(d + 2)) == (a, n, d + 2, n == 0), String::new);
        for i in 0..40 {
            v.ck("inside of a region", g.contains(i) == (a..a + n).contains(&i), || format!("{} {:?}", i, g));
        }
        v.ck("region of a range", all(&Region::from(a..x)) == (a, x.saturating_sub(a), 0, x <= a), || format!("{:?}", a..x));
        v.ck("region of a closed range", all(&Region::from(a..=x)) == (a, (x + 1).saturating_sub(a), 0, x + 1 <= a), || format!("{:?}", a..=x));
        v.ck("region to", all(&Region::from(..x)) == (0, x, 0, x == 0), String::new);
        v.ck("region to and with", all(&Region::from(..=x)) == (0, x + 1, 0, false), String::new);
        v.ck("region of a pair", all(&Region::from((a, n))) == (a, n, 0, n == 0), String::new);
        let p = CellPos::new(x, y);
        v.ck("position of a cell", p.row == x && p.col == y && p.to_string() == format!("{},{}", x, y) && p.to_string().parse() == Ok(p), || p.to_string());
        let pad = format!(" {}\t, {} ", x, y);
        v.ck("position with space", pad.parse() == Ok(p), || format!("{:?}", pad.parse::<CellPos>()));
        let parts: Vec<&str> = s.split(',').collect();
        let num = |s: &str| s.trim().parse::<usize>();
        let got = s.parse::<CellPos>();
        use ParseCellPosError::*;
        let ok = match (&parts[..], &got) {
            ([_], Err(TooFewItems)) => true,
            ([_], _) => false,
            ([a, b], Ok(p)) => num(a) == Ok(p.row) && num(b) == Ok(p.col),
            ([a, _], Err(BadRow(e))) => num(a).as_ref() == Err(e),
            ([a, b], Err(BadCol(e))) => num(a).is_ok() && num(b).as_ref() == Err(e),
            ([_, _], _) => false,
            (_, Err(TooManyItems)) => true,
            _ => false,
        };
        v.ck("position of a text", ok, || format!("{:?}", got));
        v
    });
    match res {
        Err(e) => cx.fail(panic_sig(&e), e),
        Ok(s) => done(s, cx),
    }
}

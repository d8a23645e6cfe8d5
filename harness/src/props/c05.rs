//! Lists keep items, nesting, markers, to-do state and progress.
use crate::engine::*;
use crate::gen::{marker, Opts, G};
use crate::rng::Rng;
use crate::walk::{self, Node};
use vimwiki::*;

pub static PROP: Prop = Prop {
    id: "C05",
    cases: (16_000, 1_500_000),
    run,
    rule: "each case is a random list tree (nesting, marker kinds, to-do states, continuation lines, nested blocks) rendered with random indentation, compared with the model; markers and progress of each item are compared with an independent computation; non-trivial: distinct list tree shapes with marker kinds and to-do states",
    assumptions: &["the marker of the first item decides about the kind of the list, as the syntax says"],
    must_see: &[("items", 10_000), ("progress values", 2_000), ("prefixes", 10_000), ("sublists", 2_000), ("items with several sublists", 500), ("items with mixed markers", 300)],
    level: "exploration",
};

fn run(r: &mut Rng, cx: &mut Cx) {
    let mode = r.below(10);
    if mode == 0 {
        return prefix(r, cx);
    }
    let mut o = Opts::any(r);
    o.inline = mode > 6 && o.inline;
    o.blocks = (1, 3);
    o.list_depth = r.range(1, 5);
    o.kinds = if r.chance(1, 3) { vec!["list", "para", "header"] } else { vec!["list"] };
    let mut d = G::new(r, o).page();
    if mode == 1 {
        mixed(r, &mut d.text, &mut d.page, cx);
    }
    cx.input(&d.text);
    let res = guard(|| {
        let p: Result<Page, ParseError> = Language::from_vimwiki_str(&d.text).parse();
        match p {
            Err(e) => Err(format!("{}", e)),
            Ok(p) => {
                let n = walk::page(&p);
                let mut facts = vec![];
                for b in &p.elements {
                    block_facts(b.as_inner(), &mut facts);
                }
                Ok((n, facts))
            }
        }
    });
    let (n, facts) = match res {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return cx.fail("page not parsed", e),
        Err(e) => return cx.fail(panic_sig(&e), e),
    };
    let (a, b) = (d.page.canon(), n.canon());
    if let Some(x) = walk::diff(&a, &b) {
        return cx.fail(format!("tree differs at {}", walk::diff_kinds(&a, &b)), x);
    }
    let mut want = vec![];
    for k in &d.page.kids {
        expected_facts(k, &mut want);
    }
    if want.len() != facts.len() {
        return cx.fail("number of items", format!("{} items but {}", want.len(), facts.len()));
    }
    for (w, f) in want.iter().zip(&facts) {
        cx.count("items");
        cx.count("prefixes");
        if w.prefix != f.prefix {
            cx.fail("prefix of item", format!("expected {:?} but got {:?}", w.prefix, f.prefix));
        }
        if w.progress.is_some() {
            cx.count("progress values");
        }
        let same = match (w.progress, f.progress) {
            (None, None) => true,
            (Some(x), Some(y)) => (x - y).abs() < 1e-4,
            _ => false,
        };
        if !same {
            cx.fail("progress of item", format!("expected {:?} but got {:?}", w.progress, f.progress));
        }
        if w.flags != f.flags {
            cx.fail("state of item", format!("expected {:?} but got {:?}", w.flags, f.flags));
        }
        if w.lists != f.lists {
            cx.fail("sublists of item", format!("expected {:?} but got {:?}", w.lists, f.lists));
        }
        cx.add("sublists", w.lists.0 as u64);
        if w.lists.0 > 1 {
            cx.count("items with several sublists");
        }
    }
    let mut s = String::new();
    shape(&d.page, &mut s);
    cx.distinct(&s);
}

fn shape(n: &Node, s: &mut String) {
    if matches!(n.kind, "list" | "item") {
        s.push_str(&format!("{}{}{}(", &n.kind[..1], n.get("type").unwrap_or(""), n.get("todo").unwrap_or("_")));
    } else if matches!(n.kind, "code" | "table" | "para" | "math" | "quote" | "deflist") {
        s.push_str(&n.kind[..1]);
        return;
    }
    for k in &n.kids {
        shape(k, s);
    }
    s.push(')');
}

#[derive(Debug)]
struct Fact {
    prefix: String,
    progress: Option<f64>,
    /// todo, incomplete, partial 1-3, complete, rejected, ordered
    flags: (bool, bool, [bool; 4], bool, bool, bool),
    /// sublists, other blocks
    lists: (usize, usize),
}

fn block_facts(b: &BlockElement, out: &mut Vec<Fact>) {
    if let BlockElement::List(l) = b {
        for i in l.iter() {
            let i = i.as_inner();
            out.push(Fact {
                prefix: i.to_prefix(),
                progress: i.compute_todo_progress().map(|x| x as f64),
                flags: (
                    i.is_todo(),
                    i.is_todo_incomplete(),
                    [
                        i.is_todo_partially_complete(),
                        i.is_todo_partially_complete_1(),
                        i.is_todo_partially_complete_2(),
                        i.is_todo_partially_complete_3(),
                    ],
                    i.is_todo_complete(),
                    i.is_todo_rejected(),
                    i.is_ordered() && !i.is_unordered(),
                ),
                lists: (i.contents.sublist_iter().count(), i.contents.non_sublist_iter().count()),
            });
            for b in &i.contents {
                block_facts(b.as_inner(), out);
            }
        }
    }
}

fn progress(n: &Node) -> Option<f64> {
    let mut v = vec![];
    for l in n.kids.iter().filter(|k| k.kind == "list") {
        for i in &l.kids {
            if let Some(p) = progress(i) {
                v.push(p);
            }
        }
    }
    if !v.is_empty() {
        return Some(v.iter().sum::<f64>() / v.len() as f64);
    }
    match n.get("todo") {
        Some(" ") => Some(0.0),
        Some(".") => Some(0.25),
        Some("o") => Some(0.5),
        Some("O") => Some(0.75),
        Some("X") => Some(1.0),
        _ => None,
    }
}

fn expected_facts(n: &Node, out: &mut Vec<Fact>) {
    if n.kind == "item" {
        let t = n.get("todo");
        let ty = n.get("type").unwrap_or("");
        let subs = n.kids.iter().filter(|k| k.kind == "list").count();
        out.push(Fact {
            prefix: format!(
                "{}{}",
                marker(ty, n.get("pos").and_then(|x| x.parse().ok()).unwrap_or(0)),
                // Only letters and numbers have one
                n.get("suffix").unwrap_or("")
            ),
            progress: progress(n),
            flags: (
                t.is_some(),
                t == Some(" "),
                [matches!(t, Some("." | "o" | "O")), t == Some("."), t == Some("o"), t == Some("O")],
                t == Some("X"),
                t == Some("-"),
                !matches!(ty, "-" | "*"),
            ),
            lists: (subs, n.kids.len() - subs),
        });
    }
    if matches!(n.kind, "list" | "item") {
        for k in &n.kids {
            expected_facts(k, out);
        }
    }
}

/// Items whose own marker differs from that of the first item of the list
fn mixed(r: &mut Rng, text: &mut String, page: &mut Node, cx: &mut Cx) {
    let mut s = String::new();
    let n = r.range(2, 6);
    let all: &[(&str, &str, &str)] =
        &[("-", "", "- "), ("*", "", "* "), ("#", "", "# "), ("1", ".", "1. "), ("1", ")", "7) "), ("a", ")", "b) "), ("a", ".", "ca. "), ("A", ")", "E) "), ("A", ".", "F. "), ("i", ")", "ii) "), ("I", ".", "II. ")];
    let first = *r.pick(all);
    let mut items = vec![];
    for pos in 0..n {
        let m = if pos == 0 { first } else { *r.pick(all) };
        let w = format!("wert{}", pos);
        s.push_str(m.2);
        s.push_str(&w);
        s.push('\n');
        if m.0 != first.0 {
            cx.count("items with mixed markers");
        }
        items.push(
            Node::new("item")
                .a("type", first.0)
                .a("suffix", if first.1.is_empty() { "" } else if m.1.is_empty() { first.1 } else { m.1 })
                .a("pos", pos.to_string())
                .k(vec![Node::new("para").k(vec![Node::new("line").k(vec![Node::leaf("text", w)])])]),
        );
    }
    *text = s;
    *page = Node::new("page").k(vec![Node::new("list").k(items)]);
}

/// Markers at positions that no short list has
fn prefix(r: &mut Rng, cx: &mut Cx) {
    for _ in 0..20 {
        let pos = match r.below(4) {
            0 => r.below(60),
            1 => r.below(1000),
            2 => r.below(3999),
            _ => r.below(100_000),
        };
        let (ty, t) = *r.pick(&[
            (OrderedListItemType::Number, "1"),
            (OrderedListItemType::Pound, "#"),
            (OrderedListItemType::LowercaseAlphabet, "a"),
            (OrderedListItemType::UppercaseAlphabet, "A"),
            (OrderedListItemType::LowercaseRoman, "i"),
            (OrderedListItemType::UppercaseRoman, "I"),
        ]);
        let (sfx, c) = *r.pick(&[(ListItemSuffix::None, ""), (ListItemSuffix::Period, "."), (ListItemSuffix::Paren, ")")]);
        cx.input(&format!("prefix {} {} {:?}", t, pos, sfx));
        let want = format!("{}{}", marker(t, pos), c);
        // Letters of a marker that is too long to be one, see C07 for these
        let too_long = matches!(t, "a" | "A") && marker(t, pos).len() > 3;
        match guard(|| ty.to_prefix(pos, sfx)) {
            Ok(_) if too_long => {}
            Ok(got) => {
                cx.count("prefixes");
                if got != want {
                    cx.fail("prefix of position", format!("expected {:?} but got {:?}", want, got));
                }
            }
            Err(e) => cx.fail(panic_sig(&e), e),
        }
        cx.distinct(&format!("prefix {} {}", t, pos));
    }
}

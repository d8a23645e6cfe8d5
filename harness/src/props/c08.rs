//! Formatting is deterministic, idempotent and obeys its options.
use crate::engine::*;
use crate::gen::{Opts, G};
use crate::props::c03::parse;
use crate::props::c07::{config, describe, format, merge_quotes, norm, shape};
use crate::rng::Rng;
use crate::walk::{self, Node};
use vimwiki::*;

pub static PROP: Prop = Prop {
    id: "C08",
    cases: (11_000, 900_000),
    run,
    rule: "each case is a generated page formatted under a random configuration: twice, again from its own output, and compared byte by byte with what an independent renderer of the parsed tree writes under the options as documented; non-trivial: distinct tree shapes with their configuration",
    assumptions: &[
        "how links are escaped is left to C07; they are compared decoded",
        "line wrapping is not implemented, its options have no effect",
    ],
    must_see: &[("formatted twice", 7_000), ("formatted again", 7_000), ("compared with renderer", 7_000), ("custom to-do characters", 300)],
    level: "exploration",
};

fn run(r: &mut Rng, cx: &mut Cx) {
    if cx.case == 0 {
        return known(cx);
    }
    let mut c = config(r);
    let o = Opts::any(r);
    let t = G::new(r, o).page().text;
    let custom = r.chance(1, 6);
    if custom {
        let t = &mut c.list.todo;
        let mut v: Vec<char> = "abcdefxyz?!+é日_ ".chars().collect();
        r.shuffle(&mut v);
        t.incomplete_char = v[0];
        t.partially_complete_1_char = v[1];
        t.partially_complete_2_char = v[2];
        t.partially_complete_3_char = v[3];
        t.complete_char = v[4];
        t.rejected_char = v[5];
    }
    cx.input(&format!("{}\n{}", describe(&c), t));
    let a = match parse(&t) {
        Ok(n) => n,
        Err(e) => return cx.fail("page not parsed", e),
    };
    let f = match format(&t, &c) {
        Ok(f) => f,
        Err(e) => return cx.fail("page not formatted", e),
    };
    cx.distinct(&format!("{}{}", shape(&a), describe(&c)));
    // Every map of a page has its own random order, also within a process
    match format(&t, &c) {
        Ok(g) if g == f => cx.count("formatted twice"),
        Ok(g) => return cx.fail("not deterministic", walk::diff(&f, &g).unwrap_or_default()),
        Err(e) => return cx.fail("page not formatted", e),
    }
    let e = render(&a, &c);
    cx.count("compared with renderer");
    if custom && a.canon().contains("todo=") {
        cx.count("custom to-do characters");
    }
    if let Some((x, y)) = differ(&e, &f) {
        let sig = format!("unlike its options at {}", kind_of(&x, &y));
        cx.fail(sig, format!("expected line {:?} but got {:?}\nformatted: {:?}", x, y, f));
    }
    if custom {
        return;
    }
    let g = match format(&f, &c) {
        Ok(f) => f,
        Err(e) => return cx.fail("formatted page not formatted", e),
    };
    cx.count("formatted again");
    // Known: paddings add up
    let exact = c.comment.trim_content || c.comment.no_padding;
    if g != f && (exact || squeeze(&f) != squeeze(&g)) {
        // See C07: two quotes become one first
        let merged = merge_quotes(&norm(a.clone(), &c), &c).canon();
        let b = parse(&f).map(|n| norm(n, &c).canon());
        if merged != norm(a, &c).canon() && b.as_ref() == Ok(&merged) {
            return cx.count("adjacent blockquotes (C07)");
        }
        cx.fail("not idempotent", format!("{}\nformatted: {:?}", walk::diff(&f, &g).unwrap_or_default(), f));
    }
}

/// Without the padding of comments and of the tables they are in
fn squeeze(t: &str) -> String {
    if t.contains("%%") {
        t.replace([' ', '-'], "")
    } else {
        t.to_string()
    }
}

/// The one way in which formatting again is known to change a page
fn known(cx: &mut Cx) {
    let mut c = VimwikiConfig::default();
    c.comment.trim_content = false;
    cx.input("a %%+ b +%%");
    let f = format("a %%+ b +%%\n", &c);
    let g = f.as_ref().ok().map(|f| format(f, &c));
    if g.as_ref() != Some(&f) {
        cx.fail("untrimmed comments are padded again", format!("{:?} became {:?}", f, g));
    }
}

fn kind_of(x: &str, y: &str) -> &'static str {
    let s = if x.trim().is_empty() { y } else { x };
    let s = s.trim_start();
    match s.chars().next() {
        Some('=') => "header",
        Some('|') => "table",
        Some('>') => "quote",
        Some('%') => "placeholder or comment",
        Some('{') => "code or math",
        _ if s.contains("::") => "definition",
        _ => "other",
    }
}

fn decoded(s: &str) -> String {
    let (b, mut v, mut i) = (s.as_bytes(), Vec::new(), 0);
    while i < b.len() {
        let x = if b[i] == b'%' { s.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok()) } else { None };
        v.push(x.unwrap_or(b[i]));
        i += if x.is_some() { 3 } else { 1 };
    }
    String::from_utf8_lossy(&v).into_owned()
}

/// First lines that differ, decoded
fn differ(a: &str, b: &str) -> Option<(String, String)> {
    if a == b {
        return None;
    }
    let (mut x, mut y) = (a.split('\n'), b.split('\n'));
    loop {
        match (x.next(), y.next()) {
            (None, None) => return None,
            (p, q) => {
                if p == q {
                    continue;
                }
                let (p, q) = (p.unwrap_or("<end>"), q.unwrap_or("<end>"));
                if p.contains(['[', '{', ':']) && decoded(p) == decoded(q) {
                    continue;
                }
                // Links change the width of cells
                if p.trim_start().starts_with('|') && (a.contains("[[") || a.contains("{{") || a.contains(":/")) {
                    let z = |s: &str| s.replace([' ', '-'], "");
                    if z(&decoded(p)) == z(&decoded(q)) {
                        continue;
                    }
                }
                return Some((p.to_string(), q.to_string()));
            }
        }
    }
}

// ----- a renderer of its own -----

struct R<'a> {
    c: &'a VimwikiConfig,
    s: String,
}

pub fn render(page: &Node, c: &VimwikiConfig) -> String {
    let mut r = R { c, s: String::new() };
    for (i, b) in page.kids.iter().enumerate() {
        if i > 0 && (c.page.separate_block_elements || apart(&page.kids[i - 1], b)) {
            r.s.push('\n');
        }
        r.block(b, 0);
    }
    r.s
}

/// Neighbours that only a blank line keeps apart
fn apart(a: &Node, b: &Node) -> bool {
    let open = matches!(a.kind, "quote" | "deflist" | "list" | "para" | "table");
    open && (a.kind == b.kind || b.kind == "quote" || b.get("centered") == Some("true"))
}

fn trim(s: &str) -> &str {
    s.trim_matches(|c: char| c.is_ascii_whitespace())
}

impl R<'_> {
    fn ind(&self, d: usize) -> String {
        self.c.page.indent_str.repeat(d)
    }
    fn l(&mut self, d: usize, t: &str) {
        let i = self.ind(d);
        // The first line of an item follows its marker
        if self.s.is_empty() || self.s.ends_with('\n') {
            self.s.push_str(&i);
        }
        self.s.push_str(t);
        self.s.push('\n');
    }
    fn inl(&self, v: &[Node], trimmed: bool) -> String {
        let s: String = v.iter().map(|n| self.inline(n)).collect();
        if trimmed {
            trim(&s).to_string()
        } else {
            s
        }
    }
    fn block(&mut self, n: &Node, d: usize) {
        let c = self.c;
        match n.kind {
            "divider" => self.l(d, "----"),
            "header" => {
                let m = "=".repeat(n.get("level").unwrap().parse().unwrap());
                let t = self.inl(&n.kids, c.header.trim_content);
                let p = if c.header.no_padding { "" } else { " " };
                // Tags need a space
                let q = if n.kids.first().map_or(false, |k| k.kind == "tags") { " " } else { p };
                let a = if n.get("centered") == Some("true") { "    " } else { "" };
                self.l(d, &format!("{}{}{}{}{}{}", a, m, q, t, p, m));
            }
            "para" => {
                for k in &n.kids {
                    let t = self.inl(&k.kids, c.paragraph.trim_lines);
                    let u = trim(&t);
                    let fresh = self.s.is_empty() || self.s.ends_with('\n');
                    let odd = fresh && (u.starts_with('%') && !u.starts_with("%%") || u.len() > 3 && u.chars().all(|c| c == '-'));
                    let t = if odd { format!(" {}", t) } else { t };
                    self.l(d, &t);
                }
            }
            "quote" => {
                let lines: Vec<&str> = n.kids.iter().map(|k| if c.blockquote.trim_lines { trim(k.text()) } else { k.text() }).collect();
                let text: String = lines.iter().map(|l| format!("    {}\n", l)).collect();
                let quote = |t: &str| {
                    let n = parse(t).ok()?;
                    if n.kids.len() == 1 && n.kids[0].kind == "quote" && n.kids[0].kids.iter().map(|k| k.text()).eq(lines.iter().copied()) {
                        Some(())
                    } else {
                        None
                    }
                };
                let ind = c.blockquote.prefer_indented_blockquote && d == 0 && quote(&text).is_some();
                for l in &lines {
                    // Trimming goes up to the marker
                    let m = match (ind, l.is_empty() && c.blockquote.trim_lines) {
                        (true, _) => "    ",
                        (_, true) => ">",
                        _ => "> ",
                    };
                    self.l(d, &format!("{}{}", m, l));
                }
            }
            "deflist" => {
                for e in &n.kids {
                    let mut t = self.inl(&e.kids[0].kids, c.definition_list.trim_terms);
                    if t.ends_with(':') {
                        t.push(' ');
                    }
                    t.push_str("::");
                    let defs: Vec<String> = e.kids[1].kids.iter().map(|k| self.inl(&k.kids, c.definition_list.trim_definitions)).collect();
                    let mut rest = &defs[..];
                    if !c.definition_list.term_on_line_by_itself && !defs.is_empty() {
                        t.push_str(&pad(&defs[0]));
                        t.push_str(&defs[0]);
                        rest = &defs[1..];
                    }
                    self.l(d, &t);
                    for x in rest {
                        self.l(d, &format!("::{}{}", pad(x), x));
                    }
                }
            }
            "list" => {
                for (pos, it) in n.kids.iter().enumerate() {
                    let ty = it.get("type").unwrap();
                    let mut t = self.ind(d);
                    t.push_str(&crate::gen::marker(ty, pos));
                    t.push_str(it.get("suffix").unwrap());
                    t.push(' ');
                    if let Some(s) = it.get("todo") {
                        let o = &c.list.todo;
                        let ch = match s {
                            " " => o.incomplete_char,
                            "." => o.partially_complete_1_char,
                            "o" => o.partially_complete_2_char,
                            "O" => o.partially_complete_3_char,
                            "X" => o.complete_char,
                            _ => o.rejected_char,
                        };
                        t.push_str(&format!("[{}] ", ch));
                    }
                    self.s.push_str(&t);
                    for (i, k) in it.kids.iter().enumerate() {
                        // Lists in a row need to be told apart
                        let lists = it.kids[i..].iter().take_while(|k| k.kind == "list").count();
                        self.block(k, d + lists.max(1));
                    }
                }
            }
            "math" => {
                let e = n.get("env").map(|e| format!("%{}%", e)).unwrap_or_default();
                self.l(d, &format!("{{{{${}", e));
                for k in &n.kids {
                    self.l(d, k.text());
                }
                self.l(d, "}}$");
            }
            "code" => {
                let l = n.get("lang").unwrap_or("");
                let m = n.get("meta").unwrap();
                let sp = if l.is_empty() || m.is_empty() { "" } else { " " };
                self.l(d, &format!("{{{{{{{}{}{}", l, sp, m));
                for k in &n.kids {
                    self.l(d, k.text());
                }
                self.l(d, "}}}");
            }
            "placeholder" => {
                let v = n.get("value").unwrap_or("");
                let t = match n.get("name").unwrap() {
                    "nohtml" => "%nohtml".to_string(),
                    "other" => format!("%{} {}", n.get("key").unwrap(), v),
                    k => format!("%{} {}", k, v),
                };
                self.l(d, &t);
            }
            "table" => self.table(n, d),
            k => panic!("no block {}", k),
        }
    }

    fn table(&mut self, n: &Node, d: usize) {
        // (row, col) -> text or alignment
        let mut grid: std::collections::BTreeMap<(usize, usize), (String, Option<&str>)> = Default::default();
        let mut width: std::collections::BTreeMap<usize, usize> = Default::default();
        let mut rows = 0;
        for r in &n.kids {
            let i: usize = r.get("row").unwrap().parse().unwrap();
            rows = rows.max(i + 1);
            for k in &r.kids {
                let j: usize = k.get("col").unwrap().parse().unwrap();
                let w = width.entry(j).or_default();
                if k.kind == "align" {
                    let a = k.get("to").unwrap();
                    *w = (*w).max(match a {
                        "none" => 1,
                        "center" => 3,
                        _ => 2,
                    });
                    grid.insert((i, j), (String::new(), Some(a)));
                    continue;
                }
                let t = match k.get("from") {
                    Some("left") => ">".to_string(),
                    Some(_) => "\\/".to_string(),
                    None => self.inl(&k.kids, false),
                };
                let t = if self.c.table.no_padding {
                    t
                } else if t.is_empty() {
                    " ".into()
                } else {
                    let a = if t.trim_start().len() < t.len() { "" } else { " " };
                    let b = if t.trim_end().len() < t.len() { "" } else { " " };
                    format!("{}{}{}", a, t, b)
                };
                *w = (*w).max(t.len());
                grid.insert((i, j), (t, None));
            }
        }
        for i in 0..rows {
            let len = grid.keys().filter(|k| k.0 == i).map(|k| k.1 + 1).max().unwrap_or(0);
            let mut s = if n.get("centered") == Some("true") { "    |".to_string() } else { "|".to_string() };
            for j in 0..len {
                let w = width.get(&j).copied().unwrap_or(0);
                match grid.get(&(i, j)) {
                    Some((t, None)) => s.push_str(&format!("{}{}", t, " ".repeat(w - t.len()))),
                    Some((_, Some(a))) => {
                        let (x, y) = match *a {
                            "left" => (":", ""),
                            "right" => ("", ":"),
                            "center" => (":", ":"),
                            _ => ("", ""),
                        };
                        s.push_str(&format!("{}{}{}", x, "-".repeat(w - x.len() - y.len()), y));
                    }
                    None => s.push_str(&" ".repeat(w)),
                }
                s.push('|');
            }
            self.l(d, &s);
        }
    }

    fn inline(&self, n: &Node) -> String {
        let c = &self.c.comment;
        let p = if c.no_padding { "" } else { " " };
        let all = |d: &str| format!("{}{}{}", d, n.kids.iter().map(|k| self.inline(k)).collect::<String>(), d);
        match n.kind {
            "text" | "keyword" => n.text().to_string(),
            "bold" => all("*"),
            "italic" => all("_"),
            "strike" => all("~~"),
            "sup" => all("^"),
            "sub" => all(",,"),
            "tags" => format!(":{}", n.kids.iter().map(|k| format!("{}:", k.text())).collect::<String>()),
            "icode" => format!("`{}`", n.text()),
            "imath" => format!("${}$", n.text()),
            "comment" => {
                let t = if c.trim_content { n.text().trim() } else { n.text() };
                format!("%%{}{}", p, t)
            }
            "mcomment" => {
                let v: Vec<&str> = n.kids.iter().map(|k| if c.trim_content { k.text().trim() } else { k.text() }).collect();
                let n = v.iter().rposition(|t| !c.trim_content || !t.is_empty()).map_or(0, |i| i + 1);
                let t = v[..n].join("\n");
                format!("%%+{}{}{}+%%", p, t, p)
            }
            "link" => {
                let det = |n: &Node| {
                    let mut s = String::new();
                    let e = n.kids.iter().find(|k| k.kind == "embed");
                    if let Some(e) = e {
                        s.push_str(&format!("|{}", self.embed(e)));
                    } else if let Some(t) = n.get("desc") {
                        s.push_str(&format!("|{}", t));
                    }
                    if let Some(p) = n.get("props") {
                        if s.is_empty() {
                            s.push('|');
                        }
                        s.push_str(&format!("|{}", p));
                    }
                    s
                };
                let u = n.get("uri").unwrap();
                match n.get("type").unwrap() {
                    "wiki" => format!("[[{}{}]]", u, det(n)),
                    "indexed" => format!("[[wiki{}:{}{}]]", n.get("index").unwrap(), u, det(n)),
                    "named" => format!("[[wn.{}:{}{}]]", n.get("name").unwrap(), u, det(n)),
                    "diary" => format!("[[diary:{}{}{}]]", n.get("date").unwrap(), u, det(n)),
                    "transclusion" => self.embed(n),
                    _ => u.to_string(),
                }
            }
            k => panic!("no inline {}", k),
        }
    }

    fn embed(&self, n: &Node) -> String {
        let mut s = format!("{{{{{}", n.get("uri").unwrap());
        let d = n.get("desc");
        if let Some(t) = d {
            s.push_str(&format!("|{}", t));
        }
        if let Some(p) = n.get("props") {
            if d.is_none() {
                s.push('|');
            }
            s.push_str(&format!("|{}", p));
        }
        s.push_str("}}");
        s
    }
}

fn pad(s: &str) -> String {
    if s.starts_with([' ', '\t']) { String::new() } else { " ".into() }
}

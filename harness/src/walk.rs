//! Independent traversal of parsed pages through their public data, producing a
//! neutral tree that oracles compare, so nothing relies on the library's own
//! equality, hashing, display or child traversal.
use vimwiki::*;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Node {
    pub kind: &'static str,
    pub attrs: Vec<(&'static str, String)>,
    pub region: Option<(usize, usize)>,
    pub kids: Vec<Node>,
}

impl Node {
    pub fn new(kind: &'static str) -> Self {
        Node { kind, ..Default::default() }
    }
    pub fn a(mut self, k: &'static str, v: impl Into<String>) -> Self {
        self.attrs.push((k, v.into()));
        self
    }
    pub fn k(mut self, kids: Vec<Node>) -> Self {
        self.kids = kids;
        self
    }
    pub fn at(mut self, r: Region) -> Self {
        self.region = Some((r.offset(), r.len()));
        self
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|x| x.0 == k).map(|x| x.1.as_str())
    }
    pub fn text(&self) -> &str {
        self.get("text").unwrap_or("")
    }
    pub fn leaf(kind: &'static str, text: impl Into<String>) -> Self {
        Node::new(kind).a("text", text)
    }
    /// One line per node, without positions
    pub fn canon(&self) -> String {
        let mut s = String::new();
        self.canon_into(0, &mut s);
        s
    }
    fn canon_into(&self, d: usize, s: &mut String) {
        for _ in 0..d {
            s.push(' ');
        }
        s.push_str(self.kind);
        for (k, v) in &self.attrs {
            s.push_str(&format!(" {}={:?}", k, v));
        }
        s.push('\n');
        for k in &self.kids {
            k.canon_into(d + 1, s);
        }
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) {
        f(self);
        for k in &self.kids {
            k.walk(f);
        }
    }
    pub fn walk_mut(&mut self, f: &mut dyn FnMut(&mut Node)) {
        f(self);
        for k in &mut self.kids {
            k.walk_mut(f);
        }
    }
    pub fn count(&self) -> usize {
        1 + self.kids.iter().map(|k| k.count()).sum::<usize>()
    }
    /// Drops positions
    pub fn plain(mut self) -> Self {
        self.walk_mut(&mut |n| n.region = None);
        self
    }
}

/// First line at which two canonical trees differ
pub fn diff(a: &str, b: &str) -> Option<String> {
    if a == b {
        return None;
    }
    let (mut x, mut y) = (a.lines(), b.lines());
    let mut n = 0;
    loop {
        n += 1;
        match (x.next(), y.next()) {
            (Some(p), Some(q)) if p == q => continue,
            (p, q) => {
                return Some(format!(
                    "line {}: expected {:?} but got {:?}",
                    n,
                    p.unwrap_or("<end>"),
                    q.unwrap_or("<end>")
                ))
            }
        }
    }
}

pub fn page(p: &Page) -> Node {
    Node::new("page").k(p.elements.iter().map(|e| block(e.as_inner()).at(e.region())).collect())
}

pub fn container(c: &InlineElementContainer) -> Vec<Node> {
    merge_text(c.iter().map(|e| inline(e.as_inner()).at(e.region())).collect())
}

/// Joins neighbouring text nodes
pub fn merge_text(v: Vec<Node>) -> Vec<Node> {
    let mut out: Vec<Node> = Vec::new();
    for n in v {
        if n.kind == "text" {
            if let Some(l) = out.last_mut() {
                if l.kind == "text" {
                    let t = format!("{}{}", l.text(), n.text());
                    l.attrs[0].1 = t;
                    if let (Some(a), Some(b)) = (l.region, n.region) {
                        l.region = Some((a.0, b.0 + b.1 - a.0));
                    }
                    continue;
                }
            }
        }
        out.push(n);
    }
    out
}

pub fn block(b: &BlockElement) -> Node {
    match b {
        BlockElement::Blockquote(x) => Node::new("quote")
            .k(x.lines.iter().map(|l| Node::leaf("qline", l.as_ref())).collect()),
        BlockElement::CodeBlock(x) => {
            let mut n = Node::new("code");
            if let Some(l) = &x.language {
                n = n.a("lang", l.as_ref());
            }
            let m = x.metadata.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
            n.a("meta", props(m))
                .k(x.lines.iter().map(|l| Node::leaf("cline", l.as_ref())).collect())
        }
        BlockElement::DefinitionList(x) => Node::new("deflist").k(x.items.iter().map(|i| {
            let t = &i.as_inner().term;
            let d = &i.as_inner().definitions;
            Node::new("entry").at(i.region()).k(vec![
                Node::new("term").at(t.region()).k(container(t.as_inner().as_inner())),
                Node::new("defs").at(d.region()).k(d
                    .as_inner()
                    .iter()
                    .map(|d| Node::new("def").at(d.region()).k(container(d.as_inner().as_inner())))
                    .collect()),
            ])
        }).collect()),
        BlockElement::Divider(_) => Node::new("divider"),
        BlockElement::Header(x) => Node::new("header")
            .a("level", x.level.to_string())
            .a("centered", x.centered.to_string())
            .k(container(&x.content)),
        BlockElement::List(x) => list(x),
        BlockElement::MathBlock(x) => {
            let mut n = Node::new("math");
            if let Some(e) = &x.environment {
                n = n.a("env", e.as_ref());
            }
            n.k(x.lines.iter().map(|l| Node::leaf("mline", l.as_ref())).collect())
        }
        BlockElement::Paragraph(x) => Node::new("para")
            .k(x.lines.iter().map(|l| Node::new("line").k(container(l))).collect()),
        BlockElement::Placeholder(x) => match x {
            Placeholder::Title(t) => Node::new("placeholder").a("name", "title").a("value", t.as_ref()),
            Placeholder::NoHtml => Node::new("placeholder").a("name", "nohtml"),
            Placeholder::Template(t) => {
                Node::new("placeholder").a("name", "template").a("value", t.as_ref())
            }
            Placeholder::Date(d) => {
                Node::new("placeholder").a("name", "date").a("value", d.format("%Y-%m-%d").to_string())
            }
            Placeholder::Other { name, value } => Node::new("placeholder")
                .a("name", "other")
                .a("key", name.as_ref())
                .a("value", value.as_ref()),
        },
        BlockElement::Table(x) => table(x),
    }
}

pub fn list(x: &List) -> Node {
    Node::new("list").k(x.items.iter().map(|i| item(i.as_inner()).at(i.region())).collect())
}

pub fn item_type(t: &ListItemType) -> String {
    match t {
        ListItemType::Ordered(o) => match o {
            OrderedListItemType::Number => "1",
            OrderedListItemType::Pound => "#",
            OrderedListItemType::LowercaseAlphabet => "a",
            OrderedListItemType::UppercaseAlphabet => "A",
            OrderedListItemType::LowercaseRoman => "i",
            OrderedListItemType::UppercaseRoman => "I",
        }
        .to_string(),
        ListItemType::Unordered(u) => match u {
            UnorderedListItemType::Hyphen => "-".to_string(),
            UnorderedListItemType::Asterisk => "*".to_string(),
            UnorderedListItemType::Other(x) => format!("other {}", x),
        },
    }
}

pub fn item(i: &ListItem) -> Node {
    let sfx = match i.suffix {
        ListItemSuffix::None => "",
        ListItemSuffix::Period => ".",
        ListItemSuffix::Paren => ")",
    };
    let mut n = Node::new("item")
        .a("type", item_type(&i.ty))
        .a("suffix", sfx)
        .a("pos", i.pos.to_string());
    if let Some(t) = i.attributes.todo_status {
        n = n.a(
            "todo",
            match t {
                ListItemTodoStatus::Incomplete => " ",
                ListItemTodoStatus::PartiallyComplete1 => ".",
                ListItemTodoStatus::PartiallyComplete2 => "o",
                ListItemTodoStatus::PartiallyComplete3 => "O",
                ListItemTodoStatus::Complete => "X",
                ListItemTodoStatus::Rejected => "-",
            },
        );
    }
    n.k((&i.contents).into_iter().map(|b| block(b.as_inner()).at(b.region())).collect())
}

/// Rows hold only the cells that exist, each with its position
pub fn table(t: &Table) -> Node {
    let mut cells: Vec<(usize, usize, Node)> = t
        .as_data()
        .iter()
        .map(|(p, c)| {
            let n = match c.as_inner() {
                Cell::Content(x) => Node::new("cell").k(container(x)),
                Cell::Span(CellSpan::FromLeft) => Node::new("span").a("from", "left"),
                Cell::Span(CellSpan::FromAbove) => Node::new("span").a("from", "above"),
                Cell::Align(a) => Node::new("align").a(
                    "to",
                    match a {
                        ColumnAlign::None => "none",
                        ColumnAlign::Left => "left",
                        ColumnAlign::Center => "center",
                        ColumnAlign::Right => "right",
                    },
                ),
            };
            (p.row, p.col, n.at(c.region()))
        })
        .collect();
    cells.sort_by_key(|c| (c.0, c.1));
    let mut rows: Vec<Node> = Vec::new();
    let mut cur: Option<usize> = None;
    for (r, c, n) in cells {
        if cur != Some(r) {
            rows.push(Node::new("row").a("row", r.to_string()));
            cur = Some(r);
        }
        let mut n = n;
        n.attrs.insert(0, ("col", c.to_string()));
        rows.last_mut().unwrap().kids.push(n);
    }
    Node::new("table").a("centered", t.centered.to_string()).k(rows)
}

pub fn inline(e: &InlineElement) -> Node {
    match e {
        InlineElement::Text(t) => Node::leaf("text", t.as_ref() as &str),
        InlineElement::DecoratedText(d) => decorated(d),
        InlineElement::Keyword(k) => keyword(k),
        InlineElement::Link(l) => link(l),
        InlineElement::Tags(t) => {
            Node::new("tags").k(t.into_iter().map(|t| Node::leaf("tag", t.as_str())).collect())
        }
        InlineElement::Code(c) => Node::leaf("icode", c.as_str()),
        InlineElement::Math(c) => Node::leaf("imath", c.as_str()),
        InlineElement::Comment(Comment::Line(c)) => Node::leaf("comment", c.as_str()),
        InlineElement::Comment(Comment::MultiLine(c)) => Node::new("mcomment")
            .k(c.into_iter().map(|l| Node::leaf("mcline", l.as_ref())).collect()),
    }
}

fn keyword(k: &Keyword) -> Node {
    Node::leaf(
        "keyword",
        match k {
            Keyword::Todo => "TODO",
            Keyword::Done => "DONE",
            Keyword::Started => "STARTED",
            Keyword::Fixme => "FIXME",
            Keyword::Fixed => "FIXED",
            Keyword::Xxx => "XXX",
        },
    )
}

pub fn decorated(d: &DecoratedText) -> Node {
    let (k, v) = match d {
        DecoratedText::Bold(v) => ("bold", v),
        DecoratedText::Italic(v) => ("italic", v),
        DecoratedText::Strikeout(v) => ("strike", v),
        DecoratedText::Superscript(v) => ("sup", v),
        DecoratedText::Subscript(v) => ("sub", v),
    };
    Node::new(k).k(merge_text(
        v.iter()
            .map(|e| {
                match e.as_inner() {
                    DecoratedTextContent::Text(t) => Node::leaf("text", t.as_ref() as &str),
                    DecoratedTextContent::DecoratedText(d) => decorated(d),
                    DecoratedTextContent::Keyword(k) => keyword(k),
                    DecoratedTextContent::Link(l) => link(l),
                }
                .at(e.region())
            })
            .collect(),
    ))
}

/// Properties or metadata in the order of their keys
pub fn props(mut m: Vec<(String, String)>) -> String {
    m.sort();
    m.iter().map(|(k, v)| format!("{}=\"{}\"", k, v)).collect::<Vec<_>>().join(" ")
}

/// Decodes percent-encoding as far as it gives text
pub fn pct(s: &str) -> String {
    let b = s.as_bytes();
    // Bytes with how they were written
    let mut o: Vec<(u8, &[u8])> = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            let h = |c: u8| (c as char).to_digit(16);
            if let (Some(x), Some(y)) = (h(b[i + 1]), h(b[i + 2])) {
                o.push(((x * 16 + y) as u8, &b[i..i + 3]));
                i += 3;
                continue;
            }
        }
        o.push((b[i], &b[i..i + 1]));
        i += 1;
    }
    let mut out = Vec::new();
    let mut k = 0;
    while k < o.len() {
        let bytes: Vec<u8> = o[k..].iter().take(4).map(|x| x.0).collect();
        let n = (1..=bytes.len()).find(|n| std::str::from_utf8(&bytes[..*n]).is_ok());
        match n {
            Some(n) => {
                out.extend(&bytes[..n]);
                k += n;
            }
            None => {
                out.extend(o[k].1);
                k += 1;
            }
        }
    }
    String::from_utf8(out).unwrap_or_else(|_| s.to_string())
}

fn data(mut n: Node, d: &LinkData) -> Node {
    n = n.a("uri", pct(&d.uri_ref.to_string()));
    match &d.description {
        Some(Description::Text(t)) => n = n.a("desc", t.as_ref()),
        Some(Description::TransclusionLink(d)) => n.kids.push(data(Node::new("embed"), d)),
        None => (),
    }
    if let Some(p) = &d.properties {
        let m = p.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        n = n.a("props", props(m));
    }
    n
}

pub fn link(l: &Link) -> Node {
    let n = Node::new("link");
    match l {
        Link::Wiki { data: d } => data(n.a("type", "wiki"), d),
        Link::IndexedInterWiki { index, data: d } => {
            data(n.a("type", "indexed").a("index", index.to_string()), d)
        }
        Link::NamedInterWiki { name, data: d } => {
            data(n.a("type", "named").a("name", name.as_ref()), d)
        }
        Link::Diary { date, data: d } => {
            data(n.a("type", "diary").a("date", date.format("%Y-%m-%d").to_string()), d)
        }
        Link::Raw { data: d } => data(n.a("type", "raw"), d),
        Link::Transclusion { data: d } => data(n.a("type", "transclusion"), d),
    }
}

/// Kinds of the nodes at which two canonical trees first differ
pub fn diff_kinds(a: &str, b: &str) -> String {
    let k = |l: Option<&str>| l.unwrap_or("end").trim_start().split(' ').next().unwrap_or("").to_string();
    let (mut x, mut y) = (a.lines(), b.lines());
    loop {
        match (x.next(), y.next()) {
            (None, None) => return "none".into(),
            (p, q) if p == q => continue,
            (p, q) => return format!("{}/{}", k(p), k(q)),
        }
    }
}

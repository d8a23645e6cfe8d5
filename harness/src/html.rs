//! A strict tokenizer for the HTML the library writes, and the HTML that a parsed
//! page calls for, made from its tree alone.
use crate::walk::{pct, Node};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Open(String, Vec<(String, String)>),
    Close(String),
    Text(String),
    Comment(String),
}

pub const VOID: &[&str] = &["hr", "br", "img"];
pub const BLOCK: &[&str] = &[
    "blockquote", "p", "dl", "dt", "dd", "hr", "div", "h1", "h2", "h3", "h4", "h5", "h6", "ul", "ol", "li", "pre", "table",
    "thead", "tbody", "tr", "th", "td",
];
pub const INLINE: &[&str] = &["a", "code", "strong", "em", "del", "sup", "sub", "small", "span", "img", "br"];

/// Decodes text, in which nothing special may be left as it is
pub fn decode(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut t = s;
    while let Some(i) = t.find(['&', '<', '>']) {
        o.push_str(&t[..i]);
        t = &t[i..];
        let around = || t.chars().take(30).collect::<String>();
        if !t.starts_with('&') {
            return Err(format!("unescaped {:?}", around()));
        }
        let e = t[..].find(';').map(|e| &t[1..e]).ok_or_else(|| format!("unescaped {:?}", around()))?;
        o.push(match e {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "#x27" | "#39" => '\'',
            "#x60" => '`',
            _ => return Err(format!("unescaped {:?}", around())),
        });
        t = &t[e.len() + 2..];
    }
    o.push_str(t);
    Ok(o)
}

/// With & escaped before the name of a parameter, where HTML does not need it
fn parameters(s: &str) -> String {
    let mut o = String::new();
    for (i, p) in s.split('&').enumerate() {
        let n = p.find(|c: char| !c.is_ascii_alphanumeric()).unwrap_or(p.len());
        if i > 0 {
            o.push_str(if n > 0 && p[n..].starts_with('=') { "&amp;" } else { "&" });
        }
        o.push_str(p);
    }
    o
}

fn name_len(t: &str) -> usize {
    t.find(|c: char| !c.is_ascii_alphanumeric()).unwrap_or(t.len())
}

/// Splits HTML into its parts; anything that is not exactly well-formed is an error
pub fn tokenize(html: &str) -> Result<Vec<Ev>, String> {
    let mut v = Vec::new();
    let mut t = html;
    while !t.is_empty() {
        let i = t.find('<').unwrap_or(t.len());
        if i > 0 {
            v.push(Ev::Text(decode(&t[..i])?));
            t = &t[i..];
            continue;
        }
        let around = t.chars().take(60).collect::<String>();
        if let Some(c) = t.strip_prefix("<!--") {
            let e = c.find("-->").ok_or_else(|| format!("comment without end {:?}", around))?;
            v.push(Ev::Comment(decode(&c[..e])?));
            t = &c[e + 3..];
            continue;
        }
        if let Some(c) = t.strip_prefix("</") {
            let n = name_len(c);
            if n == 0 || !c[n..].starts_with('>') {
                return Err(format!("bad tag {:?}", around));
            }
            v.push(Ev::Close(c[..n].to_string()));
            t = &c[n + 1..];
            continue;
        }
        let c = &t[1..];
        let n = name_len(c);
        if n == 0 {
            return Err(format!("bad tag {:?}", around));
        }
        let name = c[..n].to_string();
        let mut c = &c[n..];
        let mut attrs: Vec<(String, String)> = vec![];
        loop {
            if let Some(x) = c.strip_prefix('>') {
                if VOID.contains(&name.as_str()) {
                    return Err(format!("void tag not closed {:?}", around));
                }
                v.push(Ev::Open(name, attrs));
                t = x;
                break;
            }
            if let Some(x) = c.strip_prefix(" />") {
                if !VOID.contains(&name.as_str()) {
                    return Err(format!("tag closes itself {:?}", around));
                }
                v.push(Ev::Open(name.clone(), attrs));
                v.push(Ev::Close(name));
                t = x;
                break;
            }
            let x = c.strip_prefix(' ').ok_or_else(|| format!("bad tag {:?}", around))?;
            let n = x.find("=\"").ok_or_else(|| format!("bad attribute {:?}", around))?;
            let a = &x[..n];
            if a.is_empty() || a.contains(|c: char| c.is_whitespace() || c.is_control() || "\"'<>/=`".contains(c)) {
                return Err(format!("bad attribute name {:?}", a));
            }
            let x = &x[n + 2..];
            let e = x.find('"').ok_or_else(|| format!("bad attribute {:?}", around))?;
            if attrs.iter().any(|y| y.0.eq_ignore_ascii_case(a)) {
                return Err(format!("attribute {:?} twice", a));
            }
            attrs.push((a.to_string(), decode(&parameters(&x[..e]))?));
            c = &x[e + 1..];
        }
    }
    Ok(v)
}

/// Checks that tags nest and are where the content model of HTML has them
pub fn nested(v: &[Ev]) -> Result<(), String> {
    let mut st: Vec<&str> = vec![];
    for e in v {
        match e {
            Ev::Open(n, _) => {
                let p = st.last().copied().unwrap_or("");
                let ok = match n.as_str() {
                    "li" => p == "ul" || p == "ol",
                    "dt" | "dd" => p == "dl",
                    "thead" | "tbody" => p == "table",
                    "tr" => p == "thead" || p == "tbody",
                    "th" | "td" => p == "tr",
                    x => {
                        !["ul", "ol", "dl", "table", "thead", "tbody", "tr"].contains(&p)
                            && (!BLOCK.contains(&x) || !st.iter().any(|y| INLINE.contains(y) || *y == "p"))
                    }
                };
                if !ok {
                    return Err(format!("{} within {}", n, p));
                }
                st.push(n);
            }
            Ev::Close(n) => {
                let p = st.pop();
                if p != Some(n) {
                    return Err(format!("{} closed within {}", n, p.unwrap_or("nothing")));
                }
            }
            Ev::Text(t) => {
                let p = st.last().copied().unwrap_or("");
                if ["ul", "ol", "dl", "table", "thead", "tbody", "tr"].contains(&p) && !t.trim().is_empty() {
                    return Err(format!("text within {}", p));
                }
            }
            Ev::Comment(_) => (),
        }
    }
    match st.pop() {
        Some(p) => Err(format!("{} not closed", p)),
        None => Ok(()),
    }
}

/// Joins texts, and drops and shortens the whitespace that HTML does not show
pub fn normal(v: Vec<Ev>) -> Vec<Ev> {
    let mut out: Vec<Ev> = vec![];
    for e in v {
        if let (Ev::Text(t), Some(Ev::Text(l))) = (&e, out.last_mut()) {
            l.push_str(t);
            continue;
        }
        out.push(e);
    }
    let mut pre = 0;
    let mut res = vec![];
    let blockish = |e: Option<&Ev>| match e {
        None => true,
        Some(Ev::Open(n, _)) | Some(Ev::Close(n)) => BLOCK.contains(&n.as_str()) || n == "br",
        _ => false,
    };
    for (i, e) in out.iter().enumerate() {
        match e {
            Ev::Open(n, _) if n == "pre" => pre += 1,
            Ev::Close(n) if n == "pre" => pre -= 1,
            _ => (),
        }
        if let (Ev::Text(t), 0) = (e, pre) {
            let ws = |c: char| c.is_ascii_whitespace();
            let mut s = String::new();
            for c in t.chars() {
                if ws(c) {
                    if !s.ends_with(' ') {
                        s.push(' ');
                    }
                } else {
                    s.push(c);
                }
            }
            let a = if i == 0 { None } else { out.get(i - 1) };
            let mut s = s.as_str();
            if blockish(a) {
                s = s.trim_start_matches(ws);
            }
            if blockish(out.get(i + 1)) {
                s = s.trim_end_matches(ws);
            }
            if !s.is_empty() {
                res.push(Ev::Text(s.to_string()));
            }
            continue;
        }
        res.push(e.clone());
    }
    res
}

#[derive(Clone)]
pub struct Opt {
    pub ignore_newline: bool,
    pub comments: bool,
    pub toc: String,
}

/// Leaves the values of ids and links to the checks of those
pub fn blank(mut v: Vec<Ev>) -> Vec<Ev> {
    for e in &mut v {
        if let Ev::Open(n, a) = e {
            match n.as_str() {
                "a" | "img" => a.iter_mut().take(1).for_each(|x| x.1.clear()),
                "code" => (),
                _ => a.iter_mut().filter(|x| x.0 == "id").for_each(|x| x.1.clear()),
            }
        }
    }
    v
}

pub struct Expect<'a> {
    o: &'a Opt,
    v: Vec<Ev>,
    levels: BTreeSet<usize>,
}

pub fn expect(page: &Node, o: &Opt) -> Vec<Ev> {
    let mut e = Expect { o, v: vec![], levels: Default::default() };
    for b in &page.kids {
        e.block(b);
        e.t("\n");
    }
    e.v
}

/// Name and value pairs of an attribute list as the walker writes it
pub fn attrs(s: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    let mut t = s;
    while let Some(i) = t.find("=\"") {
        let n = t[..i].to_string();
        t = &t[i + 2..];
        let e = t.find("\" ").unwrap_or(t.len().saturating_sub(1));
        v.push((n, t[..e].to_string()));
        t = t.get(e + 2..).unwrap_or("");
    }
    v
}

fn allowed(n: &str) -> bool {
    !n.is_empty() && !n.contains(|c: char| c.is_whitespace() || c.is_control() || "\"'<>/=`".contains(c))
}

impl Expect<'_> {
    fn o(&mut self, n: &str, a: &[(&str, &str)]) {
        self.v.push(Ev::Open(n.into(), a.iter().map(|x| (x.0.to_string(), x.1.to_string())).collect()));
    }
    fn c(&mut self, n: &str) {
        self.v.push(Ev::Close(n.into()));
    }
    fn t(&mut self, t: &str) {
        if !t.is_empty() {
            self.v.push(Ev::Text(t.into()));
        }
    }
    fn wrap(&mut self, tags: &[&str], kids: &[Node]) {
        for t in tags {
            self.o(t, &[]);
        }
        self.inlines(kids);
        for t in tags.iter().rev() {
            self.c(t);
        }
    }
    fn inlines(&mut self, v: &[Node]) {
        for k in v {
            self.inline(k);
        }
    }
    fn block(&mut self, n: &Node) {
        match n.kind {
            "divider" => {
                self.o("hr", &[]);
                self.c("hr");
            }
            "placeholder" => (),
            "para" => {
                let visible = n.kids.iter().any(|l| l.kids.iter().any(|k| k.kind != "comment" && k.kind != "mcomment"));
                if visible {
                    self.o("p", &[]);
                }
                for (i, l) in n.kids.iter().enumerate() {
                    if i > 0 {
                        if self.o.ignore_newline {
                            self.t(" ");
                        } else {
                            self.o("br", &[]);
                            self.c("br");
                        }
                    }
                    self.inlines(&l.kids);
                }
                if visible {
                    self.c("p");
                }
            }
            "quote" => {
                self.o("blockquote", &[]);
                let lines: Vec<&str> = n.kids.iter().map(|k| k.text()).collect();
                let groups: Vec<&[&str]> = lines.split(|l| l.is_empty()).filter(|g| !g.is_empty()).collect();
                for g in &groups {
                    if groups.len() > 1 {
                        self.o("p", &[]);
                        self.t(&g.iter().map(|l| l.trim()).collect::<Vec<_>>().join(" "));
                        self.c("p");
                    } else {
                        self.t(&lines.join("\n"));
                    }
                }
                self.c("blockquote");
            }
            "deflist" => {
                self.o("dl", &[]);
                for e in &n.kids {
                    self.wrap(&["dt"], &e.kids[0].kids);
                    for d in &e.kids[1].kids {
                        self.wrap(&["dd"], &d.kids);
                    }
                }
                self.c("dl");
            }
            "list" => {
                let ordered = n.kids.first().map_or(false, |k| !matches!(k.get("type"), Some("-" | "*")) && !k.get("type").unwrap_or("").starts_with("other"));
                let tag = if ordered { "ol" } else { "ul" };
                self.o(tag, &[]);
                for k in &n.kids {
                    let class = k.get("todo").map(|t| match t {
                        " " => "done0",
                        "." => "done1",
                        "o" => "done2",
                        "O" => "done3",
                        "X" => "done4",
                        _ => "rejected",
                    });
                    match class {
                        Some(c) => self.o("li", &[("class", c)]),
                        None => self.o("li", &[]),
                    }
                    for b in &k.kids {
                        self.block(b);
                    }
                    self.c("li");
                }
                self.c(tag);
            }
            "math" => {
                let body: Vec<&str> = n.kids.iter().map(|k| k.text()).collect();
                let body = body.join("\n");
                match n.get("env") {
                    Some(e) => self.t(&format!("\\begin{{{}}}\n{}\n\\end{{{}}}", e, body, e)),
                    None => self.t(&format!("\\[\n{}\n\\]", body)),
                }
            }
            "code" => {
                self.o("pre", &[]);
                let mut a = vec![];
                if let Some(l) = n.get("lang") {
                    a.push(("class".to_string(), l.to_string()));
                }
                user(&mut a, n.get("meta").unwrap_or(""));
                self.v.push(Ev::Open("code".into(), a));
                let body: Vec<&str> = n.kids.iter().map(|k| k.text()).collect();
                self.t(&body.join("\n"));
                self.c("code");
                self.c("pre");
            }
            "header" => {
                let level: usize = n.get("level").unwrap().parse().unwrap();
                self.levels.retain(|l| *l < level);
                let nested = !self.levels.is_empty();
                self.levels.insert(level);
                let h = format!("h{}", level);
                let t = plain(&n.kids);
                if level == 1 && t.trim() == self.o.toc {
                    self.o("div", &[("class", "toc")]);
                    self.o(&h, &[("id", "")]);
                    self.inlines(&n.kids);
                    self.c(&h);
                    self.c("div");
                    return;
                }
                if nested {
                    self.o("div", &[("id", "")]);
                }
                self.o(&h, &[("id", ""), ("class", "header")]);
                self.o("a", &[("href", "")]);
                self.inlines(&n.kids);
                self.c("a");
                self.c(&h);
                if nested {
                    self.c("div");
                }
            }
            "table" => self.table(n),
            k => panic!("no block {}", k),
        }
    }

    fn table(&mut self, n: &Node) {
        let mut g: BTreeMap<(usize, usize), &Node> = Default::default();
        let mut rows = 0;
        for r in &n.kids {
            let i: usize = r.get("row").unwrap().parse().unwrap();
            rows = rows.max(i + 1);
            for k in &r.kids {
                g.insert((i, k.get("col").unwrap().parse().unwrap()), k);
            }
        }
        let is_div = |i: usize| g.get(&(i, 0)).map_or(false, |k| k.kind == "align");
        let div = (0..rows).find(|i| is_div(*i));
        if n.get("centered") == Some("true") {
            self.o("table", &[("class", "center")]);
        } else {
            self.o("table", &[]);
        }
        let head: Vec<usize> = (0..div.unwrap_or(0)).collect();
        let body: Vec<usize> = (div.map_or(0, |d| d + 1)..rows).filter(|i| !is_div(*i)).collect();
        for (tag, cell, rows) in [("thead", "th", head), ("tbody", "td", body)] {
            if rows.is_empty() {
                continue;
            }
            self.o(tag, &[]);
            for i in rows {
                let cells: Vec<(usize, &Node)> = g.iter().filter(|(p, k)| p.0 == i && k.kind == "cell").map(|(p, k)| (p.1, *k)).collect();
                if cells.is_empty() {
                    continue;
                }
                self.o("tr", &[]);
                for (j, k) in cells {
                    let run = |dr: usize, dc: usize, from: &str| {
                        let mut n = 1;
                        while g.get(&(i + dr * n, j + dc * n)).map_or(false, |k| k.get("from") == Some(from)) {
                            n += 1;
                        }
                        n.to_string()
                    };
                    let (rs, cs) = (run(1, 0, "above"), run(0, 1, "left"));
                    let mut a = vec![];
                    if rs != "1" {
                        a.push(("rowspan", rs.as_str()));
                    }
                    if cs != "1" {
                        a.push(("colspan", cs.as_str()));
                    }
                    self.o(cell, &a);
                    self.inlines(&k.kids);
                    self.c(cell);
                }
                self.c("tr");
            }
            self.c(tag);
        }
        self.c("table");
    }

    fn anchor(&mut self) {
        if !self.levels.is_empty() {
            self.o("span", &[("id", "")]);
            self.c("span");
        }
    }

    fn inline(&mut self, n: &Node) {
        match n.kind {
            "text" => self.t(n.text()),
            "keyword" if n.text() == "TODO" => {
                self.o("span", &[("class", "todo")]);
                self.t("TODO");
                self.c("span");
            }
            "keyword" => self.t(n.text()),
            "bold" => {
                self.anchor();
                self.o("strong", &[("id", "")]);
                self.inlines(&n.kids);
                self.c("strong");
            }
            "italic" => self.wrap(&["em"], &n.kids),
            "strike" => self.wrap(&["del"], &n.kids),
            "sup" => self.wrap(&["sup", "small"], &n.kids),
            "sub" => self.wrap(&["sub", "small"], &n.kids),
            "tags" => {
                for k in &n.kids {
                    self.anchor();
                    self.o("span", &[("class", "tag"), ("id", "")]);
                    self.t(k.text());
                    self.c("span");
                }
            }
            "icode" => {
                self.o("code", &[]);
                self.t(n.text());
                self.c("code");
            }
            "imath" => self.t(&format!("\\({}\\)", n.text())),
            "comment" => {
                if self.o.comments {
                    self.v.push(Ev::Comment(n.text().to_string()));
                }
            }
            "mcomment" => {
                if self.o.comments {
                    self.v.push(Ev::Comment(n.kids.iter().map(|k| k.text()).collect::<Vec<_>>().join("\n")));
                }
            }
            "link" if n.get("type") == Some("transclusion") => self.img(n),
            "link" => {
                let mut a = vec![("href".to_string(), String::new())];
                user(&mut a, n.get("props").unwrap_or(""));
                self.v.push(Ev::Open("a".into(), a));
                let uri = n.get("uri").unwrap();
                if let Some(e) = n.kids.iter().find(|k| k.kind == "embed") {
                    self.img(e);
                } else if let Some(d) = n.get("desc") {
                    self.t(d);
                } else if n.get("type") == Some("diary") {
                    let t = format!("diary:{}", n.get("date").unwrap());
                    self.t(&t);
                } else {
                    self.t(uri);
                }
                self.c("a");
            }
            k => panic!("no inline {}", k),
        }
    }

    fn img(&mut self, n: &Node) {
        let mut a = vec![("src".to_string(), String::new())];
        if let Some(d) = n.get("desc") {
            a.push(("alt".into(), d.into()));
        }
        user(&mut a, n.get("props").unwrap_or(""));
        self.v.push(Ev::Open("img".into(), a));
        self.c("img");
    }
}

/// Adds attributes of the user's, of which those that HTML knows no way to write
/// and those that are there are left out
fn user(a: &mut Vec<(String, String)>, s: &str) {
    for (k, v) in attrs(s) {
        if allowed(&k) && !a.iter().any(|x| x.0.eq_ignore_ascii_case(&k)) {
            a.push((k, v));
        }
    }
}

/// Text of inline elements without decorations
pub fn plain(v: &[Node]) -> String {
    let mut s = String::new();
    for n in v {
        match n.kind {
            "text" | "keyword" | "icode" | "imath" | "comment" => s.push_str(n.text()),
            _ => s.push_str(&plain(&n.kids)),
        }
    }
    s
}

/// First difference of two event lists
pub fn differ(a: &[Ev], b: &[Ev]) -> Option<(String, String)> {
    let n = a.len().max(b.len());
    for i in 0..n {
        let (x, y) = (a.get(i), b.get(i));
        if x == y || same(x, y) {
            continue;
        }
        let k = |e: Option<&Ev>| match e {
            None => "end".to_string(),
            Some(Ev::Open(n, _)) => n.clone(),
            Some(Ev::Close(n)) => format!("/{}", n),
            Some(Ev::Text(_)) => "text".into(),
            Some(Ev::Comment(_)) => "comment".into(),
        };
        let ctx = |v: &[Ev]| format!("{:?}", &v[i.saturating_sub(2).min(v.len())..(i + 2).min(v.len())]);
        return Some((format!("{} for {}", k(y), k(x)), format!("expected {} but got {}", ctx(a), ctx(b))));
    }
    None
}

fn same(a: Option<&Ev>, b: Option<&Ev>) -> bool {
    match (a, b) {
        // Addresses are shown decoded or not
        (Some(Ev::Text(a)), Some(Ev::Text(b))) => pct(a).split_whitespace().eq(pct(b).split_whitespace()) && (b.contains('%') || a.starts_with(' ') == b.starts_with(' ') && a.ends_with(' ') == b.ends_with(' ')),
        (Some(Ev::Comment(a)), Some(Ev::Comment(b))) => a.split_whitespace().eq(b.split_whitespace()),
        _ => false,
    }
}

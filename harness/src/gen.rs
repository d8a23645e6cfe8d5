//! Documents built from a model: the text and the tree that the vimwiki syntax
//! gives it are made side by side, without looking at the parser.
use crate::rng::Rng;
use crate::walk::{merge_text, pct, Node};

pub struct Doc {
    pub text: String,
    /// Tree with positions for inline elements
    pub page: Node,
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub unicode: bool,
    /// Characters that HTML gives a meaning
    pub meta: bool,
    pub inline: bool,
    pub links: bool,
    pub comments: bool,
    /// Comments that span lines of a paragraph
    pub long_comments: bool,
    pub blocks: (usize, usize),
    pub list_depth: usize,
    /// Allowed block kinds, see KINDS
    pub kinds: Vec<&'static str>,
    /// Random indentation and padding where the syntax allows it
    pub layout: bool,
}

pub const KINDS: &[&str] = &[
    "header", "para", "para", "list", "list", "table", "code", "math", "quote", "iquote", "deflist", "divider", "placeholder",
];

impl Opts {
    pub fn any(r: &mut Rng) -> Self {
        Opts {
            unicode: r.bool(),
            meta: r.chance(1, 3),
            inline: r.chance(7, 8),
            links: r.chance(7, 8),
            comments: r.chance(1, 2),
            long_comments: r.chance(1, 4),
            blocks: if r.chance(1, 8) { (4, 12) } else { (1, 5) },
            list_depth: r.range(1, 4),
            kinds: KINDS.to_vec(),
            layout: r.chance(2, 3),
        }
    }
}

/// What must not be written where some inline content goes
#[derive(Clone, Copy, Default, Debug)]
pub struct Ctx {
    pub no_eq: bool,
    pub no_pipe: bool,
    /// Within a table cell, where comments would swallow the rest
    pub cell: bool,
    /// Comments may span lines here
    pub long: bool,
    /// No element that is not allowed in definitions
    pub def: bool,
}

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub s: String,
    pub o: Opts,
    n: usize,
    words: Vec<String>,
}

const DECO: &[(&str, &str)] = &[("bold", "*"), ("italic", "_"), ("strike", "~~"), ("sup", "^"), ("sub", ",,")];
const LONES: &[&str] = &["*", "_", "~~", "^", ",,", "`", "$", "[[", "{{", "]]", "}}", "[", "]", "{", "~", "%", "/", "-", ">", "=", "+", "\\", "|", "#"];
pub const KEYWORDS: &[&str] = &["TODO", "DONE", "STARTED", "FIXME", "FIXED", "XXX"];

impl<'a> G<'a> {
    pub fn new(r: &'a mut Rng, o: Opts) -> Self {
        let n = r.below(4000);
        G { r, s: String::new(), o, n, words: vec![] }
    }

    /// A word that no other word contains and that is not a list marker
    pub fn word(&mut self) -> String {
        const C: &[u8] = b"bfghjknpqrstwz";
        const V: &[u8] = b"aeou";
        let mut k = self.n;
        self.n += 1;
        let mut w = String::new();
        for _ in 0..3 {
            w.push(C[k % C.len()] as char);
            k /= C.len();
            w.push(V[k % V.len()] as char);
            k /= V.len();
        }
        if self.o.unicode && self.r.chance(1, 5) {
            let u = *self.r.pick(&["é", "日本", "ñ", "ж", "ü", "ə", "ß", "😀", "e\u{301}", "中"]);
            if self.r.bool() {
                w.push_str(u)
            } else {
                w.insert_str(w.len() / 2, u)
            }
        }
        self.words.push(w.clone());
        w
    }

    /// Whitespace of some length, at times with tabs
    fn lead(&mut self, n: usize) -> String {
        if n > 0 && self.o.layout && self.r.chance(1, 12) {
            (0..n).map(|_| *self.r.pick(&[' ', '\t', '\t'])).collect()
        } else {
            " ".repeat(n)
        }
    }

    fn spaces(&mut self, max: usize) -> String {
        if self.o.layout {
            let n = self.r.range(0, max);
            self.lead(n)
        } else {
            String::new()
        }
    }

    /// Words with punctuation that means nothing, starting and ending with a
    /// word; `first`: at the start of a line
    fn text(&mut self, c: Ctx, ban: &mut Vec<&'static str>, first: bool) -> String {
        let mut s = self.word();
        let n = self.r.range(0, 3);
        for i in 0..n {
            if !(first && i == 0) && self.r.chance(1, 4) {
                s.push_str(*self.r.pick(&[".", ")", ",", ";", "!", "?", ":", "/", "(", "-", "@", "+"]));
            } else if self.o.meta && self.r.chance(1, 3) {
                s.push_str(*self.r.pick(&["&", "<", ">", "\"", "'", "&amp;", "<b>", "</p>", "<!--", "-->", "<br />", "\" x=\"", "&#x41;", "<script>"]));
                if c.no_eq && s.contains('=') {
                    s = s.replace('=', "");
                }
            }
            s.push_str(if self.r.chance(1, 8) { "  " } else { " " });
            if self.o.links && self.r.chance(1, 24) {
                // An address is a link only where a word starts
                let w = self.word();
                s.push_str(&format!("{}http://ab.cd/{}) ", self.r.pick(&["(", "'", "!(", "x("]), w));
            }
            if self.o.inline && self.r.chance(1, 7) {
                let l = *self.r.pick(LONES);
                let bad = ban.contains(&l)
                    || (c.no_eq && l == "=")
                    || (c.no_pipe && l == "|")
                    || (l == "]]" && ban.contains(&"[["))
                    || (l == "}}" && ban.contains(&"{{"))
                    || (c.cell && (l == ">" || l == "-"));
                if !bad {
                    ban.push(l);
                    s.push_str(l);
                    s.push(' ');
                }
            }
            s.push_str(&self.word());
        }
        s
    }

    fn put(&mut self, t: &str) -> usize {
        let at = self.s.len();
        self.s.push_str(t);
        at
    }

    fn node_at(&self, mut n: Node, from: usize) -> Node {
        n.region = Some((from, self.s.len() - from));
        n
    }

    fn banned(ban: &[&'static str], t: &str) -> bool {
        ban.iter().any(|b| match *b {
            "*" | "_" | "~~" | "^" | ",," | "`" | "$" => t.contains(b),
            "[[" => t.contains("]]"),
            "{{" => t.contains("}}"),
            "%" => t.contains('%'),
            _ => false,
        })
    }

    /// One line of inline content
    pub fn line(&mut self, c: Ctx) -> Vec<Node> {
        let mut ban: Vec<&'static str> = vec![];
        if c.no_pipe {
            ban.push("|");
        }
        let mut out: Vec<Node> = vec![];
        let n = if self.r.chance(1, 3) { 1 } else { self.r.range(2, 6) };
        let mut prev = ""; // kind of the previous piece
        for i in 0..n {
            let mut k = if !self.o.inline { 0 } else { self.r.below(12) };
            if k > 11 {
                k = 0;
            }
            let kind = match k {
                0..=3 => "text",
                4..=5 => "deco",
                6 => "keyword",
                7 => "tags",
                8 => "icode",
                9 => "imath",
                10 if self.o.links => "link",
                11 if self.o.comments => "comment",
                _ => "text",
            };
            let spaced = |k: &str| matches!(k, "text" | "tags" | "raw");
            let lead = i > 0
                && ((spaced(kind) && spaced(prev)) || kind == "tags" || prev == "tags" || prev == "raw" || self.r.chance(2, 3));
            let from = self.s.len();
            if lead {
                self.s.push(' ');
            }
            let start = self.s.len();
            // A piece that turns out not to be allowed is taken back
            let made: Option<(&'static str, Node)> = match kind {
                "text" => {
                    let t = self.text(c, &mut ban, i == 0);
                    self.put(&t);
                    Some(("text", Node::leaf("text", t)))
                }
                "deco" => self.deco(c, &ban, "", 0).map(|n| ("deco", n)),
                "keyword" => {
                    let k = *self.r.pick(KEYWORDS);
                    self.put(k);
                    Some(("keyword", Node::leaf("keyword", k)))
                }
                "tags" if !(self.s.is_empty() || self.s.ends_with([' ', '\n'])) => None,
                "tags" => {
                    let m = self.r.range(1, 3);
                    let tags: Vec<String> = (0..m)
                        .map(|_| {
                            let w = self.word();
                            if self.r.chance(1, 3) { format!("{}{}{}", w, self.r.pick(&["-", ".", "+"]), self.r.below(10)) } else { w }
                        })
                        .collect();
                    let t = format!(":{}:", tags.join(":"));
                    self.put(&t);
                    Some(("tags", Node::new("tags").k(tags.into_iter().map(|t| Node::leaf("tag", t)).collect())))
                }
                "icode" => {
                    let t = self.verbatim(c, &ban, '`');
                    self.put(&format!("`{}`", t));
                    Some(("icode", Node::leaf("icode", t)))
                }
                "imath" => {
                    let t = self.verbatim(c, &ban, '$');
                    self.put(&format!("${}$", t));
                    Some(("imath", Node::leaf("imath", t)))
                }
                "link" => self.link(c, true, i == 0 || lead).map(|n| {
                    (if n.get("type") == Some("raw") { "raw" } else { "link" }, n)
                }),
                "comment" => {
                    let last = i + 1 == n;
                    if last && !c.cell && self.r.bool() {
                        let t = format!("{}{}", if self.r.bool() { " " } else { "" }, self.text(c, &mut ban.clone(), true));
                        if t.contains("%%") {
                            None
                        } else {
                            self.put("%%");
                            self.put(&t);
                            Some(("comment", Node::leaf("comment", t)))
                        }
                    } else {
                        let mut lines = vec![];
                        self.put("%%+");
                        let k = if c.long && self.o.long_comments && self.r.bool() { self.r.range(1, 3) } else { 1 };
                        for j in 0..k {
                            let a = self.word();
                            let t = format!(" {} ", if self.r.bool() { a } else { let b = self.word(); let x = *self.r.pick(&["*", "*", "+", "+%", "++", "%+", "+ %"]); format!("{} {} {}", a, x, b) });
                            // A line without anything but whitespace is one, too
                            let t = if self.r.chance(1, 8) { " ".repeat(self.r.range(if j > 0 && j + 1 < k { 0 } else { 1 }, 3)) } else { t };
                            self.put(&t);
                            if j + 1 < k {
                                self.put("\n");
                            }
                            lines.push(Node::leaf("mcline", t));
                        }
                        self.put("+%%");
                        Some(("mcomment", Node::new("mcomment").k(lines)))
                    }
                }
                _ => None,
            };
            let made = match made {
                Some((k, n)) => {
                    let t = self.s[start..].to_string();
                    let ok = k == "text"
                        || !(Self::banned(&ban, &t)
                            || (c.no_pipe && t.contains('|'))
                            || (c.no_eq && t.contains('='))
                            || (c.def && t.contains("::")));
                    if ok { Some((k, n)) } else { None }
                }
                None => None,
            };
            match made {
                None => {
                    // Comments and such hold words nobody sees then
                    self.s.truncate(from);
                    if i == 0 {
                        let w = self.word();
                        let at = self.put(&w);
                        out.push(self.node_at(Node::leaf("text", w), at));
                        prev = "text";
                    }
                }
                Some((k, n)) => {
                    if lead {
                        let mut sp = Node::leaf("text", " ");
                        sp.region = Some((from, 1));
                        out.push(sp);
                    }
                    out.push(self.node_at(n, start));
                    prev = k;
                }
            }
        }
        merge_text(out)
    }

    fn verbatim(&mut self, c: Ctx, ban: &[&'static str], delim: char) -> String {
        let mut s = self.word();
        for _ in 0..self.r.range(0, 2) {
            let x = *self.r.pick(&[" ", "*", "_", "^", "~~", "[[", "]]", "{", "}", "<", ">", "&", "\"", "\\", "=", ":", "TODO", "$", "`", ",,", "'", "%", "#", " "]);
            if x.starts_with(delim)
                || Self::banned(ban, x)
                || (c.no_eq && x == "=")
                || (c.def && x == ":")
                || (!self.o.meta && "<>&\"'".contains(x))
                || x == "%" && s.ends_with('%')
            {
                continue;
            }
            s.push_str(x);
            if self.r.bool() {
                s.push_str(&self.word());
            }
        }
        if s.ends_with('%') || s.ends_with(':') {
            s.push_str(&self.word());
        }
        s
    }

    /// Decorated text whose content has none of the delimiters around it
    fn deco(&mut self, c: Ctx, ban: &[&'static str], outer: &str, depth: usize) -> Option<Node> {
        let (kind, d) = *self.r.pick(DECO);
        if ban.contains(&d) || outer.contains(d) {
            return None;
        }
        let outer = format!("{}{}", outer, d);
        self.put(d);
        let from = self.s.len();
        let mut kids: Vec<Node> = vec![];
        let n = self.r.range(1, 3);
        let mut prev = "";
        for _ in 0..n {
            let k = if depth > 2 { 0 } else { self.r.below(9) };
            let at = self.s.len();
            let sp = !kids.is_empty() && (prev == "text" && k <= 5 || self.r.chance(2, 3));
            if sp {
                self.put(" ");
            }
            let start = self.s.len();
            let made = match k {
                0..=5 => {
                    let mut t = self.word();
                    if self.r.chance(1, 3) {
                        t.push(' ');
                        t.push_str(&self.word());
                    }
                    if self.o.meta && self.r.chance(1, 4) {
                        t.push_str(*self.r.pick(&["<", "&", "\"", ">", "'"]));
                    }
                    self.put(&t);
                    prev = "text";
                    Some(Node::leaf("text", t))
                }
                6 => {
                    let k = *self.r.pick(KEYWORDS);
                    self.put(k);
                    prev = "";
                    Some(Node::leaf("keyword", k))
                }
                7 if self.o.links => {
                    let l = self.link(c, false, false);
                    let t = &self.s[start..];
                    if DECO.iter().any(|x| t.contains(x.1)) {
                        None
                    } else {
                        prev = "";
                        l
                    }
                }
                _ => {
                    let d = self.deco(c, ban, &outer, depth + 1);
                    if d.is_some() {
                        prev = "";
                    }
                    d
                }
            };
            match made {
                None => self.s.truncate(at),
                Some(n) => {
                    if sp {
                        let mut s = Node::leaf("text", " ");
                        s.region = Some((at, 1));
                        kids.push(s);
                    }
                    kids.push(self.node_at(n, start));
                }
            }
        }
        if self.s.len() == from {
            let w = self.word();
            let at = self.put(&w);
            kids.push(self.node_at(Node::leaf("text", w), at));
        }
        self.put(d);
        Some(Node::new(kind).k(merge_text(kids)))
    }

    fn path(&mut self) -> String {
        let n = if self.r.chance(1, 3) { self.r.range(2, 3) } else { 1 };
        let mut v = vec![];
        for _ in 0..n {
            let mut w = self.word();
            if self.r.chance(1, 5) {
                w = format!("{} {}", w, self.word());
            }
            if self.r.chance(1, 8) {
                w.push_str(*self.r.pick(&[".html", ".txt", "-1", "(x)", "+y", ",z", "%20k", "%25"]));
            }
            v.push(w);
        }
        let mut s = v.join("/");
        if self.r.chance(1, 8) {
            s.insert_str(0, *self.r.pick(&["/", "../", "./", "../../"]));
        }
        if self.r.chance(1, 10) {
            s.push('/');
        }
        s
    }

    fn anchor(&mut self) -> String {
        let mut s = String::new();
        for _ in 0..self.r.range(1, 2) {
            s.push('#');
            s.push_str(&self.word());
            if self.r.chance(1, 3) {
                s.push(' ');
                s.push_str(&self.word());
            }
        }
        s
    }

    fn desc(&mut self) -> String {
        let mut s = self.word();
        for _ in 0..self.r.range(0, 2) {
            s.push_str(*self.r.pick(&[" ", " ", "-", ", ", " TODO ", "!", " (", "] "]));
            s.push_str(&self.word());
        }
        if self.o.meta && self.r.chance(1, 3) {
            s.push_str(*self.r.pick(&["<", ">", "&", "\"", "'", "<b>"]));
        }
        s
    }

    fn props(&mut self) -> (String, String) {
        let n = self.r.range(1, 2);
        let mut v = vec![];
        for i in 0..n {
            let k = format!("{}{}", self.r.pick(&["class", "style", "width", "data-x"]), if i > 0 { "2" } else { "" });
            let mut val = self.word();
            if self.r.chance(1, 3) {
                val.push_str(*self.r.pick(&[" a", ":1px;", "=", "<", "&", "'", "|", ">"]));
            }
            v.push((k, val));
        }
        let text = v.iter().map(|(k, x)| format!("{}=\"{}\"", k, x)).collect::<Vec<_>>().join(" ");
        (text, crate::walk::props(v))
    }

    /// A link; raw ones only where there is whitespace around
    fn link(&mut self, c: Ctx, desc_ok: bool, spaced: bool) -> Option<Node> {
        let desc = desc_ok && !c.no_pipe;
        let k = self.r.below(if spaced { 9 } else { 8 });
        let mut n = Node::new("link");
        let has_desc = desc && self.r.bool();
        let mut target = String::new();
        let (raw, open, close): (String, &str, &str) = match k {
            0..=2 => {
                n = n.a("type", "wiki");
                let mut p = match self.r.below(8) {
                    0 => self.anchor(),
                    1 => format!("{}{}", self.r.pick(&["file:", "local:", "//", "http://x.yz/"]), self.path().trim_start_matches(['/', '.'])),
                    _ => self.path(),
                };
                if !p.contains('#') && self.r.chance(1, 4) {
                    p.push_str(&self.anchor());
                }
                if p.starts_with("//") && p.matches('/').count() == 2 {
                    let i = p.find('#').unwrap_or(p.len());
                    p.insert(i, '/');
                }
                (p, "[[", "]]")
            }
            3 => {
                let i = self.r.below(20);
                n = n.a("type", "indexed").a("index", i.to_string());
                target = format!("wiki{}:", i);
                (self.path(), "[[", "]]")
            }
            4 => {
                let mut w = self.word();
                if self.r.chance(1, 3) {
                    w = format!("{} {}", w, self.word());
                }
                target = format!("wn.{}:", w);
                n = n.a("type", "named").a("name", w);
                let mut p = self.path();
                if self.r.chance(1, 4) {
                    p.push_str(&self.anchor());
                }
                (p, "[[", "]]")
            }
            5 => {
                let d = format!("{:04}-{:02}-{:02}", self.r.range(1900, 2100), self.r.range(1, 12), self.r.range(1, 28));
                target = format!("diary:{}", d);
                n = n.a("type", "diary").a("date", d);
                (if self.r.chance(1, 3) { self.anchor() } else { String::new() }, "[[", "]]")
            }
            6 | 7 => {
                n = n.a("type", "transclusion");
                let p = self.path();
                (
                    match self.r.below(4) {
                        0 => format!("file:{}", p),
                        1 => format!("local:{}", p),
                        2 => format!("http://ab.cd/{}", p.trim_start_matches(['/', '.'])),
                        _ => p,
                    },
                    "{{",
                    "}}",
                )
            }
            _ => {
                let w = self.word().replace(|c: char| !c.is_ascii(), "x");
                let v = self.word().replace(|c: char| !c.is_ascii(), "x");
                let u = match self.r.below(7) {
                    0 => format!("http://{}.org/{}", w, v),
                    1 => format!("https://{}.org/{}?q={}#{}", w, v, v, w),
                    2 => format!("ftp://{}.net/{}", w, v),
                    3 => format!("mailto:{}@{}.org", w, v),
                    4 => format!("file:/{}/{}.txt", w, v),
                    5 => format!("local:{}/{}.txt", w, v),
                    _ => format!("https://{}.org:80/", w),
                };
                self.put(&u);
                return Some(n.a("type", "raw").a("uri", u));
            }
        };
        self.put(open);
        self.put(&target);
        self.put(&raw);
        n = n.a("uri", link_uri(&raw));
        if has_desc {
            self.put("|");
            if k != 6 && k != 7 && self.r.chance(1, 5) {
                // Image as description
                let u = format!("{}.png", self.path().trim_end_matches('/'));
                let mut e = Node::new("embed").a("uri", link_uri(&u));
                self.put("{{");
                self.put(&u);
                if self.r.bool() {
                    let d = self.desc();
                    self.put("|");
                    self.put(&d);
                    e = e.a("desc", d);
                    if self.r.bool() {
                        let (t, m) = self.props();
                        self.put("|");
                        self.put(&t);
                        e = e.a("props", m);
                    }
                }
                self.put("}}");
                n.kids.push(e);
            } else {
                let d = self.desc();
                self.put(&d);
                n = n.a("desc", d);
            }
            if matches!(k, 0..=2 | 6 | 7) && self.r.chance(1, 3) {
                let (t, m) = self.props();
                self.put("|");
                self.put(&t);
                n = n.a("props", m);
            }
        }
        self.put(close);
        Some(n)
    }

    // ----- blocks -----

    fn nl(&mut self) {
        self.s.push('\n');
    }

    fn header(&mut self) -> Node {
        let l = self.r.range(1, 6);
        let ind = if self.r.chance(1, 4) { self.r.range(1, 6) } else { 0 };
        let t = self.lead(ind);
        self.put(&t);
        self.put(&"=".repeat(l));
        let a = if self.o.layout { self.r.range(0, 2) } else { 1 };
        let t = self.lead(a);
        self.put(&t);
        let kids = self.line(Ctx { no_eq: true, cell: true, ..Ctx::default() });
        let a = if self.o.layout { self.r.range(0, 2) } else { 1 };
        let t = self.lead(a);
        self.put(&t);
        self.put(&"=".repeat(l));
        let a = self.spaces(2);
        self.put(&a);
        self.nl();
        Node::new("header").a("level", l.to_string()).a("centered", (ind > 0).to_string()).k(kids)
    }

    fn para(&mut self) -> Node {
        let n = self.r.range(1, 4);
        let mut v = vec![];
        for i in 0..n {
            let a = self.spaces(if i == 0 { 3 } else { 6 });
            self.put(&a);
            let k = self.line(Ctx { long: true, ..Ctx::default() });
            v.push(Node::new("line").k(k));
            self.nl();
        }
        Node::new("para").k(v)
    }

    /// A line of a verbatim block; never its end
    fn raw_line(&mut self) -> String {
        match self.r.below(8) {
            0 => String::new(),
            1 => {
                let t = crate::fuzz::soup(self.r, 6).replace(['\n', '\r'], " ");
                let t = if t.trim_start().starts_with("}}") { String::new() } else { t };
                if t.chars().all(|c| c.is_whitespace()) { String::new() } else { t.trim_start().to_string() }
            }
            2 => {
                let w = self.word();
                format!("{} {}", self.r.pick(&["-", "*", "=", "|", "> ", "%%", ":a:", "{{{x", "{{$", "----", "[[", "%title"]), w)
            }
            _ => {
                let a = self.word();
                let b = self.word();
                format!("{}{}{}", a, self.r.pick(&[" ", "; ", " = ", "<", "&", "\t", " :: "]), b)
            }
        }
    }

    /// Lines between a start and an end of which `ind` characters of
    /// indentation count; each line has at least `min` characters of
    /// indentation if it is within a list item
    fn raw_lines(&mut self, kind: &'static str, ind: usize, min: Option<usize>) -> Vec<Node> {
        let mut v = vec![];
        for _ in 0..self.r.range(0, 5) {
            let mut t = self.raw_line();
            let extra = self.r.below(4);
            let lead = match min {
                None => *self.r.pick(&[ind, ind, ind + extra, ind.saturating_sub(1), 0]),
                Some(m) => *self.r.pick(&[ind, ind, ind + extra, m.max(ind.saturating_sub(1))]),
            };
            let mut lead = " ".repeat(lead);
            if t.is_empty() {
                // A blank line, empty outside of list items
                if min.is_none() {
                    lead.clear();
                } else if lead.len() < ind + 1 {
                    lead = " ".repeat(ind + 1);
                }
            }
            if min.is_some() && t.contains("::") {
                t = t.replace("::", ";;");
            }
            let line = format!("{}{}", lead, t);
            self.put(&line);
            self.nl();
            let have = line.len() - line.trim_start_matches([' ', '\t']).len();
            v.push(Node::leaf(kind, &line[have.min(ind)..]));
        }
        v
    }

    fn code(&mut self, ind: usize, min: Option<usize>) -> Node {
        let mut n = Node::new("code");
        let t = self.lead(ind);
        self.put(&t);
        self.put("{{{");
        let lang = self.r.bool();
        if lang {
            let l = self.r.pick(&["rust", "c++", "python", "objective-c", "é"]).to_string();
            self.put(&l);
            n = n.a("lang", l);
        }
        let mut m: Vec<(String, String)> = vec![];
        if self.r.chance(1, 3) {
            for i in 0..self.r.range(1, 3) {
                let mut k = format!("{}{}", self.r.pick(&["class", "key", "data-x", "id"]), i);
                if i == 1 && self.r.chance(1, 2) {
                    // Other letters, other key
                    let o: &(String, String) = &m[0];
                    k = o.0.to_uppercase();
                }
                let v = if self.r.chance(1, 6) {
                    self.r.pick(&["", " "]).to_string()
                } else {
                    format!("{}{}", self.word(), self.r.pick(&["", " x", "=", "<", "&", ": 1"]))
                };
                if i > 0 || lang {
                    let n = 1 + self.spaces(1).len();
                    let t = self.lead(n);
                    self.put(&t);
                }
                self.put(&format!("{}=\"{}\"", k, v));
                m.push((k, v));
            }
        }
        let a = if lang || !m.is_empty() { String::new() } else { self.spaces(2) };
        self.put(&a);
        self.nl();
        let kids = self.raw_lines("cline", ind, min);
        let t = self.lead(ind);
        self.put(&t);
        self.put("}}}");
        let a = self.spaces(2);
        self.put(&a);
        self.nl();
        n.a("meta", crate::walk::props(m)).k(kids)
    }

    fn math(&mut self, ind: usize, min: Option<usize>) -> Node {
        let mut n = Node::new("math");
        let t = self.lead(ind);
        self.put(&t);
        self.put("{{$");
        if self.r.chance(1, 3) {
            let e = self.r.pick(&["align", "align*", "gather", "é", "a b", " x", "{y}"]).to_string();
            self.put(&format!("%{}%", e));
            n = n.a("env", e);
        }
        self.nl();
        let kids = self.raw_lines("mline", ind, min);
        let t = self.lead(ind);
        self.put(&t);
        self.put("}}$");
        self.nl();
        n.k(kids)
    }

    fn quote_text(&mut self) -> String {
        let mut t = self.word();
        for _ in 0..self.r.range(0, 3) {
            t.push_str(*self.r.pick(&[" ", "  ", " * ", ", ", " `", " [[", " = ", "! ", " | ", " %% "]));
            t.push_str(&self.word());
        }
        if self.o.meta && self.r.chance(1, 4) {
            t.push_str(*self.r.pick(&["<b>", "&", "\"", "</p>", "<!--"]));
        }
        t
    }

    fn quote(&mut self, ind: Option<usize>) -> Node {
        let n = if self.r.chance(1, 200) { self.r.range(60, 160) } else { self.r.range(1, 5) };
        let mut v = vec![];
        for i in 0..n {
            if i > 0 && ind.is_none() && self.r.chance(1, 5) {
                // Blank lines may be in between
                for _ in 0..self.r.range(1, 2) {
                    self.nl();
                    v.push(Node::leaf("qline", ""));
                }
            }
            let a = match ind {
                Some(x) => self.lead(x),
                None => self.spaces(3),
            };
            self.put(&a);
            let t = if i > 0 && i + 1 < n && self.r.chance(1, 8) { String::new() } else { self.quote_text() };
            if t.is_empty() && self.r.bool() {
                self.put(">");
            } else {
                self.put("> ");
            }
            self.put(&t);
            self.nl();
            v.push(Node::leaf("qline", t));
        }
        Node::new("quote").k(v)
    }

    fn iquote(&mut self) -> Node {
        let n = self.r.range(1, 4);
        let mut v = vec![];
        for _ in 0..n {
            let a = if self.o.layout { self.r.range(4, 7) } else { 4 };
            let t = self.lead(a);
            self.put(&t);
            let t = self.quote_text();
            self.put(&t);
            self.nl();
            v.push(Node::leaf("qline", t));
        }
        Node::new("quote").k(v)
    }

    fn deflist(&mut self, ind: usize) -> Node {
        let c = Ctx { def: true, ..Ctx::default() };
        let n = self.r.range(1, 3);
        let mut v = vec![];
        for _ in 0..n {
            let t = self.lead(ind);
            self.put(&t);
            let w = self.word();
            let at = self.put(&w);
            let mut term = vec![self.node_at(Node::leaf("text", w), at)];
            if self.o.inline && self.r.chance(1, 3) {
                let at = self.put(" ");
                term.push(self.node_at(Node::leaf("text", " "), at));
                let save = self.o.comments;
                self.o.comments = false;
                let l = self.line(Ctx { cell: true, ..c });
                self.o.comments = save;
                term.extend(l);
            }
            // A colon would join those that end the term
            if self.s.ends_with(':') {
                let at = self.put(" ");
                term.push(self.node_at(Node::leaf("text", " "), at));
            }
            self.put("::");
            let mut defs = vec![];
            if self.r.chance(2, 3) {
                let n = 1 + self.spaces(2).len();
                let t = self.lead(n);
                self.put(&t);
                let k = self.line(c);
                defs.push(Node::new("def").k(k));
            }
            self.nl();
            let m = if defs.is_empty() { self.r.range(1, 3) } else { self.r.below(3) };
            for _ in 0..m {
                let t = self.lead(ind);
                self.put(&t);
                self.put("::");
                let n = 1 + self.spaces(2).len();
                let t = self.lead(n);
                self.put(&t);
                let k = self.line(c);
                defs.push(Node::new("def").k(k));
                self.nl();
            }
            v.push(Node::new("entry").k(vec![Node::new("term").k(merge_text(term)), Node::new("defs").k(defs)]));
        }
        Node::new("deflist").k(v)
    }

    fn placeholder(&mut self) -> Node {
        let n = Node::new("placeholder");
        let n = match self.r.below(5) {
            0 => {
                let v = self.quote_text();
                let t = self.lead(1);
                self.put(&format!("%title{}{}", t, v));
                n.a("name", "title").a("value", v)
            }
            1 => {
                self.put("%nohtml");
                n.a("name", "nohtml")
            }
            2 => {
                let v = self.word();
                let t = self.lead(1);
                self.put(&format!("%template{}{}", t, v));
                n.a("name", "template").a("value", v)
            }
            3 => {
                let y = if self.r.chance(1, 4) { self.r.range(1000, 9999) } else { self.r.range(1900, 2100) };
                let d = format!("{:04}-{:02}-{:02}", y, self.r.range(1, 12), self.r.range(1, 28));
                let t = self.lead(1);
                self.put(&format!("%date{}{}", t, d));
                n.a("name", "date").a("value", d)
            }
            _ => {
                let k = self.word();
                let v = self.quote_text();
                let t = self.lead(1);
                self.put(&format!("%{}{}{}", k, t, v));
                n.a("name", "other").a("key", k).a("value", v)
            }
        };
        self.nl();
        n
    }

    fn table(&mut self, ind: Option<usize>) -> Node {
        let first = match ind {
            Some(x) => x,
            None => if self.r.chance(1, 4) { self.r.range(1, 5) } else { 0 },
        };
        let (rows, cols) = match self.r.below(100) {
            0 => (self.r.range(6, 90), self.r.range(1, 2)),
            1 => (self.r.range(1, 2), self.r.range(6, 40)),
            _ => (self.r.range(1, 5), self.r.range(1, 5)),
        };
        let ragged = self.r.chance(1, 4);
        let with_content = self.r.below(rows);
        let mut v = vec![];
        for i in 0..rows {
            let a = match ind {
                Some(x) => x,
                None if i == 0 => first,
                None => self.r.below(if first > 0 { 4 } else { 1 }),
            };
            let t = self.lead(a);
            self.put(&t);
            let n = if ragged { self.r.range(1, cols) } else { cols };
            let mut row = Node::new("row").a("row", i.to_string());
            let divider = i != with_content && self.r.chance(1, 4);
            self.put("|");
            for j in 0..n {
                let mut cell = if divider {
                    let (t, k) = *self.r.pick(&[("-", "none"), ("---", "none"), (":--", "left"), (":-", "left"), ("--:", "right"), (":-:", "center"), (":---:", "center")]);
                    if self.r.chance(1, 20) {
                        let n = self.r.range(10, 120);
                        self.put(&t.replacen('-', &"-".repeat(n), 1));
                    } else {
                        self.put(t);
                    }
                    Node::new("align").a("to", k)
                } else {
                    match self.r.below(9) {
                        0 => {
                            self.put(*self.r.clone().pick(&[">", " > ", "> "]));
                            self.r.next();
                            Node::new("span").a("from", "left")
                        }
                        1 => {
                            self.put(*self.r.clone().pick(&["\\/", " \\/ ", " \\/"]));
                            self.r.next();
                            Node::new("span").a("from", "above")
                        }
                        2 => {
                            self.put(" ");
                            Node::new("cell").k(vec![Node::leaf("text", " ")])
                        }
                        _ => {
                            let pad = if self.o.layout { self.r.below(3) } else { 1 };
                            let at = self.put(&" ".repeat(pad));
                            let mut kids = vec![];
                            if pad > 0 {
                                kids.push(self.node_at(Node::leaf("text", " ".repeat(pad)), at));
                            }
                            let l = self.line(Ctx { no_pipe: true, cell: true, ..Ctx::default() });
                            kids.extend(l);
                            let pad = if self.o.layout { self.r.below(3) } else { 1 };
                            if pad > 0 {
                                let at = self.put(&" ".repeat(pad));
                                kids.push(self.node_at(Node::leaf("text", " ".repeat(pad)), at));
                            }
                            Node::new("cell").k(merge_text(kids))
                        }
                    }
                };
                cell.attrs.insert(0, ("col", j.to_string()));
                row.kids.push(cell);
                self.put("|");
            }
            self.nl();
            v.push(row);
        }
        Node::new("table").a("centered", (ind.is_none() && first > 0).to_string()).k(v)
    }

    pub fn list(&mut self, ind: usize, depth: usize) -> Node {
        let (ty, suffixes): (&str, &[&str]) = *self.r.pick(&[
            ("-", &[""] as &[&str]),
            ("*", &[""]),
            ("#", &[""]),
            ("1", &[".", ")"]),
            ("1", &[".", ")"]),
            ("a", &[".", ")"]),
            ("A", &[".", ")"]),
            ("i", &[".", ")"]),
            ("I", &[".", ")"]),
        ]);
        let sfx = *self.r.pick(suffixes);
        let n = if self.r.chance(1, 20) { if self.r.chance(1, 10) { self.r.range(60, 110) } else { self.r.range(5, 30) } } else { self.r.range(1, 4) };
        let mut items = vec![];
        for pos in 0..n {
            let t = self.lead(ind);
            self.put(&t);
            // Any number is one, not only that of the position
            let m = match self.r.below(24) {
                0 if ty == "1" => self.r.pick(&["0", "7", "007", "4096", "12345", "20240131", "18446744073709551616"]).to_string(),
                _ => marker(ty, pos),
            };
            self.put(&m);
            self.put(sfx);
            self.put(" ");
            let mut it = Node::new("item").a("type", ty).a("suffix", sfx).a("pos", pos.to_string());
            if self.r.chance(1, 3) {
                let t = *self.r.pick(&[" ", ".", "o", "O", "X", "-"]);
                self.put(&format!("[{}] ", t));
                it = it.a("todo", t);
            }
            it.kids = self.item_content(ind, depth, n > 4);
            items.push(it);
        }
        Node::new("list").k(items)
    }

    fn item_content(&mut self, ind: usize, depth: usize, short: bool) -> Vec<Node> {
        let c = Ctx::default();
        let mut v = vec![];
        // First paragraph
        let mut lines = vec![];
        let l = self.line(c);
        lines.push(Node::new("line").k(l));
        self.nl();
        if !short && self.r.chance(1, 3) {
            for _ in 0..self.r.range(1, 2) {
                let a = ind + 1 + self.r.below(4);
                let t = self.lead(a);
                self.put(&t);
                let l = self.line(c);
                lines.push(Node::new("line").k(l));
                self.nl();
            }
        }
        v.push(Node::new("para").k(lines));
        if short || depth == 0 {
            return v;
        }
        let mut prev = "para";
        let mut floor = usize::MAX; // indentation that a previous sublist has
        let n = if self.r.chance(1, 3) { self.r.range(2, 5) } else { self.r.below(3) };
        for _ in 0..n {
            let a = ind + 1 + self.r.below(4);
            if prev == "list" && a > floor {
                // Would be part of the sublist
                continue;
            }
            let k = *self.r.pick(&["list", "list", "list", "code", "math", "table", "quote", "deflist", "para"]);
            // A list that is less indented is another one
            if k == prev && !(k == "list" && a < floor) {
                continue;
            }
            let n = match k {
                "list" => {
                    floor = a;
                    self.list(a, depth - 1)
                }
                "code" => self.code(a, Some(ind + 1)),
                "math" => self.math(a, Some(ind + 1)),
                "table" => self.table(Some(a)),
                "quote" => self.quote(Some(a)),
                "deflist" => self.deflist(a),
                _ => {
                    let t = self.lead(a);
                    self.put(&t);
                    let l = self.line(c);
                    self.nl();
                    Node::new("para").k(vec![Node::new("line").k(l)])
                }
            };
            prev = k;
            v.push(n);
        }
        v
    }

    pub fn block(&mut self, kind: &str) -> Node {
        match kind {
            "header" => self.header(),
            "para" => self.para(),
            "list" => {
                let ind = if self.o.layout && self.r.chance(1, 4) { self.r.range(1, 3) } else { 0 };
                let d = self.o.list_depth;
                self.list(ind, d)
            }
            "table" => self.table(None),
            "code" => {
                let a = if self.o.layout { self.r.below(6) } else { 0 };
                self.code(a, None)
            }
            "math" => {
                let a = if self.o.layout { self.r.below(6) } else { 0 };
                self.math(a, None)
            }
            "quote" => self.quote(None),
            "iquote" => self.iquote(),
            "deflist" => self.deflist(0),
            "divider" => {
                let n = if self.r.chance(1, 20) { self.r.range(10, 300) } else { self.r.range(4, 9) };
                self.put(&"-".repeat(n));
                self.nl();
                Node::new("divider")
            }
            _ => self.placeholder(),
        }
    }

    /// A page of blocks; blank lines where needed and sometimes where not
    pub fn page(mut self) -> Doc {
        let mut blocks: Vec<Node> = vec![];
        let n = self.r.range(self.o.blocks.0, self.o.blocks.1);
        if self.o.layout {
            for _ in 0..self.r.below(3) {
                self.nl();
            }
        }
        let mut prev: &str = "";
        let mut prev_lead = 0;
        for _ in 0..n {
            let kind = *self.r.pick(&self.o.kinds.clone());
            if kind == "quote" && prev == "quote" {
                continue;
            }
            let at = self.s.len();
            let node = self.block(kind);
            let text = self.s[at..].to_string();
            self.s.truncate(at);
            let indented = text.starts_with([' ', '\t']);
            let deep = text.len() - text.trim_start_matches([' ', '\t']).len() >= 4;
            let lead = text.len() - text.trim_start_matches([' ', '\t']).len();
            let need = match (prev, kind) {
                ("", _) => false,
                // Less indented, so not a part of the list
                ("list", "list") => lead >= prev_lead,
                (a, b) if a == b => !matches!(a, "header" | "divider" | "placeholder" | "code" | "math"),
                ("para", "iquote") => true,
                ("list", _) => indented,
                ("iquote", _) => deep,
                ("quote", "iquote") => false,
                _ => false,
            };
            let mut blanks = if need { 1 } else { 0 };
            if self.o.layout {
                if self.r.bool() {
                    blanks += self.r.below(3);
                }
            } else {
                blanks = 1;
            }
            for _ in 0..blanks {
                self.nl();
            }
            let shift = self.s.len() as isize - at as isize;
            self.s.push_str(&text);
            let mut node = node;
            node.walk_mut(&mut |x| {
                if let Some((o, l)) = x.region {
                    x.region = Some(((o as isize + shift) as usize, l));
                }
            });
            blocks.push(node);
            prev = kind;
            prev_lead = lead;
        }
        if self.o.layout {
            match self.r.below(4) {
                0 => {
                    self.s.pop();
                }
                1 => self.nl(),
                _ => (),
            }
        }
        Doc { text: self.s, page: Node::new("page").k(blocks) }
    }
}

/// The part of a link target that names a page or file, decoded; what follows
/// the first # is its anchor
pub fn link_uri(raw: &str) -> String {
    pct(raw)
}

/// Marker of an item at a position within a list
pub fn marker(ty: &str, pos: usize) -> String {
    match ty {
        "-" | "*" | "#" => ty.to_string(),
        "1" => (pos + 1).to_string(),
        "a" => alpha(pos),
        "A" => alpha(pos).to_uppercase(),
        "i" => roman(pos + 1),
        _ => roman(pos + 1).to_uppercase(),
    }
}

fn alpha(pos: usize) -> String {
    let mut n = pos + 1;
    let mut s = vec![];
    while n > 0 {
        n -= 1;
        s.push(b'a' + (n % 26) as u8);
        n /= 26;
    }
    s.reverse();
    String::from_utf8(s).unwrap()
}

fn roman(mut n: usize) -> String {
    const R: &[(usize, &str)] = &[
        (1000, "m"), (900, "cm"), (500, "d"), (400, "cd"), (100, "c"), (90, "xc"), (50, "l"), (40, "xl"),
        (10, "x"), (9, "ix"), (5, "v"), (4, "iv"), (1, "i"),
    ];
    let mut s = String::new();
    for (v, t) in R {
        while n >= *v {
            s.push_str(t);
            n -= v;
        }
    }
    s
}

pub fn any_doc(r: &mut Rng) -> Doc {
    let o = Opts::any(r);
    G::new(r, o).page()
}

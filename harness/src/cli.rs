//! Runs the real `vimwiki` program as an unprivileged user within a scratch
//! directory, with its operations on files logged by a preloaded library, and
//! looks at what it leaves behind.
use crate::rng::Rng;
use crate::{fuzz, gen};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::fs;
use std::os::unix::fs::{chown, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use vimwiki::*;

const BIN: &str = "/verif/target/cli/debug/vimwiki";
const SHIM: &str = "/verif/target/cli/shim.so";
const NOBODY: u32 = 65534;

pub struct Ev {
    pub op: String,
    pub ret: i64,
    pub path: PathBuf,
}

pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: String,
    pub events: Vec<Ev>,
}

impl Out {
    /// Paths on which something was changed or tried to be
    pub fn changes(&self) -> impl Iterator<Item = &Ev> {
        self.events.iter().filter(|e| e.op != "openr" && e.op != "killed" && e.op != "injected")
    }
    pub fn panicked(&self) -> bool {
        self.code == Some(101) || self.stderr.contains("panicked at")
    }
    pub fn show(&self) -> String {
        format!("exit {:?} signal {:?} {}", self.code, self.signal, self.stderr.chars().take(600).collect::<String>())
    }
}

/// A directory of its own, emptied again when dropped
pub struct World {
    pub root: PathBuf,
    runs: std::cell::Cell<u32>,
}

impl World {
    pub fn new(scratch: &Path, case: u64) -> Self {
        let root = scratch.join(format!("w{}", case));
        let _ = fs::remove_dir_all(&root);
        fs::create_dir_all(root.join("home")).expect("scratch");
        fs::create_dir_all(root.join("logs")).expect("scratch");
        World { root, runs: Default::default() }
    }
    pub fn path(&self, rel: &str) -> PathBuf {
        self.root.join(rel)
    }
    pub fn write(&self, rel: &str, data: impl AsRef<[u8]>) {
        let p = self.root.join(rel);
        fs::create_dir_all(p.parent().unwrap()).expect("scratch");
        fs::write(p, data).expect("scratch");
    }
    pub fn dir(&self, rel: &str) {
        fs::create_dir_all(self.root.join(rel)).expect("scratch");
    }
    /// Gives all files to the user who runs the program
    pub fn settle(&self) {
        fn go(p: &Path) {
            let _ = std::os::unix::fs::lchown(p, Some(NOBODY), Some(NOBODY));
            if p.symlink_metadata().map_or(false, |m| m.is_dir()) {
                for e in fs::read_dir(p).into_iter().flatten().flatten() {
                    go(&e.path());
                }
            }
        }
        go(&self.root);
    }
    pub fn run(&self, args: &[OsString], env: &[(&str, String)]) -> Out {
        let n = self.runs.get() + 1;
        self.runs.set(n);
        run_at(&self.root, &n.to_string(), args, env)
    }
    /// Everything below the root except for the logs
    pub fn snapshot(&self) -> Snap {
        let mut s = Snap::new();
        fn go(root: &Path, p: &Path, s: &mut Snap) {
            for e in fs::read_dir(p).into_iter().flatten().flatten() {
                let q = e.path();
                let rel = q.strip_prefix(root).unwrap().to_path_buf();
                if rel == Path::new("logs") {
                    continue;
                }
                let m = q.symlink_metadata().expect("metadata");
                let mode = m.permissions().mode() & 0o7777;
                if m.is_dir() {
                    s.insert(rel, Entry::Dir(mode));
                    go(root, &q, s);
                } else if m.is_file() {
                    s.insert(rel, Entry::File(mode, fs::read(&q).unwrap_or_default()));
                } else {
                    s.insert(rel, Entry::Other);
                }
            }
        }
        go(&self.root, &self.root, &mut s);
        s
    }
}

/// Runs the program in a world; may be called by several threads
pub fn run_at(root: &Path, name: &str, args: &[OsString], env: &[(&str, String)]) -> Out {
    let log = root.join("logs").join(format!("{}.log", name));
    let mut c = Command::new(BIN);
    c.args(args)
        .env_clear()
        .env("HOME", root.join("home"))
        .env("PATH", "/nonexistent")
        .env("LD_PRELOAD", SHIM)
        .env("VM_LOG", &log)
        .env("RUST_BACKTRACE", "0")
        .current_dir(root.join("home"))
        .stdin(Stdio::null());
    for (k, v) in env {
        c.env(k, v);
    }
    if let (true, Ok(())) = (is_root(), chown(root.join("logs"), Some(NOBODY), Some(NOBODY))) {
        c.uid(NOBODY).gid(NOBODY);
    }
    let o = c.output().unwrap_or_else(|e| {
        eprintln!("HARNESS: cannot run vimwiki: {}", e);
        std::process::exit(73)
    });
    let raw = fs::read(&log).unwrap_or_default();
    let _ = fs::remove_file(&log);
    let mut events = vec![];
    for l in raw.split(|b| *b == 0).filter(|l| !l.is_empty()) {
        let l = String::from_utf8_lossy(l);
        let mut p = l.splitn(3, '\t');
        let (op, ret, path) = (p.next().unwrap_or(""), p.next().unwrap_or(""), p.next().unwrap_or(""));
        events.push(Ev { op: op.into(), ret: ret.parse().unwrap_or(0), path: path.into() });
    }
    Out {
        code: o.status.code(),
        signal: o.status.signal(),
        stdout: o.stdout,
        stderr: String::from_utf8_lossy(&o.stderr).into_owned(),
        events,
    }
}

impl Drop for World {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.root);
    }
}

#[derive(Clone, PartialEq, Eq)]
pub enum Entry {
    Dir(u32),
    File(u32, Vec<u8>),
    Other,
}
impl std::fmt::Debug for Entry {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Entry::Dir(m) => write!(f, "directory {:o}", m),
            Entry::File(m, b) => write!(f, "file {:o} {:?}", m, String::from_utf8_lossy(b).chars().take(200).collect::<String>()),
            Entry::Other => write!(f, "other"),
        }
    }
}
pub type Snap = BTreeMap<PathBuf, Entry>;

/// What of the differences is not foreseen: "created x", "removed y", ...
pub fn changes(before: &Snap, after: &Snap) -> Vec<(String, PathBuf)> {
    let mut v = vec![];
    for (p, e) in after {
        match before.get(p) {
            None => v.push(("created".to_string(), p.clone())),
            Some(x) if x != e => v.push(("modified".to_string(), p.clone())),
            _ => (),
        }
    }
    for p in before.keys() {
        if !after.contains_key(p) {
            v.push(("removed".to_string(), p.clone()));
        }
    }
    v
}

pub fn is_root() -> bool {
    fs::metadata("/proc/self").map_or(false, |m| std::os::unix::fs::MetadataExt::uid(&m) == 0)
}

pub fn args(v: &[&str]) -> Vec<OsString> {
    v.iter().map(OsString::from).collect()
}

pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// The configuration as a file; what is the default may be left out
pub fn html_toml(r: &mut Rng, c: &HtmlConfig) -> String {
    let d = HtmlConfig::default();
    let mut s = String::new();
    let mut sect = vec![];
    macro_rules! sec {
        ($name:literal, $($v:ident . $k:ident = $f:expr),*) => {{
            let mut t = String::new();
            $(
                if format!("{:?}", c.$v.$k) != format!("{:?}", d.$v.$k) || r.bool() {
                    if let Some(x) = $f(&c.$v.$k) {
                        t.push_str(&format!("{} = {}\n", stringify!($k), x));
                    }
                }
            )*
            if !t.is_empty() {
                sect.push(format!("[{}]\n{}", $name, t));
            }
        }};
    }
    let b = |x: &bool| Some(x.to_string());
    let st = |x: &String| Some(q(x));
    let pa = |x: &PathBuf| Some(q(x.to_str().unwrap()));
    let op = |x: &Option<PathBuf>| x.as_ref().map(|x| q(x.to_str().unwrap()));
    sec!("list", list.ignore_newline = b);
    sec!("paragraph", paragraph.ignore_newline = b);
    sec!("link", link.base_url = (|x: &uriparse::URI| Some(q(&x.to_string()))), link.canonicalize = b, link.use_ugly_urls = b);
    sec!("header", header.table_of_contents = st);
    sec!("code", code.theme = st, code.theme_dir = op, code.server_side = b, code.syntax_dir = op);
    sec!("comment", comment.include = b);
    sec!("template", template.name = st, template.ext = st, template.dir = pa, template.text = st);
    r.shuffle(&mut sect);
    for x in sect {
        s.push_str(&x);
        s.push('\n');
    }
    let dw = HtmlWikiConfig::default();
    for w in &c.wikis {
        s.push_str(&format!("[[wikis]]\npath = {}\npath_html = {}\n", q(w.path.to_str().unwrap()), q(w.path_html.to_str().unwrap())));
        if let Some(n) = &w.name {
            s.push_str(&format!("name = {}\n", q(n)));
        }
        if w.css_name != dw.css_name || r.bool() {
            s.push_str(&format!("css_name = {}\n", q(&w.css_name)));
        }
        if w.ext != dw.ext || r.bool() {
            s.push_str(&format!("ext = {}\n", q(&w.ext)));
        }
        if w.diary_rel_path != dw.diary_rel_path || r.bool() {
            s.push_str(&format!("diary_rel_path = {}\n", q(w.diary_rel_path.to_str().unwrap())));
        }
        s.push('\n');
    }
    s
}

/// Text of a page, small most of the time
pub fn page_text(r: &mut Rng) -> String {
    match r.below(10) {
        0 => String::new(),
        1 | 2 => fuzz::any(r),
        3 => format!("%title {}\n\n{}", r.pick(&["T", "a & b", "é <x>"]), gen::any_doc(r).text),
        4 => format!("%date {}\n", r.pick(&["2020-01-02", "2021-12-31"])),
        5 => format!("= {} =\n\n[[a]] [[b/c#x]] [[wiki0:x]] [[wiki1:y]] [[diary:2020-01-01]] [[file:z.png]]\n", r.pick(&["H", "Ü", "x y"])),
        _ => gen::any_doc(r).text,
    }
}

/// Page of a text converted by the library itself
pub fn expect_html(c: &HtmlConfig, text: &str, page: &Path, wiki: Option<usize>) -> Result<String, String> {
    let mut c = c.clone();
    c.runtime = HtmlRuntimeConfig { wiki_index: wiki, page: page.to_path_buf() };
    let p: Result<Page, ParseError> = Language::from_vimwiki_str(text).parse();
    p.map_err(|e| e.to_string())?.to_html_page(c).map_err(|e| e.to_string())
}

pub fn sha1(data: &[u8]) -> String {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend(((data.len() as u64) * 8).to_be_bytes());
    for ch in m.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([ch[4 * i], ch[4 * i + 1], ch[4 * i + 2], ch[4 * i + 3]]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for i in 0..80 {
            let (f, k) = match i / 20 {
                0 => ((b & c) | (!b & d), 0x5A827999u32),
                1 => (b ^ c ^ d, 0x6ED9EBA1),
                2 => ((b & c) | (b & d) | (c & d), 0x8F1BBCDC),
                _ => (b ^ c ^ d, 0xCA62C1D6),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[i]);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    h.iter().map(|x| format!("{:08x}", x)).collect()
}

/// Takes the pages apart that were printed one after the other in any order
pub fn take_apart<'a>(out: &str, pages: &[&'a str]) -> bool {
    let mut left: Vec<&str> = pages.to_vec();
    // Longer ones first, as one may start with another
    left.sort_by_key(|p| std::cmp::Reverse(p.len()));
    fn go(out: &str, left: &mut Vec<&str>, fuel: &mut u32) -> bool {
        if left.is_empty() {
            return out.is_empty();
        }
        if *fuel == 0 {
            return false;
        }
        *fuel -= 1;
        let mut tried: Vec<&str> = vec![];
        for i in 0..left.len() {
            let p = left[i];
            if tried.contains(&p) {
                continue;
            }
            tried.push(p);
            if let Some(rest) = out.strip_prefix(p).and_then(|x| x.strip_prefix('\n')) {
                left.remove(i);
                if go(rest, left, fuel) {
                    return true;
                }
                left.insert(i, p);
            }
        }
        false
    }
    go(out, &mut left, &mut 20_000)
}

/// Wikis in a scratch directory, described by a configuration
pub struct Wikis {
    pub config: HtmlConfig,
    /// Files by relative path that are pages in one of the wikis
    pub pages: BTreeMap<PathBuf, String>,
    /// Other files
    pub others: Vec<PathBuf>,
}

pub const EXTS: &[&str] = &["wiki", "md", "txt"];

impl Wikis {
    /// Wikis a file is a page of, in the order they are configured in
    pub fn wikis_of(&self, abs: &Path) -> Vec<usize> {
        (0..self.config.wikis.len()).filter(|i| page_of(&self.config.wikis[*i], abs)).collect()
    }
    /// Wiki that a path lies in: the innermost one
    pub fn home_of(&self, abs: &Path) -> Option<usize> {
        innermost(&self.config, abs)
    }
}

pub fn page_of(w: &HtmlWikiConfig, abs: &Path) -> bool {
    let name = abs.file_name().unwrap().to_str().unwrap();
    abs.starts_with(&w.path) && name.rfind('.').map_or(false, |i| i > 0 && name[i + 1..] == w.ext)
}

pub fn innermost(c: &HtmlConfig, abs: &Path) -> Option<usize> {
    let mut best: Option<usize> = None;
    for (i, w) in c.wikis.iter().enumerate() {
        if abs.starts_with(&w.path) && best.map_or(true, |b| w.path.components().count() >= c.wikis[b].path.components().count()) {
            best = Some(i);
        }
    }
    best
}

/// Where the HTML of a page has to be
pub fn output_of(w: &HtmlWikiConfig, abs: &Path) -> PathBuf {
    let rel = abs.strip_prefix(&w.path).unwrap();
    let name = rel.file_name().unwrap().to_str().unwrap();
    let stem = &name[..name.rfind('.').unwrap()];
    w.path_html.join(rel.parent().unwrap()).join(format!("{}.html", stem))
}

pub fn base_config(r: &mut Rng, w: &World) -> HtmlConfig {
    let mut c = HtmlConfig::default();
    c.paragraph.ignore_newline = r.bool();
    c.list.ignore_newline = r.bool();
    c.comment.include = r.bool();
    c.header.table_of_contents = r.pick(&["Contents", "H", "Inhalt"]).to_string();
    c.template.dir = w.path("tpl");
    c.template.name = r.pick(&["default", "own"]).to_string();
    c.template.text = r.pick(&["%content%", "<title>%title%</title>\n%root_path%%css%\n%content%%content%", "é \"\\\t%content%\r\n%encoding%"]).to_string();
    let n = r.range(1, 3);
    let shape = r.below(4);
    for i in 0..n {
        let dir = match (i, shape) {
            (1, 0) => "w0/sub/w1".to_string(),
            (2, 0) => "w0/sub".to_string(),
            (_, 1) => format!("my wikis/w {}", i),
            (1, 3) => "w0x".to_string(),
            _ => format!("w{}", i),
        };
        let html = match r.below(5) {
            0 => format!("{}/_html", dir),
            1 => format!("out/deep/{}", i),
            _ => format!("out{}", i),
        };
        c.wikis.push(HtmlWikiConfig {
            path: w.path(&dir),
            path_html: w.path(&html),
            name: [None, Some(format!("name{}", i)), Some(format!("{}", (i + 1) % n)), Some("é x".to_string())][r.below(4)].clone(),
            css_name: r.pick(&["style.css", "css/own.css"]).to_string(),
            ext: r.pick(&["wiki", "wiki", "wiki", "md", "txt"]).to_string(),
            diary_rel_path: PathBuf::from(*r.pick(&["diary", "log/days"])),
        });
    }
    c
}

pub fn file_name(r: &mut Rng) -> String {
    let dir = *r.pick(&["", "", "", "sub/", "sub/deep/", "diary/", "d.wiki/", ".hidden/", "a b/é/", "sub/w1/", "_html/"]);
    let stem = *r.pick(&["index", "a", "b", "c", "Ünï", "x y", "a.b", "p-1", "p_2", ".dot", "2020-01-01", "100%", "a#b", "UP"]);
    format!("{}{}", dir, stem)
}

/// Fills the directories of the wikis with pages that can be converted and other files
pub fn fill(r: &mut Rng, w: &World, config: HtmlConfig) -> Wikis {
    let mut s = Wikis { config, pages: BTreeMap::new(), others: vec![] };
    for wk in &s.config.wikis {
        fs::create_dir_all(&wk.path).expect("scratch");
    }
    fs::create_dir_all(&s.config.template.dir).expect("scratch");
    let mut outs: Vec<PathBuf> = vec![];
    for _ in 0..r.range(0, 12) {
        let i = r.below(s.config.wikis.len());
        let base = s.config.wikis[i].path.clone();
        let ext = if r.chance(3, 4) { s.config.wikis[i].ext.clone() } else { r.pick(&["wiki", "md", "txt", "wiki~", "WIKI", "html", "wikix", ""]).to_string() };
        let name = file_name(r);
        let name = if ext.is_empty() { name.replace('.', "_") } else { format!("{}.{}", name, ext) };
        let abs = base.join(&name);
        let rel = abs.strip_prefix(&w.root).unwrap().to_path_buf();
        if abs.exists() {
            continue;
        }
        if s.wikis_of(&abs).is_empty() {
            let data: Vec<u8> = if r.bool() { b"%title other\n".to_vec() } else { vec![0xff, 0xfe, 0, 10] };
            w.write(rel.to_str().unwrap(), data);
            s.others.push(rel);
            continue;
        }
        let home = s.home_of(&abs).unwrap();
        let o = output_of(&s.config.wikis[home], &abs);
        if outs.contains(&o) {
            continue;
        }
        let mut t = page_text(r);
        for _ in 0..20 {
            if expect_html(&s.config, &t, &abs, Some(home)).is_ok() {
                break;
            }
            t = page_text(r);
        }
        if expect_html(&s.config, &t, &abs, Some(home)).is_err() {
            t = "plain\n".into();
        }
        outs.push(o);
        w.write(rel.to_str().unwrap(), &t);
        s.pages.insert(rel, t);
    }
    // The same text twice
    if s.pages.len() > 1 && r.bool() {
        let ks: Vec<PathBuf> = s.pages.keys().cloned().collect();
        let t = s.pages[&ks[0]].clone();
        let abs = w.path(ks[1].to_str().unwrap());
        if expect_html(&s.config, &t, &abs, s.home_of(&abs)).is_ok() {
            w.write(ks[1].to_str().unwrap(), &t);
            s.pages.insert(ks[1].clone(), t);
        }
    }
    s
}

/// Options that take values first, then the subcommand and its own
pub fn command(global: Vec<OsString>, sub: Vec<OsString>) -> Vec<OsString> {
    let mut v = global;
    v.extend(sub);
    v
}

/// The formatter's configuration as a file; what is the default may be left out
pub fn vim_toml(r: &mut Rng, c: &VimwikiConfig) -> String {
    let d = VimwikiConfig::default();
    let mut sect = vec![];
    macro_rules! sec {
        ($name:ident, $($k:ident),*) => {{
            let mut t = String::new();
            $(
                let (x, y) = (format!("{:?}", c.$name.$k), format!("{:?}", d.$name.$k));
                if x != y || r.bool() {
                    t.push_str(&format!("{} = {}\n", stringify!($k), x));
                }
            )*
            if !t.is_empty() {
                sect.push(format!("[{}]\n{}", stringify!($name), t));
            }
        }};
    }
    sec!(page, separate_block_elements);
    sec!(blockquote, prefer_indented_blockquote, trim_lines);
    sec!(comment, no_padding, trim_content);
    sec!(definition_list, term_on_line_by_itself, trim_terms, trim_definitions);
    sec!(header, no_padding, trim_content);
    sec!(paragraph, trim_lines, no_line_wrap, line_wrap_column);
    sec!(table, no_padding);
    if c.page.indent_str != d.page.indent_str {
        let line = format!("indent_str = {}\n", q(&c.page.indent_str));
        match sect.iter_mut().find(|s| s.starts_with("[page]\n")) {
            Some(s) => s.push_str(&line),
            None => sect.push(format!("[page]\n{}", line)),
        }
    }
    r.shuffle(&mut sect);
    sect.join("\n")
}

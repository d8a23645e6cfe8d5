//! No undefined behaviour: the library runs under AddressSanitizer, under
//! ThreadSanitizer and in Miri, conversions without a check are hooked, and
//! every slice handed out is looked at.
use crate::engine::*;
use crate::rng::Rng;
use crate::{fuzz, gen, walk};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::hash::{Hash, Hasher};
use std::process::{Command, Stdio};
use std::sync::Barrier;
use vimwiki::*;

pub static PROP: Prop = Prop {
    id: "C22",
    cases: (400, 30_000),
    run,
    rule: "a case parses, traverses, copies, drops, converts, formats and stores pages of hostile multi-byte text with a hook on every conversion of bytes to text without a check, and looks at every borrowed slice of the tree; its pages then go through a process built with AddressSanitizer (with page-exact allocations), some through ThreadSanitizer (shared pages in threads) and small ones through Miri; non-trivial: distinct texts",
    assumptions: &[
        "Miri sees single elements and tiny pages, as it takes seconds for each",
        "C code is not part of what runs",
    ],
    must_see: &[
        ("unchecked conversions", 400_000),
        ("unchecked conversions of multi-byte text", 50_000),
        ("borrowed slices looked at", 50_000),
        ("pages under AddressSanitizer", 3_000),
        ("pages under ThreadSanitizer", 100),
        ("pages in Miri", 60),
    ],
    level: "exploration",
};

const WIDE: &[&str] = &["é", "ß", "日本", "語", "😀", "e\u{301}", "\u{a0}", "\u{3000}", "\u{2028}", "\u{85}", "\u{feff}", "\u{200b}", "\u{10ffff}", "ﬀ", "İ", "\u{7ff}", "\u{800}", "\u{ffff}"];

/// Puts wide characters anywhere, most of all next to markup
pub fn widen(r: &mut Rng, t: &str) -> String {
    let mut s = String::new();
    let p = *r.pick(&[2usize, 4, 10, 30]);
    for c in t.chars() {
        let n = if c.is_alphanumeric() { p * 3 } else { p };
        if r.chance(1, n) {
            s.push_str(*r.pick(WIDE));
        }
        if c.is_ascii_lowercase() && r.chance(1, 2 * n) {
            s.push_str(*r.pick(WIDE));
        } else {
            s.push(c);
        }
    }
    s
}

pub fn text(r: &mut Rng) -> String {
    let t = match r.below(4) {
        0 => super::c09::text(r),
        1 => gen::any_doc(r).text,
        _ => fuzz::any(r),
    };
    if r.chance(2, 3) {
        widen(r, &t)
    } else {
        t
    }
}

/// Small, for the interpreter: mostly single elements, as a page takes it
/// some seconds for every few bytes
fn piece(r: &mut Rng) -> (&'static str, String) {
    let kinds: &[(&str, &[&str])] = &[
        ("Blockquote", &["> a\n> b", "    a\n", "> é\n\n> b"]),
        ("CodeBlock", &["{{{\na\n}}}", "{{{x\n a\n\n b\n}}}", "{{{x k=\"v\"\na\n}}}"]),
        ("MathBlock", &["{{$\na\n}}$", "{{$%e%\n a\n}}$"]),
        ("Placeholder", &["%title a b", "%x y", "%date 2020-01-02", "%template t"]),
        ("Comment", &["%% a", "%%+ a\n b +%%"]),
        ("CodeInline", &["`a b`", "`a`"]),
        ("MathInline", &["$a b$"]),
        ("Tags", &[":a:b:", ":a:"]),
        ("Link", &["[[a]]", "[[a#b#c|d]]", "[[wiki1:a]]", "[[wn.n:a]]", "[[diary:2020-01-02]]", "{{a|b|c=\"d\"}}", "[[a|{{b}}]]", "file:a", "http://a.b/c"]),
        ("Text", &["a b", "a"]),
        ("DecoratedText", &["*a b*", "_a_", "~~a~~", "^a^", ",,a,,"]),
        ("Divider", &["----"]),
        ("Header", &["= a ="]),
        ("Table", &["|a|b|\n", "|a|\n|-|\n"]),
        ("List", &["- a\n", "1. a\n"]),
        ("DefinitionList", &["a::\n:: b\n", "a:: b\n"]),
        ("shared", &["*a*", "`a`", "= a ="]),
        ("Page", &["*a*\n", "[[a]]", "%% a\n"]),
    ];
    // Those that are cheap to interpret more often
    let (k, v) = kinds[if r.chance(5, 6) { r.below(12) } else { r.below(kinds.len()) }];
    let mut t = r.pick(v).to_string();
    let mut n = r.below(4);
    if k == "shared" || k == "Page" {
        n = r.below(2);
    }
    for _ in 0..n {
        let at = r.below(t.chars().count() + 1);
        let i = t.char_indices().map(|x| x.0).chain([t.len()]).nth(at).unwrap();
        if r.chance(1, 5) && i < t.len() {
            t.remove(i);
        } else {
            t.insert_str(i, if r.chance(3, 4) { r.pick(WIDE) } else { r.pick(&["\r", "\0", "\t", "\\", "|", "%"]) });
        }
    }
    (k, t)
}

/// An element parsed, copied and shown, in part after its text is gone
fn one_type(k: &str, t: &str) -> Result<Seen, String> {
    macro_rules! by {
        ($($ty:ident)*) => {
            match k {
                $(stringify!($ty) => {
                    let t: Box<str> = t.to_string().into_boxed_str();
                    let res: Result<Located<$ty>, ParseError> = Language::from_vimwiki_str(&t).parse();
                    match res {
                        Ok(x) => {
                            let x = x.into_inner();
                            let s = format!("{:?}", x);
                            let o: $ty<'static> = x.clone().into_owned();
                            let ok = o.strict_eq(&x);
                            drop(x);
                            drop(t);
                            let again = format!("{:?}", o).replace("Owned", "Borrowed");
                            if !ok { return Err("copy differs".into()) }
                            s.len() + again.len()
                        }
                        Err(e) => format!("{} {:?}", e, e).len(),
                    }
                })*
                _ => exercise(t, &Default::default(), &Default::default(), false)?.bytes as usize,
            }
        };
    }
    let n = by!(Blockquote CodeBlock MathBlock Placeholder Comment CodeInline MathInline Tags Link Text DecoratedText Header Table List DefinitionList);
    Ok(Seen { slices: 0, bytes: n as u64 })
}

/// Every slice of text in a page, with whether it is borrowed
fn slices<'b>(p: &'b Page) -> Vec<(&'static str, &'b str, bool)> {
    let mut v = vec![];
    for b in &p.elements {
        block(b.as_inner(), &mut v);
    }
    v
}

type Out<'b> = Vec<(&'static str, &'b str, bool)>;

fn cow<'b>(k: &'static str, c: &'b Cow<str>, v: &mut Out<'b>) {
    v.push((k, c.as_ref(), matches!(c, Cow::Borrowed(_))));
}

fn block<'a, 'b>(b: &'b BlockElement<'a>, v: &mut Out<'b>) {
    match b {
        BlockElement::Blockquote(x) => x.lines.iter().for_each(|l| cow("blockquote", l, v)),
        BlockElement::CodeBlock(x) => {
            x.lines.iter().for_each(|l| cow("code line", l, v));
            x.language.iter().for_each(|l| cow("language", l, v));
            for (k, y) in &x.metadata {
                cow("key", k, v);
                cow("value", y, v);
            }
        }
        BlockElement::MathBlock(x) => {
            x.lines.iter().for_each(|l| cow("math line", l, v));
            x.environment.iter().for_each(|l| cow("environment", l, v));
        }
        BlockElement::DefinitionList(x) => {
            for i in &x.items {
                conts(i.as_inner().term.as_inner().as_inner(), v);
                for d in i.as_inner().definitions.as_inner() {
                    conts(d.as_inner().as_inner(), v);
                }
            }
        }
        BlockElement::Divider(_) => (),
        BlockElement::Header(x) => conts(&x.content, v),
        BlockElement::List(x) => {
            for i in &x.items {
                let i = i.as_inner();
                if let ListItemType::Unordered(UnorderedListItemType::Other(c)) = &i.ty {
                    cow("bullet", c, v);
                }
                for b in &i.contents {
                    block(b.as_inner(), v);
                }
            }
        }
        BlockElement::Paragraph(x) => x.lines.iter().for_each(|l| conts(l, v)),
        BlockElement::Placeholder(x) => match x {
            Placeholder::Title(t) | Placeholder::Template(t) => cow("placeholder", t, v),
            Placeholder::Other { name, value } => {
                cow("name", name, v);
                cow("placeholder", value, v);
            }
            _ => (),
        },
        BlockElement::Table(x) => {
            for c in x.as_data().values() {
                if let Cell::Content(c) = c.as_inner() {
                    conts(c, v);
                }
            }
        }
    }
}

fn conts<'b>(c: &'b InlineElementContainer, v: &mut Out<'b>) {
    for e in c.iter() {
        match e.as_inner() {
            InlineElement::Link(l) => link(l, v),
            InlineElement::DecoratedText(d) => deco(d, v),
            InlineElement::Text(t) => v.push(("text", t.as_ref() as &str, false)),
            InlineElement::Tags(t) => t.into_iter().for_each(|t| v.push(("tag", t.as_str(), false))),
            InlineElement::Code(c) => v.push(("code", c.as_str(), false)),
            InlineElement::Math(c) => v.push(("math", c.as_str(), false)),
            InlineElement::Comment(Comment::Line(c)) => v.push(("comment", c.as_str(), false)),
            InlineElement::Comment(Comment::MultiLine(c)) => c.into_iter().for_each(|l| cow("comment line", l, v)),
            InlineElement::Keyword(_) => (),
        }
    }
}

fn deco<'b>(d: &'b DecoratedText, v: &mut Out<'b>) {
    let (DecoratedText::Bold(c)
    | DecoratedText::Italic(c)
    | DecoratedText::Strikeout(c)
    | DecoratedText::Superscript(c)
    | DecoratedText::Subscript(c)) = d;
    for e in c {
        match e.as_inner() {
            DecoratedTextContent::Text(t) => v.push(("text", t.as_ref() as &str, false)),
            DecoratedTextContent::DecoratedText(d) => deco(d, v),
            DecoratedTextContent::Link(l) => link(l, v),
            DecoratedTextContent::Keyword(_) => (),
        }
    }
}

fn link<'b>(l: &'b Link, v: &mut Out<'b>) {
    if let Link::NamedInterWiki { name, .. } = l {
        cow("wiki name", name, v);
    }
    data(l.data(), v);
}

fn data<'b>(d: &'b LinkData, v: &mut Out<'b>) {
    match &d.description {
        Some(Description::Text(t)) => cow("description", t, v),
        Some(Description::TransclusionLink(d)) => data(d, v),
        None => (),
    }
    for (k, y) in d.properties.iter().flatten() {
        cow("property", k, v);
        cow("property", y, v);
    }
}

/// Looks at the slices of a page of a text; gives how many lie within it
fn look(p: &Page, t: &str) -> Result<u64, String> {
    let all = t.as_bytes().as_ptr_range();
    let mut n = 0;
    for (k, s, borrowed) in slices(p) {
        if let Err(e) = std::str::from_utf8(s.as_bytes()) {
            return Err(format!("{}: {} in {:?}", k, e, s.as_bytes()));
        }
        let at = s.as_bytes().as_ptr_range();
        if at.start >= all.start && at.start <= all.end && !s.is_empty() {
            n += 1;
            let i = at.start as usize - all.start as usize;
            if at.end > all.end || !t.is_char_boundary(i) || !t.is_char_boundary(i + s.len()) {
                return Err(format!("{}: {} bytes at {} of {}", k, s.len(), i, t.len()));
            }
        } else if borrowed && !s.is_empty() && !t.contains(s) {
            return Err(format!("{}: {:?} is borrowed, but not from the text", k, s));
        }
    }
    Ok(n)
}

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

#[derive(Default)]
pub struct Seen {
    slices: u64,
    bytes: u64,
}

/// Takes all that can be done with elements
fn elements(e: &Element, depth: usize, seen: &mut Seen) {
    seen.bytes += format!("{:?}", e).len() as u64;
    let b = e.to_borrowed();
    assert!(b == *e);
    if let Element::Inline(i) = &b {
        seen.bytes ^= hash(i) & 1;
    }
    if depth < 12 {
        for k in b.into_children() {
            elements(k.as_inner(), depth + 1, seen);
        }
    }
}

/// Parses the text and does everything else with its page. Memory is given
/// back in different orders, and what stays is looked at afterwards.
pub fn exercise(t: &str, vim: &VimwikiConfig, html: &HtmlConfig, deep: bool) -> Result<Seen, String> {
    let mut seen = Seen::default();
    // No room behind the text
    let t: Box<str> = t.to_string().into_boxed_str();
    let p = Language::from_vimwiki_str(&t).parse::<Page>().map_err(|e: ParseError| e.to_string())?;
    seen.slices += look(&p, &t)?;
    let n = walk::page(&p).canon();
    let copy = p.clone();
    let borrowed = copy.to_borrowed();
    if walk::page(&borrowed).canon() != n {
        return Err("copy differs".into());
    }
    let owned = borrowed.into_owned();
    drop(copy);
    let mut strings = vec![format!("{:?}", p)];
    if deep {
        strings.push(p.to_vimwiki_string(vim.clone()).unwrap_or_default());
        strings.push(p.to_html_string(html.clone()).unwrap_or_default());
        strings.push(p.to_html_page(html.clone()).unwrap_or_default());
    }
    strings.push(serde_json::to_string(&p).unwrap_or_default());
    for e in p.elements.iter().take(8) {
        elements(&Element::from(e.as_inner().to_borrowed()), 0, &mut seen);
        elements(&Element::from(e.as_inner().clone()).into_owned(), 0, &mut seen);
    }
    if !p.strict_eq(&owned) {
        return Err("owned page differs".into());
    }
    drop(p);
    drop(t);
    look(&owned, "").map_err(|e| format!("owned: {}", e))?;
    if walk::page(&owned).canon() != n {
        return Err("owned page differs".into());
    }
    for s in &strings {
        if let Err(e) = std::str::from_utf8(s.as_bytes()) {
            return Err(format!("output: {}", e));
        }
        seen.bytes += s.len() as u64;
    }
    if let Ok(p) = serde_json::from_str::<Page>(strings.last().unwrap()) {
        let p = p.into_owned();
        strings.clear();
        seen.bytes += walk::page(&p).canon().len() as u64;
    }
    Ok(seen)
}

macro_rules! typed {
    ($t:expr, $($ty:ident),* $(,)?) => {{
        let mut n = 0;
        $(
            let t: Box<str> = $t.to_string().into_boxed_str();
            let res: Result<Located<$ty>, ParseError> = Language::from_vimwiki_str(&t).parse();
            n += match res {
                // It outlives the text
                Ok(x) => { let x: $ty<'static> = x.into_inner().into_owned(); drop(t); format!("{:?}", x).len() }
                Err(e) => format!("{} {:?}", e, e).len(),
            };
        )*
        n
    }};
}

pub fn each_type(t: &str) -> usize {
    typed!(t, BlockElement, InlineElementContainer, InlineElement, Blockquote, CodeInline, Comment, DefinitionList, Header, Link, List, ListItem, MathInline, MathBlock, Paragraph, Placeholder, CodeBlock, Table, Tags, Text, DecoratedText)
}

fn forget() {
    #[cfg(vimwiki_monitor)]
    {
        vimwiki::monitor::reset();
        vimwiki::monitor::set_span_limit(u64::MAX);
    }
}

/// What the hook saw: whether something is wrong, and how much it saw
fn hooked() -> (Option<String>, u64, u64) {
    #[cfg(vimwiki_monitor)]
    {
        let o = vimwiki::monitor::observed();
        return (o.bad_str.or(o.bad_span), o.unchecked_strs, o.unchecked_non_ascii);
    }
    #[allow(unreachable_code)]
    (None, 0, 0)
}

const PAGES: u64 = 12;

struct Job {
    text: String,
    vim: VimwikiConfig,
    html: HtmlConfig,
}

fn jobs(r: &mut Rng) -> Vec<Job> {
    (0..PAGES)
        .map(|_| {
            let text = text(r);
            let vim = super::c07::config(r);
            let mut html = super::c09::config(r, &walk::Node::new("page"));
            html.code.server_side = false;
            Job { text, vim, html }
        })
        .collect()
}

fn run(r: &mut Rng, cx: &mut Cx) {
    let js = jobs(r);
    for j in &js {
        cx.input(&j.text);
        cx.distinct(&j.text);
        forget();
        let res = guard(|| {
            let s = exercise(&j.text, &j.vim, &j.html, true)?;
            each_type(&j.text);
            Ok::<_, String>(s)
        });
        let (bad, n, wide) = hooked();
        cx.add("unchecked conversions", n);
        cx.add("unchecked conversions of multi-byte text", wide);
        if let Some(b) = bad {
            cx.fail("invalid slice", b);
        }
        match res {
            Ok(Ok(s)) => {
                cx.add("borrowed slices looked at", s.slices);
                cx.count("pages");
            }
            Ok(Err(e)) => cx.fail("slice", e),
            Err(e) => cx.fail(panic_sig(&e), e),
        }
    }
    // The same elsewhere
    let case = cx.case;
    tool(cx, "AddressSanitizer", ASAN, &["sanitized", "pages"], case);
    if r.chance(1, 16) {
        tool(cx, "ThreadSanitizer", TSAN, &["sanitized", "threads"], case);
    }
    if r.chance(1, if cx.tier == Tier::Quick { 16 } else { 60 }) {
        tool(cx, "Miri", MIRI, &[], case);
    }
}

const ASAN: &str = "/verif/target/asan/x86_64-unknown-linux-gnu/debug/vwmon";
const TSAN: &str = "/verif/target/tsan/x86_64-unknown-linux-gnu/debug/vwmon";
const MIRI: &str = "/verif/tools/miri.sh";

fn tool(cx: &mut Cx, name: &str, bin: &str, args: &[&str], case: u64) {
    let o = Command::new(bin)
        .args(args)
        .args([cx.seed.to_string(), case.to_string()])
        .env("ASAN_OPTIONS", "exitcode=66 detect_leaks=0 detect_stack_use_after_return=1")
        .env("TSAN_OPTIONS", "exitcode=66 halt_on_error=1")
        .stdin(Stdio::null())
        .output()
        .unwrap_or_else(|e| {
            eprintln!("HARNESS: cannot run {}: {}", bin, e);
            std::process::exit(73)
        });
    let text = String::from_utf8_lossy(&o.stdout);
    let err = String::from_utf8_lossy(&o.stderr);
    let at = err.lines().chain(text.lines()).find_map(|l| l.strip_prefix("AT ")).map(|l| serde_json::from_str::<String>(l).unwrap_or_default());
    if let Some(t) = err.lines().filter_map(|l| l.strip_prefix("AT ")).last().and_then(|l| serde_json::from_str::<String>(l).ok()).or(at) {
        cx.input(&t);
    }
    let short = |n: usize| err.lines().filter(|l| !l.starts_with("AT ")).take(n).collect::<Vec<_>>().join("\n").chars().take(1500).collect::<String>();
    let report = err.lines().find(|l| l.contains("ERROR: AddressSanitizer") || l.contains("WARNING: ThreadSanitizer") || l.contains("Undefined Behavior"));
    if let Some(l) = report {
        let kind: String = l.chars().filter(|c| !c.is_ascii_digit()).take(100).collect();
        let kind = kind.split(" on ").next().unwrap().split("0x").next().unwrap().to_string();
        return cx.fail(format!("{} {}", name, kind), short(30));
    }
    match (o.status.code(), text.lines().find_map(|l| l.strip_prefix("SEEN ")).and_then(|l| serde_json::from_str::<Value>(l).ok())) {
        (Some(0), Some(v)) => {
            cx.add(&format!("pages under {}", name).replace("under Miri", "in Miri"), v["pages"].as_u64().unwrap());
            cx.add(&format!("bytes made under {}", name), v["bytes"].as_u64().unwrap());
        }
        (Some(c), _) if c == 70 || c == 73 || c == 74 => {
            eprintln!("HARNESS: {} {}", name, err);
            std::process::exit(c)
        }
        (Some(3), _) => cx.fail(format!("fails under {}", name), text.lines().find(|l| l.starts_with("FAIL ")).unwrap_or("").to_string()),
        (c, _) => cx.fail(format!("dies under {}", name), format!("{:?} {}", c, short(30))),
    }
}

fn at(t: &str) {
    eprintln!("AT {}", json!(t));
}

/// `vwmon sanitized pages|threads|small SEED CASE`
pub fn sanitized(mode: &str, seed: u64, case: u64) -> i32 {
    install_hook();
    let mode = mode.to_string();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || sanitized_(&mode, seed, case))
        .unwrap()
        .join()
        .unwrap_or(1)
}

fn sanitized_(mode: &str, seed: u64, case: u64) -> i32 {
    let mut r = Rng::for_case(seed, PROP.id, case);
    let mut pages = 0u64;
    let mut bytes = 0u64;
    let mut fail = None;
    let mut done = |t: &str, res: Result<Result<Seen, String>, String>| match res {
        Ok(Ok(s)) => {
            pages += 1;
            bytes += s.bytes;
        }
        Ok(Err(e)) | Err(e) => {
            at(t);
            fail = Some(e);
        }
    };
    forget();
    match mode {
        "none" => (),
        // Interpreted, so until some time is over
        "small" => {
            let start = std::time::Instant::now();
            while start.elapsed() < std::time::Duration::from_secs(20) {
                let (k, t) = piece(&mut r);
                at(&format!("{}: {}", k, t));
                done(&t, guard(|| if k == "shared" { shared(&t) } else { one_type(k, &t) }));
            }
        }
        "threads" => {
            for j in jobs(&mut r) {
                at(&j.text);
                done(&j.text, guard(|| shared(&j.text)));
            }
        }
        _ => {
            for j in jobs(&mut r) {
                at(&j.text);
                done(
                    &j.text,
                    guard(|| {
                        let s = exercise(&j.text, &j.vim, &j.html, true)?;
                        each_type(&j.text);
                        Ok(s)
                    }),
                );
            }
        }
    }
    if let Some(b) = hooked().0 {
        fail = Some(b);
    }
    if let Some(f) = fail {
        println!("FAIL {}", f);
        return 3;
    }
    println!("SEEN {}", json!({"pages": pages, "bytes": bytes}));
    0
}

/// Threads parse the same text, look at the same page, and give copies of it
/// to each other
fn shared(t: &str) -> Result<Seen, String> {
    let t: Box<str> = t.to_string().into_boxed_str();
    let p = Language::from_vimwiki_str(&t).parse::<Page>().map_err(|e: ParseError| e.to_string())?;
    let b = Barrier::new(3);
    let mut seen = Seen::default();
    let (tx, rx) = std::sync::mpsc::channel::<Page<'static>>();
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..3)
            .map(|i| {
                let (b, p, t, tx) = (&b, &p, &t, tx.clone());
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        forget();
                        b.wait();
                        let q = Language::from_vimwiki_str(t).parse::<Page>().map_err(|e: ParseError| e.to_string())?;
                        if i == 0 {
                            look(p, t)?;
                        }
                        let o = p.clone().into_owned();
                        if !q.strict_eq(p) || walk::page(&o).canon() != walk::page(p).canon() {
                            return Err("pages differ".to_string());
                        }
                        tx.send(o).map_err(|_| "send")?;
                        match hooked().0 {
                            Some(x) => Err(x),
                            None => Ok(format!("{:?}", p).len() as u64),
                        }
                    })
                    .expect("thread")
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(Ok(n)) => seen.bytes += n,
                Ok(Err(e)) => return Err(e),
                Err(_) => return Err("a thread panicked".into()),
            }
        }
        Ok(())
    })?;
    drop(tx);
    for o in rx {
        if !o.strict_eq(&p) {
            return Err("pages differ".into());
        }
    }
    Ok(seen)
}

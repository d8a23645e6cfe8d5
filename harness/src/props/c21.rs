//! Values built by macros at compile time are those that parsing gives.
//! Every case is a program with many uses of macros, compiled against the
//! library and run.
use crate::engine::*;
use crate::rng::Rng;
use crate::walk::Node;
use crate::{fuzz, gen, walk};
use serde_json::Value;
use std::collections::BTreeMap;
use std::process::Command;
use vimwiki::*;

#[path = "../../../macros/src/nodes.rs"]
mod nodes;
use nodes::Nodes;

pub static PROP: Prop = Prop {
    id: "C21",
    cases: (160, 4_000),
    run,
    rule: "a case is a generated program that uses the macros of all element types, plain, raw and with arguments, on generated and hostile texts written as literals of all kinds, directly and through other macros; it compares each value with the parser's by an independent tree, by regions and by the library's equalities; non-trivial: distinct texts",
    assumptions: &["arguments are plain words and numbers, in texts where putting them in gives the same elements before and after parsing"],
    must_see: &[
        ("values compared", 6_000),
        ("values with arguments compared", 2_000),
        ("texts dedented", 1_000),
        ("positional arguments", 100),
        ("numbered arguments", 100),
        ("named arguments", 100),
        ("escaped braces", 100),
    ],
    level: "exploration",
};

/// All types with macros, and how to parse and look at each
macro_rules! types {
    ($($name:ident $ty:ty;)*) => {
        pub const TYPES: &[(&str, fn(&str) -> Option<Node>)] = &[$((stringify!($name), |t| {
            let l = Language::from_vimwiki_str(t);
            match guard(|| { let x: Result<$ty, ParseError> = l.parse(); x.ok().map(|x| x.node()) }) {
                Ok(x) => x,
                Err(_) => None,
            }
        })),*];
    };
}

types! {
    page Page;
    block_element Located<BlockElement>;
    inline_element_container Located<InlineElementContainer>;
    inline_element Located<InlineElement>;
    blockquote Located<Blockquote>;
    comment Located<Comment>;
    line_comment Located<LineComment>;
    multi_line_comment Located<MultiLineComment>;
    definition_list Located<DefinitionList>;
    divider Located<Divider>;
    header Located<Header>;
    link Located<Link>;
    list Located<List>;
    list_item Located<ListItem>;
    code_inline Located<CodeInline>;
    math_inline Located<MathInline>;
    math_block Located<MathBlock>;
    paragraph Located<Paragraph>;
    placeholder Located<Placeholder>;
    code_block Located<CodeBlock>;
    table Located<Table>;
    tags Located<Tags>;
    decorated_text Located<DecoratedText>;
    keyword Located<Keyword>;
    text Located<Text>;
}

/// The text that a macro takes from a literal
pub fn prepare(t: &str, raw: bool) -> Option<String> {
    let blank = |l: &str| l.trim().is_empty();
    let mut lines: Vec<&str> = t.lines().collect();
    while lines.last().map_or(false, |l| blank(l)) {
        lines.pop();
    }
    let skip = lines.iter().take_while(|l| blank(l)).count();
    lines.drain(..skip);
    if lines.is_empty() {
        return None;
    }
    if !raw {
        let space = |l: &str| l.chars().take_while(|c| c.is_whitespace()).count();
        let n = lines.iter().filter(|l| !blank(l)).map(|l| space(l)).min().unwrap_or(0);
        return Some(lines.iter().map(|l| l.chars().skip(n).collect::<String>()).collect::<Vec<_>>().join("\n"));
    }
    Some(lines.join("\n"))
}

/// Text as a literal of Rust with the same value
fn literal(r: &mut Rng, t: &str) -> String {
    let bytes = r.chance(1, 5);
    let b = if bytes { "b" } else { "" };
    let raw_ok = !t.contains('\r') && (!bytes || t.is_ascii()) && !t.contains("\"################");
    // Unescaped, these are refused or warned about
    let odd = |c: char| matches!(c, '\u{202a}'..='\u{202e}' | '\u{2066}'..='\u{2069}' | '\u{feff}');
    if raw_ok && !t.contains(odd) && r.bool() {
        let mut n = r.below(3);
        while t.contains(&format!("\"{}", "#".repeat(n))) {
            n += 1;
        }
        let h = "#".repeat(n);
        return format!("{}r{}\"{}\"{}", b, h, t, h);
    }
    let mut s = format!("{}\"", b);
    let escape = *r.pick(&[0usize, 0, 3, 30]);
    let mut chars = t.chars().peekable();
    while let Some(c) = chars.next() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '\r' => s.push_str("\\r"),
            '\n' if r.bool() => s.push_str("\\n"),
            '\t' if r.bool() => s.push_str("\\t"),
            '\0' => s.push_str("\\0"),
            c if c.is_ascii() && escape > 0 && r.chance(1, 33 - escape) => s.push_str(&format!("\\x{:02x}", c as u32)),
            c if bytes && !c.is_ascii() => {
                let mut buf = [0; 4];
                for x in c.encode_utf8(&mut buf).bytes() {
                    s.push_str(&format!("\\x{:02x}", x));
                }
            }
            c if odd(c) || (!c.is_ascii() && escape > 0 && r.bool()) => s.push_str(&format!("\\u{{{:x}}}", c as u32)),
            c => s.push(c),
        }
        // A line that goes on
        if escape > 0 && r.chance(1, 60) && chars.peek().map_or(false, |c| !c.is_whitespace()) {
            s.push_str("\\\n   ");
        }
    }
    s.push('"');
    s
}

fn indented(r: &mut Rng, t: &str) -> String {
    let ind = *r.pick(&["    ", "  ", "\t", "\u{3000}", " \u{2003} ", "        "]);
    let mut s = String::new();
    for _ in 0..r.below(3) {
        s.push_str(*r.pick(&["\n", "  \n", "\t\n", "\r\n"]));
    }
    for l in t.lines() {
        if l.trim().is_empty() && r.chance(2, 3) {
            s.push_str(l);
        } else {
            s.push_str(ind);
            s.push_str(l);
        }
        s.push_str(if r.chance(1, 12) { "\r\n" } else { "\n" });
    }
    s.push_str(*r.pick(&["", "    ", "\n", "  \n  "]));
    s
}

/// Texts with types that accept them
fn source(r: &mut Rng) -> (usize, String) {
    loop {
        let o = gen::Opts::any(r);
        let t = match r.below(6) {
            0 => fuzz::any(r),
            1 => super::c09::text(r),
            _ => {
                let mut o = o;
                o.blocks = (1, 4);
                gen::G::new(r, o).page().text
            }
        };
        if t.len() > 3_000 || t.trim().is_empty() {
            continue;
        }
        if r.chance(1, 5) {
            return (if r.chance(3, 4) { 0 } else { 1 }, t);
        }
        // A part that is an element, or any part
        let Ok(Some(n)) = guard(|| Language::from_vimwiki_str(&t).parse::<Page>().ok().map(|p| walk::page(&p))) else { continue };
        let mut parts = vec![];
        n.walk(&mut |k| {
            if let Some((o, l)) = k.region {
                if l > 0 && t.is_char_boundary(o) && o + l <= t.len() && t.is_char_boundary(o + l) {
                    parts.push((k.kind, t[o..o + l].to_string()));
                }
            }
        });
        if parts.is_empty() {
            continue;
        }
        // Kinds rather than elements, as most are text
        let mut kinds: Vec<&str> = parts.iter().map(|p| p.0).collect();
        kinds.sort();
        kinds.dedup();
        let k = *r.pick(&kinds);
        let of: Vec<&String> = parts.iter().filter(|p| p.0 == k).map(|p| &p.1).collect();
        let mut p = (*r.pick(&of)).clone();
        if r.chance(1, 8) {
            p.push_str(&fuzz::soup(r, 3));
        }
        let wanted: &[&str] = match k {
            "quote" => &["blockquote"],
            "comment" => &["line_comment", "comment"],
            "mcomment" => &["multi_line_comment", "comment"],
            "deflist" => &["definition_list"],
            "para" => &["paragraph", "inline_element_container"],
            "icode" => &["code_inline"],
            "imath" => &["math_inline"],
            "math" => &["math_block"],
            "code" => &["code_block"],
            "item" => &["list_item"],
            "bold" | "italic" | "strike" | "sup" | "sub" => &["decorated_text"],
            k => TYPES.iter().find(|t| t.0 == k).map_or(&[][..], |t| std::slice::from_ref(&t.0)),
        };
        let ty = match r.below(4) {
            _ if wanted.is_empty() => r.below(TYPES.len()),
            0 => *r.pick(&[1usize, 2, 3, 0]),
            1 => r.below(TYPES.len()),
            _ => {
                let w = *r.pick(wanted);
                TYPES.iter().position(|t| t.0 == w).unwrap()
            }
        };
        return (ty, p);
    }
}

struct Use {
    code: String,
    name: String,
    literal: String,
    text: String,
}

/// Macros that pass literals on, and names that macros must not take
const PRELUDE: &str = r#"#![allow(warnings)]
use support::{same, same_format};
use vimwiki::macros::*;
macro_rules! pass_literal { ($m:ident $t:literal $($rest:tt)*) => { $m!($t $($rest)*) } }
macro_rules! pass_expr { ($m:ident $t:expr, $($rest:tt)*) => { $m!($t, $($rest)*) } }
macro_rules! pass_tt { ($m:ident $($t:tt)*) => { $m! { $($t)* } } }
"#;
const SHADOWS: &str = "struct Vec; struct Option; struct String; struct Cow; struct HashMap; struct Located; struct Page; struct Region; struct Box; mod std {} mod vimwiki {} fn Some() {} fn None() {} ";

fn call(r: &mut Rng, cx: &mut Cx, name: &str, lit: &str, args: &str) -> String {
    let (o, c) = *r.pick(&[("(", ")"), ("{", "}"), ("[", "]")]);
    let comma = if args.is_empty() && r.chance(1, 6) { "," } else { "" };
    match r.below(12) {
        0 => format!("pass_literal!({} {}{})", name, lit, args),
        1 => format!("pass_expr!({} {},{})", name, lit, args.strip_prefix(", ").unwrap_or(args)),
        2 => format!("pass_tt!({} {}{})", name, lit, args),
        3 => {
            cx.count("uses among shadowed names");
            format!("{{ {} {}!{}{}{}{}{} }}", SHADOWS, name, o, lit, args, comma, c)
        }
        _ => format!("{}!{}{}{}{}{}", name, o, lit, args, comma, c),
    }
}

fn plain(r: &mut Rng, cx: &mut Cx, id: usize) -> Option<Use> {
    let (ty, t) = source(r);
    let raw = r.bool();
    let mut t = t;
    if r.chance(1, 2) {
        t = indented(r, &t);
    }
    let text = prepare(&t, raw)?;
    if !raw && text != prepare(&t, true)? {
        cx.count("texts dedented");
    }
    let (name, look) = TYPES[ty];
    look(&text)?;
    let m = format!("vimwiki_{}{}", name, if raw { "_raw" } else { "" });
    cx.count(&format!("uses of {}", name));
    let lit = literal(r, &t);
    cx.count(match lit.split('"').next().unwrap().trim_end_matches('#') {
        "" => "plain literals",
        "r" => "raw literals",
        "b" => "byte literals",
        _ => "raw byte literals",
    });
    let code = format!("same({}, || {}, {:?});", id, call(r, cx, &m, &lit, ""), text);
    Some(Use { code, name: m, literal: lit, text })
}

const NAMES: &[&str] = &["name", "x", "a_b", "arg1", "who", "Z", "_u"];

/// A text with some of its words as arguments
fn format(r: &mut Rng, cx: &mut Cx, id: usize) -> Option<Use> {
    let (ty, t) = source(r);
    let raw = r.bool();
    let (name, look) = TYPES[ty];
    let text = prepare(&t, raw)?;
    let want = look(&text)?.plain();
    // Arguments without a number or name have an order of their own there
    let mut ordered = true;
    want.walk(&mut |n| {
        let many = |k: &str| n.get(k).map_or(false, |v| v.matches("=\"").count() > 1);
        ordered &= !matches!(n.kind, "list" | "deflist" | "item" | "entry") && !many("meta") && !many("props");
    });
    // Words
    let b = t.as_bytes();
    let mut words = vec![];
    let mut i = 0;
    while i < b.len() {
        let n = b[i..].iter().take_while(|c| c.is_ascii_alphanumeric()).count();
        if n > 0 {
            words.push((i, i + n));
        }
        i += n.max(1);
    }
    if words.is_empty() {
        return None;
    }
    let mut chosen: Vec<(usize, usize)> = vec![];
    for _ in 0..r.range(1, 4) {
        let mut w = *r.pick(&words);
        if r.chance(1, 4) && w.1 - w.0 > 2 {
            w.0 += 1;
        }
        if chosen.iter().all(|c| c.1 < w.0 || w.1 < c.0) {
            chosen.push(w);
        }
    }
    chosen.sort();
    // Their kinds, values and places
    let mut style: Vec<u32> = chosen.iter().map(|_| if ordered { r.below(3) as u32 } else { 1 + r.below(2) as u32 }).collect();
    if ordered && r.chance(1, 3) {
        style.iter_mut().for_each(|s| *s = 0);
    }
    let bare = style.iter().filter(|s| **s == 0).count();
    let mut numbers: Vec<usize> = (bare..bare + chosen.len() + 1).collect();
    r.shuffle(&mut numbers);
    let mut names: Vec<&str> = NAMES.to_vec();
    r.shuffle(&mut names);
    let mut positional: Vec<Option<String>> = vec![None; bare + chosen.len() + 1];
    let mut named: Vec<(String, String)> = vec![];
    let (mut m, mut c) = (String::new(), String::new());
    // Place holder as it is in the checked text, as it is in the literal, its word
    let mut holders: Vec<(String, String, String)> = vec![];
    let all = r.chance(1, 3);
    let mut braces = 0;
    let mut escaped = |s: &str| {
        let mut o = String::new();
        let ch: Vec<char> = s.chars().collect();
        for (i, x) in ch.iter().enumerate() {
            o.push(*x);
            if *x == '{' || *x == '}' {
                let alone = (i == 0 || ch[i - 1] != *x) && ch.get(i + 1) != Some(x);
                if all || alone {
                    o.push(*x);
                    braces += 1;
                }
            }
        }
        o
    };
    let mut last = 0;
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    for (k, w) in chosen.iter().enumerate() {
        let word = &t[w.0..w.1];
        let n = word.len();
        let number = word.parse::<u64>().ok().filter(|x| format!("{:0w$}", x, w = n) == word);
        let (spec, value) = match number {
            Some(x) if r.bool() => (if word.starts_with('0') { format!(":0{}", n) } else { (*r.pick(&["", ":1", ":>1"])).to_string() }, format!("{}u64", x)),
            _ => match r.below(8) {
                0 => (format!(":.{}", n), format!("{:?}", format!("{}zz", word))),
                1 => (format!(":{}", n), format!("{:?}", word)),
                2 => (String::new(), format!("::std::string::String::from({:?})", word)),
                3 => (String::new(), format!("[{:?}, \"no\"][0]", word)),
                4 => (String::new(), format!("w{}", k)),
                _ => (String::new(), format!("{:?}", word)),
            },
        };
        let (inner, shown) = match style[k] {
            0 => {
                let p = positional.iter().position(|p| p.is_none()).unwrap();
                positional[p] = Some(value);
                (format!("{{{}}}", spec), format!("{{{}{}}}", 9000 + p, spec))
            }
            1 => {
                let p = numbers.pop().unwrap();
                positional[p] = Some(value);
                let h = format!("{{{}{}}}", p, spec);
                (h.clone(), h)
            }
            _ => {
                let h = match seen.get(&format!("{}{}", word, spec)) {
                    // The same again
                    Some(h) if value.starts_with('"') => h.clone(),
                    _ => {
                        let x = names.pop().unwrap();
                        named.push((x.to_string(), value));
                        format!("{{{}{}}}", x, spec)
                    }
                };
                seen.insert(format!("{}{}", word, spec), h.clone());
                (h.clone(), h)
            }
        };
        let between = escaped(&t[last..w.0]);
        m.push_str(&between);
        c.push_str(&between);
        m.push_str(&inner);
        c.push_str(&shown);
        holders.push((shown, inner, word.to_string()));
        last = w.1;
    }
    let rest = escaped(&t[last..]);
    m.push_str(&rest);
    c.push_str(&rest);
    let (mm, cc) = (look(&prepare(&m, raw)?)?.plain(), look(&prepare(&c, raw)?)?.plain());
    // Only texts where the order of parsing and putting in does not matter
    let with = |n: &Node, to: &dyn Fn(&str) -> Option<String>| {
        let mut n = n.clone();
        let mut ok = true;
        n.walk_mut(&mut |n| {
            for (k, v) in &mut n.attrs {
                if *k != "uri" {
                    match to(v) {
                        Some(s) => *v = s,
                        None => ok = false,
                    }
                }
            }
        });
        ok.then_some(n)
    };
    let back = with(&cc, &|v| {
        let mut v = v.to_string();
        for (s, i, _) in &holders {
            v = v.replace(s, i);
        }
        Some(v)
    })?;
    let put = with(&cc, &|v| {
        let (mut o, mut rest) = (String::new(), v);
        'all: while let Some(ch) = rest.chars().next() {
            for two in ["{{", "}}"] {
                if rest.starts_with(two) {
                    o.push(ch);
                    rest = &rest[2..];
                    continue 'all;
                }
            }
            for (s, _, w) in &holders {
                if let Some(x) = rest.strip_prefix(s.as_str()) {
                    o.push_str(w);
                    rest = x;
                    continue 'all;
                }
            }
            if ch == '{' || ch == '}' {
                return None;
            }
            o.push(ch);
            rest = &rest[ch.len_utf8()..];
        }
        Some(o)
    })?;
    // Metadata and properties are sorted in trees
    if back.canon() != mm.canon() || put.canon() != want.canon() {
        cx.count("texts where arguments change elements");
        return None;
    }
    if braces > 0 {
        cx.count("escaped braces");
    }
    let mut args = String::new();
    while positional.last().map_or(false, |p| p.is_none()) && r.chance(4, 5) {
        positional.pop();
    }
    for p in &positional {
        args.push_str(", ");
        args.push_str(p.as_deref().unwrap_or("\"unused\""));
    }
    for (k, v) in &named {
        args.push_str(&format!(", {} = {}", k, v));
    }
    for s in &style {
        cx.count(["positional arguments", "numbered arguments", "named arguments"][*s as usize]);
    }
    let lets: String = chosen.iter().enumerate().map(|(k, w)| format!("let w{} = {:?}; ", k, &t[w.0..w.1])).collect();
    let mac = format!("vimwiki_{}{}_format", name, if raw { "_raw" } else { "" });
    cx.count(&format!("uses of {} with arguments", name));
    let lit = literal(r, &m);
    let call = call(r, cx, &mac, &lit, &args);
    let code = format!("{}same_format({}, || {}, {:?});", lets, id, call, text);
    Some(Use { code, name: mac, literal: lit + &args, text })
}

const USES: usize = 70;

fn run(r: &mut Rng, cx: &mut Cx) {
    let mut uses: Vec<Use> = vec![];
    while uses.len() < USES {
        let u = if r.chance(2, 5) { format(r, cx, uses.len()) } else { plain(r, cx, uses.len()) };
        uses.extend(u);
    }
    for u in &uses {
        cx.distinct(&u.text);
    }
    let mut src = PRELUDE.to_string();
    let mut lines: Vec<usize> = vec![];
    for (i, u) in uses.iter().enumerate() {
        lines.push(src.lines().count() + 1);
        src.push_str(&format!("fn f{}() {{ {} }}\n", i, u.code));
    }
    src.push_str("fn main() {\n");
    for i in 0..uses.len() {
        src.push_str(&format!("f{}();\n", i));
    }
    src.push_str("}\n");
    let which = |line: usize| lines.iter().rposition(|l| *l <= line);
    let (file, exe) = (cx.scratch.join("uses.rs"), cx.scratch.join("uses"));
    std::fs::write(&file, &src).expect("source");
    let _ = std::fs::remove_file(&exe);
    let (support, vimwiki) = libraries();
    let o = Command::new("rustc")
        .args(["--edition=2021", "--crate-type=bin", "--crate-name=uses", "--error-format=json", "-Cdebuginfo=0", "-Ccodegen-units=1"])
        .arg("-Ldependency=/verif/target/macros/debug/deps")
        .arg(format!("--extern=support={}", support))
        .arg(format!("--extern=vimwiki={}", vimwiki))
        .arg("-o")
        .args([&exe, &file])
        .env("CARGO_MANIFEST_DIR", "/verif/macros")
        .env("CARGO_PKG_NAME", "vwmacros")
        .output()
        .expect("rustc");
    let mut bad = 0;
    for l in String::from_utf8_lossy(&o.stderr).lines() {
        let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
        if v["level"] != "error" {
            continue;
        }
        let line = v["spans"].as_array().into_iter().flatten().filter_map(|s| outermost(s)).next();
        if let Some(u) = line.and_then(|l| which(l as usize)).map(|i| &uses[i]) {
            bad += 1;
            let msg = v["message"].as_str().unwrap_or("").to_string();
            let kind = if msg.contains("panicked") { "macro panics" } else { "text refused" };
            let more: Vec<&str> = v["children"].as_array().into_iter().flatten().filter_map(|c| c["message"].as_str()).collect();
            cx.input(&format!("{}!({})", u.name, u.literal));
            cx.fail(kind, format!("{} {}", msg, more.join(" ")));
        }
    }
    if !o.status.success() {
        if bad == 0 {
            eprintln!("HARNESS: program does not compile: {}", String::from_utf8_lossy(&o.stderr).chars().take(2000).collect::<String>());
            std::process::exit(73);
        }
        return;
    }
    let o = Command::new(&exe).output().expect("program");
    let text = String::from_utf8_lossy(&o.stdout);
    let mut done = 0;
    for l in text.lines() {
        let mut w = l.splitn(3, ' ');
        let (k, id) = (w.next().unwrap_or(""), w.next().and_then(|x| x.parse::<usize>().ok()));
        match (k, id.and_then(|i| uses.get(i))) {
            ("OK", Some(u)) => {
                done += 1;
                cx.count(if u.name.ends_with("_format") { "values with arguments compared" } else { "values compared" });
            }
            ("FAIL", Some(u)) => {
                done += 1;
                let msg = w.next().unwrap_or("").to_string();
                cx.input(&format!("{}!({})", u.name, u.literal));
                let kind: String = msg.chars().take_while(|c| *c != ':').filter(|c| c.is_alphabetic() || *c == ' ').collect();
                cx.fail(format!("value differs ({})", kind), format!("{} for {:?}", msg, u.text));
            }
            _ => (),
        }
    }
    if done < uses.len() {
        let u = &uses[done];
        cx.input(&format!("{}!({})", u.name, u.literal));
        cx.fail("program dies", format!("{:?} {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(500).collect::<String>()));
    }
    cx.count("programs");
}

/// Line of the program where an error comes from, through all expansions
fn outermost(s: &Value) -> Option<u64> {
    let mut s = s;
    while s["expansion"].is_object() {
        s = &s["expansion"]["span"];
    }
    if s["file_name"].as_str().map_or(false, |f| f.ends_with("uses.rs")) {
        s["line_start"].as_u64()
    } else {
        None
    }
}

/// Files of the libraries that cargo said it built
fn libraries() -> (String, String) {
    let text = std::fs::read_to_string("/verif/target/macros/messages.json").expect("messages of cargo");
    let of = |name: &str| {
        text.lines()
            .filter_map(|l| serde_json::from_str::<Value>(l).ok())
            .filter(|v| v["reason"] == "compiler-artifact" && v["target"]["name"] == name)
            .flat_map(|v| v["filenames"].as_array().cloned().unwrap_or_default())
            .filter_map(|f| f.as_str().map(|s| s.to_string()))
            .find(|f| f.ends_with(".rlib"))
            .unwrap_or_else(|| {
                eprintln!("HARNESS: no library {}", name);
                std::process::exit(73)
            })
    };
    (of("support"), of("vimwiki"))
}

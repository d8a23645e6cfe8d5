//! Configuration files: options given mean what they say, the others are the
//! defaults, and written configurations are read back.
use crate::cli::{q, World};
use crate::engine::*;
use crate::rng::Rng;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::PathBuf;
use vimwiki::*;

pub static PROP: Prop = Prop {
    id: "C25",
    cases: (24_000, 400_000),
    run,
    rule: "cases are configurations of the formatter or of HTML with any subset of options, written as TOML in different ways or as JSON, read, compared option by option, written out and read back, with wiki paths of any form; or damaged ones; or runs of the program with and without wikis configured in vim; non-trivial: distinct sets of options and distinct forms of paths",
    assumptions: &[
        "defaults are those of the documentation of the options",
        "options that belong to another tool are ignored, as both tools take the same option --config",
    ],
    must_see: &[
        ("options given", 10_000),
        ("options left out", 10_000),
        ("read back", 3_000),
        ("paths expanded", 1_000),
        ("paths rejected", 500),
        ("damaged configurations rejected", 200),
        ("runs with wikis of vim's", 40),
        ("runs without wikis of vim's", 40),
    ],
    level: "exploration",
};

/// Name of an option, what it is unless given, and how values are made
type Opt = (&'static str, &'static str, Value, fn(&mut Rng) -> Value);

fn boolean(r: &mut Rng) -> Value {
    json!(r.bool())
}

fn string(r: &mut Rng) -> Value {
    json!(word(r))
}

fn word(r: &mut Rng) -> String {
    const W: &[&str] = &[
        "", " ", "\t", "  ", "default", "tpl", "wiki", "a b", "é", "日本", "\"quoted\"", "it's", "back\\slash", "line\nbreak", "#x", "=", "[x]", "%content%",
        "$HOME", "~", "~/x", "../x", "/abs/x", "😀", "\u{7f}", "\r\n", "'''", "\"\"\"", "0", "true", "Contents", "style.css", "md", "\\u0041", "{x}", "🤔\u{200d}",
    ];
    (0..r.range(1, 2)).map(|_| *r.pick(W)).collect()
}

fn character(r: &mut Rng) -> Value {
    json!(r.pick(&["x", "X", "é", "✓", "😀", " ", "\t", "\"", "\\", "'", "-", "o", "O", ".", "]", "\u{0}", "日"]))
}

fn number(r: &mut Rng) -> Value {
    json!(*r.pick(&[0u64, 1, 2, 79, 80, 100, 65536, 4294967296, 9223372036854775807]))
}

fn maybe(r: &mut Rng) -> Value {
    string(r)
}

fn uri(r: &mut Rng) -> Value {
    json!(r.pick(&["https://example.com/", "http://a.b/c?d=e#f", "https://localhost:8080/x/", "mailto:a@b.c", "file:///x/y", "https://[::1]/"]))
}

fn vim_opts() -> Vec<Opt> {
    vec![
        ("page", "indent_str", json!("    "), string),
        ("page", "separate_block_elements", json!(true), boolean),
        ("blockquote", "prefer_indented_blockquote", json!(false), boolean),
        ("blockquote", "trim_lines", json!(true), boolean),
        ("comment", "no_padding", json!(false), boolean),
        ("comment", "trim_content", json!(true), boolean),
        ("definition_list", "term_on_line_by_itself", json!(false), boolean),
        ("definition_list", "trim_terms", json!(true), boolean),
        ("definition_list", "trim_definitions", json!(true), boolean),
        ("header", "no_padding", json!(false), boolean),
        ("header", "trim_content", json!(true), boolean),
        ("list.todo", "incomplete_char", json!(" "), character),
        ("list.todo", "partially_complete_1_char", json!("."), character),
        ("list.todo", "partially_complete_2_char", json!("o"), character),
        ("list.todo", "partially_complete_3_char", json!("O"), character),
        ("list.todo", "complete_char", json!("X"), character),
        ("list.todo", "rejected_char", json!("-"), character),
        ("paragraph", "line_wrap_column", json!(80), number),
        ("paragraph", "no_line_wrap", json!(false), boolean),
        ("paragraph", "trim_lines", json!(true), boolean),
        ("table", "no_padding", json!(false), boolean),
    ]
}

fn vim_values(c: &VimwikiConfig) -> Vec<Value> {
    let t = &c.list.todo;
    let ch = |c: char| json!(c.to_string());
    vec![
        json!(c.page.indent_str),
        json!(c.page.separate_block_elements),
        json!(c.blockquote.prefer_indented_blockquote),
        json!(c.blockquote.trim_lines),
        json!(c.comment.no_padding),
        json!(c.comment.trim_content),
        json!(c.definition_list.term_on_line_by_itself),
        json!(c.definition_list.trim_terms),
        json!(c.definition_list.trim_definitions),
        json!(c.header.no_padding),
        json!(c.header.trim_content),
        ch(t.incomplete_char),
        ch(t.partially_complete_1_char),
        ch(t.partially_complete_2_char),
        ch(t.partially_complete_3_char),
        ch(t.complete_char),
        ch(t.rejected_char),
        json!(c.paragraph.line_wrap_column),
        json!(c.paragraph.no_line_wrap),
        json!(c.paragraph.trim_lines),
        json!(c.table.no_padding),
    ]
}

const TEMPLATE: &str = "<!DOCTYPE html>\n<html>\n<head>\n<link rel=\"Stylesheet\" type=\"text/css\" href=\"%root_path%%css%\">\n<title>%title%</title>\n<meta http-equiv=\"Content-Type\" content=\"text/html; charset=%encoding%\">\n<meta name=\"viewport\" content=\"width=device-width, initial-scale=1\">\n</head>\n<body>\n%content%\n</body>\n</html>\n";

fn html_opts(home: &str) -> Vec<Opt> {
    vec![
        ("list", "ignore_newline", json!(true), boolean),
        ("paragraph", "ignore_newline", json!(true), boolean),
        ("link", "base_url", json!("https://localhost/"), uri),
        ("link", "canonicalize", json!(false), boolean),
        ("link", "use_ugly_urls", json!(false), boolean),
        ("header", "table_of_contents", json!("Contents"), string),
        ("code", "theme", json!("InspiredGitHub"), string),
        ("code", "theme_dir", Value::Null, maybe),
        ("code", "server_side", json!(false), boolean),
        ("code", "syntax_dir", Value::Null, maybe),
        ("comment", "include", json!(false), boolean),
        ("template", "name", json!("default"), string),
        ("template", "ext", json!("tpl"), string),
        ("template", "dir", json!(format!("{}/vimwiki/templates", home)), string),
        ("template", "text", json!(TEMPLATE), string),
    ]
}

fn html_values(c: &HtmlConfig) -> Vec<Value> {
    vec![
        json!(c.list.ignore_newline),
        json!(c.paragraph.ignore_newline),
        json!(c.link.base_url.to_string()),
        json!(c.link.canonicalize),
        json!(c.link.use_ugly_urls),
        json!(c.header.table_of_contents),
        json!(c.code.theme),
        json!(c.code.theme_dir),
        json!(c.code.server_side),
        json!(c.code.syntax_dir),
        json!(c.comment.include),
        json!(c.template.name),
        json!(c.template.ext),
        json!(c.template.dir),
        json!(c.template.text),
    ]
}

fn wiki_values(w: &HtmlWikiConfig) -> Vec<Value> {
    vec![json!(w.path), json!(w.path_html), json!(w.name), json!(w.css_name), json!(w.ext), json!(w.diary_rel_path)]
}

/// A wiki's path as it may be written, with where it leads unless it is none
pub fn path(r: &mut Rng, home: &str, vars: &[(String, String)]) -> (String, Option<String>) {
    let mut w = String::new();
    let mut full = String::new();
    let mut relative = false;
    let mut unknown = false;
    match r.below(10) {
        0 | 1 => {
            w.push('~');
            full.push_str(home);
        }
        2 => {
            w.push_str(r.pick(&["$HOME", "${HOME}"]));
            full.push_str(home);
        }
        3 => {
            let (k, v) = r.pick(vars);
            w.push_str(&format!("${{{}}}", k));
            full.push_str(v);
            relative = !v.starts_with('/');
        }
        4 => {
            w.push_str(*r.pick(&["x", ".", "..", "~user", "a/~", "./~"]));
            relative = true;
        }
        _ => (),
    }
    let n = if w.is_empty() { r.range(1, 5) } else { r.below(5) };
    for _ in 0..n {
        let sep = *r.pick(&["/", "/", "/", "/", "//"]);
        w.push_str(sep);
        full.push_str(sep);
        match r.below(12) {
            0 | 1 => {
                w.push_str("..");
                full.push_str("..");
            }
            2 => {
                w.push('.');
                full.push('.');
            }
            3 => {
                let (k, v) = r.pick(vars);
                w.push_str(&if r.bool() { format!("${}", k) } else { format!("${{{}}}", k) });
                full.push_str(v);
            }
            4 => {
                w.push_str("a$$b");
                full.push_str("a$b");
            }
            5 if r.chance(1, 6) => {
                w.push_str("$VWMON_UNKNOWN");
                unknown = true;
            }
            _ => {
                let s = *r.pick(&["wiki", "my wiki", "é", "日本", "a.b", ".hidden", "...", "~", "a~b", "x", "{y}", "w#1", "%", "it's", "q\"q", "b\\s", "vimwiki_html", "$", "..a"]);
                // A name that ends with a dollar sign is fine before a slash
                w.push_str(s);
                full.push_str(s);
            }
        }
    }
    if r.chance(1, 8) {
        w.push('/');
        full.push('/');
    }
    if relative && full.starts_with('/') || full.is_empty() {
        // Nothing that begins like this begins with a slash
        relative = true;
    }
    if unknown || relative {
        return (w, None);
    }
    let mut v: Vec<&str> = vec![];
    for p in full.split('/') {
        match p {
            "" | "." => (),
            ".." => {
                v.pop();
            }
            p => v.push(p),
        }
    }
    (w, Some(format!("/{}", v.join("/"))))
}

/// One value in one of the notations of TOML
fn toml_value(r: &mut Rng, v: &Value) -> String {
    match v {
        Value::String(s) => {
            let plain = !s.contains(|c: char| c.is_control());
            if plain && !s.contains('\'') && r.chance(1, 3) {
                format!("'{}'", s)
            } else if r.chance(1, 4) {
                let mut o = String::from("\"");
                for c in s.chars() {
                    if c.is_ascii_alphanumeric() {
                        o.push(c)
                    } else if (c as u32) < 65536 {
                        o.push_str(&format!("\\u{:04x}", c as u32));
                    } else {
                        o.push_str(&format!("\\U{:08X}", c as u32));
                    }
                }
                o.push('"');
                o
            } else if r.chance(1, 4) {
                // A line break directly after the quotes is dropped
                format!("\"\"\"\n{}\"\"\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\r', "\\r").replace(|c: char| c.is_control() && c != '\n' && c != '\r' && c != '\t', "").to_string())
            } else {
                q(s)
            }
        }
        v => v.to_string(),
    }
}

/// Whether the notation above keeps a text
fn fits(v: &Value) -> bool {
    v.as_str().map_or(true, |s| !s.contains(|c: char| c.is_control() && !"\n\r\t".contains(c)))
}

struct Given {
    sections: BTreeMap<String, Map<String, Value>>,
    wikis: Vec<Map<String, Value>>,
}

fn toml_text(r: &mut Rng, g: &Given) -> String {
    let mut parts: Vec<String> = vec![];
    let mut top = String::new();
    for (name, m) in &g.sections {
        let mut keys: Vec<&String> = m.keys().collect();
        r.shuffle(&mut keys);
        if !g.sections.keys().any(|n| n != name && (n.starts_with(&format!("{}.", name)) || name.contains('.'))) && r.chance(1, 5) {
            // All of it on one line
            let v: Vec<String> = keys.iter().map(|k| format!("{} = {}", k, toml_value(r, &m[*k]).replace("\"\"\"\n", "\"\"\""))).collect();
            let v = v.join(", ");
            if !v.contains('\n') {
                top.push_str(&format!("{} = {{ {} }}\n", name, v));
                continue;
            }
        }
        let mut s = format!("[{}]{}\n", name, r.pick(&["", " # a comment", " "]));
        for k in keys {
            let key = match r.below(6) {
                0 => format!("\"{}\"", k),
                1 => format!("'{}'", k),
                _ => k.to_string(),
            };
            s.push_str(&format!("{}{}{}\n", key, r.pick(&[" = ", "=", "\t=  "]), toml_value(r, &m[k])));
            if r.chance(1, 8) {
                s.push_str("\n# other = 1\n");
            }
        }
        parts.push(s);
    }
    r.shuffle(&mut parts);
    // Wikis are in order, with other sections in between
    let mut at: Vec<usize> = g.wikis.iter().map(|_| r.below(parts.len() + 1)).collect();
    at.sort_unstable();
    for (i, w) in g.wikis.iter().enumerate().rev() {
        let mut s = String::from("[[wikis]]\n");
        for (k, v) in w {
            s.push_str(&format!("{} = {}\n", k, toml_value(r, v)));
        }
        parts.insert(at[i], s);
    }
    let t = top + &parts.concat();
    if r.chance(1, 8) {
        // Within texts on several lines this is a change
        if !t.contains("\"\"\"") {
            return t.replace('\n', "\r\n");
        }
    }
    t
}

fn json_value(g: &Given) -> Value {
    let mut o = Map::new();
    for (name, m) in &g.sections {
        let mut at = &mut o;
        for p in name.split('.') {
            at = at.entry(p.to_string()).or_insert_with(|| json!({})).as_object_mut().unwrap();
        }
        at.extend(m.clone());
    }
    if !g.wikis.is_empty() {
        o.insert("wikis".into(), json!(g.wikis));
    }
    Value::Object(o)
}

/// Reads a configuration in the way of the program or from JSON
fn read<T: serde::de::DeserializeOwned>(s: &str, is_toml: bool) -> Result<T, String> {
    if is_toml {
        toml::from_str(s).map_err(|e| e.to_string())
    } else {
        serde_json::from_str(s).map_err(|e| e.to_string())
    }
}

pub fn environment(r: &mut Rng) -> (String, Vec<(String, String)>) {
    let home = r.pick(&["/home/someone", "/root", "/h o/é", "/x"]).to_string();
    std::env::set_var("HOME", &home);
    let vars: Vec<(String, String)> = vec![
        ("VWMON_A".into(), r.pick(&["/data/wikis", "/", "/a/../b", "/é x"]).to_string()),
        ("VWMON_B".into(), r.pick(&["sub", "a/b", "..", "$VWMON_A", "~"]).to_string()),
    ];
    for (k, v) in &vars {
        std::env::set_var(k, v);
    }
    std::env::remove_var("VWMON_UNKNOWN");
    (home, vars)
}

fn run(r: &mut Rng, cx: &mut Cx) {
    if r.chance(1, 100) {
        return program(r, cx);
    }
    let (home, vars) = environment(r);
    let html = r.bool();
    let opts = if html { html_opts(&home) } else { vim_opts() };
    let mut g = Given { sections: BTreeMap::new(), wikis: vec![] };
    let mut expect: Vec<Value> = opts.iter().map(|o| o.2.clone()).collect();
    let share = *r.pick(&[0, 1, 4, 8, 10]);
    let mut names = String::new();
    for (i, (s, k, d, f)) in opts.iter().enumerate() {
        if r.below(10) < share {
            let mut v = if r.chance(1, 6) && !d.is_null() { d.clone() } else { f(r) };
            while !fits(&v) {
                v = f(r);
            }
            expect[i] = v.clone();
            g.sections.entry(s.to_string()).or_default().insert(k.to_string(), v);
            cx.count("options given");
            names.push_str(&format!(" {}.{}", s, k));
        } else {
            if r.chance(1, 12) {
                g.sections.entry(s.to_string()).or_default();
            }
            cx.count("options left out");
        }
    }
    cx.distinct(&names);
    if r.chance(1, 6) {
        // Options of the other tool
        let o = if html { vim_opts() } else { html_opts(&home) };
        for _ in 0..r.range(1, 3) {
            let (s, k, _, f) = r.pick(&o);
            if !opts.iter().any(|x| x.0 == *s && x.1 == *k) {
                let v = f(r);
                if fits(&v) {
                    g.sections.entry(s.to_string()).or_default().insert(k.to_string(), v);
                }
            }
        }
    }
    let mut wikis: Vec<Vec<Value>> = vec![];
    let mut reject = None;
    if html {
        for _ in 0..r.below(4) {
            let mut m = Map::new();
            let mut e =
                vec![json!(format!("{}/vimwiki", home)), json!(format!("{}/vimwiki_html", home)), Value::Null, json!("style.css"), json!("wiki"), json!("diary")];
            for (i, k) in ["path", "path_html"].iter().enumerate() {
                if r.chance(2, 3) {
                    let (w, full) = path(r, &home, &vars);
                    m.insert(k.to_string(), json!(w));
                    match full {
                        Some(f) => {
                            cx.count("paths expanded");
                            let form: String = w.chars().map(|c| if c.is_alphanumeric() { 'a' } else { c }).collect();
                            cx.distinct(&form);
                            e[i] = json!(f);
                        }
                        None => reject = Some(w),
                    }
                }
            }
            for (i, k) in ["name", "css_name", "ext", "diary_rel_path"].iter().enumerate() {
                if r.chance(1, 3) {
                    let mut v = string(r);
                    while !fits(&v) {
                        v = string(r);
                    }
                    m.insert(k.to_string(), v.clone());
                    e[i + 2] = v;
                }
            }
            g.wikis.push(m);
            wikis.push(e);
        }
    }
    let is_toml = r.chance(2, 3);
    let text = if is_toml { toml_text(r, &g) } else { json_value(&g).to_string() };
    cx.input(&text);
    if r.chance(1, 8) {
        return damaged(r, cx, html, is_toml, &text);
    }
    if html {
        let c = match guard(|| read::<HtmlConfig>(&text, is_toml)) {
            Err(e) => return cx.fail(panic_sig(&e), e),
            Ok(Err(e)) => {
                if reject.is_some() {
                    cx.count("paths rejected");
                } else {
                    cx.fail("configuration rejected", e);
                }
                return;
            }
            Ok(Ok(c)) => c,
        };
        if let Some(w) = reject {
            return cx.fail("path accepted", format!("{:?} was read as {:?}", w, c.wikis));
        }
        check_html(cx, "read", &c, &opts, &expect, &wikis);
        if r.bool() {
            let res = guard(|| {
                let t = if is_toml { toml::to_string(&c).map_err(|e| e.to_string()) } else { serde_json::to_string(&c).map_err(|e| e.to_string()) }?;
                read::<HtmlConfig>(&t, is_toml).map_err(|e| format!("{} in {}", e, t))
            });
            match res {
                Err(e) => cx.fail(panic_sig(&e), e),
                Ok(Err(e)) => cx.fail("not read back", e),
                Ok(Ok(c)) => {
                    check_html(cx, "read back", &c, &opts, &expect, &wikis);
                    cx.count("read back");
                }
            }
        }
    } else {
        let c = match guard(|| read::<VimwikiConfig>(&text, is_toml)) {
            Err(e) => return cx.fail(panic_sig(&e), e),
            Ok(Err(e)) => return cx.fail("configuration rejected", e),
            Ok(Ok(c)) => c,
        };
        check(cx, "read", &vim_values(&c), &opts, &expect);
        if r.bool() {
            let res = guard(|| {
                let t = if is_toml { toml::to_string(&c).map_err(|e| e.to_string()) } else { serde_json::to_string(&c).map_err(|e| e.to_string()) }?;
                read::<VimwikiConfig>(&t, is_toml).map_err(|e| format!("{} in {}", e, t))
            });
            match res {
                Err(e) => cx.fail(panic_sig(&e), e),
                Ok(Err(e)) => cx.fail("not read back", e),
                Ok(Ok(c)) => {
                    check(cx, "read back", &vim_values(&c), &opts, &expect);
                    cx.count("read back");
                }
            }
        }
    }
}

fn check(cx: &mut Cx, what: &str, got: &[Value], opts: &[Opt], expect: &[Value]) {
    for ((o, g), e) in opts.iter().zip(got).zip(expect) {
        if g != e {
            cx.fail(format!("{} {}.{}", what, o.0, o.1), format!("expected {} but {} as {}", e, what, g));
        }
    }
}

fn check_html(cx: &mut Cx, what: &str, c: &HtmlConfig, opts: &[Opt], expect: &[Value], wikis: &[Vec<Value>]) {
    check(cx, what, &html_values(c), opts, expect);
    if c.wikis.len() != wikis.len() {
        return cx.fail(format!("{} wikis", what), format!("{} wikis instead of {}", c.wikis.len(), wikis.len()));
    }
    for (i, (w, e)) in c.wikis.iter().zip(wikis).enumerate() {
        for ((g, e), k) in wiki_values(w).iter().zip(e).zip(["path", "path_html", "name", "css_name", "ext", "diary_rel_path"]) {
            if g != e {
                cx.fail(format!("{} wikis.{}", what, k), format!("wiki {}: expected {} but {} as {}", i, e, what, g));
            }
        }
    }
    let home = std::env::var("HOME").unwrap();
    if c.runtime.wiki_index.is_some() || c.runtime.page != PathBuf::from(format!("{}/vimwiki/index.wiki", home)) {
        cx.fail("runtime options read", format!("{:?}", c.runtime));
    }
}

/// Configurations with an error are rejected or, where the error is within
/// something else, read
fn damaged(r: &mut Rng, cx: &mut Cx, html: bool, is_toml: bool, text: &str) {
    if r.chance(1, 6) {
        // What is no URI
        let u = *r.pick(&["", "relative/path", "/abs", "my site:80/x", "a b:c", "h'x://y", "http://[", "http://a:b", "http://x/%zz", "1x://y", "http://a b/", "//x/y", "é:x", "#x"]);
        let t = if is_toml { format!("[link]\nbase_url = {}\n", q(u)) } else { json!({"link": {"base_url": u}}).to_string() };
        cx.input(&t);
        match guard(|| read::<HtmlConfig>(&t, is_toml).is_ok()) {
            Err(e) => cx.fail(panic_sig(&e), e),
            Ok(true) => cx.fail("not a URI but accepted", t),
            Ok(false) => cx.count("damaged configurations rejected"),
        }
        return;
    }
    // A known option with a value of the wrong type
    let opts = if html { html_opts("/x") } else { vim_opts() };
    let t = if r.bool() {
        let (s, k, d, _) = r.pick(&opts);
        let v = match d {
            Value::Bool(_) => r.pick(&["\"true\"", "1", "[true]", "{}"]),
            Value::Number(_) => r.pick(&["\"80\"", "true", "-1", "8.5", "[80]"]),
            _ => r.pick(&["1", "true", "[\"x\"]", "{}", "1.5"]),
        };
        // Characters are exactly one
        let v = if s == &"list.todo" { r.pick(&["\"\"", "\"ab\"", "1", "true"]) } else { v };
        let t = if is_toml {
            format!("[{}]\n{} = {}\n", s, k, v)
        } else {
            let mut t = format!("{{{:?}: {}}}", k, v);
            for p in s.rsplit('.') {
                t = format!("{{{:?}: {}}}", p, t);
            }
            t
        };
        cx.input(&t);
        let res = guard(|| if html { read::<HtmlConfig>(&t, is_toml).map(|c| format!("{:?}", html_values(&c))) } else { read::<VimwikiConfig>(&t, is_toml).map(|c| format!("{:?}", vim_values(&c))) });
        match res {
            Err(e) => cx.fail(panic_sig(&e), e),
            Ok(Ok(c)) => cx.fail(format!("wrong type accepted for {}.{}", s, k), format!("{} was read as {}", t, c)),
            Ok(Err(_)) => cx.count("damaged configurations rejected"),
        }
        return;
    } else {
        crate::fuzz::mutate(r, text, "[wikis]\n[[x]]\n= \"\"\" '''\n\\")
    };
    cx.input(&t);
    let res = guard(|| if html { read::<HtmlConfig>(&t, is_toml).is_ok() } else { read::<VimwikiConfig>(&t, is_toml).is_ok() });
    match res {
        Err(e) => cx.fail(panic_sig(&e), e),
        Ok(true) => cx.count("damaged configurations accepted"),
        Ok(false) => cx.count("damaged configurations rejected"),
    }
}

/// The wikis that the program works with: those of vim's come first, and are
/// only used where there are no others or when asked to
fn program(r: &mut Rng, cx: &mut Cx) {
    let w = World::new(&cx.scratch, cx.case);
    let root = w.root.to_str().unwrap().to_string();
    let (nv, nc) = (r.below(5), r.below(4));
    let mut all = vec![];
    let mut pages = vec![];
    for i in 0..nv + nc {
        let mut ext = *r.pick(&["wiki", "wiki", "md", "txt"]);
        let nested = r.chance(1, 4);
        let mut dir = if nested { format!("wikis/w{}", i) } else { format!("w{}", i) };
        if i >= nv && i > 0 && r.chance(1, 6) {
            // The same files again are another wiki nevertheless
            let k: &(_, String, _, &str) = r.pick(&all);
            (dir, ext) = (k.1.clone(), k.3);
        }
        let written = |r: &mut Rng, d: &str| match r.below(4) {
            0 => format!("~/../{}", d),
            1 => format!("$HOME/../{}", d),
            2 => format!("{}/x/.././/{}/", root, d),
            _ => format!("{}/{}", root, d),
        };
        let mut m = Map::new();
        m.insert("path".into(), json!(written(r, &dir)));
        m.insert("path_html".into(), json!(written(r, &format!("html{}", i))));
        if ext != "wiki" || r.bool() {
            m.insert("ext".into(), json!(ext));
        }
        if i < nv {
            // What vim's plugin knows but this program does not
            for (k, v) in [("syntax", json!("default")), ("auto_toc", json!(1)), ("nested_syntaxes", json!({"python": "python"})), ("diary_index", json!("diary"))] {
                if r.chance(1, 3) {
                    m.insert(k.into(), v);
                }
            }
        }
        pages.push(format!("{}/index.{}", dir, ext));
        all.push((m, dir, format!("html{}", i), ext));
    }
    let merge = r.bool();
    let with_config = nc > 0 || r.bool();
    let mut g = Given { sections: BTreeMap::new(), wikis: all[nv..].iter().map(|x| x.0.clone()).collect() };
    g.sections.entry("template".into()).or_default().insert("text".into(), json!("%content%"));
    let cfg = toml_text(r, &g);
    w.write("cfg.toml", &cfg);
    let list = json!(all[..nv].iter().map(|x| x.0.clone()).collect::<Vec<_>>());
    // How vim may answer, and whether that is a list of wikis
    let (script, works) = match r.below(12) {
        0 => ("exit 2".to_string(), false),
        1 => ("echo no json".into(), false),
        2 => ("exit 1".into(), false),
        3 => ("echo 0".into(), false),
        4 if nv > 0 => {
            let mut bad = list.clone();
            bad[r.below(nv)]["path"] = json!("relative/path");
            (format!("cat <<'END'\n{}\nEND", bad), false)
        }
        5 => (format!("cat <<'END'\n\n  {}\n\nEND\nexit 1", list), true),
        _ => (format!("cat <<'END'\n{}\nEND", list), true),
    };
    let vim = r.pick(&["vim", "nvim"]);
    let there = !r.chance(1, 10);
    if there {
        let p = w.path(&format!("bin/{}", vim));
        w.write(&format!("bin/{}", vim), format!("#!/bin/sh\ncase \"$*\" in *g:*vimwiki_list*) ;; *) exit 0;; esac\n{}\n", script));
        std::fs::set_permissions(p, std::os::unix::fs::PermissionsExt::from_mode(0o755)).unwrap();
    } else {
        w.dir("bin");
    }
    let rc = !r.chance(1, 10);
    if rc {
        w.write(r.pick(&["home/.vimrc", "home/.vim/vimrc", "home/.config/nvim/init.vim", "home/.config/nvim/init.lua"]), "");
    }
    let used_config: &[_] = if with_config { &all[nv..] } else { &[] };
    let used_vim: &[_] = if works && there && rc && (used_config.is_empty() || merge) { &all[..nv] } else { &[] };
    let used: Vec<_> = used_vim.iter().chain(used_config).collect();
    // Each wiki has a page that links to each of those
    let links: String = (0..used.len()).map(|i| format!("[[wiki{}:index]] ", i)).collect();
    for p in &pages {
        w.write(p, format!("{}\n", links));
    }
    w.settle();
    let mut args: Vec<std::ffi::OsString> = vec![];
    if with_config {
        args.extend(crate::cli::args(&["--config", &format!("{}/cfg.toml", root)]));
    }
    if merge {
        args.push("--merge".into());
    }
    args.extend(crate::cli::args(&["--no-cache", "convert"]));
    cx.input(&format!("{:?}\nvim {:?} {:?} {:?}\n{}", args, there, rc, script, cfg));
    cx.distinct(&format!("{} {} {} {} {} {}", nv, nc, merge, with_config, script.len() < 14, works && there && rc));
    let o = w.run(&args, &[("PATH", format!("{}/bin:/usr/bin:/bin", root))]);
    if o.panicked() || o.signal.is_some() {
        return cx.fail("program panics", o.show());
    }
    if o.code != Some(0) {
        return cx.fail("exit status", o.show());
    }
    cx.count(if used_vim.is_empty() { "runs without wikis of vim's" } else { "runs with wikis of vim's" });
    for (i, x) in all.iter().enumerate() {
        if all.iter().filter(|u| u.1 == x.1).count() > 1 {
            // Whose pages these are is not said
            cx.count("wikis of the same files");
            continue;
        }
        let at = used.iter().position(|u| u.1 == x.1);
        let f = w.path(&format!("{}/index.html", x.2));
        let made = std::fs::read_to_string(&f).ok();
        match (at, made) {
            (None, None) => (),
            (None, Some(_)) => return cx.fail("wiki not asked for", format!("wiki {} was converted: {}", i, o.show())),
            (Some(_), None) => return cx.fail("wiki left out", format!("wiki {} was not converted: {}", i, o.show())),
            (Some(_), Some(h)) => {
                let order: Vec<_> = used.iter().map(|u| if u.1 == x.1 { h.find("\"index.html") } else { h.find(&format!("../{}/index.html", u.2)) }).collect();
                if order.contains(&None) || order.windows(2).any(|p| p[0] >= p[1]) {
                    return cx.fail("order of wikis", format!("expected {:?} in {}", used.iter().map(|u| &u.2).collect::<Vec<_>>(), h));
                }
            }
        }
    }
}

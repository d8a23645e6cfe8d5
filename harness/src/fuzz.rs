//! Hostile text generators: token soup and structural mutation.
use crate::rng::Rng;

pub const TOKENS: &[&str] = &[
    "=", "==", "======", "= h =", "== h ==", " ", "  ", "    ", "\t", "\n", "\n\n", "\r\n", "\r", "-", "--", "----",
    "-----", "- ", "* ", "# ", "1. ", "1) ", "a) ", "A) ", "i) ", "I) ", "ii) ", "12) ", "z) ", "aa) ", "IV) ",
    "[ ] ", "[X] ", "[o] ", "[-] ", "[.] ", "[O] ", "[", "]", "[[", "]]", "{{", "}}", "{{{", "}}}", "{{$", "}}$",
    "%%", "%%+", "+%%", "%title ", "%date ", "%template ", "%nohtml", "%foo ", "%date 2021-03-05", "2021-03-05",
    "2021-02-30", "diary:", "diary:2021-03-05", "wiki1:", "wn.", "wn.name:", "wn.my name:", "http://", "https://a.b/c?d=e#f",
    "file:", "local:", "file:/x/y", "mailto:a@b.c", "ftp://x", "//x/y", "www.a.b", "#", "#a", "##", "#a#b", "|", "||", "|-|", "|:-|",
    "|:-:|", "|-:|", "|--|", ">", "> ", "\\/", "\\", "/", ":", "::", ":: ", "t:: d", ":: d", ":t:", ":a:b:", "*", "**", "_", "__",
    "~~", "~", "^", ",,", ",", "`", "``", "$", "$$", "*b*", "_i_", "*_bi_*", "_*ib*_", "~~s~~", "^u^", ",,d,,",
    "TODO", "DONE", "STARTED", "FIXME", "FIXED", "XXX", "TODOx", "w", "word", "some text", "é", "日本", "ß", "İ", "ﬀ", "😀", "e\u{301}",
    "\u{a0}", "\u{3000}", "\u{2028}", "\u{85}", "\u{feff}", "\u{200b}", "\u{0}", "\u{1}", "\u{7f}", "\u{b}", "\u{c}", "<", "&", "\"", "'", "<b>", "&amp;",
    "<!--", "-->", "%", "%20", "%7C", "%5D%5D", "%zz", "?", "!", "@", ";", "+", "(", ")", "{", "}", "key=\"v\"", "=\"", "a=\"b\"",
    "{{{rust", "{{{rust k=\"v\"", "{{{k=\"v\"", "{{$%align%", "{{$ %x%", "x|y", "a|b|c=\"d\"", "..", "../", "./", "/a", "a/", "a/b",
    "c:\\x", "\u{10ffff}", "0", "9999999999999999999999) ", "4294967296", "wiki4294967296:", "wiki0:",
];

pub fn soup(r: &mut Rng, max_tokens: usize) -> String {
    let n = r.range(1, max_tokens);
    let mut s = String::new();
    // restrict to a random sub-alphabet half of the time: more interactions
    let sub: Option<Vec<&str>> = if r.bool() {
        let k = r.range(2, 8);
        Some((0..k).map(|_| *r.pick(TOKENS)).collect())
    } else {
        None
    };
    for _ in 0..n {
        let t = match &sub {
            Some(v) => {
                if r.chance(1, 6) {
                    *r.pick(&["\n", " ", "x", "\n  ", "\n    "])
                } else {
                    *r.pick(v)
                }
            }
            None => *r.pick(TOKENS),
        };
        s.push_str(t);
        if r.chance(1, 12) {
            s.push('\n');
        }
    }
    s
}

/// Blocks with odd indentation / whitespace, to reach the multi-line parsers
pub fn blocky(r: &mut Rng) -> String {
    const WS: &[&str] = &["", " ", "  ", "    ", "\t", "\u{3000}", "\u{a0}", " \u{2003}", "\u{3000} "];
    let mut s = String::new();
    for _ in 0..r.range(1, 4) {
        let ind = *r.pick(WS);
        let kind = r.below(8);
        let body = |r: &mut Rng, s: &mut String, close: &str| {
            for _ in 0..r.below(5) {
                s.push_str(*r.pick(WS));
                s.push_str(*r.pick(WS));
                if r.chance(3, 4) {
                    let t = soup(r, 4).replace('\n', " ");
                    s.push_str(&t);
                }
                s.push('\n');
            }
            s.push_str(*r.pick(WS));
            s.push_str(close);
            if r.chance(1, 5) {
                s.push_str(*r.pick(WS));
            }
            s.push('\n');
        };
        s.push_str(ind);
        match kind {
            0 | 1 => {
                s.push_str("{{{");
                if r.bool() {
                    s.push_str(*r.pick(&["rust", "rust k=\"v\"", "k=\"v\" j=\"w\"", " x", "é", "k=\"", "a b=\"c\""]));
                }
                s.push('\n');
                body(r, &mut s, "}}}");
            }
            2 | 3 => {
                s.push_str("{{$");
                if r.bool() {
                    s.push_str(*r.pick(&["%align%", " %e%", "%é%", "%%", "%a", "x"]));
                }
                s.push('\n');
                body(r, &mut s, "}}$");
            }
            4 => {
                for _ in 0..r.range(1, 6) {
                    s.push_str(*r.pick(WS));
                    s.push_str(*r.pick(&["- ", "* ", "# ", "1. ", "a) ", "i) ", "I) ", "A) ", "1) ", ""]));
                    if r.chance(1, 3) {
                        s.push_str(*r.pick(&["[ ] ", "[X] ", "[.]", "[o] "]));
                    }
                    let t = soup(r, 3).replace('\n', " ");
                    s.push_str(&t);
                    s.push('\n');
                }
            }
            5 => {
                for _ in 0..r.range(1, 5) {
                    s.push_str(*r.pick(WS));
                    for _ in 0..r.range(1, 5) {
                        s.push('|');
                        s.push_str(*r.pick(&["a", " b ", ">", "\\/", "-", ":-", "-:", ":-:", "", " ", "---", "*x*", "[[l|d]]", "{{t|u}}", "é"]));
                    }
                    if r.chance(5, 6) {
                        s.push('|');
                    }
                    s.push('\n');
                }
            }
            6 => {
                for _ in 0..r.range(1, 5) {
                    s.push_str(*r.pick(&["t:: d", "t::", ":: d", "::", "t :: d", "é:: *b*", "t::d", ":: ::", "%% c", "a:: b:: c"]));
                    s.push('\n');
                }
            }
            _ => {
                for _ in 0..r.range(1, 5) {
                    s.push_str(*r.pick(&["> ", ">", ">> ", "    ", "     ", "> > "]));
                    s.push_str(&soup(r, 3).replace('\n', " "));
                    s.push('\n');
                    if r.chance(1, 4) {
                        s.push('\n');
                    }
                }
            }
        }
    }
    s
}

/// Mutate text on character boundaries
pub fn mutate(r: &mut Rng, text: &str, other: &str) -> String {
    let mut c: Vec<char> = text.chars().collect();
    let o: Vec<char> = other.chars().collect();
    for _ in 0..r.range(1, 4) {
        let n = c.len();
        match r.below(8) {
            0 if n > 0 => {
                let i = r.below(n);
                let k = r.range(1, 3).min(n - i);
                c.drain(i..i + k);
            }
            1 => {
                let i = r.below(n + 1);
                let t: Vec<char> = r.pick(TOKENS).chars().collect();
                c.splice(i..i, t);
            }
            2 if n > 1 => {
                let i = r.below(n);
                let j = r.below(n);
                c.swap(i, j);
            }
            3 if n > 0 => {
                let i = r.below(n);
                let k = r.range(1, 12).min(n - i);
                let seg: Vec<char> = c[i..i + k].to_vec();
                let j = r.below(n + 1);
                c.splice(j..j, seg);
            }
            4 if !o.is_empty() => {
                let i = r.below(o.len());
                let k = r.range(1, 20).min(o.len() - i);
                let j = r.below(n + 1);
                c.splice(j..j, o[i..i + k].iter().copied());
            }
            5 if n > 0 => {
                c.truncate(r.below(n) + 1);
            }
            6 if n > 0 => {
                let i = r.below(n);
                c[i] = r.pick(TOKENS).chars().next().unwrap();
            }
            _ => {
                let i = r.below(n + 1);
                c.insert(i, *r.pick(&['\n', ' ', '\t', '|', '*', ':', '%', '\u{3000}']));
            }
        }
    }
    c.into_iter().collect()
}

pub fn hostile(r: &mut Rng, corpus: &[&str]) -> String {
    match r.below(5) {
        0 => soup(r, 12),
        1 => soup(r, 60),
        2 => blocky(r),
        3 => {
            let a = blocky(r);
            let b = soup(r, 20);
            mutate(r, &a, &b)
        }
        _ => {
            if corpus.is_empty() {
                return soup(r, 30);
            }
            let a = pick_chunk(r, corpus);
            let b = pick_chunk(r, corpus);
            mutate(r, &a, &b)
        }
    }
}

fn pick_chunk(r: &mut Rng, corpus: &[&str]) -> String {
    let t = *r.pick(corpus);
    let lines: Vec<&str> = t.lines().collect();
    if lines.is_empty() {
        return String::new();
    }
    let i = r.below(lines.len());
    let k = r.range(1, 14).min(lines.len() - i);
    let mut s = lines[i..i + k].join("\n");
    s.push('\n');
    s
}

pub const CORPUS: &[&str] = &[
    include_str!("../corpus/spec.wiki"),
    include_str!("../corpus/pandoc.wiki"),
    include_str!("../corpus/mix.wiki"),
];

/// Hostile text from all of the above sources
pub fn any(r: &mut Rng) -> String {
    let t = match r.below(8) {
        0 => composite(r),
        1 => {
            let t = hostile(r, CORPUS);
            let c = composite(r);
            mutate(r, &t, &c)
        }
        _ => hostile(r, CORPUS),
    };
    if r.chance(1, 10) {
        numbers(r, &t)
    } else {
        t
    }
}

/// Numbers at and beyond the bounds of types and of what they stand for
pub const NUMBERS: &[&str] = &[
    "0", "00", "1", "2", "7", "12", "13", "25", "26", "27", "29", "31", "32", "99", "127", "128", "255", "256", "365", "702", "703",
    "32767", "32768", "65535", "65536", "99999", "262143", "262144", "2147483647", "2147483648", "4294967295", "4294967296",
    "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "9999999999999999999999999999999999999999",
];

/// Replaces some of the numbers of a text by extreme ones
pub fn numbers(r: &mut Rng, text: &str) -> String {
    let mut out = String::new();
    let mut digits = String::new();
    for c in text.chars().chain(Some('\0')) {
        if c.is_ascii_digit() {
            digits.push(c);
            continue;
        }
        if !digits.is_empty() {
            if r.bool() {
                out.push_str(*r.pick(NUMBERS));
            } else {
                out.push_str(&digits);
            }
            digits.clear();
        }
        out.push(c);
    }
    out.pop();
    out
}

/// Complete constructs around odd contents: link kinds, markers, dates,
/// placeholders with numbers, paths and fragments of any form
pub fn composite(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 3) {
        let n = |r: &mut Rng| -> String {
            match r.below(3) {
                0 => r.pick(NUMBERS).to_string(),
                1 => format!("{}{}", r.pick(&["-", "+", "0", " ", "0x", "1e"]), r.pick(NUMBERS)),
                _ => r.pick(TOKENS).replace('\n', " "),
            }
        };
        let date = |r: &mut Rng| format!("{}-{}-{}", n(r), n(r), n(r));
        let target = |r: &mut Rng| -> String {
            match r.below(8) {
                0 | 1 => format!("wiki{}:{}", n(r), r.pick(&["", "x", "a/b", "#x", "/", ":"])),
                2 => format!("wn.{}:{}", n(r), n(r)),
                3 => format!("diary:{}", date(r)),
                4 => format!("{}:{}", r.pick(&["file", "local", "http", "https", "ftp", "mailto", "a+b", "1"]), n(r)),
                5 => format!("//{}/{}", n(r), n(r)),
                6 => format!("{}:{}@h:{}/{}", r.pick(&["http", "x"]), n(r), n(r), n(r)),
                _ => n(r),
            }
        };
        match r.below(9) {
            0..=2 => {
                s.push_str("[[");
                s.push_str(&target(r));
                if r.bool() {
                    s.push('#');
                    s.push_str(&n(r));
                }
                if r.bool() {
                    s.push('|');
                    s.push_str(&n(r));
                }
                s.push_str("]]");
            }
            3 => {
                s.push_str("{{");
                s.push_str(&target(r));
                for _ in 0..r.below(3) {
                    s.push('|');
                    s.push_str(&n(r));
                }
                if r.bool() {
                    s.push_str(&format!("|{}=\"{}\"", n(r), n(r)));
                }
                s.push_str("}}");
            }
            4 => s.push_str(&format!("\n{}{} x\n", n(r), r.pick(&[".", ")", "-", ""]))),
            5 => s.push_str(&format!("\n%{} {}\n", r.pick(&["date", "title", "template", "x"]), if r.bool() { date(r) } else { n(r) })),
            6 => s.push_str(&target(r)),
            7 => s.push_str(&format!("\n- [{}] x\n", n(r))),
            _ => s.push_str(&format!("\n{{{{{{{} {}=\"{}\"\nx\n}}}}}}\n", n(r), n(r), n(r))),
        }
        if r.chance(1, 3) {
            s.push_str(*r.pick(&[" ", "\n", "x", "|"]));
        }
    }
    s
}

//! Links that programs build hold what they were given and say what they are.
use crate::engine::*;
use crate::rng::Rng;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::path::Path;
use vimwiki::vendor::chrono::NaiveDate;
use vimwiki::*;

pub static PROP: Prop = Prop {
    id: "C27",
    cases: (120_000, 6_000_000),
    run,
    rule: "each case builds a link of a random kind from a random scheme, host, path, query, anchor, description and properties; every accessor is compared with these parts, and the link written as vimwiki and parsed again with the link itself; addresses and anchors are encoded and decoded; non-trivial: distinct shapes of links and texts",
    assumptions: &["descriptions hold no markup that ends or opens a link, as nothing can escape it"],
    must_see: &[
        ("links built", 60_000), ("links read back", 40_000), ("anchors", 15_000), ("descriptions", 8_000), ("addresses decoded", 30_000), ("invalid addresses", 3_000),
        ("properties", 2_000), ("local anchors", 300), ("dates", 3_000), ("bytes that are no text", 1_000), ("images as descriptions", 3_000),
    ],
    level: "exploration",
};

const PIECES: &[&str] = &["a", "page", "Some-Name", "x.y", "b_c", "~u", "1", "a%20b", "%C3%A9", "%c3%a9z", "a%2Fb", "(x)", "a'b", "a,b", "k=v", "p+q", "a;b", "%25", "x.png", "T!", "a&b", "@c", "$d"];
const ANCHOR: &[&str] = &["a", "One Two", "é", "x-y", "100%", "%20", "a/b", "a?b", "中文", "<b>", "\"q\"", "a&b", "[x]", "{y}", "a|b", "\\", "`", "^", "%zz", "%2", "Ü%41", "", "a b ", "'", "~", "\u{7f}", "\t"];

fn decode(s: &str) -> String {
    // Runs of encoded bytes that are text are text, all others stay
    let b = s.as_bytes();
    let hex = |i: usize| -> Option<u8> {
        let h = b.get(i + 1..i + 3)?;
        if b[i] == b'%' && h.iter().all(u8::is_ascii_hexdigit) { u8::from_str_radix(std::str::from_utf8(h).unwrap(), 16).ok() } else { None }
    };
    let mut out = String::new();
    let mut i = 0;
    'next: while i < b.len() {
        let mut v = vec![];
        while v.len() < 4 {
            match b.get(i + 3 * v.len()).and_then(|_| hex(i + 3 * v.len())) {
                Some(x) => v.push(x),
                None => break,
            }
            if let Ok(t) = std::str::from_utf8(&v) {
                out.push_str(t);
                i += 3 * v.len();
                continue 'next;
            }
        }
        let c = s[i..].chars().next().unwrap();
        out.push(c);
        i += c.len_utf8();
    }
    out
}

/// A piece of an anchor is encoded or is not: a percent sign that encodes
/// nothing tells that it is not
fn meant(s: &str) -> String {
    let b = s.as_bytes();
    let encoded = (0..b.len()).filter(|i| b[*i] == b'%').all(|i| b.get(i + 1..i + 3).map_or(false, |h| h.iter().all(u8::is_ascii_hexdigit)));
    if encoded { decode(s) } else { s.to_string() }
}

struct Uri {
    scheme: Option<&'static str>,
    host: Option<&'static str>,
    path: String,
    query: Option<&'static str>,
    anchor: Option<Vec<String>>,
}

impl Uri {
    fn text(&self) -> String {
        let mut s = String::new();
        if let Some(x) = self.scheme {
            s.push_str(x);
            s.push(':');
        }
        if let Some(h) = self.host {
            s.push_str("//");
            s.push_str(h);
        }
        s.push_str(&self.path);
        if let Some(q) = self.query {
            s.push('?');
            s.push_str(q);
        }
        if let Some(a) = &self.anchor {
            s.push('#');
            s.push_str(&a.join("%23"));
        }
        s
    }
}

fn uri(r: &mut Rng, schemes: &[Option<&'static str>]) -> Uri {
    let scheme = *r.pick(schemes);
    let host = match scheme {
        Some("http" | "https" | "ftp" | "sftp") => Some(*r.pick(&["example.com", "a.b:80", "u@h.org", "127.0.0.1", "[::1]"])),
        Some("file") if r.bool() => Some(""),
        None if r.chance(1, 20) => Some("h.org"),
        _ => None,
    };
    let mut path = (0..r.below(4)).map(|_| *r.pick(PIECES)).collect::<Vec<_>>().join("/");
    if !path.is_empty() && r.chance(1, 4) {
        path.push('/');
    }
    if scheme.is_none() && !path.is_empty() && r.chance(1, 10) {
        path = format!("{}{}", r.pick(&["../", "./", "../../"]), path);
    }
    if host.is_some() || r.chance(1, 4) {
        path = format!("/{}", path);
    }
    let query = if r.chance(1, 8) { Some(*r.pick(&["x=1", "q", "a=b&c=d", "q=%20"])) } else { None };
    let anchor = if r.chance(1, 3) {
        Some((0..r.range(1, 3)).map(|_| r.pick(&["One", "two-three", "x%20y", "a.b", "a/b", "%C3%A9", "x?y", "1"]).to_string()).collect())
    } else {
        None
    };
    Uri { scheme, host, path, query, anchor }
}

fn description<'a>(r: &mut Rng) -> Option<(Description<'a>, String)> {
    match r.below(6) {
        0 | 1 => None,
        2 => {
            let s = *r.pick(&["http://h.org/x.png", "img/y.jpg", "file:/a.gif", "local:b.svg"]);
            Some((Description::try_from_uri_ref_str(s).unwrap(), s.to_string()))
        }
        3 => {
            let s = *r.pick(&["text", "some text", "é 中", "a < b & c", "(x) 'y'", "*no bold*", "TODO", "a: b"]);
            Some((Description::from(s), s.to_string()))
        }
        4 => {
            let s = format!("word{} two", r.below(100));
            Some((Description::from(s.clone()), s))
        }
        _ => {
            let s = "some words";
            Some((Description::from(Cow::Borrowed(s)), s.to_string()))
        }
    }
}

fn run(r: &mut Rng, cx: &mut Cx) {
    match r.below(5) {
        0 => return texts(r, cx),
        1 => return anchors(r, cx),
        _ => (),
    }
    let kind = *r.pick(&["wiki", "wiki", "indexed", "named", "diary", "raw", "transclusion"]);
    let schemes: &[Option<&'static str>] = match kind {
        "raw" => &[Some("http"), Some("https"), Some("ftp"), Some("file"), Some("mailto")],
        "transclusion" => &[None, Some("http"), Some("https"), Some("file"), Some("local")],
        "wiki" => &[None, None, None, Some("file"), Some("local"), Some("http")],
        _ => &[None],
    };
    let u = uri(r, schemes);
    let text = u.text();
    let d = description(r);
    let props: Option<BTreeMap<String, String>> = if r.bool() {
        Some((0..r.range(1, 3)).map(|_| (r.pick(&["style", "alt", "class", "x-y"]).to_string(), r.pick(&["v", "a b", "width:10px", "é", ""]).to_string())).collect())
    } else {
        None
    };
    let date = NaiveDate::from_ymd(r.range(1000, 9999) as i32, r.range(1, 12) as u32, r.range(1, 28) as u32);
    let most = *r.pick(&[10, u32::MAX as usize]);
    let index = r.below(most) as u32;
    let name = *r.pick(&["name", "My Wiki", "é", "a_b", "x.y", "1"]);
    let diary_anchor: Option<Vec<&str>> = if r.bool() { Some((0..r.range(1, 3)).map(|_| *r.pick(ANCHOR)).collect()) } else { None };
    let what = format!("{} {:?} desc {:?} props {:?} {} index {} name {} anchor {:?}", kind, text, d.as_ref().map(|x| &x.1), props, date, index, name, diary_anchor);
    cx.input(&what);
    cx.distinct(&format!("{} {:?} {:?} {} {} {:?}", kind, u.scheme, u.host, u.path.matches('/').count(), u.query.is_some(), (&u.anchor.as_ref().map(|a| a.len()), &d.as_ref().map(|x| x.1.len()), &props, &diary_anchor)));
    let desc = || d.as_ref().map(|x| x.0.clone());
    let link = match guard(|| {
        Some(match kind {
            "wiki" => Link::try_new_wiki_link(text.as_str(), desc()),
            "indexed" => Link::try_new_indexed_interwiki_link(index, text.as_str(), desc()),
            "named" => Link::try_new_named_interwiki_link(name, text.as_str(), desc()),
            "diary" => Ok(Link::new_diary_link(date, desc(), diary_anchor.as_ref().map(|a| a.iter().copied().collect::<Anchor>()))),
            "raw" => Link::try_new_raw_link(text.as_str()),
            _ => Link::try_new_transclusion_link(
                text.as_str(),
                desc(),
                props.as_ref().map(|p| p.iter().map(|(k, v)| (Cow::from(k.clone()), Cow::from(v.clone()))).collect::<HashMap<_, _>>()),
            ),
        })
    }) {
        Ok(Some(Ok(l))) => l,
        Ok(Some(Err(e))) => return cx.fail("link not built", format!("{}", e)),
        Ok(None) => return,
        Err(e) => return cx.fail(panic_sig(&e), e),
    };
    cx.count("links built");
    let raw = kind == "raw";
    let diary = kind == "diary";
    let bad = guard(|| facts(&link, kind, &u, &text, if raw { None } else { d.as_ref() }, if kind == "transclusion" { props.as_ref() } else { None }, date, index, name, diary_anchor.as_deref()));
    match bad {
        Ok(v) => {
            for (sig, m) in v {
                cx.fail(sig, m);
            }
        }
        Err(e) => return cx.fail(panic_sig(&e), e),
    }
    match &d {
        Some((Description::TransclusionLink(_), _)) => cx.count("images as descriptions"),
        Some(_) => cx.count("descriptions"),
        None => (),
    }
    if link.properties().is_some() {
        cx.count("properties");
    }
    if diary {
        cx.count("dates");
    }
    if link.data().is_local_anchor() {
        cx.count("local anchors");
    }
    // Written and read again
    if !writable(kind, &u, d.as_ref(), props.is_some(), diary_anchor.as_deref()) {
        return;
    }
    let got = guard(|| {
        let p = Page::new(vec![Located::from(BlockElement::from(Paragraph::new(vec![InlineElementContainer::new(vec![
            Located::from(InlineElement::Text(Text::from("before "))),
            Located::from(InlineElement::Link(link.clone())),
            Located::from(InlineElement::Text(Text::from(" after"))),
        ])])))]);
        let s = p.to_vimwiki_string(Default::default()).map_err(|e| format!("not written: {}", e))?;
        let q: Page = Language::from_vimwiki_str(&s).parse().map_err(|e| format!("not parsed: {}", e))?;
        if q == p { Ok(()) } else { Err(format!("{:?} is read as {:?}", s, q.elements.first().map(|e| e.as_inner().clone().into_owned()))) }
    });
    match got {
        Ok(Ok(())) => cx.count("links read back"),
        Ok(Err(e)) => cx.fail(format!("{} link read back", kind), e),
        Err(e) => cx.fail(panic_sig(&e), e),
    }
}

/// Whether the syntax can say this
fn writable(kind: &str, u: &Uri, d: Option<&(Description, String)>, props: bool, a: Option<&[&str]>) -> bool {
    match kind {
        // No image as description, and properties come after some description
        "transclusion" if matches!(d, Some((Description::TransclusionLink(_), _))) || d.is_none() && props => false,
        // No address at all, or one that is taken for something else
        "wiki" | "indexed" | "named" | "transclusion" if u.path.is_empty() && u.host.is_none() => false,
        // The address ends where the text does
        "raw" => u.host.map_or(false, |h| !h.is_empty()) && !u.path.ends_with(|c: char| "!,.;:".contains(c)),
        "diary" => a.map_or(true, |a| a.iter().all(|x| !x.is_empty() && !x.contains(|c: char| "|[]\t\u{7f}%".contains(c)) && x.trim() == *x)),
        _ => true,
    }
}

#[allow(clippy::too_many_arguments)]
fn facts(l: &Link, kind: &str, u: &Uri, text: &str, d: Option<&(Description, String)>, props: Option<&BTreeMap<String, String>>, date: NaiveDate, index: u32, name: &str, a: Option<&[&str]>) -> Vec<(String, String)> {
    let mut bad = vec![];
    let mut ck = |what: &str, ok: bool, m: String| {
        if !ok {
            bad.push((what.to_string(), m));
        }
    };
    let kinds = [l.is_wiki(), l.is_indexed_inter_wiki(), l.is_named_inter_wiki(), l.is_diary(), l.is_raw(), l.is_transclusion()];
    let want = ["wiki", "indexed", "named", "diary", "raw", "transclusion"].map(|k| k == kind);
    ck("kind", kinds == want, format!("{:?}", kinds));
    ck("date", l.date() == if kind == "diary" { Some(date) } else { None }, format!("{:?}", l.date()));
    ck("index", l.index() == if kind == "indexed" { Some(index) } else { None }, format!("{:?}", l.index()));
    ck("name", l.name() == if kind == "named" { Some(name) } else { None }, format!("{:?}", l.name()));
    let data = l.data();
    ck("data", &l.clone().into_data() == data, String::new());
    // Description
    let same = |x: Option<&Description>| match (x, d) {
        (None, None) => true,
        (Some(x), Some((y, _))) => x == y,
        _ => false,
    };
    ck("description", same(l.description()) && same(l.clone().into_description().as_ref()) && same(data.description.as_ref()), format!("{:?}", l.description()));
    if let Some((x, s)) = d {
        let is_image = matches!(x, Description::TransclusionLink(_));
        ck("kind of description", x.is_text() != is_image && x.is_transclusion_link() == is_image, format!("{:?}", x));
        ck("address of description", x.clone().into_uri_ref().map(|y| y.to_string()) == if is_image { Some(s.clone()) } else { None }, format!("{:?}", x));
        ck("text of description", x.to_string() == *s, x.to_string());
        ck("text of link", l.to_string() == *s, l.to_string());
    }
    // Properties
    let got: Option<BTreeMap<String, String>> = l.properties().map(|p| p.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect());
    ck("properties", got.as_ref() == props && l.clone().into_properties().map(|p| p.len()) == props.map(|p| p.len()), format!("{:?}", got));
    for k in ["style", "alt", "class", "x-y", "none", "Style"] {
        ck("property", data.get_property_str(k) == props.and_then(|p| p.get(k)).map(|s| s.as_str()), format!("{} {:?}", k, data.get_property_str(k)));
    }
    if kind == "diary" {
        if d.is_none() {
            ck("text of link", l.to_string() == date.to_string(), l.to_string());
            let f = l.to_description_or_fallback().map(|x| x.to_string());
            ck("fallback", f == Some(format!("diary:{}", date)), format!("{:?}", f));
        }
        let want: Option<Vec<String>> = a.map(|a| a.iter().map(|x| x.to_string()).collect());
        let got: Option<Vec<String>> = l.to_anchor().map(|a| a.iter().map(|x| x.to_string()).collect());
        let got: Option<Vec<String>> = got.map(|v| v.iter().map(|x| decode(x)).collect());
        let want: Option<Vec<String>> = want.map(|v| v.iter().map(|x| meant(x)).collect());
        ck("anchor", got == want && l.has_anchor() == a.is_some(), format!("{:?}", got));
        ck("local", data.is_local() && !data.is_remote(), String::new());
        return bad;
    }
    // Address; one without a path after a host has the root
    ck("scheme", l.scheme().map(|s| s.as_str().to_lowercase()) == u.scheme.map(|s| s.to_lowercase()), format!("{:?}", l.scheme()));
    let want_path = Path::new(&u.path).to_path_buf();
    ck("path", data.to_path_buf() == want_path, format!("{:?} but {:?}", data.to_path_buf(), want_path));
    if !u.path.is_empty() {
        ck("directory", data.is_path_dir() == u.path.ends_with('/'), format!("{}", data.is_path_dir()));
    }
    let local = matches!(u.scheme, None | Some("file" | "local"));
    ck("local", data.is_local() == local && data.is_remote() == !local, format!("{} {}", data.is_local(), data.is_remote()));
    ck("address", data.uri_ref.to_string().to_lowercase() == text.to_lowercase(), data.uri_ref.to_string());
    let f = u.anchor.as_ref().map(|a| a.join("%23"));
    ck("fragment", data.fragment_str() == f.as_deref() && data.has_anchor() == f.is_some() && l.has_anchor() == f.is_some(), format!("{:?}", data.fragment_str()));
    let got: Option<Vec<String>> = l.to_anchor().map(|a| a.iter().map(|x| x.to_string()).collect());
    ck("anchor", got == u.anchor && data.to_anchor().is_some() == f.is_some(), format!("{:?}", got));
    if u.path != "/" {
        let la = u.scheme.is_none() && u.host.is_none() && u.path.is_empty() && u.query.is_none() && f.is_some();
        ck("local anchor", data.is_local_anchor() == la, format!("{}", data.is_local_anchor()));
    }
    let dec = decode(&data.uri_ref.to_string());
    ck("decoded address", data.to_decoded_uri_string() == dec, data.to_decoded_uri_string());
    let fb = l.to_description_or_fallback().map(|x| x.to_string());
    let want = match d {
        Some((_, s)) => Some(s.clone()),
        None if matches!(kind, "raw" | "transclusion") => None,
        None => Some(dec),
    };
    ck("fallback", fb == want, format!("{:?}", fb));
    if d.is_none() {
        ck("text of link", l.to_string() == data.uri_ref.to_string(), l.to_string());
    }
    bad
}

/// Addresses as texts
fn texts(r: &mut Rng, cx: &mut Cx) {
    let all = ["%", "%4", "%41", "%2f", "%23", "%C3", "%A9", "%C3%A9", "%e4%b8%ad", "%F0%9F%98%80", "%ff", "%fe%ff", "%zz", "é", "中", "😀", "a", "b", "/", "#", "?", " ", "\"", "<", ">", "`", "\n", "\u{0}", "x y", "#a#b", "%25", "%20"];
    let s: String = (0..r.range(0, 8)).map(|_| *r.pick(&all)).collect();
    cx.input(&format!("address {:?}", s));
    cx.distinct(&s);
    let got = guard(|| (LinkData::decode_uri(&s), LinkData::encode_uri(&s), LinkData::decode_uri(LinkData::encode_uri(&s))));
    match got {
        Ok((d, e, de)) => {
            cx.count("addresses decoded");
            let want = decode(&s);
            if want.contains('%') && s.contains("%f") {
                cx.count("bytes that are no text");
            }
            if d != want {
                cx.fail("decoded", format!("expected {:?} but got {:?}", want, d));
            }
            // Only the first # begins the anchor, percent signs stay
            let want = match s.split_once('#') {
                None => encode(&s),
                Some((a, b)) => format!("{}#{}", encode(a), encode(b)),
            };
            if e != want {
                cx.fail("encoded", format!("expected {:?} but got {:?}", want, e));
            }
            if !s.contains('%') && de != s {
                cx.fail("decoded of encoded", format!("{:?} became {:?}", s, de));
            }
        }
        Err(e) => cx.fail(panic_sig(&e), e),
    }
    for _ in 0..3 {
        // Bytes in any encoding of theirs
        let b: Vec<u8> = (0..r.range(0, 6)).map(|_| if r.bool() { r.below(256) as u8 } else { *r.pick(b"%a2F9") }).collect();
        match guard(|| (LinkData::decode_uri(&b), LinkData::encode_uri(&b))) {
            Ok((d, e)) => {
                cx.count("addresses decoded");
                let t = String::from_utf8(b.clone());
                if let Ok(t) = &t {
                    if d != decode(t) {
                        cx.fail("decoded", format!("{:?} is {:?}", t, d));
                    }
                }
                if !e.is_ascii() || e.contains(|c: char| " \"<>`".contains(c)) || e.matches('#').count() > 1 {
                    cx.fail("encoded", format!("{:?} is {:?}", b, e));
                }
            }
            Err(e) => cx.fail(panic_sig(&e), e),
        }
    }
    // Whether or not it is an address, something is said about it
    match guard(|| LinkData::try_from(s.as_str()).map(|d| d.uri_ref.to_string().len()).map_err(|e| e.to_string())) {
        Ok(Ok(_)) => cx.count("valid addresses"),
        Ok(Err(_)) => cx.count("invalid addresses"),
        Err(e) => cx.fail(panic_sig(&e), e),
    }
    match guard(|| (LinkData::try_from(s.as_str()).ok().map(|x| x.into_owned()), LinkData::try_from(s.clone()).ok(), Link::try_new_wiki_link(s.as_str(), None).ok().map(|l| l.into_owned().into_data()))) {
        Ok((a, b, c)) => {
            if a != b || a != c {
                cx.fail("address of a text", format!("{:?} {:?} {:?}", a, b, c));
            }
        }
        Err(e) => cx.fail(panic_sig(&e), e),
    }
}

fn encode(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if b < 0x20 || b >= 0x7f || b" \"<>`#".contains(&b) {
            o.push_str(&format!("%{:02X}", b));
        } else {
            o.push(b as char);
        }
    }
    o
}

/// Anchors and their texts
fn anchors(r: &mut Rng, cx: &mut Cx) {
    let v: Vec<String> = (0..r.below(5)).map(|_| (0..r.range(1, 2)).map(|_| *r.pick(ANCHOR)).collect()).collect();
    cx.input(&format!("anchor {:?}", v));
    cx.distinct(&format!("anchor {:?}", v));
    let got = guard(|| {
        let a: Anchor = v.iter().cloned().collect();
        let b: Anchor = v.iter().map(|s| s.as_str()).collect();
        let text = a.to_string();
        let back = Anchor::from_uri_fragment(&text).map(|x| x.into_owned());
        let enc = a.to_encoded_uri_fragment();
        let data = LinkData::try_from(enc.clone());
        let pieces: Option<Vec<String>> = data.as_ref().ok().and_then(|d| d.to_anchor()).map(|x| x.into_iter().map(|s| s.into_owned()).collect());
        (a == b && a.to_borrowed() == a && a.clone().into_owned() == b && a.len() == v.len(), text, back == Some(a), enc, data.map(|d| d.is_local_anchor()).map_err(|e| e.to_string()), pieces, Anchor::from_uri_fragment("no anchor").is_none())
    });
    let (same, text, back, enc, data, pieces, none) = match got {
        Ok(x) => x,
        Err(e) => return cx.fail(panic_sig(&e), e),
    };
    cx.count("anchors");
    let want: String = v.iter().map(|s| format!("#{}", s)).collect();
    if !same {
        cx.fail("anchors of the same pieces", String::new());
    }
    if text != want {
        cx.fail("text of anchor", text);
    } else if !back || !none {
        cx.fail("anchor of its text", want);
    }
    match data {
        Err(e) => cx.fail("encoded anchor", format!("{:?} {}", enc, e)),
        Ok(local) => {
            if local == v.is_empty() || enc.is_empty() != v.is_empty() {
                cx.fail("encoded anchor", format!("{:?} is local: {}", enc, local));
            }
            let got: Vec<String> = pieces.unwrap_or_default().iter().map(|s| decode(s)).collect();
            if got != v.iter().map(|s| meant(s)).collect::<Vec<_>>() {
                cx.fail("encoded anchor", format!("{:?} has {:?}", enc, got));
            }
        }
    }
}

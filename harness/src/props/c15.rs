//! Pages read back from JSON are the pages written.
use crate::engine::*;
use crate::props::{c07, c09};
use crate::rng::Rng;
use crate::walk::{self, Node};
use crate::{fuzz, gen};
use serde_json::Value;
use vimwiki::*;

pub static PROP: Prop = Prop {
    id: "C15",
    cases: (12_000, 600_000),
    run,
    rule: "each case writes the page of a generated or hostile text as JSON, compact, indented or with its keys in another order, reads it back and compares trees, positions, depths, formatted text and HTML; parts of pages are treated likewise; damaged JSON has to be read without a panic; non-trivial: distinct tree shapes",
    assumptions: &["the order of keys and of unordered collections in JSON is left open", "what damaged JSON that can be read means is left open"],
    must_see: &[
        ("pages read back", 8_000), ("elements read back", 10_000), ("keys reordered", 3_000), ("damaged texts", 30_000), ("damaged texts rejected", 10_000), ("damaged texts read", 2_000), ("tables", 500), ("links with properties", 50), ("list items", 1_000),
    ],
    level: "exploration",
};

/// Everything regions say, including depth, which the neutral tree leaves out
fn depths(p: &Page) -> Vec<(usize, usize, u16)> {
    let mut v = vec![];
    for e in &p.elements {
        v.push((e.region().offset(), e.region().len(), e.region().depth()));
        below(Element::from(e.as_inner().clone()), &mut v);
    }
    v
}

fn below(e: Element, v: &mut Vec<(usize, usize, u16)>) {
    for c in e.into_children() {
        v.push((c.region().offset(), c.region().len(), c.region().depth()));
        below(c.into_inner(), v);
    }
}

fn reverse(v: &Value) -> String {
    match v {
        Value::Object(m) => {
            let mut k: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", Value::from(k.as_str()), reverse(v))).collect();
            k.reverse();
            format!("{{{}}}", k.join(","))
        }
        Value::Array(a) => format!("[{}]", a.iter().map(reverse).collect::<Vec<_>>().join(",")),
        x => x.to_string(),
    }
}

pub fn same(a: &Page, b: &Page, what: &str, cx: &mut Cx) -> bool {
    let (x, y) = (walk::page(a), walk::page(b));
    if x != y {
        let (c, d) = (x.canon(), y.canon());
        match walk::diff(&c, &d) {
            Some(m) => cx.fail(format!("{}: {}", what, walk::diff_kinds(&c, &d)), m),
            None => cx.fail(format!("{}: positions", what), format!("{:?}", first_region(&x, &y))),
        }
        return false;
    }
    if depths(a) != depths(b) {
        cx.fail(format!("{}: depths", what), format!("{:?} {:?}", depths(a), depths(b)));
        return false;
    }
    if !a.strict_eq(b) || !b.strict_eq(a) || a != b || b != a {
        cx.fail(format!("{}: not equal", what), format!("strict {} {}, equal {} {}", a.strict_eq(b), b.strict_eq(a), a == b, b == a));
        return false;
    }
    true
}

fn first_region(a: &Node, b: &Node) -> Option<String> {
    if a.region != b.region {
        return Some(format!("{} {:?} {:?}", a.kind, a.region, b.region));
    }
    a.kids.iter().zip(&b.kids).find_map(|(a, b)| first_region(a, b))
}

fn damage(r: &mut Rng, s: &str, other: &str) -> String {
    let mut b: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 3) {
        if b.is_empty() {
            break;
        }
        let i = r.below(b.len());
        match r.below(9) {
            0 => b.truncate(i),
            1 => {
                b.remove(i);
            }
            2 => {
                let c = *r.pick(&['"', '{', '}', '[', ']', ',', ':', '\\', '\0', '9', '-', 'é', ' ']);
                b.insert(i, c);
            }
            3 => {
                // A number becomes another
                if let Some(j) = (i..b.len()).find(|j| b[*j].is_ascii_digit()) {
                    let e = (j..b.len()).find(|k| !b[*k].is_ascii_digit()).unwrap_or(b.len());
                    let n = *r.pick(&["0", "-1", "18446744073709551615", "18446744073709551616", "1e400", "0.5", "\"1\"", "null", "4294967296", "65536", "256"]);
                    b.splice(j..e, n.chars());
                }
            }
            4 => {
                // A text becomes another
                if let Some(j) = (i..b.len()).find(|j| b[*j] == '"') {
                    let e = (j + 1..b.len()).find(|k| b[*k] == '"' && b[*k - 1] != '\\').map_or(b.len(), |k| k + 1);
                    let n = *r.pick(&["\"\"", "\"paragraph\"", "\"type\"", "\"data\"", "\"x:y://[\"", "\"%zz\"", "\"2020-99-99\"", "1", "null", "[]", "{}", "\"\\ud800\"", "\"http://a b\"", "\"elements\"", "\"text\""]);
                    b.splice(j..e, n.chars());
                }
            }
            5 => {
                let c: Vec<char> = other.chars().collect();
                if !c.is_empty() {
                    let j = r.below(c.len());
                    let e = (j + r.range(1, 60)).min(c.len());
                    b.splice(i..i, c[j..e].to_vec());
                }
            }
            6 => {
                let e = (i + r.range(1, 40)).min(b.len());
                b.drain(i..e);
            }
            7 => {
                let e = (i + r.range(1, 40)).min(b.len());
                let x = b[i..e].to_vec();
                b.splice(i..i, x);
            }
            _ => {
                let n = r.range(1, 300);
                b.splice(i..i, std::iter::repeat('[').take(n));
            }
        }
    }
    b.into_iter().collect()
}

fn run(r: &mut Rng, cx: &mut Cx) {
    let t = match r.below(3) {
        0 => fuzz::any(r),
        1 => c09::text(r),
        _ => gen::any_doc(r).text,
    };
    cx.input(&t);
    let l = Language::from_vimwiki_str(&t);
    let p: Page = match guard(|| l.parse::<Page>()) {
        Ok(Ok(p)) => p,
        _ => return cx.fail("page not parsed", String::new()),
    };
    let n = walk::page(&p);
    let mut shape = String::new();
    n.walk(&mut |n| {
        shape.push_str(n.kind);
        match n.kind {
            "table" => cx.count("tables"),
            "item" => cx.count("list items"),
            "link" | "embed" if n.get("props").is_some() => cx.count("links with properties"),
            _ => (),
        }
    });
    cx.distinct(&shape);

    let json = match r.below(3) {
        0 => serde_json::to_string(&p).map_err(|e| e.to_string()),
        1 => serde_json::to_string_pretty(&p).map_err(|e| e.to_string()),
        _ => serde_json::to_value(&p).map_err(|e| e.to_string()).map(|v| {
            cx.count("keys reordered");
            reverse(&v)
        }),
    };
    let json = match json {
        Ok(j) => j,
        Err(e) => return cx.fail("not written", e),
    };
    let how = r.below(3);
    let back: Result<Page, String> = match guard(|| match how {
        0 => serde_json::from_str::<Page>(&json),
        1 => serde_json::from_reader::<_, Page>(json.as_bytes()),
        _ => serde_json::from_str::<Value>(&json).and_then(serde_json::from_value::<Page>),
    }) {
        Ok(x) => x.map_err(|e| e.to_string()),
        Err(e) => Err(panic_sig(&e)),
    };
    let back = match back {
        Ok(b) => b.into_owned(),
        Err(e) => return cx.fail("not read back", format!("{} in {}", e, json)),
    };
    cx.count("pages read back");
    if !same(&p, &back, "read back", cx) {
        return;
    }
    let c = c07::config(r);
    let f = |p: &Page| guard(|| p.to_vimwiki_string(c.clone()).map_err(|e| e.to_string())).unwrap_or_else(|e| Err(panic_sig(&e)));
    if f(&p) != f(&back) {
        cx.fail("formatted differently", format!("{:?} {:?}", f(&p), f(&back)));
    }
    let hc = c09::config(r, &n);
    let h = |p: &Page| guard(|| p.to_html_string(hc.clone()).map_err(|e| e.to_string())).unwrap_or_else(|e| Err(panic_sig(&e)));
    if h(&p) != h(&back) {
        cx.fail("converted differently", format!("{:?} {:?}", h(&p), h(&back)));
    }
    // Parts of it
    for e in p.elements.iter().take(6) {
        let part = serde_json::to_string(&e).map_err(|e| e.to_string());
        let back = part.clone().and_then(|s| serde_json::from_str::<Located<BlockElement>>(&s).map(|x| x.map(|x| x.into_owned())).map_err(|e| e.to_string()));
        match back {
            Ok(b) => {
                cx.count("elements read back");
                if !b.strict_eq(e) || walk::block(e.as_inner()) != walk::block(b.as_inner()) {
                    cx.fail("block not read back", part.unwrap());
                }
            }
            Err(e) => cx.fail("block not read back", format!("{} in {:?}", e, part)),
        }
        for i in Element::from(e.as_inner().clone()).into_children().into_iter().take(4) {
            let s = serde_json::to_string(&i).unwrap_or_default();
            cx.count("elements read back");
            match serde_json::from_str::<Located<Element>>(&s) {
                Ok(b) if b.strict_eq(&i) => (),
                Ok(_) => cx.fail("element differs when read back", s),
                Err(e) => cx.fail("element not read back", format!("{} in {}", e, s)),
            }
        }
    }
    // Damage
    let other = json.clone();
    for _ in 0..4 {
        let d = damage(r, &json, &other);
        cx.input(&d);
        cx.count("damaged texts");
        match guard(|| serde_json::from_str::<Page>(&d).map(|p| (p.clone() == p, serde_json::to_string(&p).is_ok()))) {
            Ok(Ok(_)) => cx.count("damaged texts read"),
            Ok(Err(_)) => cx.count("damaged texts rejected"),
            Err(e) => cx.fail(format!("panic: {}", panic_sig(&e)), e),
        }
    }
}

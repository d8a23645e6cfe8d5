//! Parsing terminates normally with a page for every text.
use crate::engine::*;
use crate::rng::Rng;
use crate::{fuzz, walk};
use vimwiki::*;

pub static PROP: Prop = Prop {
    id: "C01",
    cases: (60_000, 900_000),
    run,
    rule: "cases are hostile token soups, odd blocks, mutated specification chunks and generated documents, each parsed as a page and by every typed entry point, plus scaled families of one construct; non-trivial: distinct tree shapes of parsed pages and distinct families",
    assumptions: &[
        "work is measured as spans created by the parser (hook), not time",
        "nesting depth of generated texts stays below 200",
    ],
    must_see: &[("pages", 1000), ("typed parses accepted", 1000), ("families measured", 30)],
    level: "exploration",
};

/// Spans that parsing may create before it is considered to not end
const LIMIT: u64 = 400_000_000;

fn spans() -> u64 {
    #[cfg(vimwiki_monitor)]
    {
        vimwiki::monitor::observed().spans
    }
    #[cfg(not(vimwiki_monitor))]
    {
        0
    }
}

fn reset(limit: u64) {
    let _ = limit;
    #[cfg(vimwiki_monitor)]
    {
        vimwiki::monitor::reset();
        vimwiki::monitor::set_span_limit(limit);
    }
}

macro_rules! typed {
    ($cx:expr, $t:expr, $($ty:ty),* $(,)?) => {
        $(
            reset(LIMIT);
            let res = guard(|| {
                let r: Result<$ty, _> = Language::from_vimwiki_str($t).parse::<$ty>();
                match r {
                    Ok(x) => { drop(format!("{:?}", x)); true }
                    // An error has to be usable, too
                    Err(e) => { drop(format!("{} {:?}", e, e)); false }
                }
            });
            match res {
                Ok(true) => $cx.count("typed parses accepted"),
                Ok(false) => $cx.count("typed parses rejected"),
                Err(e) => $cx.fail(panic_sig(&e), format!("as {}: {}", stringify!($ty), e)),
            }
        )*
    };
}

fn shape(n: &walk::Node, s: &mut String) {
    s.push_str(n.kind);
    s.push('(');
    for k in &n.kids {
        shape(k, s);
    }
    s.push(')');
}

fn run(r: &mut Rng, cx: &mut Cx) {
    if r.chance(1, 60) {
        return family(r, cx);
    }
    let t = if r.chance(1, 4) { crate::gen::any_doc(r).text } else { fuzz::any(r) };
    cx.input(&t);
    reset(LIMIT);
    let res = guard(|| {
        let p = Language::from_vimwiki_str(&t).parse::<Page>();
        match p {
            Ok(p) => Ok(walk::page(&p)),
            Err(e) => {
                let e: ParseError = e;
                Err(format!("{}", e))
            }
        }
    });
    match res {
        Ok(Ok(n)) => {
            cx.count("pages");
            cx.add("elements", n.count() as u64);
            let mut s = String::new();
            shape(&n, &mut s);
            cx.distinct(&s);
            cx.add("spans", spans());
            cx.max("spans of a page", spans());
            let b = t.len() as u64 + 16;
            cx.max("spans x10 per byte of a page", 10 * spans() / b);
            cx.max("bytes of a page", t.len() as u64);
            // For texts of this size, parsing on these corpora stays below
            // 2000 spans per byte by far
            if spans() > 20_000 * b {
                cx.fail("work out of proportion", format!("{} spans for {} bytes", spans(), t.len()));
            }
        }
        Ok(Err(e)) => cx.fail("page rejected", e),
        Err(e) => cx.fail(panic_sig(&e), e),
    }
    if r.chance(1, 4) {
        let t = &t;
        typed!(
            cx,
            t,
            Located<BlockElement>,
            Located<InlineElementContainer>,
            Located<InlineElement>,
            Located<Blockquote>,
            Located<CodeInline>,
            Located<Comment>,
            Located<LineComment>,
            Located<MultiLineComment>,
            Located<DefinitionList>,
            Located<Divider>,
            Located<Header>,
            Located<Link>,
            Located<List>,
            Located<ListItem>,
            Located<MathInline>,
            Located<MathBlock>,
            Located<Paragraph>,
            Located<Placeholder>,
            Located<CodeBlock>,
            Located<Table>,
            Located<Tags>,
            Located<Text>,
            Located<DecoratedText>,
            Located<Keyword>,
        );
    }
}

const UNITS: &[&str] = &[
    "- ", "* ", "# ", "1. ", "a) ", "[ ] ", "a:: b", ":: b", "a:: ", "{{{", "}}}", "{{$", "}}$", "> ", "    ", "|", "|a", "|-",
    "|>", "|\\/", "= ", "=", "----", "%%", "%%+", "+%%", "%title ", "%x ", "*", "_", "~~", "^", ",,", "`", "$", ":", ":a:", "[[",
    "]]", "{{", "}}", "[[a|b]]", "{{a|b}}", "[[a|{{b}}]]", "TODO", "http://a", "a:b", "//", "#", "#a", "|k=\"v\"", "k=\"v\" ", " ", "\t",
    "é", "日", "\u{3000}", "x", "\r", "<", "\\", "diary:", "wiki1:", "wn.a:", "_*", "*_", "~~^", ",,_",
];

/// The same few units repeated, on one line or on many lines with growing
/// indentation; work has to grow polynomially
fn family(r: &mut Rng, cx: &mut Cx) {
    let k = r.range(1, 3);
    let units: Vec<&str> = (0..k).map(|_| *r.pick(UNITS)).collect();
    let style = r.below(4);
    let close = if r.bool() { Some(*r.pick(UNITS)) } else { None };
    let make = |n: usize| {
        let mut s = String::new();
        for i in 0..n {
            if style == 2 {
                s.push_str(&" ".repeat(i));
            }
            for u in &units {
                s.push_str(u);
            }
            if style == 3 {
                s.push_str(&" ".repeat(i % 7));
            }
            if style >= 1 {
                s.push('\n');
            }
        }
        if let Some(c) = close {
            for _ in 0..n {
                s.push_str(c);
            }
        }
        s
    };
    let mut last = 0u64;
    let name = format!("{:?}/{}/{:?}", units, style, close);
    // Indented ones nest as deep as they are long
    for n in [12usize, 24, 48] {
        let t = make(n);
        cx.input(&t);
        reset(LIMIT);
        let res = guard(|| Language::from_vimwiki_str(&t).parse::<Page>().is_ok());
        match res {
            Ok(true) => (),
            Ok(false) => return cx.fail("page rejected", name),
            Err(e) if e.contains("more spans than allowed") => {
                return cx.fail("work explodes", format!("{} at {} repetitions: {}", name, n, e))
            }
            Err(e) => return cx.fail(panic_sig(&e), e),
        }
        let s = spans();
        if last > 20_000 {
            let x10 = 10 * s / last;
            cx.max("growth x10 of work on doubling", x10);
            if x10 > 200 {
                return cx.fail(
                    "work explodes",
                    format!("{}: {} spans at {} repetitions but {} at {}", name, last, n / 2, s, n),
                );
            }
        }
        last = s;
    }
    cx.count("families measured");
    cx.distinct(&name);
}

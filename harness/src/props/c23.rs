//! Line endings and blank lines around a document do not change its meaning.
use crate::engine::*;
use crate::props::c03::parse;
use crate::rng::Rng;
use crate::{fuzz, gen, walk};

pub static PROP: Prop = Prop {
    id: "C23",
    cases: (9_000, 1_000_000),
    run,
    rule: "each case is a generated or hostile text, parsed in its LF, CRLF and re-padded forms, whose trees have to be equal; non-trivial: distinct tree shapes",
    assumptions: &["texts with carriage returns of their own are not generated"],
    must_see: &[("variants compared", 20_000), ("CRLF variants", 5_000)],
    level: "exploration",
};

fn run(r: &mut Rng, cx: &mut Cx) {
    let t = if r.chance(2, 3) { gen::any_doc(r).text } else { fuzz::any(r).replace('\r', "") };
    let a = match parse(&t) {
        Ok(n) => n.canon(),
        Err(e) => {
            cx.input(&t);
            return cx.fail("page not parsed", e);
        }
    };
    let mut variants = vec![("CRLF", t.replace('\n', "\r\n"))];
    let n = r.range(1, 3);
    variants.push(("blank lines before", format!("{}{}", "\n".repeat(n), t)));
    variants.push(("blank lines with spaces before", format!("{}{}", " \n   \n", t)));
    variants.push(("blank lines after", format!("{}{}{}", t, if t.ends_with('\n') { "" } else { "\n" }, "\n".repeat(n))));
    variants.push(("trimmed lines", t.trim_start_matches('\n').trim_end_matches('\n').to_string()));
    variants.push(("CRLF and padded", format!("\r\n{}\r\n\r\n", t.replace('\n', "\r\n"))));
    for (name, v) in variants {
        cx.input(&v);
        match parse(&v) {
            Err(e) => cx.fail("page not parsed", e),
            Ok(n) => {
                cx.count("variants compared");
                if name == "CRLF" && t.contains('\n') {
                    cx.count("CRLF variants");
                }
                let b = n.canon();
                if let Some(x) = walk::diff(&a, &b) {
                    cx.fail(format!("{}: {}", name, walk::diff_kinds(&a, &b)), x);
                }
            }
        }
    }
    cx.distinct(&a.lines().map(|l| l.split(' ').find(|x| !x.is_empty()).unwrap_or("")).collect::<Vec<_>>().join(" "));
}

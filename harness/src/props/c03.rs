//! Pages made of blocks parse to exactly those blocks.
use crate::engine::*;
use crate::gen::{Opts, G};
use crate::rng::Rng;
use crate::walk;
use vimwiki::*;

pub static PROP: Prop = Prop {
    id: "C03",
    cases: (40_000, 2_000_000),
    run,
    rule: "each case is a page generated from a block model with random layout, parsed and compared with the tree of the model; non-trivial: distinct sequences of block kinds with their separation",
    assumptions: &["generated pages stay within the documented syntax; ambiguous layouts are not generated"],
    must_see: &[("pages", 1000), ("pairs of blocks", 1000)],
    level: "exploration",
};

pub fn parse(t: &str) -> Result<walk::Node, String> {
    match guard(|| {
        let p: Result<Page, ParseError> = Language::from_vimwiki_str(t).parse();
        p.map(|p| walk::page(&p)).map_err(|e| format!("{}", e))
    }) {
        Ok(Ok(n)) => Ok(n),
        Ok(Err(e)) => Err(format!("rejected: {}", e)),
        Err(e) => Err(e),
    }
}

fn run(r: &mut Rng, cx: &mut Cx) {
    let o = Opts::any(r);
    let d = G::new(r, o).page();
    cx.input(&d.text);
    match parse(&d.text) {
        Err(e) => cx.fail("page not parsed", e),
        Ok(n) => {
            cx.count("pages");
            let ks: Vec<&str> = d.page.kids.iter().map(|k| k.kind).collect();
            cx.add("pairs of blocks", ks.len().saturating_sub(1) as u64);
            cx.distinct(&ks.join(" "));
            let (a, b) = (d.page.canon(), n.canon());
            if let Some(x) = walk::diff(&a, &b) {
                cx.fail(format!("tree differs at {}", walk::diff_kinds(&a, &b)), x);
            }
        }
    }
}

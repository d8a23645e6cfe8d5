//! Tables keep every cell, alignment and span, also when ragged.
use crate::engine::*;
use crate::gen::{Opts, G};
use crate::rng::Rng;
use crate::walk::{self, Node};
use std::collections::BTreeMap;
use vimwiki::*;

pub static PROP: Prop = Prop {
    id: "C06",
    cases: (40_000, 2_000_000),
    run,
    rule: "each case is a random grid, either written as text and compared with the model after parsing, or built through the API with arbitrary holes; iteration, spans, alignment and sections are compared with an independent computation on the grid; non-trivial: distinct grids by kind of cell",
    assumptions: &["rows of dividers as parsed consist of alignment cells only"],
    must_see: &[("cells", 50_000), ("ragged tables", 1_000), ("tables with holes", 1_000), ("spans over several cells", 500)],
    level: "exploration",
};

/// Kind of cell: c content, l from left, a from above, n/L/C/R alignment
type Grid = BTreeMap<(usize, usize), (char, usize)>;

fn run(r: &mut Rng, cx: &mut Cx) {
    if r.chance(1, 3) {
        return built(r, cx);
    }
    let mut o = Opts::any(r);
    o.kinds = vec!["table"];
    o.blocks = (1, 2);
    let d = G::new(r, o).page();
    cx.input(&d.text);
    let res = guard(|| {
        let p: Result<Page, ParseError> = Language::from_vimwiki_str(&d.text).parse();
        match p {
            Err(e) => Err(format!("{}", e)),
            Ok(p) => {
                let n = walk::page(&p);
                let mut bad = vec![];
                let mut grids = vec![];
                for b in &p.elements {
                    if let BlockElement::Table(t) = b.as_inner() {
                        let g = grid_of(t);
                        check(t, &g, &mut bad);
                        grids.push(g);
                    }
                }
                Ok((n, bad, grids))
            }
        }
    });
    match res {
        Err(e) => cx.fail(panic_sig(&e), e),
        Ok(Err(e)) => cx.fail("page not parsed", e),
        Ok(Ok((n, bad, grids))) => {
            let (a, b) = (d.page.canon(), n.canon());
            if let Some(x) = walk::diff(&a, &b) {
                cx.fail(format!("tree differs at {}", walk::diff_kinds(&a, &b)), x);
            }
            report(bad, &grids, cx);
        }
    }
    let _ = Node::new("page");
}

fn report(bad: Vec<(String, String)>, grids: &[Grid], cx: &mut Cx) {
    for (s, m) in bad {
        cx.fail(s, m);
    }
    for g in grids {
        cx.add("cells", g.len() as u64);
        cx.distinct(&key(g));
        let (rows, cols) = dims(g);
        let lens: Vec<usize> = (0..rows).map(|r| (0..cols).filter(|c| g.contains_key(&(r, *c))).count()).collect();
        if lens.iter().any(|l| *l != lens[0]) {
            cx.count("ragged tables");
        }
        if (0..rows).any(|r| {
            let n = lens[r];
            (0..n).any(|c| !g.contains_key(&(r, c)))
        }) {
            cx.count("tables with holes");
        }
        if g.iter().any(|(p, x)| x.0 == 'c' && (rowspan(g, *p) > 1 || colspan(g, *p) > 1)) {
            cx.count("spans over several cells");
        }
    }
}

fn key(g: &Grid) -> String {
    let mut s = String::new();
    let mut row = 0;
    for ((r, c), x) in g {
        while row < *r {
            s.push('/');
            row += 1;
        }
        s.push_str(&format!("{}{}", c, x.0));
    }
    s
}

fn dims(g: &Grid) -> (usize, usize) {
    (g.keys().map(|k| k.0 + 1).max().unwrap_or(0), g.keys().map(|k| k.1 + 1).max().unwrap_or(0))
}

fn kind(c: &Cell) -> char {
    match c {
        Cell::Content(_) => 'c',
        Cell::Span(CellSpan::FromLeft) => 'l',
        Cell::Span(CellSpan::FromAbove) => 'a',
        Cell::Align(ColumnAlign::None) => 'n',
        Cell::Align(ColumnAlign::Left) => 'L',
        Cell::Align(ColumnAlign::Center) => 'C',
        Cell::Align(ColumnAlign::Right) => 'R',
    }
}

fn align(c: char) -> ColumnAlign {
    match c {
        'L' => ColumnAlign::Left,
        'C' => ColumnAlign::Center,
        'R' => ColumnAlign::Right,
        _ => ColumnAlign::None,
    }
}

/// Cells by position; each cell is told apart by its address
fn grid_of(t: &Table) -> Grid {
    t.as_data().iter().map(|(p, c)| ((p.row, p.col), (kind(c.as_inner()), c as *const _ as usize))).collect()
}

fn rowspan(g: &Grid, (r, c): (usize, usize)) -> usize {
    if g.get(&(r, c)).map(|x| x.0) != Some('c') {
        return 0;
    }
    let mut n = 1;
    while g.get(&(r + n, c)).map(|x| x.0) == Some('a') {
        n += 1;
    }
    n
}

fn colspan(g: &Grid, (r, c): (usize, usize)) -> usize {
    if g.get(&(r, c)).map(|x| x.0) != Some('c') {
        return 0;
    }
    let mut n = 1;
    while g.get(&(r, c + n)).map(|x| x.0) == Some('l') {
        n += 1;
    }
    n
}

fn addr(c: &Located<Cell>) -> usize {
    c as *const _ as usize
}

fn check(t: &Table, g: &Grid, bad: &mut Vec<(String, String)>) {
    let (rows, cols) = dims(g);
    let mut ck = |what: &str, ok: bool, m: String| {
        if !ok {
            bad.push((what.to_string(), format!("{} in {}", m, key(g))));
        }
    };
    ck("counts", t.row_cnt() == rows && t.col_cnt() == cols && t.len() == g.len() && t.is_empty() == g.is_empty(), format!("{}x{} {}", t.row_cnt(), t.col_cnt(), t.len()));
    let lim = (rows + 2) * (cols + 2);
    let all: Vec<usize> = g.values().map(|x| x.1).collect();
    let got: Vec<usize> = t.cells().take(lim).map(addr).collect();
    ck("cells", got == all, format!("{} of {} cells", got.len(), all.len()));
    let posd: Vec<((usize, usize), usize)> = g.iter().map(|(k, x)| (*k, x.1)).collect();
    let got: Vec<((usize, usize), usize)> =
        t.cells().zip_with_position().take(lim).map(|(p, c)| ((p.row, p.col), addr(c))).collect();
    ck("cells with positions", got == posd, format!("{:?}", got.iter().map(|x| x.0).collect::<Vec<_>>()));
    let by_row: Vec<Vec<usize>> = (0..rows)
        .map(|r| g.iter().filter(|(k, _)| k.0 == r).map(|(_, x)| x.1).collect())
        .collect();
    let by_col: Vec<Vec<usize>> = (0..cols)
        .map(|c| g.iter().filter(|(k, _)| k.1 == c).map(|(_, x)| x.1).collect())
        .collect();
    let got: Vec<Vec<usize>> = t.rows().take(lim).map(|r| r.take(lim).map(addr).collect()).collect();
    ck("rows", got == by_row, format!("{:?}", got.iter().map(|x| x.len()).collect::<Vec<_>>()));
    let got: Vec<Vec<usize>> = t.columns().take(lim).map(|r| r.take(lim).map(addr).collect()).collect();
    ck("columns", got == by_col, format!("{:?}", got.iter().map(|x| x.len()).collect::<Vec<_>>()));
    for (i, w) in by_row.iter().enumerate() {
        let got: Vec<usize> = t.row(i).take(lim).map(addr).collect();
        ck("row", &got == w, format!("row {} has {}", i, got.len()));
        let got = t.clone().into_row(i).take(lim).count();
        ck("into row", got == w.len(), format!("row {} has {}", i, got));
    }
    for (i, w) in by_col.iter().enumerate() {
        let got: Vec<usize> = t.column(i).take(lim).map(addr).collect();
        ck("column", &got == w, format!("column {} has {}", i, got.len()));
        let got = t.clone().into_column(i).take(lim).count();
        ck("into column", got == w.len(), format!("column {} has {}", i, got));
    }
    let want: Vec<char> = g.values().map(|x| x.0).collect();
    let got: Vec<char> = t.clone().into_cells().take(lim).map(|c| kind(c.as_inner())).collect();
    ck("into cells", got == want, format!("{:?}", got));
    for r in 0..rows + 1 {
        for c in 0..cols + 1 {
            let got = t.get_cell(r, c).map(addr);
            ck("cell", got == g.get(&(r, c)).map(|x| x.1), format!("cell {},{}", r, c));
            let got = t.get_cell_rowspan(r, c);
            ck("row span", got == rowspan(g, (r, c)), format!("{},{} has {}", r, c, got));
            let got = t.get_cell_colspan(r, c);
            ck("column span", got == colspan(g, (r, c)), format!("{},{} has {}", r, c, got));
        }
    }
    for c in 0..cols {
        let want = (0..rows).find_map(|r| g.get(&(r, c)).filter(|x| !"cla".contains(x.0)).map(|x| align(x.0))).unwrap_or(ColumnAlign::None);
        let got = t.get_column_alignment(c);
        ck("alignment", got == want, format!("column {} is {:?}", c, got));
    }
    // Every iterator keeps its promises at each step
    let kinds = |f: &dyn Fn(&(usize, usize)) -> bool| -> Vec<((usize, usize), char)> { g.iter().filter(|(k, _)| f(k)).map(|(k, x)| (*k, x.0)).collect() };
    macro_rules! cells {
        ($what:expr, $it:expr, $want:expr) => {{
            let mut it = $it;
            let want: Vec<((usize, usize), char)> = $want;
            for i in 0..=want.len() {
                let left = want.len() - i;
                let (lo, hi) = it.size_hint();
                ck(concat!("number of cells left of ", $what), lo <= left && hi.map_or(true, |h| h >= left), format!("{} left but {:?}", left, (lo, hi)));
                ck(concat!("content left of ", $what), it.has_content() == want[i..].iter().any(|x| x.1 == 'c'), format!("{} at {}", it.has_content(), i));
                if let Some((p, _)) = want.get(i) {
                    ck(concat!("next position of ", $what), (it.row(), it.col()) == *p, format!("{:?} but {:?}", p, (it.row(), it.col())));
                }
                let got = it.next_with_pos().map(|(p, c)| ((p.row, p.col), kind(c.as_inner())));
                ck(concat!("step of ", $what), got == want.get(i).copied(), format!("{:?} but {:?}", want.get(i), got));
            }
            ck(concat!("end of ", $what), it.next().is_none() && it.next().is_none(), String::new());
        }};
    }
    cells!("cells", t.cells(), kinds(&|_| true));
    cells!("owned cells", t.clone().into_cells(), kinds(&|_| true));
    for i in 0..rows + 1 {
        cells!("row", t.row(i), kinds(&|k| k.0 == i));
        cells!("owned row", t.clone().into_row(i), kinds(&|k| k.0 == i));
    }
    for i in 0..cols + 1 {
        cells!("column", t.column(i), kinds(&|k| k.1 == i));
        cells!("owned column", t.clone().into_column(i), kinds(&|k| k.1 == i));
    }
    // Cells can be changed where they are
    let mut m = t.clone();
    for (k, x) in g {
        let c = m.get_mut_cell(k.0, k.1).map(|c| {
            let was = kind(c.as_inner());
            *c = Located::from(Cell::Align(ColumnAlign::Right));
            was
        });
        ck("mutable cell", c == Some(x.0), format!("{:?}", k));
        ck("changed cell", m.get_cell(k.0, k.1).map(|c| kind(c.as_inner())) == Some('R'), format!("{:?}", k));
    }
    ck("no mutable cell", m.get_mut_cell(rows, 0).is_none() && m.get_mut_cell(0, cols).is_none(), String::new());
    ck("number of changed cells", m.len() == g.len() && m.cells().all(|c| kind(c.as_inner()) == 'R'), String::new());
    // What a cell is
    for (k, x) in g {
        let c = &t.as_data()[&CellPos { row: k.0, col: k.1 }];
        let is = (c.is_content(), c.is_span(), c.is_align());
        let has = (c.get_content().is_some(), c.get_span().is_some(), c.get_align().is_some());
        let want = (x.0 == 'c', "la".contains(x.0), "nLCR".contains(x.0));
        ck("kind of cell", is == want && has == want, format!("{} is {:?} has {:?}", x.0, is, has));
        ck("alignment of cell", c.get_align().map_or(true, |a| *a == align(x.0)), format!("{:?}", c.get_align()));
        ck("span of cell", c.get_span().map_or(true, |s| (*s == CellSpan::FromLeft) == (x.0 == 'l')), format!("{:?}", c.get_span()));
    }
    // Sections
    let is_div = |r: usize| g.get(&(r, 0)).map(|x| !"cla".contains(x.0)).unwrap_or(false);
    let div = (0..rows).find(|r| is_div(*r));
    ck("divider row", t.get_divider_row_index() == div && t.has_divider_row() == div.is_some(), format!("{:?}", t.get_divider_row_index()));
    let pick = |it: std::ops::Range<usize>| -> Vec<Vec<usize>> { it.filter(|r| !is_div(*r)).map(|r| by_row[r].clone()).collect() };
    let head = pick(0..div.unwrap_or(0));
    let body = pick(div.map(|d| d + 1).unwrap_or(0)..rows);
    let got: Vec<Vec<usize>> = t.header_rows().take(lim).map(|r| r.take(lim).map(addr).collect()).collect();
    ck("header rows", got == head && t.has_header_rows() != head.is_empty(), format!("{}", got.len()));
    let got: Vec<Vec<usize>> = t.body_rows().take(lim).map(|r| r.take(lim).map(addr).collect()).collect();
    ck("body rows", got == body && t.has_body_rows() != body.is_empty(), format!("{}", got.len()));
    let nr = |it: std::ops::Range<usize>| -> Vec<usize> { it.filter(|r| !is_div(*r)).collect() };
    let content = |c: &dyn Fn(&(usize, usize)) -> bool| g.iter().any(|(k, x)| c(k) && x.0 == 'c');
    macro_rules! lines {
        ($what:expr, $it:expr, $want:expr, $part:expr, $num:expr) => {{
            let mut it = $it;
            let want: Vec<usize> = $want;
            for i in 0..=want.len() {
                let left = want.len() - i;
                let (lo, hi) = it.size_hint();
                ck(concat!("number left of ", $what), lo <= left && hi.map_or(true, |h| h >= left), format!("{} left but {:?}", left, (lo, hi)));
                ck(concat!("content left of ", $what), it.has_content() == want[i..].iter().any(|n| content(&|k| $part(k) == *n)), format!("{} at {}", it.has_content(), i));
                match (it.next(), want.get(i)) {
                    (None, None) => (),
                    (Some(l), Some(n)) => {
                        // Past the last cell there is no next position
                        let some = l.size_hint().0 > 0;
                        ck(concat!("place of ", $what), !some || $num(&l) == *n, format!("{} but {}", n, $num(&l)));
                        ck(concat!("content of one of ", $what), l.has_content() == content(&|k| $part(k) == *n), format!("{}", n));
                    }
                    (l, n) => ck(concat!("step of ", $what), false, format!("{:?} {:?}", l.is_some(), n)),
                }
            }
            ck(concat!("end of ", $what), it.next().is_none() && it.next().is_none(), String::new());
        }};
    }
    lines!("rows", t.rows(), (0..rows).collect(), |k: &(usize, usize)| k.0, |l: &vimwiki::Row| l.row());
    lines!("header rows", t.header_rows(), nr(0..div.unwrap_or(0)), |k: &(usize, usize)| k.0, |l: &vimwiki::Row| l.row());
    lines!("body rows", t.body_rows(), nr(div.map(|d| d + 1).unwrap_or(0)..rows), |k: &(usize, usize)| k.0, |l: &vimwiki::Row| l.row());
    lines!("columns", t.columns(), (0..cols).collect(), |k: &(usize, usize)| k.1, |l: &vimwiki::Column| l.col());
    for r in 0..rows {
        ck("divider", t.row(r).is_divider_row() == is_div(r) && t.clone().into_row(r).is_divider_row() == is_div(r), format!("row {}", r));
    }
    ck("no rows", Rows::empty(t).next().is_none() && !Rows::empty(t).has_content() && Columns::empty(t).next().is_none(), String::new());
}

/// Tables with cells missing anywhere, which only the API can make
fn built(r: &mut Rng, cx: &mut Cx) {
    let rows = r.range(1, 7);
    let cols = r.range(1, 7);
    let dense = r.range(1, 9);
    let mut cells = vec![];
    let mut k = String::new();
    for i in 0..rows {
        let divider = r.chance(1, 4);
        for j in 0..cols {
            if r.below(10) > dense {
                k.push('.');
                continue;
            }
            let c = if divider {
                Cell::Align(*r.pick(&[ColumnAlign::None, ColumnAlign::Left, ColumnAlign::Center, ColumnAlign::Right]))
            } else {
                match r.below(5) {
                    0 => Cell::Span(CellSpan::FromLeft),
                    1 => Cell::Span(CellSpan::FromAbove),
                    _ => Cell::Content(InlineElementContainer::new(vec![Located::from(InlineElement::from(Text::from(
                        format!("c{}x{}", i, j),
                    )))])),
                }
            };
            k.push(kind(&c));
            cells.push((CellPos { row: i, col: j }, Located::from(c)));
        }
        k.push('/');
    }
    cx.input(&format!("built {}", k));
    let res = guard(|| {
        let t = Table::new(cells, false);
        let g = grid_of(&t);
        let mut bad = vec![];
        check(&t, &g, &mut bad);
        // Children are the contents in order
        let want: Vec<String> = g.iter().filter(|(_, x)| x.0 == 'c').map(|(p, _)| format!("c{}x{}", p.0, p.1)).collect();
        let got: Vec<String> = t
            .into_children()
            .into_iter()
            .map(|e| match e.into_inner() {
                InlineElement::Text(t) => t.to_string(),
                x => format!("{:?}", x),
            })
            .collect();
        if got != want {
            bad.push(("children".into(), format!("{:?} but {:?}", want, got)));
        }
        (bad, g)
    });
    match res {
        Err(e) => cx.fail(panic_sig(&e), e),
        Ok((bad, g)) => {
            cx.count("built tables");
            report(bad, &[g], cx)
        }
    }
}

//! What generated programs use to compare values built by macros with the
//! parser.
pub use vimwiki;
use vimwiki::*;

#[allow(dead_code)]
#[path = "../../harness/src/walk.rs"]
mod walk;
mod nodes;
pub use nodes::Nodes;
use walk::Node;

fn parse<T: FromLanguage<'static>>(text: &'static str) -> T
where
    T::Error: std::fmt::Debug,
{
    Language::from_vimwiki_str(text).parse().expect("text that was accepted before")
}

fn regions(n: &Node) -> String {
    let mut s = String::new();
    n.walk(&mut |k| s.push_str(&format!("{}{:?} ", k.kind, k.region)));
    s
}

fn guarded(id: usize, f: impl FnOnce() -> Result<(), String> + std::panic::UnwindSafe) {
    match std::panic::catch_unwind(f) {
        Ok(Ok(())) => println!("OK {}", id),
        Ok(Err(e)) => println!("FAIL {} {:?}", id, e),
        Err(_) => println!("FAIL {} \"panic\"", id),
    }
}

fn trees(want: &Node, got: &Node) -> Result<(), String> {
    match walk::diff(&want.canon(), &got.canon()) {
        Some(d) => Err(format!("tree: {}", d)),
        None => Ok(()),
    }
}

/// The value of a macro is what parsing gives
pub fn same<T>(id: usize, got: impl FnOnce() -> T + std::panic::UnwindSafe, text: &'static str)
where
    T: FromLanguage<'static> + StrictEq + Nodes + Clone + PartialEq,
    T::Error: std::fmt::Debug,
{
    guarded(id, || {
        let (got, want): (T, T) = (got(), parse(text));
        let (g, w) = (got.node(), want.node());
        trees(&w, &g)?;
        if regions(&g) != regions(&w) {
            return Err(format!("regions: {} but {}", regions(&w), regions(&g)));
        }
        if !got.strict_eq(&want) || !want.strict_eq(&got) {
            return Err("not strictly equal".into());
        }
        if got != want || got.written() != want.written() {
            return Err("not equal".into());
        }
        let copy = got.clone();
        drop(got);
        trees(&w, &copy.node())
    })
}

/// The value of a macro with arguments is what parsing the text with these in
/// their places gives, but for positions
pub fn same_format<T>(id: usize, got: impl FnOnce() -> T + std::panic::UnwindSafe, text: &'static str)
where
    T: FromLanguage<'static> + StrictEq + Nodes + PartialEq,
    T::Error: std::fmt::Debug,
{
    guarded(id, || {
        let (got, want): (T, T) = (got(), parse(text));
        trees(&want.node(), &got.node())?;
        if got != want {
            return Err("not equal".into());
        }
        Ok(())
    })
}

use std::io::Read;
use vimwiki::*;
fn main() {
    let mut s = String::new();
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 2 { s = a[2].replace("\\n", "\n"); } else { std::io::stdin().read_to_string(&mut s).unwrap(); }
    let p: Page = Language::from_vimwiki_str(&s).parse().unwrap();
    match a[1].as_str() {
        "tree" => print!("{}", vwmon::walk::page(&p).canon()),
        "ast" => println!("{}", serde_json::to_string_pretty(&p).unwrap()),
        "dbg" => println!("{:#?}", p),
        "fmt" => print!("{}", p.to_vimwiki_string(Default::default()).unwrap()),
        "html" => println!("{:?}", p.to_html_string(Default::default()).map_err(|e| e.to_string())),
        _ => {}
    }
}

use std::collections::BTreeMap;
use std::panic;
use vimwiki::*;
use vwmon::{fuzz, rng::Rng};
use std::sync::Mutex;
static LAST: Mutex<String> = Mutex::new(String::new());
fn main() {
    let n: u64 = std::env::args().nth(1).unwrap().parse().unwrap();
    let seed: u64 = std::env::args().nth(2).unwrap().parse().unwrap();
    panic::set_hook(Box::new(|i| { *LAST.lock().unwrap() = format!("{} {}", i.location().map(|l| l.to_string()).unwrap_or_default(), i.payload().downcast_ref::<String>().map(|s| s.chars().take(80).collect::<String>()).unwrap_or_default()); }));
    let mut seen: BTreeMap<String, (usize, String)> = BTreeMap::new();
    for i in 0..n {
        let mut r = Rng::for_case(seed, "q", i);
        let t = fuzz::hostile(&mut r, &[]);
        let t0 = std::time::Instant::now();
        let res = panic::catch_unwind(|| {
            let p: Page = match Language::from_vimwiki_str(&t).parse() { Ok(p) => p, Err(e) => { let e: ParseError = e; panic!("ERR {}", e) } };
            let f = p.to_vimwiki_string(Default::default()).unwrap();
            let _ = f;
            let _ = p.to_html_string(Default::default()).map_err(|e| panic!("HTMLERR {}", e.to_string()));
        });
        if t0.elapsed().as_millis() > 2000 { eprintln!("SLOW {}ms {:?}", t0.elapsed().as_millis(), t); }
        if res.is_err() {
            let k = LAST.lock().unwrap().split(" byte index").next().unwrap().to_string();
            let e = seen.entry(k.split(" ").next().unwrap().to_string()).or_insert((0, t.clone()+ "  ###" + &k));
            e.0 += 1;
            if t.len() < e.1.len() { e.1 = t.clone() + "  ###" + &k; }
        }
    }
    for (k, v) in seen { println!("{} x{}: {:?}", k, v.0, v.1); }
}

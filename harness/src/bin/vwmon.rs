use vwmon::engine::run_main;
use vwmon::props::find;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| get(i).parse::<u64>().expect("number");
    let code = match get(1) {
        "sanitized" => vwmon::props::c22::sanitized(get(2), num(3), num(4)),
        "purity" => vwmon::props::c24::purity(num(2), num(3), get(4), num(5) as usize),
        _ => run_main(&a, find),
    };
    std::process::exit(code);
}

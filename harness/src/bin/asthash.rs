use vwmon::{fuzz,rng::Rng};
fn main(){let a:Vec<String>=std::env::args().collect();let n:u64=a[1].parse().unwrap();let seed:u64=a[2].parse().unwrap();let mode=a.get(3).map(|s|s.as_str()).unwrap_or("");
let corpus:Vec<&str>=vec![];
for i in 0..n{let mut r=Rng::for_case(seed,"h",i);
let s=if mode=="list"{ let m=1+r.below(8); let mut s=String::new(); for _ in 0..m { for _ in 0..r.below(6){s.push(' ');} s.push_str(r.pick(&["- ","- ","* ","1. ","","","- [ ] ","a:: ",":: ","{{{","}}}","> ","|-|","----","= a =","%title ","{{$","}}$","","| a |","- - "])); s.push_str(r.pick(&["a","b c","","----","= h =","a:: b","{{{","%title q","| a |","|-|","> x","{{$","%nohtml","*x*",":: z","\r"])); s.push('\n');} s } else {fuzz::hostile(&mut r,&corpus)};
let res=std::panic::catch_unwind(||{let p=vimwiki::Language::from_vimwiki_str(&s).parse::<vimwiki::Page>().unwrap();let mut v=serde_json::to_value(&p).unwrap();canon(&mut v);v.to_string()});
let h=match res{Ok(d)=>vwmon::rng::hash_str(&d),Err(_)=>0};println!("{} {:x} {:?}",i,h,s);}}

fn canon(v:&mut serde_json::Value){match v{serde_json::Value::Array(a)=>{for x in a.iter_mut(){canon(x)}},serde_json::Value::Object(m)=>{for (k,x) in m.iter_mut(){canon(x);if k=="cells"{if let serde_json::Value::Array(a)=x{a.sort_by_key(|y|y.to_string())}}}},_=>{}}}

use std::io::Read;
fn main(){let mut s=String::new();std::io::stdin().read_to_string(&mut s).unwrap();let t=std::time::Instant::now();let r=vimwiki::Language::from_vimwiki_str(&s).parse::<vimwiki::Page>();println!("{:?} {}",t.elapsed(),r.is_ok());}

use vimwiki_core::*;
fn page(s: &str) -> Page { Language::from_vimwiki_str(s).parse().unwrap() }
fn main() { let t = " ====== a ======\n"; let p = page(t); let q = p.clone().into_owned(); assert!(p == q); }
use vimwiki_core::*;
fn page(s: &str) -> Page { Language::from_vimwiki_str(s).parse().unwrap() }
fn main() { let p = page("  |a|\n"); let j = serde_json::to_string(&p).unwrap(); let q: Page = serde_json::from_str(&j).unwrap(); assert!(p == q); }
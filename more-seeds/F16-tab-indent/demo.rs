use vimwiki_core::*;
fn page(s: &str) -> Page { Language::from_vimwiki_str(s).parse().unwrap() }
fn main() { let p = page("- a\n\tb\n"); assert_eq!(p.elements.len(), 1); }
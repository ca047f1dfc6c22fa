use vimwiki_core::*;
fn page(s: &str) -> Page { Language::from_vimwiki_str(s).parse().unwrap() }
fn main() { let p = page("%x\ta\n"); assert!(matches!(p.elements[0].as_inner(), BlockElement::Placeholder(_))); }
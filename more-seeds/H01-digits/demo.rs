use vimwiki_core::*;
fn page(s: &str) -> Page { Language::from_vimwiki_str(s).parse().unwrap() }
fn main() { let p = page("999. a\n1000. b\n"); if let BlockElement::List(l) = p.elements[0].as_inner() { assert_eq!(l.len(), 2); } else { panic!(); } }
use vimwiki_core::*;
fn page(s: &str) -> Page { Language::from_vimwiki_str(s).parse().unwrap() }
fn main() { let p = page("\t= a =\n"); if let BlockElement::Header(h) = p.elements[0].as_inner() { assert!(h.centered); } else { panic!(); } }
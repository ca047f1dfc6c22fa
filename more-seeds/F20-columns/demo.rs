use vimwiki_core::*;
fn page(s: &str) -> Page { Language::from_vimwiki_str(s).parse().unwrap() }
fn main() { let t = format!("{}|\n", "|a".repeat(300)); let p = page(&t); if let BlockElement::Table(t) = p.elements[0].as_inner() { assert_eq!(t.col_cnt(), 300); } else { panic!(); } }
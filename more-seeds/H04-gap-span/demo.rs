use vimwiki_core::*;
fn page(s: &str) -> Page { Language::from_vimwiki_str(s).parse().unwrap() }
fn main() { let p = page("|a|b|\n|c|\n|d|\\/|\n"); if let BlockElement::Table(t) = p.elements[0].as_inner() { assert_eq!(t.get_cell_rowspan(0, 1), 1); } else { panic!(); } }
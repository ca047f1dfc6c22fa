use vimwiki_core::*;
fn page(s: &str) -> Page { Language::from_vimwiki_str(s).parse().unwrap() }
fn main() {
    let p = page("|a|:-:|\n|c|d|\n");
    match p.elements[0].as_inner() { BlockElement::Table(t) => { assert_eq!(t.get_column_alignment(1), ColumnAlign::Center); assert_eq!(t.get_column_alignment(0), ColumnAlign::None); } x => panic!("{:?}", x) }
}
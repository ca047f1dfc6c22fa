use vimwiki_core::*;
fn main() {
    let p: Page = Language::from_vimwiki_str("= a [[diary:2021-03-04]] =\n").parse().unwrap();
    match p.elements[0].as_inner() {
        BlockElement::Header(h) => assert_eq!(h.to_string(), "a 2021-03-04"),
        _ => panic!(),
    }
}

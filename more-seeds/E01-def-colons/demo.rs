use vimwiki_core::*;
fn page(s: &str) -> Page { Language::from_vimwiki_str(s).parse().unwrap() }
fn main() {
    let p = page("t::\n:: one\n:: a::b\n");
    match p.elements[0].as_inner() { BlockElement::DefinitionList(l) => { assert_eq!(l.definitions().count(), 2); assert_eq!(l.definitions().nth(1).unwrap().to_string(), "a::b"); } x => panic!("{:?}", x) }
}
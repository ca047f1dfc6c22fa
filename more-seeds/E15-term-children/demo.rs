use vimwiki_core::*;
fn page(s: &str) -> Page { Language::from_vimwiki_str(s).parse().unwrap() }
fn main() {
    let p = page("t:: d\n:: e\n");
    if let BlockElement::DefinitionList(l) = p.elements[0].as_inner().clone() { let k = l.items[0].as_inner().clone().into_children(); let r: Vec<_> = k.iter().map(|x| x.region().offset()).collect(); println!("{:?}", r); assert!(r[1] < r[2]); }
}
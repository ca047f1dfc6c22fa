use vimwiki_core::*;
fn page(s: &str) -> Page { Language::from_vimwiki_str(s).parse().unwrap() }
fn main() {
    let t = "t:: d\n:: e\n";
    let p = page(t);
    match p.elements[0].as_inner() { BlockElement::DefinitionList(l) => { let r = l.items[0].definitions.region(); let last = l.items[0].definitions.as_inner().get(1).unwrap().region(); assert!(r.offset() + r.len() >= last.offset() + last.len(), "{:?} {:?}", r, last); } x => panic!("{:?}", x) }
}
use vimwiki_core::*;
fn page(s: &str) -> Page { Language::from_vimwiki_str(s).parse().unwrap() }
fn main() {
    let p = page("- [ ] a\n  - [X] b\n  |c|\n");
    match p.elements[0].as_inner() { BlockElement::List(l) => { println!("{:?}", l.items[0].contents.len()); assert_eq!(l.items[0].compute_todo_progress(), Some(1.0)); } x => panic!("{:?}", x) }
}
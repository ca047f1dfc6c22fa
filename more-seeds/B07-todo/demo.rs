
use vimwiki_core as vimwiki;
use vimwiki::{BlockElement, Language, Page};
fn main() {
    let text = "- [ ] a\n  - [X] b\n  text\n  - c\n";
    let page: Page = Language::from_vimwiki_str(text).parse().unwrap();
    match page.elements.into_iter().next().unwrap().into_inner() {
        BlockElement::List(l) => assert_eq!(l[0].compute_todo_progress(), Some(1.0)),
        x => panic!("{:?}", x),
    }
}

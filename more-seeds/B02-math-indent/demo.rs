
use vimwiki_core as vimwiki;
use vimwiki::{BlockElement, Language, Page};
fn main() {
    let text = "    {{$\n      x\n  }}$\n";
    let page: Page = Language::from_vimwiki_str(text).parse().unwrap();
    match page.elements.into_iter().next().unwrap().into_inner() {
        BlockElement::MathBlock(x) => assert_eq!(x.lines[0].as_ref(), "    x"),
        x => panic!("{:?}", x),
    }
}
